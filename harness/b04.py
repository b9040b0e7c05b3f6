"""B04: pseudo-data.  Facts of samples drawn from the real models (shapes, moments, reproducibility) are judged by
SampleTrace.tla, which computes the rates and correlations of the model at the parameter point from Builtin.tla."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import numpy as np

TCFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"


def run(c):
    import builtin as B
    import logging
    from spey import StatisticalModel
    logging.getLogger("Spey").setLevel(logging.CRITICAL)
    rng = random.Random(vf.SEED)
    cfgs = []
    for r in range(2 if not vf.THOROUGH else 12):
        for f in B.FAMS:
            cfgs.append(B.config(rng, f, k=[1, 3, 2][r % 3], npts=3))
            cfgs.append(B.config(rng, f, k=2, npts=3))
            if f in ("normal", "mvn"):
                cfgs.append(B.config(rng, f, k=2, npts=2, widths=True))
            if f not in ("poisson", "poissonunc"):
                cfgs.append(B.config(rng, f, nsp=1, call=True, npts=2))
            if f not in B.SIMPLE:
                cfgs.append(B.config(rng, f, mods=1 + r % 2, npts=2))
    heads, pts = B.predictions(c, cfgs, workers=6)
    ROOT = 120 if not vf.THOROUGH else 400
    N = ROOT * ROOT
    micro = lambda x: int(np.clip(round(float(x) * 1e6), -1.9e9, 1.9e9)) if np.isfinite(x) else 2_000_000_003

    def corr(x, y):
        sx, sy = np.std(x), np.std(y)
        return 0.0 if sx == 0 or sy == 0 else float(np.mean((x - x.mean()) * (y - y.mean())) / sx / sy)

    def record(a):
        k, i = a
        cfg, p = cfgs[k], cfgs[k]["pts"][i]
        if not pts[(k, i)]["ok"]:
            return None
        be = B.build(cfg).backend
        par = np.array([x / 1e6 for x in p])
        keep = par.copy()
        K, naux = len(cfg["b"]), heads[k]["aux"]
        simple = cfg["fam"] in B.SIMPLE
        before = np.asarray(be.expected_data(par)).tolist()
        s = be.get_sampler(par)
        other = be.get_sampler(par * 0.5)     # a second sampler of the same model must not disturb the first
        shapes = []
        for size in (1, 2, 5):
            shapes.append({"size": size, "aux": not simple, "got": list(np.shape(s(size)))})
            shapes.append({"size": size, "aux": False, "got": list(np.shape(s(size, include_auxiliary=False)))})
        other(3)
        np.random.seed(vf.SEED + 17 * k + i)
        x = np.asarray(s(N), dtype=float)
        np.random.seed(vf.SEED + 17 * k + i)
        y = np.asarray(s(N), dtype=float)
        np.random.seed(vf.SEED + 17 * k + i)
        ym = np.asarray(be.get_sampler(par)(N), dtype=float)
        z = np.asarray(s(N), dtype=float)
        m, aux = x[:, :K], x[:, K:]
        e = {"c": cfg, "p": p, "root": ROOT, "shapes": shapes, "mean": [micro(v) for v in m.mean(0)], "var": [micro(v) for v in m.var(0)],
             "corr": [[micro(corr(m[:, a], m[:, b])) for b in range(K)] for a in range(K)], "integer": bool(np.all(m == np.round(m))),
             "aux": naux > 0 and aux.shape[1] == naux, "amean": [micro(v) for v in aux.mean(0)] if naux else [],
             "acov": [[micro(np.mean(aux[:, a] * aux[:, b])) for b in range(aux.shape[1])] for a in range(aux.shape[1])],
             "cross": [[micro(corr(aux[:, a], m[:, b])) for b in range(K)] for a in range(aux.shape[1])],
             "repeat": bool(np.array_equal(x, y) and np.array_equal(x, ym)), "fresh": all(not np.array_equal(x[:, j], z[:, j]) or np.ptp(x[:, j]) == 0 for j in range(x.shape[1])),
             "serial": micro(max([corr(m[:-1, 0], m[1:, 0]), corr(m[:, 0], z[:, 0])] + [corr(aux[:-1, a], aux[1:, a]) for a in range(aux.shape[1])], key=abs)),
             "untouched": bool(np.array_equal(par, keep) and np.asarray(be.expected_data(par)).tolist() == before)}
        return e
    recs = [e for e in vf.pmap(record, [(k, i) for k in range(len(cfgs)) for i in range(len(cfgs[k]["pts"]))]) if e]
    c.validate("SampleTrace", TCFG, recs, key=lambda i, l, cl: f"{recs[i]['c']['fam']}: {cl}", workers=6)

    # through the model's own interface: toys are drawn at the conditional best fit of the hypothesis asked for
    def through(a):
        k, mu, ex = a
        cfg = cfgs[k]
        sm = B.build(cfg)
        _, par = sm.likelihood(mu, expected=ex, return_parameters=True)
        np.random.seed(5)
        got = sm.fixed_poi_sampler(mu, (int, np.int64)[k % 2](50), expected=ex)
        if callable(got):
            return [(f"{cfg['fam']}: the requested number of toys", "a sampler instead of 50 toys")]
        got = np.asarray(got)
        fn = sm.fixed_poi_sampler(mu, expected=ex)
        np.random.seed(5)
        fn2 = np.asarray(fn(50))
        want_shape = (50, len(cfg["b"]) + heads[k]["aux"])
        out = []
        if got.shape != want_shape or fn2.shape != want_shape:
            out.append((f"{cfg['fam']}: toys in the layout of the data", (got.shape, fn2.shape)))
        exp = np.asarray(sm.backend.expected_data(par))[:len(cfg["b"])]
        np.random.seed(6)
        big = np.asarray(fn(3000))[:, :len(cfg["b"])]
        var = np.maximum(big.var(0), 1e-9)
        if np.any(np.abs(big.mean(0) - exp) > 6 * np.sqrt(var / 3000) + 5e-3 * np.sqrt(var)):
            out.append((f"{cfg['fam']}: toys drawn at the conditional best fit", {"mean": big.mean(0).tolist(), "want": exp.tolist(), "mu": mu, "expected": ex}))
        return out
    jobs = [(k, mu, ex) for k in range(len(cfgs)) if not cfgs[k]["call"] and not cfgs[k]["mods"] and cfgs[k]["fam"] != "poissonunc" for mu, ex in ((0.0, "observed"), (1.0, "apriori"))]
    for (k, mu, ex), bad in zip(jobs, vf.pmap(through, jobs)):
        c.traces += 1
        for key, d in bad:
            c.violation(key, {"config": cfgs[k], "got": d})

    # constraint terms written by authors of plug-ins (DistMC.tla): value, expectation and samples of the same terms
    from spey.backends.distributions import ConstraintModel
    r = vf.tlc("DistMC", "CONSTANT Emit = TRUE\nINIT Init\nNEXT Next\nINVARIANTS Uncorrelated Peak Out\nCHECK_DEADLOCK FALSE\n")
    c.count(r)
    cases = r.json_prints()
    rng.shuffle(cases)

    def describe(t):
        dom = slice(t["at"][0] - 1, t["at"][0] - 1 + t["at"][1])
        loc = np.array([float(t["loc"] * (i + 1)) for i in range(t["at"][1])])
        if t["kind"] == "normal":
            w = (lambda x, w=t["w"]: w * (1.0 + np.abs(x))) if t["f"] else np.full(t["at"][1], float(t["w"]))
        else:
            m = t["w"] ** 2 * np.array([[2.0, t["r"]], [t["r"], 1.0]])
            w = (lambda x, m=m: m * (1.0 + np.abs(x[0])) ** 2) if t["f"] else m
        return {"distribution_type": "normal" if t["kind"] == "normal" else "multivariatenormal", "args": [loc, w], "kwargs": {"domain": dom}}

    def dist(k):
        out = []
        cm = ConstraintModel([describe(t) for t in k["terms"]])
        par = np.array(k["par"], float)
        what = "+".join(t["kind"] + ("(f)" if t["f"] else "") for t in k["terms"])
        got = float(cm.log_prob(par))
        if not abs(got - k["total"] / 1e6) < 1e-4:
            out.append((f"terms:{what}:value", got))
        e = np.asarray(cm.expected_data())
        if e.shape != (len(k["means"]),) or not np.allclose(e, k["means"]):
            out.append((f"terms:{what}:expectation", e.tolist()))
        for n in (1, 3):
            if np.shape(cm.sample(par, n)) != (n, len(k["means"])):
                out.append((f"terms:{what}:layout", np.shape(cm.sample(par, n))))
                return out
        N = 6000
        np.random.seed(vf.SEED)
        s = np.asarray(cm.sample(par, N))
        v = np.array(k["vars"], float)
        if np.any(np.abs(s.mean(0) - k["means"]) > 6.5 * np.sqrt(v / N)):
            out.append((f"terms:{what}:mean of samples", s.mean(0).tolist()))
        if np.any(np.abs(s.var(0) / v - 1) > 6.5 * np.sqrt(2 / N)):
            out.append((f"terms:{what}:variance of samples", (s.var(0) / v).tolist()))
        i = 0
        for t, cv in zip(k["terms"], k["cov"]):
            if t["kind"] == "mvn":
                g = np.cov(s[:, i], s[:, i + 1])[0, 1]
                if abs(g - cv) > 6.5 * np.sqrt(v[i] * v[i + 1] * 2 / N):
                    out.append((f"terms:{what}:covariance of samples", [g, cv]))
            i += t["at"][1]
        return out
    sel = cases[:160] if not vf.THOROUGH else cases
    for k, bad in zip(sel, vf.pmap(dist, sel)):
        c.traces += 1
        for key, d in bad:
            c.violation(key, {"case": k, "got": d})


if __name__ == "__main__":
    vf.main(run, "B04")
