"""B01, B02, B03: the built-in models against Builtin.tla.  Configurations (families, yields, uncertainties, correlations,
signal functions, signal uncertainties) and parameter points are handed to TLC, which computes layout, rates and likelihood
terms in fixed point; the real models have to agree."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import numpy as np

PID = sys.argv[1] if len(sys.argv) > 1 else "B01"
NEGINF = -2_000_000_001
TCFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"


def configs(pid):
    import builtin as B
    rng = random.Random(1000 * vf.SEED + ord(pid[2]))
    out = []
    rep = 3 if not vf.THOROUGH else 40
    for r in range(rep):
        for f in B.FAMS:
            if pid != "B03":
                out.append(B.config(rng, f, k=1 + r % 3))
                out.append(B.config(rng, f, k=2 + r % 2))
                if f in ("normal", "mvn"):
                    out.append(B.config(rng, f, k=1 + r % 3, widths=True))
                    out.append(B.config(rng, f, nsp=1, call=True, widths=True))
                if f not in ("poisson", "poissonunc"):
                    out.append(B.config(rng, f, nsp=1 + r % 2, call=True))
                    out.append(B.config(rng, f, nsp=r % 2, call=r % 2 == 0))
                if pid == "B01":
                    out.append(B.config(rng, f, dead=True, npts=2))
            if f not in B.SIMPLE:
                for m in ((1, 2) if pid != "B03" else (1, 1, 2, 2, 3)):
                    out.append(B.config(rng, f, mods=m, nsp=(r + m) % 2, npts=6 if pid != "B03" else 8, big=pid == "B03" and rng.random() < 0.5))
    return out


def name(t):
    a, b, i = t
    return a + b + (f"_{i}" if i >= 0 else "")


def run(c):
    import builtin as B
    import spey, logging
    from spey import StatisticalModel, ExpectationType
    from spey.system.exceptions import InvalidUncertaintyDefinition
    logging.getLogger("Spey").setLevel(logging.CRITICAL)
    cfgs = configs(PID)
    heads, pts = B.predictions(c, cfgs, workers=6)
    near = lambda a, b, tol=6e-6: abs(float(a) - b / 1e6) <= tol * (1 + abs(b) / 1e6)

    def layout(cfg, head, out):
        sm = B.build(cfg)
        be = sm.backend
        fam = cfg["fam"]
        want_names = [name(t) for t in head["names"]]
        for neg in (True, False):
            for ub in (None, 10.0, 7.5):
                m = be.config(neg) if ub is None else be.config(neg, ub)
                tag = "default" if neg and ub in (None, 10.0) else "own domain"
                if m.poi_index != 0 or m.npar != head["npar"] or len(m.suggested_init) != head["npar"]:
                    out.append((f"{fam}: number of parameters", tag))
                lo = float("-inf") if head["minpoi"] == NEGINF else head["minpoi"] / 1e6
                same = lambda a, b: a == b or abs(a - b) < 3e-6
                if not same(m.minimum_poi, lo):
                    out.append((f"{fam}: lowest strength", (tag, float(m.minimum_poi))))
                if len(m.suggested_bounds) != head["npar"] or not same(m.suggested_bounds[0][0], lo if neg else 0.0) or m.suggested_bounds[0][1] != (ub or 10.0):
                    out.append((f"{fam}: domain of the strength", (tag, m.suggested_bounds)))
                if any(tuple(x) != (None, None) for x in m.suggested_bounds[1:]):
                    out.append((f"{fam}: domain of the nuisances", (tag, m.suggested_bounds)))
                if head["named"] and list(m.parameter_names or []) != want_names:
                    out.append((f"{fam}: names", (tag, m.parameter_names)))
                if m.parameter_names is not None and len(m.parameter_names) != head["npar"]:
                    out.append((f"{fam}: one name per parameter", (tag, m.parameter_names)))
        if bool(sm.is_alive) != head["alive"] or bool(be.is_alive) != head["alive"]:
            out.append((f"{fam}: testable", bool(sm.is_alive)))
        if not cfg["call"]:     # the same signal a million times weaker: as testable as before, reaching as much further down
            weak = spey.get_backend(B.BACK[fam])(**dict(B.kwargs(cfg), signal_yields=[x * 1e-9 for x in B.kwargs(cfg)["signal_yields"]]))
            lo = float(weak.backend.config().minimum_poi)
            if bool(weak.is_alive) != head["alive"]:
                out.append((f"{fam}: testable, weak signal", bool(weak.is_alive)))
            if (lo != float("-inf") if head["minpoi"] == NEGINF else abs(lo * 1e-9 - head["minpoi"] / 1e6) > 3e-6 * (1 + abs(lo) * 1e-9)):
                out.append((f"{fam}: lowest strength, weak signal", lo))
        if cfg["nsp"] and fam not in ("poisson", "poissonunc"):
            bounds = [(-2.0, 3.0), None][: cfg["nsp"]]
            be = spey.get_backend(B.BACK[fam])(**B.kwargs(cfg), signal_parameter_bounds=bounds).backend
            for neg in (True, False):
                if [tuple(x) for x in be.config(neg).suggested_bounds[1:1 + cfg["nsp"]]] != [b or (None, None) for b in bounds]:
                    out.append((f"{fam}: domain of the signal parameters", neg))
            try:
                spey.get_backend(B.BACK[fam])(**B.kwargs(cfg), signal_parameter_bounds=bounds + [(0.0, 1.0)])
                out.append((f"{fam}: wrong number of signal parameter bounds accepted", ""))
            except ValueError:
                pass

    def rates(cfg, sm, p, w, out, what):
        fam = cfg["fam"]
        naux = heads[w["k"] - 1]["aux"]
        for arg in (np.array(p), list(p)):
            full = np.asarray(sm.backend.expected_data(arg), dtype=float)
            main = np.asarray(sm.backend.expected_data(arg, include_auxiliary=False), dtype=float)
            if not all(near(a, b) for a, b in zip(main, w["rates"])) or len(main) != len(w["rates"]):
                out.append((f"{fam}: {what}", {"p": p, "got": main.tolist(), "want": w["rates"]}))
            if full.shape != (len(main) + naux,) or not np.allclose(full[:len(main)], main, rtol=1e-12) or np.any(full[len(main):] != 0):
                out.append((f"{fam}: auxiliary expectation", {"p": p, "got": full.tolist()}))

    def values(cfg, sm, mine, out):
        """All functions are requested first and evaluated afterwards, interleaved."""
        fam = cfg["fam"]
        be, rec = sm.backend, []
        obs, pri = ExpectationType.observed, ExpectationType.apriori
        naux = heads[mine[0][1]["k"] - 1]["aux"]
        aux = [0.25 * (j % 3) for j in range(naux)]
        d2, d3 = [x / 2 for x in cfg["data"][2]], [x // 2 for x in cfg["data"][3]]
        d4, itype = [x // 2 for x in cfg["data"][4]], [np.int64, np.int32, np.int16][mine[0][1]["k"] % 3]
        forms = [(0, dict(expected=obs)), (1, dict(expected=pri)), (0, dict(expected=ExpectationType.aposteriori)),
                 (2, dict(expected=obs, data=np.array(d2 + aux))), (2, dict(expected=pri, data=np.array(d2 + aux))),
                 (4, dict(expected=obs, data=np.array(d4 if naux == 0 else d4 + [0] * naux, dtype=itype))), (4, dict(expected=pri, data=np.array(d4, dtype=float))),
                 (3, dict(expected=obs, data=np.array(d3 if naux == 0 else d3 + [0] * naux))), (3, dict(expected=pri, data=np.array(d3, dtype=float)))]
        fns = []
        for i, kw in forms:
            fns.append((i, kw, be.get_logpdf_func(**kw), be.get_objective_function(do_grad=False, **kw), be.get_objective_function(do_grad=True, **kw), be.get_hessian_logpdf_func(**kw)))
        import spey.math as sma
        pub = [(sma.value_and_grad(sm, **kw), sma.hessian(sm, **kw)) for _, kw in forms]
        tol = 4e-3 if fam == "third" else 3e-4
        for n, (p, w) in enumerate(mine):
            if not w["ok"]:
                continue
            p = np.array(p)
            # auxiliary pulls must not be at a kink of the signal-uncertainty interpolation for slopes
            lo = 1 + cfg["nsp"] + (0 if fam in B.SIMPLE - {"poissonunc"} else len(cfg["b"]))
            kink = any(abs(x) < 1e-3 for x in p[lo:])
            if fam == "effsig":  # the effective width is cut off at zero
                kink = kink or any(abs(u * d + (u - d) * (p[1 + cfg["nsp"] + j] - cfg["b"][j])) < 0.5 for j, (u, d) in enumerate(zip(cfg["sg"], cfg["dn"])))
            for q, (i, kw, lp, ob, vg, he) in enumerate(fns):
                want = w["lp"][i]
                got = float(lp(p))
                if not abs(got - want / 1e6) <= tol * (1 + 0.02 * abs(want) / 1e6):
                    out.append((f"{fam}: log-likelihood " + ("of explicit data" if "data" in kw else str(kw["expected"])), {"p": p.tolist(), "got": got, "want": want / 1e6, "data": kw.get("data")}))
                o = float(ob(p))
                v, g = vg(p)
                if not abs(o + got) <= 1e-9 * (1 + abs(o)):
                    out.append((f"{fam}: objective is the negative log-likelihood", {"p": p.tolist(), "objective": o, "logpdf": got}))
                if not abs(float(v) + got) <= 1e-9 * (1 + abs(o)) or np.shape(g) != p.shape:
                    out.append((f"{fam}: objective with gradient", {"p": p.tolist(), "objective": float(v), "logpdf": got}))
                if kink or (q + n) % 3 and not vf.THOROUGH:
                    continue
                H = np.asarray(he(p))
                v2, g2 = pub[q][0](p if n % 2 else p.tolist())
                H2 = np.asarray(pub[q][1](p if n % 2 else p.tolist()))
                if abs(float(v2) - float(v)) > 1e-9 * (1 + abs(o)) or not np.allclose(g2, g, rtol=1e-9, atol=1e-9) or H2.shape != H.shape or not np.allclose(H2, -H, rtol=1e-9, atol=1e-9):
                    out.append((f"{fam}: spey.math agrees with the objective", {"p": p.tolist(), "data": kw.get("data")}))
                h = 1e-5
                num, hn = np.zeros(len(p)), np.zeros((len(p), len(p)))
                for j in range(len(p)):
                    u, d = p.copy(), p.copy()
                    u[j] += h
                    d[j] -= h
                    num[j] = -(float(lp(u)) - float(lp(d))) / (2 * h)
                    hn[:, j] = -(np.asarray(vg(u)[1]) - np.asarray(vg(d)[1])) / (2 * h)
                m = lambda x: int(np.clip(round(float(x) * 1e6), -1.9e9, 1.9e9)) if np.isfinite(x) else 2_000_000_003
                rec.append({"fam": fam, "p": p.tolist(), "slope": [m(x) for x in num], "grad": [m(x) for x in np.asarray(g)],
                            "curv": [[m(x) for x in r] for r in hn], "hess": [[m(x) for x in r] for r in H] if H.shape == hn.shape else []})
                # the same functions again: nothing remembered from other points
                if float(lp(p)) != got:
                    out.append((f"{fam}: value depends on earlier evaluations", ""))
        return rec

    def shifts(cfg, sm, mine, out):
        fam = cfg["fam"]
        plain = B.build(cfg, mods=False)
        lo = 1 + cfg["nsp"] + len(cfg["b"])
        for p, w in mine:
            if min(w["plain"]) <= 10000:  # negative Poisson rates are cut off
                continue
            if w["ok"]:
                rates(cfg, sm, p, w, out, "rates with signal uncertainties")
            a = np.array(p)
            z = a.copy()
            z[lo:] = 0.0
            m0 = np.asarray(plain.backend.expected_data(a[:lo], include_auxiliary=False))
            if not np.allclose(np.asarray(sm.backend.expected_data(z, include_auxiliary=False)), m0, rtol=1e-12, atol=1e-12):
                out.append((f"{fam}: vanishing signal uncertainty", {"p": p}))
            if not all(near(x, y) for x, y in zip(m0, w["plain"])):
                out.append((f"{fam}: rates without signal uncertainties", {"p": p}))
            if w["ok"]:
                # constraint terms: matching the specification's, hence exactly one unit normal per new parameter
                for i, e in ((0, "observed"), (1, "apriori")):
                    got = float(sm.backend.get_logpdf_func(expected=ExpectationType[e])(a))
                    if not abs(got - w["lp"][i] / 1e6) <= (4e-3 if fam == "third" else 3e-4) * (1 + 0.02 * abs(w["lp"][i]) / 1e6):
                        out.append((f"{fam}: log-likelihood with signal uncertainties", {"p": p, "got": got, "want": w["lp"][i]}))
                t0 = float(sm.backend.get_logpdf_func()(z)) - float(plain.backend.get_logpdf_func()(a[:lo]))
                n = len(a) - lo
                if not abs(t0 + 0.5 * n * np.log(2 * np.pi)) <= 1e-8:
                    out.append((f"{fam}: constraint terms at zero shift", {"p": p, "got": t0}))

    def work(k):
        cfg, head = cfgs[k], heads[k]
        out, rec = [], []
        mine = [([x / 1e6 for x in p], pts[(k, i)]) for i, p in enumerate(cfg["pts"])]
        if PID == "B01":
            layout(cfg, head, out)
            sm = B.build(cfg)
            for p, w in mine:
                if w["ok"]:
                    rates(cfg, sm, p, w, out, "rates")
        elif PID == "B02":
            rec = values(cfg, B.build(cfg), mine, out)
        else:
            shifts(cfg, B.build(cfg), mine, out)
        return out, rec, len(mine)

    recs = []
    for k, (bad, rec, n) in enumerate(vf.pmap(work, range(len(cfgs)))):
        c.traces += n
        recs += rec
        for key, d in bad:
            c.violation(key, {"config": cfgs[k], "got": d})
    c.sample({"config": cfgs[0], "expected": pts[(0, 0)]})
    c.extra["configurations"] = len(cfgs)
    if PID == "B02":
        c.validate("SlopeTrace", TCFG, recs, key=lambda i, l, cl: f"{recs[i]['fam']}: {cl}")
    if PID == "B03":
        bad_mods = [[{"name": "x", "type": "scale", "uncertainties": [1.0, 1.0]}], [{"name": "x", "uncertainties": [1.0, 1.0]}],
                    [{"name": "x", "type": "shape", "uncertainties": [1.0]}], [{"name": "x", "type": "normalization", "uncertainties": [1.0, 1.0, 1.0]}],
                    [{"name": "x", "type": "shape", "uncertainties": [[[1.0]], [[1.0]]]}], [{"name": "a", "type": "shape", "uncertainties": [1.0, 1.0]}, {"name": "x", "type": "Shape", "uncertainties": [1.0, 1.0]}],
                    [{"name": "x", "type": "shape", "uncertainties": [[1.0, 2.0]]}], [{"name": "x", "type": None, "uncertainties": [1.0, 2.0]}]]
        rng = random.Random(3)
        for f in [x for x in B.FAMS if x not in B.SIMPLE]:
            cfg = B.config(rng, f, k=2)
            for i, m in enumerate(bad_mods):
                c.traces += 1
                try:
                    spey.get_backend(B.BACK[f])(**B.kwargs(cfg), modifiers=m)
                    c.violation(f"{f}: malformed signal uncertainty accepted", {"modifiers": m})
                except InvalidUncertaintyDefinition:
                    pass
            cfg["call"], cfg["nsp"] = True, 0
            try:
                spey.get_backend(B.BACK[f])(**B.kwargs(cfg), modifiers=[{"name": "x", "type": "shape", "uncertainties": [1.0, 1.0]}])
                c.violation(f"{f}: signal uncertainties of a signal function accepted", {})
            except ValueError:
                pass


if __name__ == "__main__":
    vf.main(run, PID)
