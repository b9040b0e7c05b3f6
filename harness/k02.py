"""K02: what a combination answers.  Combine.tla enumerates memberships, histories and queries together with the exact
answers; they are performed on real combinations of programmable members.  Combinations of the built-in models are judged
by CombineTrace.tla against the answers of fresh copies of their members."""
import os, random, sys, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import numpy as np

INST = "---- MODULE CombineK02 ----\nEXTENDS Combine\nStartsV == %s\n====\n"
CFG = ("CONSTANTS Emit = TRUE\n Depth = %d\n MaxMem = %d\n Starts <- StartsV\n Fixed = %s\n Kinds = {%s}\nINIT Init\nNEXT Next\nINVARIANTS MinIsLeast Out\nCHECK_DEADLOCK FALSE\n")
TCFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
KINDS = ["llhd", "mle", "asimov", "allhd", "amle", "cls", "chi2", "info"]
POOL = [(8, 6, 2, 0, -3, "A"), (3, 6, 1, 1, -2, "A"), (12, 4, 4, 1, -1, "B"), (2, 9, 3, 2, -3, "B"), (5, 5, 2, 1, 0, "C"),
        (20, 4, 1, 2, -3, "A"), (42, 6, 2, 3, -2, "B"), (30, 9, 1, 1, -1, "A")]
XSEC = [2.0, 1.0, 3.0, 1.0, 2.0, 1.0, 3.0, 2.0]
OVER = [5, 19, 7, 4, 6]
NAMES = ["an", "an-2", "n", "an 2", "A", "far", "far-2", "fa"]      # names that contain one another
NAN = 2_000_000_003


def run(c):
    import hypo
    from hypo import EX, micro
    from spey import StatisticalModel
    from spey.combiner import UnCorrStatisticsCombiner
    from spey.system.exceptions import NegativeExpectedYields
    from backends import LinGaussNative, LinGaussHess, LinGaussGen

    def guarded(base):
        class G(base):
            name = "verif_c"

            def negative_loglikelihood(self, poi_test=1.0, *a, **k):
                if float(list(poi_test.values())[0] if isinstance(poi_test, dict) else poi_test) < 0:
                    raise NegativeExpectedYields("rates below zero")
                return super().negative_loglikelihood(poi_test, *a, **k)
        return G
    mk = lambda base, nm: type(nm, (base,), {"name": nm})
    NAT = {"A": mk(LinGaussNative, "verif_a"), "B": mk(LinGaussNative, "verif_b"), "C": guarded(LinGaussNative)}
    # numerically fitted members next to natively fitted ones
    MIX = {"A": mk(LinGaussHess, "verif_a"), "B": mk(LinGaussGen, "verif_b"), "C": guarded(LinGaussNative)}

    def members(kinds):
        ms = []
        for i, (n, b, s, t, mn, ty) in enumerate(POOL):
            be = kinds[ty]([b, 0], [[s, t], [0, 1]], [n, 0], apriori=[b, 0], minpoi=float(mn), bounds=[(float(mn), 50.0), (-50.0, 50.0)], init=[max(0.0, float(mn)), 0.0], names=["mu", "theta"])
            ms.append(StatisticalModel(be, NAMES[i], xsection=XSEC[i]))
        return ms

    def perform(a):
        i, h = a
        kinds = MIX if i % 4 == 0 else NAT
        ms = members(kinds)
        K = UnCorrStatisticsCombiner(*[ms[j - 1] for j in h[0]["mem"]]) if i % 3 else None
        if K is None:
            K = UnCorrStatisticsCombiner()
            for j in h[0]["mem"]:
                K = K @ ms[j - 1]
        out = []
        for n, e in enumerate(h[1:]):
            if e["op"] == "add":
                K.append(ms[e["i"] - 1])
                continue
            if e["op"] == "remove":
                K.remove(NAMES[e["i"] - 1])
                continue
            q, want, mem = e["q"], e["ans"], e["mem"]
            ex = EX[q["ex"]] if n % 2 else q["ex"]
            mu = q["mu"][0] / q["mu"][1]
            kw, ol = {}, {}
            if q["opt"]:
                kw["statistical_model_options"] = {"verif_" + t.lower(): {"par_bounds": [(-50.0, 50.0), (0.0, 0.0)]} for t in q["opt"]}
                if (i + n) % 3 == 1:                # the same option for all members and for some of them
                    kw["ntrials"] = 1
                    for o in kw["statistical_model_options"].values():
                        o["ntrials"] = 2
            if q["qu"] in ("llhd", "allhd", "asimov") and (i + n) % 3 == 2:
                # the same thing the other way round: pinned for all, released for the others
                kw = {"par_bounds": [(-50.0, 50.0), (0.0, 0.0)],
                      "statistical_model_options": {"verif_" + t.lower(): {"par_bounds": [(-50.0, 50.0), (-50.0, 50.0)]} for t in "ABC" if t not in q["opt"]}}
            if q["ov"]:
                kw["data"] = {NAMES[j - 1]: [float(OVER[j - 1]), 0.0] for j in q["ov"]}
            keep = repr(kw)
            if q["qu"] in ("mle", "amle"):
                if q["bnd"]:
                    ol["par_bounds"] = [tuple(float(x) for x in q["bnd"])]
                elif i % 5 == 1 and max(mem) < 6 and not (2 in q["ov"] and 2 in mem):
                    ol["initial_muhat_value"] = 0.25
            lin = (i + n) % 7 == 3 and (q["qu"] == "asimov" or want[-1] < 300_000_000)
            fx = (lambda r: [micro(r[0]), micro(r[1])])
            with warnings.catch_warnings(record=True) as w, np.errstate(all="ignore"):
                warnings.simplefilter("always")
                tol = 6e-3 if kinds is MIX else 4e-4
                # the likelihood of three members near a minimum reached by a numerical search
                if q["qu"] == "llhd":
                    v = K.likelihood([mu, {0: mu}, mu, {"mu": mu}][i % 4] if mu % 1 else mu, expected=ex, return_nll=not lin, **kw)
                    got = [micro(-np.log(v) if lin else v)]
                    if want[0] == NAN and not any(issubclass(x.category, RuntimeWarning) for x in w):
                        out.append(("refused rate without a warning", n, ""))
                    tol = 1e-3 if kinds is MIX else 1e-5
                elif q["qu"] == "allhd":
                    v = K.asimov_likelihood([mu, mu, {0: mu}][i % 3], expected=ex, return_nll=not lin, test_statistics=q["ts"], **kw)
                    got, tol = [micro(-np.log(v) if lin else v)], (2e-3 if kinds is MIX else 1e-5)
                elif q["qu"] == "mle":
                    r = K.maximize_likelihood(expected=ex, allow_negative_signal=q["neg"], return_nll=not lin, **kw, **ol, **({"poi_indices": ["mu"]} if i % 6 == 2 else {}))
                    got = [r[0]["mu"] if isinstance(r[0], dict) else r[0], -np.log(r[1]) if lin else r[1]]
                    got = fx(got)
                elif q["qu"] == "amle":
                    r = K.maximize_asimov_likelihood(expected=ex, test_statistics=q["ts"], return_nll=not lin, **kw, **ol, **({"poi_indices": [0]} if i % 6 == 2 else {}))
                    got = fx([r[0][0] if isinstance(r[0], dict) else r[0], -np.log(r[1]) if lin else r[1]])
                elif q["qu"] == "asimov":
                    d = K.generate_asimov_data(expected=ex, test_statistic=q["ts"], **kw)
                    if list(d) != [NAMES[j - 1] for j in mem]:
                        out.append(("asimov data under the members' names", n, list(d)))
                        break
                    got = [[micro(x) for x in d[NAMES[j - 1]]] for j in mem]
                elif q["qu"] == "cls":
                    r = K.exclusion_confidence_level(mu, expected=ex, **kw)
                    got = [hypo.lnm(x) for x in r]
                    want = want[:1] if q["ex"] == "observed" else want[1:]
                    tol = 0.02
                elif q["qu"] == "chi2":
                    got = [micro(K.chi2(mu, expected=ex, allow_negative_signal=q["neg"]))]
                else:
                    got = [micro(K.minimum_poi)] + [0] * len(mem)
                    best = K.find_most_sensitive()
                    pos = [k for k, j in enumerate(mem) if ms[j - 1] is best]
                    if len(pos) != 1:
                        out.append(("most sensitive is a member", n, str(best)))
                        break
                    got[1 + pos[0]] = 1
                    if want[1 + pos[0]] != 1:      # one of the best where several are equally sensitive
                        out.append(("most sensitive member", n, {"got": NAMES[mem[pos[0]] - 1], "want": want}))
                    want = [want[0]] + got[1:]
                    if not K.is_alive or not K.is_asymptotic_calculator_available or not K.is_chi_square_calculator_available or K.is_toy_calculator_available:
                        out.append(("availability", n, ""))
            if repr(kw) != keep:
                out.append((f"{q['qu']}: arguments of the caller changed", n, repr(kw)))
            flat = lambda x: [v for y in x for v in (y if isinstance(y, list) else [y])]
            g, wnt = flat(got), flat(want)
            if q["qu"] == "cls":  # ratios below the resolution of one minus the level
                g, wnt = [max(-30_000_000, v) for v in g], [max(-30_000_000, v) for v in wnt]
            # the value at a minimum is known well, its position only to the square root of that
            ok = len(g) == len(wnt) and all((a == b) if abs(b) >= 2_000_000_000 or abs(a) >= 2_000_000_000 else abs(a - b) <= (tol * (1 + abs(b) / 1e6)) * 1e6 + 3 for a, b in zip(g, wnt))
            if not ok:
                what = [q["qu"]] + (["own data"] if q["ov"] else []) + (["own options"] if q["opt"] else []) + (["bounds"] if q["bnd"] else [])
                out.append((" ".join(what), n, {"got": g, "want": wnt, "native": kinds is NAT}))
        return out

    rng = random.Random(vf.SEED)
    singles = [(i,) for i in range(1, 6)]
    pairs = [(a, b) for a in range(1, 6) for b in range(1, 6) if a != b]
    trip = [(a, b, d) for a in range(1, 6) for b in range(1, 6) for d in range(1, 6) if len({a, b, d}) == 3]
    starts = singles + (pairs + trip if vf.THOROUGH else [(2, 4), (1, 3), (3, 5), (1, 2)] + rng.sample(pairs, 3) + [(4, 2, 1)] + rng.sample(trip, 5))
    tla = lambda ss: "{" + ", ".join(vf.to_tla(s) for s in sorted(set(ss))) + "}"
    ks = ", ".join(f'"{k}"' for k in KINDS)
    far = [(6,), (7,), (8,), (6, 7), (7, 6), (8, 2), (5, 7), (6, 8, 4), (2, 7, 8), (8, 7, 6)]
    hs = []
    r = vf.tlc("CombineK02", CFG % (1, 3, "TRUE", ', '.join(f'"{k}"' for k in KINDS)), extra_files=[("CombineK02.tla", INST % tla(far))], workers=6, timeout=800, heap="6g")
    c.count(r)
    one = r.json_prints()
    for k, m in (("llhd", 60), ("mle", 250), ("allhd", 60), ("amle", 60), ("cls", 120), ("chi2", 40), ("asimov", 60)):
        s = [h for h in one if h[1]["q"]["qu"] == k]
        hs += rng.sample(s, min(len(s), m * (10 if vf.THOROUGH else 1)))
    r = vf.tlc("CombineK02", CFG % (1, 3, "TRUE", ks), extra_files=[("CombineK02.tla", INST % tla(starts))], workers=6, timeout=800, heap="6g")
    c.count(r)
    one = r.json_prints()
    for k in KINDS:
        s = [h for h in one if h[1]["q"]["qu"] == k]
        hs += s if vf.THOROUGH and len(s) < 30000 else rng.sample(s, min(len(s), {"llhd": 1500, "mle": 900, "allhd": 700, "asimov": 500, "amle": 700, "cls": 200, "chi2": 60, "info": 400}[k] * (10 if vf.THOROUGH else 1)))
    for kinds, num in (("\"llhd\", \"info\"", 3), ("\"mle\", \"chi2\", \"asimov\"", 2), ("\"allhd\", \"amle\", \"cls\"", 1)):
        r = vf.tlc("CombineK02", CFG % (8, 4, "FALSE", kinds), extra_files=[("CombineK02.tla", INST % "{<<1>>, <<2, 3>>}")],
                   args=["-simulate", "num=%d" % (num * (10 if vf.THOROUGH else 1)), "-depth", "10", "-seed", str(vf.SEED)], timeout=600)
        c.count(r)
        s = r.json_prints()
        hs += rng.sample(s, min(len(s), 60 if not vf.THOROUGH else 1500))
    for h, bad in zip(hs, vf.pmap(perform, list(enumerate(hs)))):
        c.traces += 1
        for key, n, d in bad:
            c.violation(key, {"history": h, "event": n, "got": d})
    c.sample(hs[-1])

    # the built-in models: combination against fresh copies of its members
    zoo = [z for z in hypo.ZOO]
    models = dict(hypo.ZOO, dead=lambda: hypo.uncorr(sig=(0.0, 0.0)), void=lambda: hypo.poisson(sig=(0.0, 0.0), data=(28, 33)))    # nothing of the signal
    combos = [("dead", "uncorr-under"), ("mvn", "void", "poisson-over"), ("uncorr-under", "corr-over"), ("poisson", "uncorr-over"), ("normal", "mvn"), ("effsig", "third"), ("poisson-over", "mvn-over", "uncorr-eq")]
    combos += [tuple(rng.sample(zoo, rng.choice([2, 3]))) for _ in range(2 if not vf.THOROUGH else 25)]

    def name(sm, i):
        return StatisticalModel(sm.backend, f"m{i}")

    def record(a):
        combo, ex = a
        mk = lambda: [name(models[z](), i) for i, z in enumerate(combo)]
        K, ref = UnCorrStatisticsCombiner(*mk()), mk()
        evs = []
        e = EX[ex]
        lo = max(m.backend.config().minimum_poi for m in ref)
        for mu in (0.0, 0.7, 1.9) + ((-0.4 * min(1.0, abs(lo)),) if lo < 0 else ()):
            evs.append({"kind": "value", "value": micro(K.likelihood(mu, expected=e)), "members": [micro(m.likelihood(mu, expected=e)) for m in mk()], "mu": mu})
        for neg in (True, False):
            muhat, v = K.maximize_likelihood(expected=e, allow_negative_signal=neg)
            ref = mk()
            at = lambda x: [micro(m.likelihood(float(x), expected=e)) for m in ref]
            l = max(lo, -50) if neg else 0.0
            grid = [at(x) for x in np.linspace(muhat - 0.3, muhat + 0.3, 7) if l <= x <= 10.0] + [at(x) for x in (0.0, 0.5, 3.0)]
            evs.append({"kind": "fit", "value": micro(v), "members": at(muhat), "muhat": micro(muhat), "lo": micro(l), "hi": micro(10.0), "grid": grid, "tol": 300})
        for ts in ("qtilde", "q0", "q"):
            muhat, v = K.maximize_asimov_likelihood(expected=e, test_statistics=ts)
            data = [m.generate_asimov_data(expected=e, test_statistic=ts) for m in mk()]
            ref = mk()
            on = lambda x: [micro(m.likelihood(float(x), expected=e, data=d)) for m, d in zip(ref, data)]
            l = max(lo, -50) if ts == "q" else 0.0
            grid = [on(x) for x in np.linspace(muhat - 0.3, muhat + 0.3, 5) if l <= x <= 10.0] + [on(x) for x in (0.0, 0.5, 3.0)]
            evs.append({"kind": "fit", "value": micro(v), "members": on(muhat), "muhat": micro(muhat), "lo": micro(l), "hi": micro(10.0), "grid": grid, "tol": 300, "about": "asimov " + ts})
            d = K.generate_asimov_data(expected=e, test_statistic=ts)
            evs.append({"kind": "data", "data": [[micro(x, 1000) for x in d[f"m{i}"]] for i in range(len(combo))],
                        "members": [[micro(x, 1000) for x in m.generate_asimov_data(expected=e, test_statistic=ts)] for m in mk()], "tol": 100})
            x = 1.3
            evs.append({"kind": "value", "value": micro(K.asimov_likelihood(x, expected=e, test_statistics=ts)),
                        "members": [micro(m.asimov_likelihood(x, expected=e, test_statistics=ts)) for m in mk()], "mu": x})
        return [dict(v, of=list(combo), ex=ex) for v in evs]
    traces = [e for evs in vf.pmap(record, [(k, ex) for k in combos for ex in ("observed", "apriori")], chunk=1) for e in evs]
    c.validate("CombineTrace", TCFG, traces, key=lambda i, l, cl: f"builtin:{cl}")


if __name__ == "__main__":
    vf.main(run, "K02")
