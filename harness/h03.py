"""H03: toy-based exclusion levels.  ToyCL.tla enumerates tested values, data and toy sets, computes the documented
fractions and emits every case; each is replayed through exclusion_confidence_level(calculator="toy") on backends whose
sampler hands out the toys of the hypothesis it is asked for."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import fitspy
fitspy.install()
import numpy as np

INST = ("---- MODULE ToyH03 ----\nEXTENDS ToyCL\nNObsV == %s\nMusV == %s\nToysV == %s\n====\n")
CFG = ("CONSTANTS Emit = TRUE\n B = 20\n Negs = {TRUE, FALSE}\n NObs <- NObsV\n Mus <- MusV\n ToySets <- ToysV\nINIT Init\nNEXT Next\n"
       "INVARIANTS Range NoSeparation PercentileOrder Out\nCHECK_DEADLOCK FALSE\n")


def run(c):
    import queryfits
    queryfits.replay(c, ("excl-toy",))
    import hypo
    from hypo import EX
    from spey import StatisticalModel, ExpectationType
    rnd = np.random.RandomState(vf.SEED)
    sets = []
    # lengths 5..9, toys spread around the hypotheses; all even offsets so that no toy ties by accident only
    for L in ((6, 9, 11) if not vf.THOROUGH else (3, 6, 9, 11, 14)):
        for loc in ((20, 24, 17) if not vf.THOROUGH else (20, 24, 17, 22)):
            sets.append("<<" + ", ".join(str(int(x)) for x in np.clip(rnd.poisson(loc, L), 5, 40)) + ">>")
    inst = INST % ("{15, 20, 23, 31}" if not vf.THOROUGH else "{12, 15, 18, 20, 23, 31}", "{-2, 1, 3, 6}" if not vf.THOROUGH else "{-4, -2, 1, 2, 3, 6}", "{" + ", ".join(sets) + "}")
    r = vf.tlc("ToyH03", CFG, extra_files=[("ToyH03.tla", inst)], timeout=800)
    c.count(r)
    cases = r.json_prints()
    if len(cases) < 100:
        raise vf.MachineryError("too few cases")
    for i, k in enumerate(cases):
        n = len(k["sig"])
        asked = []

        def plan(pars, size):
            asked.append((pars[0], size))
            seq = k["sig"] if abs(pars[0] - k["mu"]) < 1e-6 else k["bkg"] if abs(pars[0]) < 1e-6 else [999] * n
            return np.array([[float(v)] for v in seq[:size]])
        kind = hypo.LinGaussNative
        b = kind([20], [[1]], [k["obs"]], apriori=[20], plan=plan)
        sm = StatisticalModel(b, "toy", ntoys=(int, np.int64, int, np.int32)[i % 4](n))
        ex = ["observed", "aposteriori"][i % 2] if not k["prior"] else "apriori"
        todo = [ex, "all"] if not k["prior"] else [ex]
        for e in todo:
            with np.errstate(all="ignore"):
                res = sm.exclusion_confidence_level((float, int, np.int32)[i % 3](k["mu"]), expected=EX.get(e, e), allow_negative_signal=k["neg"], calculator="toy", verbose=False)
            if e == "all":
                o, x = res
            elif e == "observed":
                o, x = res, None
            else:
                o, x = None, res
            bad = None
            if o is not None and (len(o) != 1 or abs(float(o[0]) - k["o"][0] / k["o"][1]) > 1e-9):
                bad = "observed"
            if x is not None and (len(x) != 5 or any(m and abs(float(g) - w[0] / w[1]) > 1e-9 for g, w, m in zip(x, k["x"], k["mask"]))):
                bad = (bad or "") + "expected"
            c.traces += 1
            if bad:
                c.violation(f"toy:{bad}:{'q' if k['neg'] else 'qtilde'}", {"case": k, "expected_type": e, "got": [o, x]})
        want = sorted([(float(k["mu"]), n), (0.0, n)] * len(todo))
        if sorted(asked) != want:
            c.violation("toy:hypotheses", {"case": k, "asked": asked, "want": want})
    c.sample(cases[3])
    # every toy asked for counts: more than a handful, a few of them far out
    for n in (1, 120, 2600):
        for ex in ("observed", "apriori"):
            asked = []

            def many(pars, size):
                asked.append((round(float(pars[0]), 6), size))
                return np.array([[20 + (j % 7) - 3 + (4.0 if pars[0] else 0.0)] for j in range(size)])
            b = hypo.LinGaussNative([20], [[1]], [17], apriori=[20], plan=many)
            res = StatisticalModel(b, "toy", ntoys=n).exclusion_confidence_level(4.0, expected=EX[ex], calculator="toy", verbose=False)
            c.traces += 1
            if sorted(asked) != [(0.0, n), (4.0, n)]:
                c.violation("toy:hypotheses", {"ntoys": n, "expected": ex, "asked": asked})
    # the numerically fitted route and a nuisance parameter: toys are drawn at the conditional fit of each hypothesis
    for ex in ("observed", "apriori"):
        for n_obs in (14, 26):
            for mu in (1.0, 2.5):
                got = []

                def plan(pars, size):
                    got.append([float(p) for p in pars] + [size])
                    return np.array([[20 + round(3 * pars[0]) + (j % 5) - 2, 0] for j in range(size)], dtype=float)
                b = hypo.LinGaussGen([20, 0], [[3, 2], [0, 1]], [n_obs, 0], apriori=[20, 0], plan=plan, grad=True)
                sm = StatisticalModel(b, "toy", ntoys=7)
                res = sm.exclusion_confidence_level(mu, expected=EX[ex], calculator="toy", verbose=False)
                d = n_obs if ex == "observed" else 20
                want = [[m, 2 * (d - 20 - 3 * m) / 5, 7] for m in (mu, 0.0)]
                c.traces += 1
                if len(got) != 2 or any(abs(a - w) > 2e-3 for g, ww in zip(sorted(got), sorted(want)) for a, w in zip(g, ww)):
                    c.violation("toy:generation-point", {"expected": ex, "data": n_obs, "mu": mu, "sampler parameters": got, "want": want})
                if any(not (0.0 <= float(v) <= 1.0) for v in res):
                    c.violation("toy:range", {"res": list(map(float, res))})


if __name__ == "__main__":
    vf.main(run, "H03")
