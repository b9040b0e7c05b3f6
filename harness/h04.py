"""H04: upper limits.  Limits returned by the real code (TLC-enumerated requests on exactly solvable models plus the
built-in backends) are validated by ConfLevelTrace.tla: the exclusion level at the returned limit, computed by the
specification from the likelihood at that point, must equal the requested level; infinite only if the level is not
reached at the end of the searched domain."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import fitspy
fitspy.install()
import numpy as np

SPEC = """---- MODULE LimitH04 ----
EXTENDS ConfLevel, TLC, Json
VARIABLES m, ex, cl, pv, init
Ms == [n : {2, 5, 6, 9}, b : {5}, s : {1, 2}, t : {0, 1}]
Init == /\\ m \\in Ms /\\ ex \\in {"observed", "apriori", "aposteriori"} /\\ cl \\in {80, 95, 99} /\\ pv \\in {"nominal", "1sigma", "2sigma"}
        /\\ init \\in {"default", "none", "wide", "high", "low"}
        /\\ (m.n = m.b => pv = "nominal") /\\ (init # "default" => cl = 95)
Next == UNCHANGED <<m, ex, cl, pv, init>>
\\* the level falls strictly with the tested strength beyond the best fit, so a limit is unique
Unique == \\A i \\in 1..12 : LET x == Rat(i, 2) y == Rat(i + 1, 2) IN
   (RLt(Hat(m), x) /\\ QAOf(m, y, FALSE) < 40000000 /\\ QOf(m, y, FALSE) < 40000000) =>
      LnCLsObs("qtilde", QOf(m, y, FALSE), QAOf(m, y, FALSE)) < LnCLsObs("qtilde", QOf(m, x, FALSE), QAOf(m, x, FALSE)) + 60
Out == PrintT("@" \\o ToJson([m |-> m, ex |-> ex, cl |-> cl, pv |-> pv, init |-> init]))
====
"""
INITS = {"default": {}, "none": {"low_init": None, "hig_init": None}, "wide": {"low_init": 1e-3, "hig_init": 80.0},
         "high": {"low_init": 7.0, "hig_init": 9.0}, "low": {"low_init": 0.01, "hig_init": 0.02}}


def cap(f):
    return {k: (max(-800_000_000, min(800_000_000, v)) if isinstance(v, int) and k[0] == "n" else v) for k, v in f.items()}


def events(make, ex, cl, band, ul, scale=1.0):
    """One record: likelihood facts of a fresh model at the limit (or at the end of the domain when infinite).
    The specification reads the strength in units of `scale`."""
    import hypo
    inf = np.isinf(ul)
    at = 1e5 if inf else float(ul)
    f = cap(hypo.facts(make(), at, ex, "qtilde"))
    f["mu"] = hypo.micro(at / scale)
    for h in ("hat", "hatA"):
        f[h] = int(f[h] / scale)
    f.update(k="ul", band=band, lncls=hypo.micro(math.log1p(-cl)), tol=15000, mayinf=False,
             ul=2_000_000_001 if inf else (hypo.micro(ul / scale) if ul == ul else 2_000_000_003))
    if inf:  # decided by the specification from the level at the end of the domain
        f["k"] = "inf"
    return f


def run(c):
    import queryfits
    queryfits.replay(c, ("limit",))
    import hypo, spey
    from hypo import EX
    from spey import StatisticalModel
    from spey.system.exceptions import UnknownCrossSection
    r = vf.tlc("LimitH04", "INIT Init\nNEXT Next\nINVARIANTS Unique Out\nCHECK_DEADLOCK FALSE\n", extra_files=[("LimitH04.tla", SPEC)])
    c.count(r)
    cases = r.json_prints()
    evs, about = [], []

    def collect(make, ex, cl, pv, res, info, scale=1.0):
        bad, evs, about = [], [], []
        nres = {"nominal": 1, "1sigma": 3, "2sigma": 5}[pv if ex != "observed" else "nominal"]
        vals = [res] if nres == 1 else list(res)
        if nres == 1 and not np.isscalar(res) and np.ndim(res) != 0:
            return [("limit:shape", {"info": info, "got": str(res)})], [], []
        if len(vals) != nres:
            return [("limit:shape", {"info": info, "got": str(res)})], [], []
        bands = [0] if ex == "observed" else {1: [3], 3: [2, 3, 4], 5: [1, 2, 3, 4, 5]}[nres]
        if any(b < a - 1e-9 for a, b in zip(vals, vals[1:])):
            bad.append(("limit:order", {"info": info, "got": vals}))
        for b, v in zip(bands, vals):
            evs.append(events(make, ex, cl, b, v, scale))
            about.append(dict(info, limit=float(v), band=b))
        return bad, evs, about

    todo = []
    for i, k in enumerate(cases):
        if k["init"] != "default" and (i % 3 or k["m"]["t"] == 0) and not vf.THOROUGH:
            continue
        kinds = [(hypo.LinGaussNative, {})]
        if i % 11 == 0 or vf.THOROUGH:
            kinds += [(hypo.LinGaussGen, {"grad": True})]
        if i % 11 == 1 or vf.THOROUGH:
            kinds += [(hypo.LinGaussHess, {"grad": True})]
        for kind, kw in kinds:
            def job(i=i, k=k, kind=kind, kw=kw):
                sm = hypo.onebin(k["m"], kind, swap=i % 5 in (1, 2), **kw)
                e = EX[k["ex"]] if i % 2 else k["ex"]
                res = sm.poi_upper_limit(expected=e, confidence_level=k["cl"] / 100, expected_pvalue=k["pv"], **INITS[k["init"]])
                return lambda: hypo.onebin(k["m"], hypo.LinGaussNative), k["ex"], k["cl"] / 100, k["pv"], res, dict(k, kind=kind.__name__), 1.0
            todo.append(job)
    # unusual signal sizes: tiny limits, large limits, not reachable, no signal at all
    for s, scale in ((2e4, 1e-4), (3e-3, 1e3), (2e-5, 1e5), (1e-6, 1.0), (6e-6, 1.0)):
        for ex in ("observed", "apriori"):
            for pv in ("nominal", "2sigma"):
                for n in (4, 9):
                    def job(s=s, scale=scale, ex=ex, pv=pv, n=n):
                        mk = lambda: StatisticalModel(hypo.LinGaussNative([5, 0], [[s, 1], [0, 1]], [n, 0], apriori=[5, 0], bounds=[(-1e7, 1e7), (-50, 50)]), "x")
                        return mk, ex, 0.95, pv, mk().poi_upper_limit(expected=EX[ex], expected_pvalue=pv), {"signal": s, "ex": ex, "pv": pv, "n": n}, scale
                    todo.append(job)
    for ex in ("observed", "apriori", "aposteriori"):
        for pv, want in (("nominal", np.inf), ("1sigma", [np.inf] * 3), ("2sigma", [np.inf] * 5)):
            sm = StatisticalModel(hypo.LinGaussNative([5], [[0]], [5], alive=False), "x")
            res = sm.poi_upper_limit(expected=EX[ex], expected_pvalue=pv)
            if res != (want if ex != "observed" else np.inf):
                c.violation("limit:no-signal", {"ex": ex, "pv": pv, "got": str(res)})
            c.traces += 1
    # built-in backends, whole bands
    for n in ("uncorr-under", "corr-over", "third", "effsig", "poisson", "poisson-under", "normal", "normal-under", "mvn"):
        for ex in ("observed", "apriori", "aposteriori"):
            pv = "2sigma" if ex == "apriori" else "nominal"
            if n in ("third", "effsig") and ex == "aposteriori" and not vf.THOROUGH:
                continue
            cl = 0.95 if ex != "aposteriori" else 0.9

            def job(n=n, ex=ex, cl=cl, pv=pv):
                res = hypo.ZOO[n]().poi_upper_limit(expected=EX[ex], confidence_level=cl, expected_pvalue=pv)
                return hypo.ZOO[n], ex, cl, pv, res, {"model": n, "ex": ex}, 1.0
            todo.insert(0, job)

    def work(job):
        r = job()
        return collect(*r)
    for bad, ev, ab in vf.pmap(work, todo, chunk=4):
        for k, d in bad:
            c.violation(k, d)
        evs += ev
        about += ab
    c.validate("ConfLevelTrace", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", evs, describe=lambda i: about[i],
               key=lambda i, l, cl: f"limit:{about[i].get('model', 'exact')}:{about[i]['ex']}:{cl}")
    c.sample(about[0]); c.sample(about[-1])
    import confine

    def what(sm, k, o, e, exact, i):
        if k["neg"] or k["mu"] != [2, 1] or (not exact and i % 2):
            return []
        alone = hypo.onebin({"n": k["n"], "b": 5, "s": k["m"]["s"], "t": 0}, hypo.LinGaussNative)
        pv = ("nominal", "1sigma", "2sigma")[i % 3]
        return [("limit", sm.poi_upper_limit(expected=e, expected_pvalue=pv, optimiser_arguments=o), alone.poi_upper_limit(expected=e, expected_pvalue=pv), 1e-3 if exact else 4e-3)]
    confine.replay(c, what)
    # cross sections
    for xs in (0.37, 12.0):
        m = {"n": 6, "b": 5, "s": 2, "t": 1}
        mk = lambda: StatisticalModel(hypo.LinGaussNative([5, 0], [[2, 1], [0, 1]], [6, 0], apriori=[5, 0]), "x", xsection=xs)
        for q, ex in ((lambda s: s.s95exp, "apriori"), (lambda s: s.s95obs, "observed"), (lambda s: s.excluded_cross_section(), "observed"),
                      (lambda s: s.excluded_cross_section(EX["aposteriori"]), "aposteriori")):
            got, want = q(mk()), xs * mk().poi_upper_limit(expected=EX[ex], confidence_level=0.95)
            c.traces += 1
            if abs(got - want) > 1e-9 * abs(want):
                c.violation("limit:cross-section", {"got": got, "want": want, "ex": ex})
    try:
        hypo.onebin(m, hypo.LinGaussNative).s95exp
        c.violation("limit:cross-section-unknown", {})
    except UnknownCrossSection:
        pass
    for bad in (-0.1, 1.2):
        try:
            hypo.onebin(m, hypo.LinGaussNative).poi_upper_limit(confidence_level=bad)
            c.violation("limit:level-range", {"cl": bad})
        except AssertionError:
            pass


if __name__ == "__main__":
    vf.main(run, "H04")
