"""P02: the fit driver.  FitDriverMC.tla enumerates requests and failure patterns of the numerical routine and checks the
retry loop; the harness performs every request on the real driver with the numerical routine replaced by one that records
its arguments and fails on schedule (scipy) or records and works (minuit), plus unmodified fits; FitDriverTrace.tla judges.
QueryFits.tla: what the queries of a statistical model fit, with the caller's options in every fit (lib/queryfits.py)."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import fitspy
fitspy.install()
from p01 import NONE, NINF, dec, enc, encb

INST = """---- MODULE FitP02 ----
EXTENDS FitDriverMC
L(p, m, bs, fx) == [poi |-> p, min |-> m, init |-> [j \\in 1..Len(bs) |-> 1], bounds |-> bs, sfixed |-> fx, named |-> FALSE, names |-> <<>>]
LayoutsV == {
  L(1, -5, <<<<-5, 10>>>>, <<FALSE>>), L(1, NInf, <<<<0, 4>>>>, <<FALSE>>),
  L(1, -5, <<<<-5, 10>>, <<-3, 3>>>>, <<FALSE, FALSE>>), L(1, 0, <<<<0, 10>>, <<None, None>>>>, <<FALSE, FALSE>>),
  L(2, -2, <<<<None, 3>>, <<-2, None>>>>, <<FALSE, FALSE>>), L(1, -4, <<<<-4, 10>>, <<-6, None>>, <<0, 5>>>>, <<FALSE, TRUE, FALSE>>),
  L(3, -9, <<<<1, 2>>, <<-4, -1>>, <<-9, 9>>>>, <<FALSE, FALSE, FALSE>>)}
FixSetsV == {{}, {<<1, 2>>}, {<<1, -1>>}, {<<1, 12>>}, {<<2, 7>>}, {<<1, 0>>, <<2, -7>>}, {<<3, 2>>}}
TrialssV == {0, 1, 2, 4}
OptSetsV == {{}, {<<"method", "trust-constr">>, <<"tol", "0.001">>}, {<<"maxiter", "17">>, <<"bogus", "3">>}, {<<"disp", "True">>, <<"strategy", "2">>}}
====
"""
CFG = ("CONSTANTS Emit = TRUE\n Layouts <- LayoutsV\n FixSets <- FixSetsV\n Trialss <- TrialssV\n OptSets <- OptSetsV\n MaxFail = 4\n"
       "SPECIFICATION Spec\nINVARIANTS FirstOK FixedStay Bounded EmitOut\nPROPERTIES Grow PoiFloor Terminates\nCHECK_DEADLOCK FALSE\n")
TCFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
UNKNOWN = ["bogus", "iter", "max", "dis", "ol", "tolerance", "Method", "trial", "jac", "callback", "poi", "x0"]
VALS = {"0.001": 1e-3, "17": 17, "3": 3, "True": True, "2": 2, "trust-constr": "trust-constr", "0.5": 0.5, "1.0": 1.0}


def config(c):
    from spey.base.model_config import ModelConfig
    return ModelConfig(poi_index=c["poi"] - 1, minimum_poi=dec(c["min"]), suggested_init=[float(x) for x in c["init"]],
                       suggested_bounds=[tuple(dec(x) for x in b) for b in c["bounds"]],
                       suggested_fixed=[bool(x) for x in c["sfixed"]] if any(c["sfixed"]) else None)


def snap(cfg):
    return repr((cfg.poi_index, cfg.minimum_poi, cfg.suggested_init, cfg.suggested_bounds, cfg.suggested_fixed))


def request(k, how):
    """Keyword arguments of fit() for a request, with copies to compare afterwards."""
    import numpy as np
    r = k["r"]
    cfg = config(r["cfg"])
    n = len(r["cfg"]["bounds"])
    kw = {"model_configuration": cfg}
    keep = []
    if r["ibounds"]:
        kw["bounds"] = [tuple(dec(x) for x in b) for b in r["ibounds"]]
        keep.append((kw["bounds"], list(kw["bounds"])))
    if r["iinit"]:
        kw["initial_parameters"] = [float(x) for x in r["iinit"]] if how % 3 else np.array([float(x) for x in r["iinit"]])
        keep.append((kw["initial_parameters"], list(kw["initial_parameters"])))
    fx = {j - 1: float(v) for j, v in r["fixed"]}
    if fx:
        if list(fx) == [cfg.poi_index] and how % 2:
            kw["fixed_poi_value"] = fx[cfg.poi_index]
        else:
            kw["fixed_poi_value"] = fx
            keep.append((fx, dict(fx)))
    for o, v in r["opts"]:     # unknown options of many names, among them pieces of known ones
        kw[o if o != "bogus" else UNKNOWN[how % len(UNKNOWN)]] = VALS[v]
    if r["ntrials"]:
        kw["ntrials"] = r["ntrials"]
    return cfg, n, kw, keep


def unchanged(keep, cfg, before):
    return all(list(a) == list(b) and (not isinstance(a, dict) or a == b) for a, b in keep) and snap(cfg) == before


def scipy_case(a):
    import numpy as np, scipy.optimize
    from spey.optimizer.core import fit
    i, k = a
    cfg, n, kw, keep = request(k, i)
    grad, hess, lp = i % 2 == 0, i % 5 == 0, i % 3 == 0
    t = np.arange(1, n + 1) * 1.5
    f = lambda x: float(np.sum((np.asarray(x, dtype=float) - t) ** 2) + 0.25)
    func = (lambda x: (f(x), 2 * (np.asarray(x) - t))) if grad else f
    hessian = (lambda x: 2 * np.eye(n)) if hess else None
    logpdf = (lambda x: -3.0 * f(x) + 1) if lp else None
    ufun = lambda v: float(v[0]) + 100.0
    user = i % 4 == 1
    if user:
        kw["constraints"] = [{"type": "ineq", "fun": ufun}]
        keep.append((kw["constraints"], list(kw["constraints"])))
    before = snap(cfg)
    calls, points = [], []
    pinned_all = {j - 1: v for j, v in k["r"]["fixed"]}
    fpins = set(pinned_all)
    start = k["r"]["iinit"] or k["r"]["cfg"]["init"]
    for j, s in enumerate(k["r"]["cfg"]["sfixed"]):
        if s:
            pinned_all.setdefault(j, start[j])

    def stub(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None, **other):
        cons = [constraints] if isinstance(constraints, dict) else list(constraints)
        options = dict(options or {})
        bl = [(None, None)] * n if bounds is None else [tuple(b) for b in bounds]
        mine = [c for c in cons if c.get("fun") is ufun and c.get("type") == "ineq"]
        rest = [c for c in cons if c not in mine]
        base = np.array([float(pinned_all.get(j, 0.625 + j)) for j in range(n)])
        val = lambda v: [float(np.ravel(c["fun"](np.array(v), *c.get("args", ())))[0]) for c in rest]
        pinned = []
        ref = val(base)
        broken = any(abs(z) > 1e-12 for z in ref) or any(c.get("type") != "eq" for c in rest)
        for j in range(n):
            up, dn = base.copy(), base.copy()
            up[j] += 1.0
            dn[j] -= 1.0
            if any(abs(z) > 1e-9 for z in val(up)) and any(abs(z) > 1e-9 for z in val(dn)):
                pinned.append([j + 1, enc(base[j])])
            elif bl[j][0] is not None and bl[j][0] == bl[j][1]:
                pinned.append([j + 1, enc(bl[j][0])])
        calls.append({"init": [enc(v) for v in x0], "bounds": encb(bl), "pinned": pinned + ([[0, 0]] if broken else []), "other": len(mine),
                      "method": str(method), "tol": str(tol), "maxiter": str(options.get("maxiter")), "disp": str(options.get("disp")),
                      "keys": sorted(str(o) for o in [*options, *other]), "jac": bool(jac), "hess": hess is not None})
        pt = []
        for j, (lo, hi) in enumerate(bl):
            v = float(pinned_all[j]) if j in pinned_all else float(len(calls) + j)
            if j not in pinned_all:
                v = max(v, lo) if lo is not None else v
                v = min(v, hi) if hi is not None else v
            pt.append(v)
        if len(calls) <= k["fails"]:     # where a failed attempt stopped, the pinned values need not be met
            for j in pinned_all:
                v = pt[j] + 1.0
                pt[j] = v if j in fpins or bl[j][1] is None else max(min(v, bl[j][1]), pt[j])
        points.append([enc(v) for v in pt])
        fv = fun(np.array(pt))
        return scipy.optimize.OptimizeResult(x=np.array(pt), fun=fv[0] if jac else fv, success=len(calls) > k["fails"], message="scheduled", nit=1, status=0)
    with fitspy.hooks(scipy=stub):
        value, x = fit(func=func, do_grad=grad, hessian=hessian, logpdf=logpdf, minimizer="scipy", **kw)
    x = [float(v) for v in x]
    return {"k": "scipy", "r": k["r"], "fails": k["fails"], "attempts": calls, "points": points, "x": [enc(v) for v in x],
            "value": repr(float(value)), "want": repr(float(logpdf(x) if lp else f(x))), "user": 1 if user else 0, "grad": grad, "hess": hess,
            "clean": unchanged(keep, cfg, before)}


def minuit_case(a):
    import numpy as np
    from spey.optimizer.core import fit
    i, k = a
    k = {"r": dict(k["r"], opts=[list(o) for o in k["r"]["opts"] if o[0] != "method"])}
    k["r"]["opts"] += [[], [["method", "simplex"]], [["errordef", "1.0"]], [["disp", "0"]]][i % 4]
    k["r"]["opts"] = [[o, "0" if o == "disp" else v] for o, v in k["r"]["opts"]]
    cfg, n, kw, keep = request({"r": dict(k["r"], opts=[])}, i)
    for o, v in k["r"]["opts"]:
        kw[o] = {"0": 0, "simplex": "simplex"}.get(v, VALS.get(v))
    grad = i % 2 == 0
    t = np.arange(1, n + 1) * 1.5
    f = lambda x: float(np.sum((np.asarray(x, dtype=float) - t) ** 2) + 0.25)
    func = (lambda x: (f(x), 2 * (np.asarray(x) - t))) if grad else f
    before = snap(cfg)
    calls = []

    REC = {}

    def made(m, g):
        REC[id(m)] = (g is not None, [enc(v) for v in m.values])

    def note(m, routine, ncall):
        # an infinite limit is an open side, unless the physical minimum of the signal strength itself is -infinity
        opened = lambda j, s, x: abs(x) == float("inf") and not (j == cfg.poi_index and s == 0 and dec(k["r"]["cfg"]["min"]) == x and cfg.suggested_bounds[j][0] is not None)
        calls.append({"init": REC[id(m)][1], "bounds": encb([[None if opened(j, s, x) else x for s, x in enumerate(b)] for j, b in enumerate(m.limits)]),
                      "fixed": [j + 1 for j, z in enumerate(m.fixed) if z], "routine": routine, "ncall": str(ncall), "tol": repr(float(m.tol)),
                      "strategy": str(int(m.strategy.strategy)), "errordef": str(float(m.errordef)), "level": str(int(m.print_level)), "grad": REC[id(m)][0]})
    with fitspy.hooks(init=made, minuit=note):
        value, x = fit(func=func, do_grad=grad, minimizer="minuit", **kw)
    return {"k": "minuit", "r": k["r"], "attempts": calls, "value": "%.9g" % float(value), "want": "%.9g" % f(x), "grad": grad, "clean": unchanged(keep, cfg, before)}


def real_case(a):
    """Unmodified fits of separable parabolas, one-sided and open bounds, constraints, both minimisers, limited iterations."""
    import numpy as np, logging
    from spey.optimizer.core import fit
    from spey.base.model_config import ModelConfig
    i, seed = a
    rng = random.Random(1000003 * seed + i)
    n = rng.choice([1, 2, 3])
    poi = rng.randrange(n)
    t = [rng.randrange(-6, 7) for _ in range(n)]
    w = [rng.choice([1, 2, 5]) for _ in range(n)]
    bounds = [rng.choice([(None, None), (-3, 4), (0, None), (None, 2), (1, 5), (-5, -1), (-8, 8)]) for _ in range(n)]
    fixed = {}
    if n > 1 and rng.random() < 0.5:
        fixed = {j: float(rng.randrange(-2, 3)) for j in rng.sample(range(n), rng.randrange(1, n))}
    mini = rng.choice(["scipy", "minuit"])
    explicit = rng.random() < 0.5
    for j, v in fixed.items():      # fixed values inside the bounds: the edit of bounds is P01's subject
        lo, hi = bounds[j]
        if (lo is not None and v <= lo) or (hi is not None and v >= hi):
            bounds[j] = (-9, 9)
    init = []
    for lo, hi in bounds:
        v = rng.randrange(-2, 3)
        v = max(v, lo) if lo is not None else v
        init.append(float(min(v, hi) if hi is not None else v))
    floor = bounds[poi][0] if bounds[poi][0] is not None else -50
    cfg = ModelConfig(poi, floor, list(init) if not explicit else [0.5] * n, [tuple(b) for b in bounds] if not explicit else [(-1.0, 1.0)] * n)
    grad = rng.random() < 0.5
    f = lambda x: 0.5 * sum(wi * (xi - ti) ** 2 for wi, xi, ti in zip(w, x, t))
    func = (lambda x: (f(x), np.array([wi * (xi - ti) for wi, xi, ti in zip(w, x, t)]))) if grad else f
    kw = {}
    eff = [list(b) for b in bounds]
    if mini == "scipy" and rng.random() < 0.4:
        j = rng.randrange(n)
        if j not in fixed:
            cut = (bounds[j][0] if bounds[j][0] is not None else -4) + 1
            if bounds[j][1] is None or cut < bounds[j][1]:
                kw["constraints"] = [{"type": "ineq", "fun": lambda x: x[j] - cut}]
                eff[j][0] = cut
    limited = rng.random() < 0.2 and not kw
    if limited:
        kw["maxiter"] = rng.choice([1, 2])
    if explicit:
        kw.update(bounds=[tuple(b) for b in bounds], initial_parameters=list(init))
    lp = rng.random() < 0.4
    logpdf = (lambda x: -f(x)) if lp else None
    fpv = None
    if fixed:
        fpv = fixed[poi] if list(fixed) == [poi] and rng.random() < 0.5 else dict(fixed)
    value, x = fit(func=func, model_configuration=cfg, do_grad=grad, fixed_poi_value=fpv, minimizer=mini, logpdf=logpdf, **kw)
    value = -float(value) if lp else float(value)
    micro = lambda z: int(round(z * 1e6)) if abs(z) < 2000 else 2147483647
    return {"k": "real", "t": t, "w": w, "bounds": encb(eff), "fixed": [[j + 1, int(v)] for j, v in fixed.items()], "x": [micro(float(v)) for v in x],
            "value": micro(value), "at": micro(f([float(v) for v in x])), "limited": limited, "xtol": 4000 if mini == "scipy" else 20000,
            "vtol": 100 if mini == "scipy" else 2000, "mini": mini, "seed": i}


def run(c):
    import logging, spey
    logging.getLogger("Spey").setLevel(logging.CRITICAL)
    r = c.model("FitP02", CFG, extra_files=[("FitP02.tla", INST)], workers=6, timeout=800)
    cases = r.json_prints()
    rng = random.Random(vf.SEED)
    sel = cases if vf.THOROUGH else rng.sample(cases, min(len(cases), 1500))
    tr = vf.pmap(scipy_case, list(enumerate(sel)))
    uniq = {}
    for k in cases:
        # a signal strength fixed below its physical minimum leaves an empty range, which Minuit reads as no limit
        if k["fails"] == 0 and all(j != k["r"]["cfg"]["poi"] or v >= k["r"]["cfg"]["min"] for j, v in k["r"]["fixed"]):
            uniq[str(k["r"])] = k
    ms = list(uniq.values())
    ms = ms if vf.THOROUGH else rng.sample(ms, min(len(ms), 400))
    tr += vf.pmap(minuit_case, list(enumerate(ms)))
    tr += vf.pmap(real_case, [(i, vf.SEED) for i in range(600 if not vf.THOROUGH else 6000)])
    c.sample(tr[0])
    import queryfits
    queryfits.replay(c)
    about = lambda i: tr[i]["k"]
    c.validate("FitDriverTrace", TCFG, tr, describe=about, key=lambda i, l, cl: f"{tr[i]['k']}:" + cl.strip('"'), heap="5g")


if __name__ == "__main__":
    vf.main(run, "P02")
