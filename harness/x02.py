"""X02: confidence contours.  Contour.tla gives explicit deviances (linear, curved, with two valleys, with profiled and bounded
parameters); TLC checks the explicit profile and enumerates cases; real models with exactly these deviances are built, their
contours computed, and every point, the best fit and the level are validated by TLC against the deviance (ContourTrace.tla)."""
import os, random, sys, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
os.environ["TQDM_DISABLE"] = "1"

U = 5000
CLS = [0.5, 0.68, 0.9, 0.95, 0.99]
DIMS = [1, 1, 2, 2, 3, 2, 3]
NONE = 1000000


def residuals(s, np):
    return {
        1: lambda z: [2 * z[0] - .7, z[0] + .5],
        2: lambda z: [2 * (z[0] ** 2 - 1), z[0] - .25],
        3: lambda z: [z[0] - .5, 4 * z[1] - 2 * z[0] - .5],
        4: lambda z: [z[0] + z[1] ** 2 - 1, 2 * z[0] - z[1]],
        5: lambda z: [2 * z[0] - .2, z[1] + z[0] - .5, 4 * z[2] - 2 * z[0] - 2 * z[1]],
        6: lambda z: [2 * z[0] - 1, z[1] - z[0] ** 2],
        7: lambda z: [z[0] + .4, 2 * z[1] + z[0], z[2] - z[0] + 2 * z[1]],
    }[s]


def build(case, real, perm):
    """A model whose deviance is the sum of the squared residuals plus the returned constant; its signal parameter number i is
    coordinate perm[i] of the deviance."""
    import autograd.numpy as anp
    import numpy as np
    import spey
    f = residuals(case["shape"], anp)
    n = len(f(np.zeros(3)))
    rng = np.random.default_rng(100 * case["shape"] + real)
    if real == "normal" or real % 2 == 0:
        L = np.diag(rng.uniform(2, 6, n))
    else:
        L = np.tril(rng.uniform(-1, 1, (n, n)), -1) + np.diag(rng.uniform(2, 6, n))
    bkg = rng.uniform(30, 60, n)
    base = rng.uniform(10, 20, n)
    data = bkg + base

    def signal(p):
        return base + L @ anp.array(f([p[perm.index(i)] for i in range(d)]))
    d = DIMS[case["shape"] - 1]
    bounds = [(None if lo <= -NONE else lo / U, None if hi >= NONE else hi / U) for lo, hi in zip(case["lo"], case["hi"])]
    bounds = [bounds[i] for i in perm]
    kw = dict(signal_yields=signal, background_yields=list(bkg), data=list(data), n_signal_parameters=d, analysis="x")
    if case["how"] == "model":
        kw["signal_parameter_bounds"] = bounds
    if real % 2 == 0:
        m = spey.get_backend("default.normal")(absolute_uncertainties=list(np.diag(L)), **kw)
    else:
        m = spey.get_backend("default.multivariate_normal")(covariance_matrix=L @ L.T, **kw)
    const = n * np.log(2 * np.pi) + np.linalg.slogdet(L @ L.T)[1]
    return m, bounds, float(const), d


def one(item):
    import logging
    import numpy as np
    from spey.multiparameter.contour import find_contour
    logging.getLogger("Spey").setLevel(60)
    case, real, seed = item
    perm = list(range(DIMS[case["shape"] - 1]))
    if seed % 3:
        random.Random(seed).shuffle(perm)
    m, bounds, const, d = build(case, real, perm)
    k = case["first"]
    kw = {}
    cols = [perm.index(i) + 1 for i in range(k)]          # parameters of the model that are the contour's coordinates
    back = [sorted(cols).index(i) for i in cols]          # and where the result has them
    if k < d:
        kw["poi_indices"] = cols if seed % 2 else [0] + cols[::-1]
    if case["how"] == "call":
        kw["bounds"] = bounds
    with warnings.catch_warnings(), vf.guard(200):
        warnings.simplefilter("ignore")
        r = find_contour(m, confidence_level=CLS[case["cl"] - 1], n_radial=24 if k < d else 40, n_hmc_chains=2 if k < d else 3,
                         n_hmc_steps=10 if k < d else 30, n_gap_candidates=300, random_seed=seed, n_jobs=1, n_multistart=12 if k < d else 20, **kw)
    pts = np.asarray(r.contour_points, float).reshape(-1, k)
    cap = lambda x: int(np.clip(np.nan_to_num(np.round(x), nan=9e8), -9e8, 9e8))
    res = []
    if k == d:
        logpdf = m.backend.get_logpdf_func()
        for p in pts:
            res.append(cap((-float(logpdf(np.r_[1.0, p])) - r.nll_min - r.delta / 2) * 1e9))
    names = m.config().parameter_names
    okname = r.parameter_names is None or list(r.parameter_names) == [names[i] for i in sorted(cols)]
    return {"shape": case["shape"], "k": k, "cl": case["cl"], "lo": case["lo"], "hi": case["hi"],
            "best": [cap(x * U) for x in np.asarray(r.theta_mle, float).reshape(-1)[back]],
            "mindev": cap((2 * r.nll_min - const) * U), "delta": cap(r.delta * 1e6),
            "thr": cap((r.threshold - r.nll_min - r.delta / 2) * 1e9), "dof": int(r.dof),
            "samecl": int(abs(r.confidence_level - CLS[case["cl"] - 1]) < 1e-12), "n": len(pts), "flags": len(r.from_radial),
            "names": int(okname), "need": int(case["b"] in ("free",)),
            "pts": [[cap(x * U) for x in p] for p in pts[:120][:, back]], "res": res, "restol": 2000,
            "about": {"case": case, "covariance": "full" if real % 2 else "diagonal", "order": perm, "seed": seed}}


def run(c):
    import spey  # noqa: F401
    import spey.multiparameter.contour  # noqa: F401
    q = not vf.THOROUGH
    cfg = "CONSTANTS Emit = %s\n Grid = %d\nINIT Init\nNEXT Next\nINVARIANTS ProfileIsMin EmitOut\nCHECK_DEADLOCK FALSE\n"
    r = c.model("ContourMC", cfg % ("TRUE", 5 if q else 8), name="explicit profile and cases", workers=6)
    cases = sorted(r.json_prints(), key=str)
    rnd = random.Random(vf.SEED)
    items = []
    for case in cases:
        profiled = case["first"] < DIMS[case["shape"] - 1]
        reps = 2 if q else 8
        if q and profiled:
            reps = 1
        for i in range(reps):
            items.append((case, rnd.randrange(1000), rnd.randrange(1, 10 ** 6)))
    rnd.shuffle(items)
    if q:
        prof = [i for i in items if i[0]["first"] < DIMS[i[0]["shape"] - 1]]
        full = [i for i in items if i[0]["first"] == DIMS[i[0]["shape"] - 1]]
        items = prof[:28] + full[:130]
    traces = vf.pmap(one, items, chunk=1)
    c.extra["contours"] = len(traces)
    c.extra["points"] = sum(t["n"] for t in traces)
    c.sample(traces[0]["about"])
    c.validate("ContourTrace", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", traces,
               describe=lambda i: traces[i]["about"], key=lambda i, l, cl: f"{cl} (shape {traces[i]['shape']}, {traces[i]['k']} parameters)", workers=8)


vf.main(run, "X02")
