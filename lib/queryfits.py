"""Options of a query reach every fit behind it (QueryFits.tla): requests from TLC are put to built-in models, the calls of the
numerical routine are recorded while it works as usual, and QueryFitsTrace.tla judges them.  fitspy has to be installed."""
import logging, random, warnings
import vf, fitspy

CFG = ('CONSTANTS Emit = TRUE\n Expects = {"observed", "aposteriori", "apriori"}\n Minis = {"scipy", "minuit"}\nSPECIFICATION Spec\n'
       "INVARIANTS Faithful Data EmitOut\nCHECK_DEADLOCK FALSE\n")
MU, OTHER = 0.75, 1.375
TOL = 1e-9


def models(np, spey):
    u = spey.get_backend("default.uncorrelated_background")
    k = spey.get_backend("default.correlated_background")
    e = spey.get_backend("default.effective_sigma")
    return [lambda: u(signal_yields=[6.0, 9.0], background_yields=[40.0, 55.0], data=[44, 57], absolute_uncertainties=[4.0, 6.0], ntoys=2),
            lambda: k(signal_yields=[6.0, 9.0], background_yields=[40.0, 55.0], data=[37, 60], covariance_matrix=[[16.0, 6.0], [6.0, 36.0]], ntoys=2),
            lambda: e(signal_yields=[6.0, 9.0], background_yields=[40.0, 55.0], data=[44, 52], correlation_matrix=[[1.0, 0.25], [0.25, 1.0]],
                      absolute_uncertainty_envelops=[(4.0, 3.0), (6.0, 7.0)], ntoys=2)]


def ask(m, q, r, kw):
    ex, ts = r["ex"], r["ts"]
    if q == "likelihood": return m.likelihood(MU, expected=ex, **kw)
    if q == "maximum": return m.maximize_likelihood(expected=ex, **kw)
    if q == "asimov": return m.asimov_likelihood(MU, expected=ex, test_statistics=ts, **kw)
    if q == "asimov-max": return m.maximize_asimov_likelihood(expected=ex, test_statistics=ts, **kw)
    if q == "asimov-data": return m.generate_asimov_data(expected=ex, test_statistic=ts, **kw)
    if q == "sampler": return m.fixed_poi_sampler(MU, size=2, expected=ex, **kw)
    if q == "sigma": return m.sigma_mu(MU, expected=ex, test_statistics=ts, **kw)
    if q == "sigma-hessian": return m.sigma_mu_from_hessian(MU, expected=ex, **kw)
    if q.startswith("chi2"):
        two = {x: y for x, y in kw.items() if x not in ("init_pars", "par_bounds")}
        one = {x: y for x, y in kw.items() if x in ("init_pars", "par_bounds")}
        return m.chi2([MU, OTHER] if q == "chi2-many" else MU, poi_test_denominator=OTHER if q == "chi2-point" else None, expected=ex,
                      mle_kwargs=dict(two), likelihood_kwargs=dict(two), **one)
    if q.startswith("pull"): return m.pull({"pull": MU, "pull-many": [MU, OTHER], "pull-map": {0: MU}}[q], expected=ex, **kw)
    if q == "significance": return m.significance(expected=ex, **kw)
    if q == "limit": return m.poi_upper_limit(expected=ex, optimiser_arguments=dict(kw))
    return m.exclusion_confidence_level(MU, expected=ex, allow_negative_signal=q == "excl-q", verbose=False,
                                        calculator={"excl-toy": "toy", "excl-chi": "chi_square"}.get(q, "asymptotic"), **kw) if q == "excl-toy" else \
        m.exclusion_confidence_level(MU, expected=ex, allow_negative_signal=q == "excl-q", calculator="chi_square" if q == "excl-chi" else "asymptotic", **kw)


def case(a):
    i, r = a
    import numpy as np, spey
    logging.getLogger("Spey").setLevel(logging.CRITICAL)
    warnings.simplefilter("ignore")
    np.random.seed(i)
    m = models(np, spey)[i % 3]()
    n, poi = len(m.backend.config().suggested_init), m.backend.config().poi_index
    rng = random.Random(i)
    g = r["g"]
    kw, want = {"minimizer": r["mini"]}, {"start": [], "bounds": [], "opts": []}
    txt = lambda v: "none" if v is None or abs(v) == float("inf") else "%.9g" % v
    if g["start"]:
        kw["init_pars"] = [0.5 + 0.125 * rng.randrange(8)] + [0.0625 * rng.randrange(-4, 5) for _ in range(n - 1)]
        want["start"] = [txt(v) for v in kw["init_pars"]]
    if g["bounds"]:
        kw["par_bounds"] = [(-0.5 - 0.125 * rng.randrange(4), 60.0 + rng.randrange(9))] + [(-4.0 - 0.125 * rng.randrange(9), 4.0 + 0.125 * rng.randrange(9)) for _ in range(n - 1)]
        want["bounds"] = [f"{txt(lo)}:{txt(hi)}" for lo, hi in kw["par_bounds"]]
    if g["opts"]:
        kw.update({"maxiter": 4321, "tol": 2e-7, "do_grad": False})
        kw.update({"disp": False} if r["mini"] == "scipy" else {"strategy": 1})
        want["opts"] = ["maxiter 4321", "tol 2e-07", "grad False", "disp False" if r["mini"] == "scipy" else "strategy 1"]
    ufun = lambda v: float(v[0]) + 100.0
    if g["cons"]:
        kw["constraints"] = [{"type": "ineq", "fun": ufun}]
    fits = []
    model = list(getattr(m.backend, "constraints", []) or [])
    probes = [np.array([0.3 + 0.4 * z] + [(-1) ** j * (0.2 + z) for j in range(n - 1)]) for z in range(3)]

    def value(c, p):
        try:
            return tuple(np.round(np.ravel((c["fun"] if isinstance(c, dict) else c.fun)(p)), 9).tolist())
        except Exception:
            return ()

    def name(v):
        return "mu" if abs(v - MU) < TOL else "zero" if abs(v) < TOL else "one" if abs(v - 1) < TOL else "other"

    def record(x0, held, bounds, opts, cons, lost):
        fits.append({"at": name(float(x0[poi])) if held[poi] else "free", "start": [txt(float(v)) for v in x0], "held": list(held),
                     "bounds": [f"{txt(lo)}:{txt(hi)}" for lo, hi in bounds], "opts": opts, "cons": cons, "lost": lost})

    def stub(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None, **other):
        cons = [constraints] if isinstance(constraints, dict) else list(constraints)
        x0 = np.array(x0, dtype=float)
        eqs = [c for c in cons if isinstance(c, dict) and c.get("type") == "eq"]
        held = []
        for j in range(n):
            up = x0.copy()
            up[j] += 1.0
            held.append(any(abs(float(np.ravel(c["fun"](up))[0])) > 1e-9 for c in eqs))
        o = dict(options or {})
        rest = [[value(c, p) for p in probes] for c in cons if not any(c is z for z in eqs)]
        lost = any([value(c, p) for p in probes] not in rest for c in model)
        record(x0, held, bounds if bounds is not None else [(None, None)] * n,
               [f"maxiter {o.get('maxiter')}", f"tol {tol}", f"grad {bool(jac)}", f"disp {o.get('disp')}"],
               any(isinstance(c, dict) and c.get("fun") is ufun for c in cons), bool(lost))
        return fitspy.original(fun, x0, args=args, method=method, jac=jac, hess=hess, hessp=hessp, bounds=bounds, constraints=constraints, tol=tol,
                               callback=callback, options=options, **other)
    GR = {}

    def made(mm, gr):
        GR[id(mm)] = (gr is not None, [float(v) for v in mm.values])

    def note(mm, routine, ncall):
        gr, x0 = GR[id(mm)]
        record(x0, [bool(z) for z in mm.fixed], [tuple(b) for b in mm.limits], [f"maxiter {ncall}", f"tol {mm.tol}", f"grad {gr}", f"strategy {int(mm.strategy.strategy)}"], True, False)
    error = ""
    with fitspy.hooks(scipy=stub, init=made, minuit=note):
        try:
            ask(m, r["q"], r, kw)
        except Exception as exc:
            error = f"{type(exc).__name__}: {exc}"[:200]
    return {"r": r, "model": i % 3, "want": want, "fits": fits, "error": error}


def replay(c, only=None):
    """All kinds of query, or those in `only`."""
    import spey
    rs = c.model("QueryFitsMC", CFG, name="requests and the fits behind them", workers=2).json_prints()
    rs = [r for r in rs if only is None or r["q"] in only]
    rnd = random.Random(vf.SEED)
    rnd.shuffle(rs)
    if not vf.THOROUGH:      # every query with everything given, and a sample of the others
        full = [r for r in rs if all(r["g"].values()) or (r["mini"] == "minuit" and all(v for k, v in r["g"].items() if k != "cons"))]
        rs = full[:170 if only is None else 40] + [r for r in rs if r not in full][:200 if only is None else 30]
    tr = vf.pmap(case, list(enumerate(rs)))
    c.sample(tr[0])
    c.extra["requests_with_options"] = len(tr)
    c.extra["fits_behind_requests"] = sum(len(t["fits"]) for t in tr)
    c.validate("QueryFitsTrace", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", tr, key=lambda i, l, cl: f"query:{tr[i]['r']['q']}:" + cl.strip('"'), heap="5g")
