"""L02-L05: the exactly solvable models of StatModel.tla.  TLC computes every answer (box-constrained conditional minimum, its
point, the Asimov data) as exact rationals; the real model is asked the same in many spellings."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import fitspy
fitspy.install()
import numpy as np


def families(S):
    full = vf.THOROUGH
    v = [-3, 0, 2, 5] if not full else [-7, -4, -3, -1, 0, 1, 2, 5, 12]
    w = [-2, 3] if not full else [-5, -2, 0, 1, 3, 6]
    fixes = [{i: x} for i in (1, 2, 3) for x in v] + [{i: x, j: y} for (i, j) in ((1, 2), (1, 3), (2, 3)) for x in w for y in w] + \
            [{1: x, 2: y, 3: z} for x in w[:2] for y in w[:1] for z in w[:2]]
    lik = [S.query("lik", ds, f, bnd=b) for ds in ("obs", "ap", "alt") for f in fixes for b in (False, True)]
    mx = [S.query("max", ds, None, neg, b) for ds in ("obs", "ap", "alt") for neg, b in ((True, False), (False, False), (True, True))]
    st = ("q", "qtilde", "q0") if not full else ("q", "qmu", "qtilde", "qmutilde", "q0")
    asi = [S.query("asi", ds, stat=s, bnd=b) for ds in ("obs", "ap", "alt") for s in st for b in (False, True)]
    asl = [S.query("asl", ds, {i: x}, stat=s, bnd=b) for ds in ("obs", "ap") for s in st for i in (1, 2, 3) for x in v for b in (False, True)]
    mxa = [S.query("mxa", ds, None, stat=s, bnd=b) for ds in ("obs", "ap") for s in st for b in (False, True)]
    return lik, mx, asi, asl, mxa


def replay(c, S, ans, models, forms, pid, kinds, seed=0):
    import hypo
    by = {}
    for (mid, k), a in ans.items():
        by.setdefault(mid, []).append((k, a))
    work = []
    for mid, qs in by.items():
        for part in range(0, len(qs), 40):
            work.append((mid, qs[part:part + 40], part))

    def do(job):
        mid, qs, part = job
        m = S.BYID[mid]
        rng = np.random.default_rng([vf.SEED, seed, ord(mid), part])
        out, n = [], 0
        for k, a in qs:
            q = dict(op=k[0], ds=k[1], fix=dict(k[2]), neg=k[3], bnd=k[4], stat=k[5])
            if not S.ok_query(m, q):
                continue
            for i in range(forms):
                kind = kinds[int(rng.integers(len(kinds)))]
                grad = bool(rng.integers(2))
                sm = S.build(m, kind, grad=grad)
                f = S.Form(m, q, rng, minuit=kind is not S.LinGaussNative and q["op"] != "asi")
                n += 1
                try:
                    raw = f(sm)
                except (TypeError, ValueError, KeyError, IndexError, AttributeError) as exc:
                    out.append((f"{q['op']}:{q['ds']}:refused", {**f.about(), "kind": kind.__name__, "error": repr(exc)}))
                    continue
                bad = f.judge(raw, a, 2e-3 if f.kw.get("minimizer") == "minuit" else 3e-4)
                if bad:
                    out.append((f"{q['op']}:{q['ds']}:{bad}", {**f.about(), "kind": kind.__name__, "grad": grad, "got": repr(raw), "want": a}))
        return out, n
    for bad, n in vf.pmap(do, work, chunk=1):
        c.traces += n
        for key, d in bad:
            c.violation(key, d)


def l02(c):
    import queryfits
    queryfits.replay(c, ("likelihood", "sampler"))
    import smodel as S, hypo
    lik, mx, asi, asl, mxa = families(S)
    ans = S.answers(c, S.MODELS, lik, "StatL02", must=("Minimal", "Pinned"))
    replay(c, S, ans, S.MODELS, 2 if not vf.THOROUGH else 8, "L02", [S.LinGaussGen, S.LinGaussHess, S.LinGaussNative], 2)
    c.sample({"model": S.MODELS[1], "queries": len(ans)})

    # requests that name something unknown are refused
    for m in S.MODELS[1:4]:
        for bad in ({"nope": 1.0}, {m["names"][0]: 1.0, "nope": 0.0}, {7: 1.0}, {m["poi"] - 1: 1.0, 5: 0.0}):
            for names in (True, False):
                sm = S.build(m, names=names)
                for what, call in (("likelihood", lambda: sm.likelihood(bad)), ("sampler", lambda: sm.fixed_poi_sampler(bad, 2)),
                                   ("fixed fit", lambda: sm.maximize_likelihood(fixed_poi_value=bad)), ("chi2", lambda: sm.chi2(bad))):
                    c.traces += 1
                    try:
                        got = call()
                    except (ValueError, KeyError, IndexError):
                        continue
                    c.violation(f"unknown-accepted:{what}", {"request": repr(bad), "names": names, "got": repr(got)})
        sm = S.build(m, names=False)
        c.traces += 1
        try:
            got = sm.likelihood({m["names"][0]: 1.0})
            c.violation("unknown-accepted:no-names", {"got": repr(got)})
        except ValueError:
            pass

    # the sampler and the maximum under fixed values use the conditional fit
    rng = np.random.default_rng([vf.SEED, 22])
    for (mid, k), a in list(ans.items()):
        if k[0] != "lik" or k[4] or k[1] == "alt" or rng.random() > (0.35 if not vf.THOROUGH else 1):
            continue
        m = S.BYID[mid]
        q = dict(op="lik", ds=k[1], fix=dict(k[2]), neg=True, bnd=False, stat="q")
        f = S.Form(m, q, rng, minuit=False)
        kw = {x: y for x, y in f.kw.items() if x in ("expected", "init_pars", "poi_test")}
        sm = S.build(m, S.LinGaussGen)
        c.traces += 1
        sm.fixed_poi_sampler(size=3, **kw)
        pars = [x for x in sm.backend.calls if x[0] == "sample"][-1][1]
        if not S.close(pars, [x / 1e6 for x in a["pars"]], 5e-3):
            c.violation("sampler:conditional-point", {**f.about(), "got": pars, "want": a["pars"]})
        fv = kw.pop("poi_test")
        hat, nll = S.build(m, S.LinGaussGen).maximize_likelihood(fixed_poi_value=fv, poi_indices=list(range(len(m["names"]))), **kw)
        if not S.close([*hat.values(), nll], [x / 1e6 for x in a["pars"]] + [a["nll"] / 1e6], 5e-3):
            c.violation("fixed-fit:conditional-point", {**f.about(), "got": repr((hat, nll)), "want": a})

    # built-in models: recorded conditional fits judged by the trace specification
    tr = vf.pmap(fit_traces, [(n, s) for n in hypo.FITS for s in range(2 if not vf.THOROUGH else 8)], chunk=1)
    c.validate("FitTrace", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", tr, workers=2)


def box(cfg):
    return [(-1000.0 if lo is None else float(lo), 1000.0 if hi is None else float(hi)) for lo, hi in cfg.suggested_bounds]


def micro2(x):
    from backends import micro
    return micro(x)


def background(sm):
    """The rates without signal at a point, which the constraints of a fit keep from becoming negative."""
    if not (getattr(sm.backend, "constraints", None) and hasattr(sm.backend, "main_model")):
        return []
    poi = sm.backend.config().poi_index

    def rates(p):
        q = np.array(p, dtype=float)
        q[poi] = 0.0
        return sm.backend.expected_data(q, include_auxiliary=False)
    return [{"fun": rates}]


# the documented rates without signal of models whose data push them to zero
RATES = {"uncorr-pull": lambda t: [20.0 + 16.0 * t[0], 18.0 + 10.0 * t[1]], "corr-pull-low": lambda t: [20.0 + 16.0 * t[0], 18.0 + 12.0 * t[1]],
         "corr-pull": lambda t: [20.0 + 16.0 * t[0], 18.0 + 12.0 * t[1]]}


def allowed(constraints, q):
    return all(np.min(np.asarray(k["fun"](q), dtype=float)) >= 1e-9 for k in constraints)      # rates are floored at zero


def refine(lp, p, b, fixed, constraints=()):
    """The value at an admissible point found by going downhill from p with an independent minimiser; None if there is none."""
    import scipy.optimize as so
    free = [j for j in range(len(p)) if j not in fixed]
    if not free:
        return None
    full = lambda x: np.array([x[free.index(j)] if j in free else p[j] for j in range(len(p))])
    with np.errstate(all="ignore"):
        g = lambda x: (lambda v: v if v == v else 1e9)(float(-lp(full(x))))
        x0 = np.array([np.clip(p[j], *b[j]) for j in free])
        r = so.minimize(g, x0, method="L-BFGS-B", bounds=[b[j] for j in free], options={"ftol": 1e-13, "gtol": 1e-9})
        q = full(np.array([np.clip(v, *b[j]) for v, j in zip(r.x, free)]))
        if allowed(constraints, q):
            return float(-lp(q))
        # one parameter at a time, staying where the rates are positive and leaving alone what determines a vanishing rate
        rate = lambda x: np.concatenate([np.asarray(k["fun"](x), dtype=float) for k in constraints])
        q = np.array(p, dtype=float)
        live = rate(q) >= 1e-9
        at = lambda x: (lambda v: v if v == v else 1e9)(float(-lp(x))) if np.all(rate(x)[live] >= 1e-9) else 1e9
        for _ in range(2):
            for j in free:
                t = lambda v: np.array([v if k == j else q[k] for k in range(len(q))])
                if np.any(rate(t(q[j] + 0.05))[~live] >= 1e-9) or np.any(rate(t(q[j] - 0.05))[~live] >= 1e-9):
                    continue
                for w in (0.05, 1.0):
                    lo, hi = max(b[j][0], q[j] - w), min(b[j][1], q[j] + w)
                    v = so.minimize_scalar(lambda v: at(t(v)), bounds=(lo, hi), method="bounded", options={"maxiter": 25}).x if lo < hi else q[j]
                    q = t(v) if at(t(v)) < at(q) else q
        return at(q)


def fit_traces(job):
    """A recorded conditional fit of a built-in model: fixed values, domain, point, values at other admissible points."""
    import hypo
    n, s = job
    rng = np.random.default_rng([vf.SEED, 77, s, sum(map(ord, n))])
    ev = []
    for ex in ("observed", "apriori"):
        sm = hypo.FITS[n]()
        cfg = sm.backend.config()
        lp = sm.backend.get_logpdf_func(expected=hypo.EX[ex])
        b = box(cfg)
        for fix in ([0], [cfg.npar - 1], [0, cfg.npar - 1] if cfg.npar > 1 else [0]):
            vals = {}
            for j in fix:
                vals[j] = float(rng.uniform(0.0, 1.5)) if j == cfg.poi_index else float(rng.uniform(-0.8, 0.8))
            spell = vals if (len(fix) > 1 or fix[0] != cfg.poi_index or rng.random() < 0.4) else vals[fix[0]]
            nll, pars = sm.likelihood(spell, expected=hypo.EX[ex], return_parameters=True)
            pars = [float(x) for x in pars]
            others = []
            for _ in range(6):
                p = np.array(pars)
                for j in range(cfg.npar):
                    if j not in vals:
                        lo, hi = b[j]
                        p[j] = float(np.clip(p[j] + rng.normal() * rng.choice([0.003, 0.05, 0.6]), lo, hi))
                if allowed(background(sm), p):
                    others.append(float(-lp(p)))
            base = float(-lp(np.array(pars)))
            others += [o for o in [refine(lp, pars, b, vals, background(sm))] if o is not None]
            ev.append({"pinned": [[micro2(pars[j]), micro2(v)] for j, v in vals.items()],
                       "inside": [[micro2(b[j][0]), micro2(pars[j]), micro2(b[j][1])] for j in range(cfg.npar) if j not in vals],
                       "rates": [micro2(x) for x in (RATES[n](pars[1:]) if n in RATES else [])],
                       "value": micro2(nll - base), "others": [micro2(o - base) for o in others if o == o and abs(o - base) < 1900], "model": n, "ex": ex})
    return {"ev": ev}


def l03(c):
    import queryfits
    queryfits.replay(c, ("maximum", "asimov-max"))
    import smodel as S, hypo
    lik, mx, asi, asl, mxa = families(S)
    ans = S.answers(c, S.MODELS, mx, "StatL03", must=("Minimal", "Pinned"))
    replay(c, S, ans, S.MODELS, 16 if not vf.THOROUGH else 60, "L03", [S.LinGaussGen, S.LinGaussHess, S.LinGaussNative], 3)
    # the maximum beats every queried point (within the domain it was fitted in) and is reproduced by the likelihood there
    tr = vf.pmap(max_traces, [(n, s) for n in hypo.FITS for s in range(1 if not vf.THOROUGH else 6)] + [("exact-" + m["id"], s) for m in S.MODELS for s in range(2)], chunk=1)
    c.validate("FitTrace", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", tr, workers=2)


def max_traces(job):
    import hypo, smodel as S
    n, s = job
    rng = np.random.default_rng([vf.SEED, 78, s, sum(map(ord, n))])
    ev = []
    mk = (lambda: S.build(S.BYID[n[6:]], [S.LinGaussGen, S.LinGaussHess][s % 2])) if n.startswith("exact") else hypo.FITS[n]
    for ex in ("observed", "apriori", "data"):
        for neg in (True, False):
            sm = mk()
            cfg = sm.backend.config(allow_negative_signal=neg)
            kw = {"expected": hypo.EX["observed" if ex == "data" else ex]}
            if ex == "data":
                kw["data"] = [float(int(0.7 * float(x)) + 2) for x in (sm.backend.data if hasattr(sm.backend, "data") else sm.backend.n)]
            hat, nll = sm.maximize_likelihood(allow_negative_signal=neg, **kw)
            hats, nll2 = mk().maximize_likelihood(allow_negative_signal=neg, poi_indices=list(range(cfg.npar)), **kw)
            _, like = mk().maximize_likelihood(allow_negative_signal=neg, return_nll=False, **kw)
            B = box(cfg)
            lo, hi = B[cfg.poi_index]
            others = []
            pts = [hat - 0.3, hat + 0.3, hat + 1.2, 0.0, 1.0] + list(rng.uniform(max(lo, -2), min(hi, 4), 2))
            for x in pts:
                if lo <= x <= hi:
                    others.append(float(sm.likelihood(float(x), **kw)) - nll)
            lp = sm.backend.get_logpdf_func(**kw)
            for _ in range(5):
                p = np.array([hats[j] for j in range(cfg.npar)])
                for j in range(cfg.npar):
                    a, b_ = B[j]
                    p[j] = float(np.clip(p[j] + rng.normal() * rng.choice([0.01, 0.1, 0.7]), a, b_))
                if not (getattr(cfg, "suggested_fixed", None) and any(cfg.suggested_fixed)) and allowed(background(sm), p):
                    others.append(float(-lp(p)) - nll)
            if not (getattr(cfg, "suggested_fixed", None) and any(cfg.suggested_fixed)):
                others += [o - nll for o in [refine(lp, [hats[j] for j in range(cfg.npar)], B, {}, background(sm))] if o is not None]
            again = float(mk().likelihood(float(hat), **kw))
            import math
            ev.append({"pinned": [[micro2(hats[cfg.poi_index]), micro2(hat)]],
                       "inside": [[micro2(B[j][0]), micro2(hats[j]), micro2(B[j][1])] for j in range(cfg.npar)],
                       "rates": [micro2(x) for x in (RATES[n]([hats[j] for j in range(1, cfg.npar)]) if n in RATES else [])],
                       "value": max([micro2(again - nll), micro2(nll2 - nll), micro2(-math.log(like) - nll) if like > 0 else 0], key=abs),
                       "others": [micro2(o) for o in others if o == o and abs(o) < 1900], "model": n, "ex": ex})
    return {"ev": ev}


def l04(c):
    import queryfits
    queryfits.replay(c, ("asimov", "asimov-data"))
    import smodel as S, hypo
    lik, mx, asi, asl, mxa = families(S)
    ans = S.answers(c, S.MODELS, asi + asl + mxa, "StatL04")
    replay(c, S, ans, S.MODELS, 1 if not vf.THOROUGH else 6, "L04", [S.LinGaussGen, S.LinGaussHess, S.LinGaussNative], 4)
    few = {k: a for k, a in ans.items() if k[1][0] in ("asi", "mxa")}
    replay(c, S, few, S.MODELS, 2 if not vf.THOROUGH else 12, "L04", [S.LinGaussGen, S.LinGaussHess, S.LinGaussNative], 44)
    tr = vf.pmap(asimov_traces, list(hypo.FITS), chunk=1)
    c.validate("FitTrace", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", tr, workers=2)


def asimov_traces(n):
    """Built-in models: the Asimov data equal the expected data of an independent conditional fit, and the Asimov likelihoods
    are the likelihoods of exactly those data."""
    import hypo
    ev = []
    for ex in ("observed", "apriori"):
        for stat in ("q", "qtilde", "q0"):
            e = hypo.EX[ex]
            sm = hypo.FITS[n]()
            got = [float(x) for x in sm.generate_asimov_data(expected=e, test_statistic=stat)]
            o = hypo.FITS[n]()
            _, pars = o.likelihood(1.0 if stat == "q0" else 0.0, expected=e, return_parameters=True)
            want = [float(x) for x in o.backend.expected_data(pars)]
            A = []
            for mu in (0.0, 0.7, 1.6):
                A.append((float(sm.asimov_likelihood(mu, expected=e, test_statistics=stat)), float(o.likelihood(mu, expected=e, data=want))))
            h1, n1 = sm.maximize_asimov_likelihood(expected=e, test_statistics=stat)
            h2, n2 = o.maximize_likelihood(expected=e, data=want, allow_negative_signal=stat == "q")
            A.append((float(n1), float(n2)))
            dev = max(abs(a - b) / (1 + abs(b)) for a, b in A)
            ev.append({"pinned": [], "inside": [], "close": [[micro2(a / 1.0), micro2(b), 20000] for a, b in zip(got, want)] + [[len(got) * 1000000, len(want) * 1000000, 0], [micro2(h1), micro2(h2), 20000]],
                       "value": micro2(dev) // 100, "others": [], "model": n, "ex": ex + stat})
    return {"ev": ev}


def l05(c):
    import smodel as S, hypo
    lik, mx, asi, asl, mxa = families(S)
    qs = lik[::5] + mx + asi + asl[::7] + mxa
    ans = S.answers(c, S.MODELS, qs, "StatL05")
    replay(c, S, ans, S.MODELS, 3 if not vf.THOROUGH else 12, "L05", [S.LinGaussGen, S.LinGaussHess, S.LinGaussNative], 5)
    # simulation relation: a request on a selected dataset equals the plain request to the model whose recorded data are that dataset
    jobs = [(m["id"], kind) for m in S.MODELS for kind in (S.LinGaussGen, S.LinGaussHess)]
    for bad, n in vf.pmap(select_exact, jobs, chunk=1):
        c.traces += n
        for key, d in bad:
            c.violation(key, d)
    for bad, n in vf.pmap(select_builtin, list(BUILD), chunk=1):
        c.traces += n
        for key, d in bad:
            c.violation(key, d)


def hyp_calls(neg=True):
    """name -> (call(sm, expected kw), plain kw: how the same question is put to the model that holds the data)."""
    return {
        "sigma_mu": lambda sm, e: sm.sigma_mu(1.3, expected=e),
        "pull": lambda sm, e: sm.pull(1.3, expected=e),
        "chi2": lambda sm, e: sm.chi2(1.3, expected=e),
        "chi2-scan": lambda sm, e: sm.chi2([0.4, 1.3], expected=e),
        "chi2-ref": lambda sm, e: sm.chi2(1.3, 0.2, expected=e),
        "chi2_test": lambda sm, e: sm.chi2_test(expected=e, confidence_level=0.68),
        "sampler": lambda sm, e: np.asarray(sm.fixed_poi_sampler(0.8, 3, expected=e)),
    }


def flat(x):
    return [float(v) for v in np.ravel(np.asarray(x, dtype=float))]


def same(a, b, tol=4e-3):
    a, b = flat(a), flat(b)
    return len(a) == len(b) and all((u == v) or abs(u - v) <= tol * (1 + abs(v)) for u, v in zip(a, b))


def select_exact(job):
    import smodel as S, hypo
    mid, kind = job
    m = S.BYID[mid]
    out, n = [], 0
    as_obs = dict(m, n=m["ap"])
    for name, f in hyp_calls().items():
        if name == "chi2_test" and m["fixed"]:
            continue
        try:
            ref_ap, ref_obs = f(S.build(as_obs, kind), hypo.EX["observed"]), f(S.build(m, kind), hypo.EX["observed"])
        except NotImplementedError:
            continue
        for e, ref in (("apriori", ref_ap), ("aposteriori", ref_obs), ("observed", ref_obs)):
            for spell in (hypo.EX[e], e):
                n += 1
                got = f(S.build(m, kind), spell)
                if not same(got, ref):
                    out.append((f"select:{name}:{e}", {"model": mid, "kind": kind.__name__, "spelled": repr(spell), "got": flat(got), "want": flat(ref)}))
    if kind is S.LinGaussHess:
        for e, ref in (("apriori", as_obs), ("observed", m), ("aposteriori", m)):
            n += 1
            if not same(S.build(m, kind).sigma_mu_from_hessian(0.7, expected=e), S.build(ref, kind).sigma_mu_from_hessian(0.7)):
                out.append((f"select:hessian:{e}", {"model": mid}))
    return out, n


def _mk(name, data, **kw):
    import spey
    d = dict(signal_yields=[12.0, 15.0], background_yields=[50.0, 48.0], data=list(data))
    ex = {"default.uncorrelated_background": dict(absolute_uncertainties=[6.0, 8.0]),
          "default.correlated_background": dict(covariance_matrix=np.array([[36.0, 5.0], [5.0, 64.0]])),
          "default.third_moment_expansion": dict(covariance_matrix=np.array([[36.0, 5.0], [5.0, 64.0]]), third_moment=np.array([0.5, 0.3])),
          "default.effective_sigma": dict(correlation_matrix=np.array([[1.0, 0.1], [0.1, 1.0]]), absolute_uncertainty_envelops=[(5.0, 7.0), (6.0, 9.0)]),
          "default.poisson": {}, "default.normal": dict(absolute_uncertainties=[6.0, 8.0]),
          "default.multivariate_normal": dict(covariance_matrix=np.array([[36.0, 5.0], [5.0, 64.0]]))}[name]
    return spey.get_backend(name)(**d, **ex, **kw)


BUILD = ["default.uncorrelated_background", "default.correlated_background", "default.third_moment_expansion", "default.effective_sigma",
         "default.poisson", "default.normal", "default.multivariate_normal"]


def select_builtin(name):
    """The same relation on the built-in models, with every way of writing the selection and explicit data."""
    import hypo
    out, n = [], 0
    obs, bkg, alt = [44, 57], [50, 48], [61, 40]

    def core(sm, kw):
        r = []
        v, p = sm.likelihood(0.9, return_parameters=True, **kw)
        r += [v, *p]
        h, v = sm.maximize_likelihood(poi_indices=[0, sm.backend.config().npar - 1], **kw)
        return r + [*h.values(), v]
    ref = {k: core(_mk(name, d), {}) for k, d in (("obs", obs), ("ap", bkg), ("alt", alt))}
    forms = [("obs", {"expected": e}) for e in ("observed", "aposteriori")] + [("ap", {"expected": "apriori"})] + \
            [("obs", {"expected": hypo.EX[e]}) for e in ("observed", "aposteriori")] + [("ap", {"expected": hypo.EX["apriori"]})] + [("obs", {})] + \
            [("alt", {"expected": e, "data": mk(alt)}) for e in ("observed", "apriori", "aposteriori", hypo.EX["apriori"], hypo.EX["observed"])
             for mk in (list, lambda v: [float(x) for x in v], lambda v: np.array(v), lambda v: np.array(v, dtype=float))]
    for which, kw in forms:
        n += 1
        got = core(_mk(name, obs), kw)
        if not same(got, ref[which], 2e-3):
            out.append((f"built-in:{name}:{which}", {"call": repr(kw), "got": got, "want": ref[which]}))
    # nothing seen anywhere is a dataset like any other
    if name in ("default.poisson", "default.normal", "default.multivariate_normal", "default.uncorrelated_background", "default.correlated_background"):
        z = core(_mk(name, [0, 0]), {})
        for kw in ({"data": [0, 0]}, {"data": np.zeros(2)}, {"data": [0.0, 0.0], "expected": "apriori"}):
            n += 1
            got = core(_mk(name, obs), kw)
            if not same(got, z, 2e-3):
                out.append((f"built-in:{name}:no events", {"call": repr(kw), "got": got, "want": z}))
    # asimov data and derived questions
    calls = {k: f for k, f in hyp_calls().items() if k not in ("sampler", "chi2_test")}
    calls["asimov"] = lambda sm, e: sm.generate_asimov_data(expected=e)
    calls["asimov-likelihood"] = lambda sm, e: sm.asimov_likelihood(0.6, expected=e)
    calls["asimov-maximum"] = lambda sm, e: sm.maximize_asimov_likelihood(expected=e)
    for k, f in calls.items():
        r_obs, r_ap = f(_mk(name, obs), "observed"), f(_mk(name, bkg), "observed")
        for e, r in (("observed", r_obs), ("aposteriori", r_obs), ("apriori", r_ap)):
            for spell in (e, hypo.EX[e]):
                n += 1
                if not same(f(_mk(name, obs), spell), r, 5e-3):
                    out.append((f"built-in:{name}:{k}:{e}", {"spelled": repr(spell), "got": flat(f(_mk(name, obs), spell)), "want": flat(r)}))
    # the band before the fit is that of the model that observed its own background, whatever was recorded
    for spell in ("apriori", hypo.EX["apriori"]):
        n += 1
        a = _mk(name, obs).exclusion_confidence_level(poi_test=1.2, expected=spell)
        b = _mk(name, bkg).exclusion_confidence_level(poi_test=1.2, expected=spell)
        p = _mk(name, bkg).exclusion_confidence_level(poi_test=1.2, expected=hypo.EX["aposteriori"])
        if not (same(a, b, 5e-3) and same(a, p, 5e-3)):
            out.append((f"built-in:{name}:band", {"spelled": repr(spell), "got": a, "own background": b}))
        o1 = _mk(name, alt).exclusion_confidence_level(poi_test=1.2, expected=hypo.EX["aposteriori"])
        o2 = _mk(name, alt).exclusion_confidence_level(poi_test=1.2, expected="aposteriori")
        if not same(o1, o2, 1e-6):
            out.append((f"built-in:{name}:spelling", {"a": o1, "b": o2}))
        if not same(_mk(name, alt).exclusion_confidence_level(poi_test=1.2, expected="observed"), _mk(name, alt).exclusion_confidence_level(poi_test=1.2), 1e-6):
            out.append((f"built-in:{name}:spelling-observed", {}))
    for spell in ("apriori", hypo.EX["apriori"]):
        n += 1
        a, b = _mk(name, obs).poi_upper_limit(expected=spell), _mk(name, bkg).poi_upper_limit(expected=hypo.EX["observed"])
        if not same(a, b, 1e-2):
            out.append((f"built-in:{name}:limit", {"spelled": repr(spell), "got": a, "want": b}))
    return out, n


RUN = {"L02": l02, "L03": l03, "L04": l04, "L05": l05}
if __name__ == "__main__":
    vf.main(RUN[sys.argv[1]], sys.argv[1])
