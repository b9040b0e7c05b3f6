"""L06: capabilities and precedence.  Capability.tla enumerates every subset of optional backend methods and both documented
result forms; a backend providing exactly that subset is built and questioned.  Own implementations mark their values with an
offset, so the route taken is visible in the answer."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import numpy as np

OFF = {"nll": 0.25, "min": 0.5, "asimov_nll": 0.75, "min_asimov": 1.25}


def make(S, m, provided, contract, off=True):
    from spey import BackendBase, StatisticalModel
    from backends import LinGauss, LinGaussNative
    full = S.build(m, LinGaussNative).backend
    o = (lambda k: OFF[k]) if off else (lambda k: 0.0)

    class B(BackendBase):
        name = "verif_capability"
        version = "1.0"
        author = "verif"
        spey_requires = ">=0.0.1"

        def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
            return full.config(allow_negative_signal, poi_upper_bound)

        def get_logpdf_func(self, expected="observed", data=None):
            return full.get_logpdf_func(expected, data)
    calls = []

    def give(v, x, kw):
        x = np.array([float(t) for t in x])
        if contract == "documented":
            return v, x
        return (v, x) if kw.get("return_parameters") else v

    def give_min(v, x, kw):
        x = np.array([float(t) for t in x])
        if contract == "documented":
            return v, x
        pi = kw.get("poi_indices")
        if pi is None:
            return float(x[full.poi]), v
        return {k: float(x[full.names.index(k) if isinstance(k, str) else k]) for k in pi}, v

    def fixed(p):
        return {full.poi: p} if not isinstance(p, dict) else full.config().resolve_poi_indices(p)

    def bounds(neg, kw):
        b = kw.get("par_bounds")
        return [tuple(t) for t in (b if b is not None else full.config(neg).suggested_bounds)]

    def asimov(expected, stat):
        d = full._data(expected, None)
        _, x = full.solve(d, full.config(stat in ("q", "qmu")).suggested_bounds, {full.poi: 1.0 if stat == "q0" else 0.0})
        return full.expected_data([float(t) for t in x])

    def nll(self, poi_test=1.0, expected="observed", data=None, **kw):
        calls.append("nll")
        v, x = full.solve(full._data(expected, data), bounds(True, kw), fixed(poi_test))
        return give(float(v) + o("nll"), x, kw)

    def mn(self, expected="observed", allow_negative_signal=True, data=None, **kw):
        calls.append("min")
        fx = {} if kw.get("fixed_poi_value") is None else fixed(kw["fixed_poi_value"])
        v, x = full.solve(full._data(expected, data), bounds(allow_negative_signal, kw), fx)
        return give_min(float(v) + o("min"), x, kw)

    def anll(self, poi_test=1.0, expected="observed", test_statistics="qtilde", **kw):
        calls.append("asimov_nll")
        v, x = full.solve(asimov(expected, test_statistics), bounds(True, kw), fixed(poi_test))
        return give(float(v) + o("asimov_nll"), x, kw)

    def amn(self, expected="observed", test_statistics="qtilde", **kw):
        calls.append("min_asimov")
        v, x = full.solve(asimov(expected, test_statistics), bounds(test_statistics in ("q", "qmu"), kw), {})
        return give_min(float(v) + o("min_asimov"), x, kw)
    ns = {"expected_data": ("expected_data", lambda self, pars: (calls.append("expected_data"), full.expected_data(pars))[1]),
          "sampler": ("get_sampler", lambda self, pars: (calls.append("sampler"), full.get_sampler(pars))[1]),
          "nll": ("negative_loglikelihood", nll), "min": ("minimize_negative_loglikelihood", mn),
          "asimov_nll": ("asimov_negative_loglikelihood", anll), "min_asimov": ("minimize_asimov_negative_loglikelihood", amn),
          "hessian": ("get_hessian_logpdf_func", lambda self, expected="observed", data=None: (calls.append("hessian"), lambda pars: -(full._A.T * full._w) @ full._A)[1])}
    if "gradient" in provided:
        g = LinGauss(full.c, full.M, full.n, poi=full.poi, names=full.names, bounds=full.bounds, init=full.init, apriori=full.apriori, grad=True)
        B.get_objective_function = lambda self, expected="observed", data=None, do_grad=True: (calls.append("gradient"), g.get_objective_function(expected, data, do_grad))[1]
    for k in provided:
        if k in ns:
            setattr(B, ns[k][0], ns[k][1])
    return StatisticalModel(B(), "cap", ntoys=6), calls


def run(c):
    import smodel as S, hypo, spey
    from spey.system.exceptions import CalculatorNotAvailable, MethodNotAvailable, CombinerNotAvailable
    r = vf.tlc("Capability", "CONSTANT Emit = TRUE\nINIT Init\nNEXT Next\nINVARIANTS Supported Monotone EmitOut\nCHECK_DEADLOCK FALSE\n", timeout=300)
    c.count(r)
    cases = r.json_prints()
    m = S.BYID["A"]
    Q = {"lik": S.query("lik", "obs", {1: 3}), "lik-ap": S.query("lik", "ap", {2: -1}), "lik-alt": S.query("lik", "alt", {1: 2}), "max": S.query("max", "obs"), "max-alt": S.query("max", "alt", None, False),
         "asi": S.query("asi", "obs", stat="qtilde"), "asl": S.query("asl", "obs", {1: 2}, stat="qtilde"), "asl-q0": S.query("asl", "ap", {1: 1}, stat="q0"),
         "mxa": S.query("mxa", "obs", stat="q"), "mxa-q0": S.query("mxa", "ap", stat="q0")}
    ans = S.answers(c, [m], list(Q.values()), "StatL06")
    A = {k: ans[("A", S.qkey(q))] for k, q in Q.items()}

    def off(kind, route):
        return {"lik": {"own": OFF["nll"]}, "max": {"own": OFF["min"]}, "asl": {"own": OFF["asimov_nll"], "own-on-asimov": OFF["nll"]},
                "mxa": {"own": OFF["min_asimov"], "own-on-asimov": OFF["min"]}}[kind].get(route, 0.0)

    def work(ic):
        i, k = ic
        out, n = [], 0
        prov = set(k["P"])
        R = k["route"]
        tag = {"provided": sorted(prov), "contract": k["contract"]}

        def bad(key, **d):
            out.append((key, {**tag, **d}))
        sm, calls = make(S, m, prov, k["contract"])
        n += 1
        if list(sm.available_calculators) != k["calc"]:
            bad("calculators", got=sm.available_calculators, want=k["calc"])
        flags = [sm.is_toy_calculator_available, sm.is_asymptotic_calculator_available, sm.is_chi_square_calculator_available]
        if flags != [x in k["calc"] for x in ("toy", "asymptotic", "chi_square")]:
            bad("calculator-flags", got=flags, want=k["calc"])
        # direct queries: value shows the route
        rng = np.random.default_rng([vf.SEED, i])
        for name, q in Q.items():
            route = {"lik": R["lik"], "max": R["max"], "asi": R["asimov"], "asl": R["asimov_lik"], "mxa": R["asimov_max"]}[q["op"]]
            sm, calls = make(S, m, prov, k["contract"])
            f = S.Form(m, q, rng, minuit=False)
            n += 1
            try:
                raw = f(sm)
            except NotImplementedError:
                if route != "unavailable":
                    bad(f"{q['op']}:not-implemented", call=f.about())
                continue
            except (TypeError, ValueError, AttributeError) as exc:
                bad(f"{q['op']}:error", call=f.about(), error=repr(exc))
                continue
            if route == "unavailable":
                bad(f"{q['op']}:answered-without-means", call=f.about(), got=repr(raw))
                continue
            a = dict(A[name])
            if q["op"] != "asi":
                a["nll"] = a["nll"] + round(1e6 * off(q["op"], route))
            diff = f.judge(raw, a)
            if diff:
                bad(f"{q['op']}:{route}:{diff}", call=f.about(), got=repr(raw), want=a)
        # methods that are refused with the documented error
        for what, need, call in (("sampler", "sampler", lambda s: s.fixed_poi_sampler(1.0, 3)), ("hessian", "hessian", lambda s: s.sigma_mu_from_hessian(1.0))):
            sm, calls = make(S, m, prov, k["contract"])
            n += 1
            try:
                call(sm)
                if need not in prov:
                    bad(f"{what}:answered-without-means")
            except MethodNotAvailable:
                if need in prov:
                    bad(f"{what}:refused")
        sm, calls = make(S, m, prov, k["contract"])
        try:
            sm.combine(sm)
            bad("combine:answered-without-means")
        except CombinerNotAvailable:
            pass
        # calculators: listed ones work, others are refused with the documented error
        for calc in ("asymptotic", "toy", "chi_square", "nonsense"):
            sm, calls = make(S, m, prov, k["contract"], off=False)
            n += 1
            np.random.seed(5)
            try:
                got = sm.exclusion_confidence_level(poi_test=1.0, calculator=calc)
            except CalculatorNotAvailable:
                if calc in k["calc"]:
                    bad(f"calculator:{calc}:refused")
                continue
            except Exception as exc:
                bad(f"calculator:{calc}:error", error=repr(exc))
                continue
            if calc not in k["calc"]:
                bad(f"calculator:{calc}:accepted", got=got)
            elif not (len(got) == 1 and 0.0 <= float(got[0]) <= 1.0):
                bad(f"calculator:{calc}:value", got=got)
        if "asymptotic" in k["calc"] and (i % 4 == 0 or vf.THOROUGH):
            ref = [float(x) for x in S.build(m, S.LinGaussNative).exclusion_confidence_level(poi_test=1.0, expected="apriori")]
            sm, calls = make(S, m, prov, k["contract"], off=False)
            got = [float(x) for x in sm.exclusion_confidence_level(poi_test=1.0, expected="apriori")]
            n += 1
            if not S.close(got, ref, 5e-3):
                bad("calculator:asymptotic:meaning", got=got, want=ref)
            sm, calls = make(S, m, prov, k["contract"], off=False)
            s = sm.sigma_mu(1.5, test_statistics="q")
            ref = float(S.build(m, S.LinGaussHess if R["sigma"] == "hessian" else S.LinGaussNative).sigma_mu(1.5, test_statistics="q"))
            if not S.close(s, ref, 1e-2):
                bad(f"sigma:{R['sigma']}", got=s, want=ref)
            if (R["sigma"] == "hessian") != ("hessian" in calls):
                bad("sigma:route", calls=calls[:10])
        return out, n
    for bad, n in vf.pmap(work, list(enumerate(cases))):
        c.traces += n
        for key, d in bad:
            c.violation(key, d)
    c.sample(cases[7])

    # built-in models: what they list works
    def builtin(n):
        out = []
        sm = hypo.ZOO[n]()
        sm.ntoys = 4
        for calc in ("asymptotic", "toy", "chi_square"):
            np.random.seed(3)
            ok = calc in sm.available_calculators
            try:
                v = sm.exclusion_confidence_level(poi_test=1.0, calculator=calc)
                if not ok or not all(0.0 <= float(x) <= 1.0 for x in v):
                    out.append((f"built-in:{calc}:{n}", {"listed": ok, "got": v}))
            except CalculatorNotAvailable:
                if ok:
                    out.append((f"built-in:{calc}:{n}", {"refused": True}))
        if list(sm.available_calculators) != ["toy", "asymptotic", "chi_square"]:
            out.append((f"built-in:listed:{n}", {"got": sm.available_calculators}))
        return out
    # a model without signal can be tested as well: what is listed depends on the backend alone
    import spey
    dead = {"uncorr": spey.get_backend("default.uncorrelated_background")(signal_yields=[0.0, 0.0], background_yields=[20.0, 9.0], data=[23, 8], absolute_uncertainties=[2.0, 1.0]),
            "corr": spey.get_backend("default.correlated_background")(signal_yields=[0.0, 0.0], background_yields=[20.0, 9.0], data=[23, 8], covariance_matrix=[[4.0, 0.5], [0.5, 1.0]]),
            "poisson": spey.get_backend("default.poisson")(signal_yields=[0.0], background_yields=[20.0], data=[23]),
            "normal": spey.get_backend("default.normal")(signal_yields=[0.0], background_yields=[20.0], data=[23], absolute_uncertainties=[2.0])}
    for n, sm in dead.items():
        c.traces += 1
        if list(sm.available_calculators) != ["toy", "asymptotic", "chi_square"]:
            c.violation(f"built-in:listed:no-signal:{n}", {"got": sm.available_calculators})
    names = list(hypo.ZOO) if vf.THOROUGH else ["uncorr-under", "corr-over", "third", "effsig", "poisson", "normal", "mvn"]
    for bad in vf.pmap(builtin, names, chunk=1):
        c.traces += 1
        for key, d in bad:
            c.violation(key, d)


if __name__ == "__main__":
    vf.main(run, "L06")
