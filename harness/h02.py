"""H02: asymptotic exclusion levels.  (a) ConfLevelMC.tla enumerates one-bin models with exactly known statistics, checks
ordering / monotonicity / range of the formulas and emits the levels each query must return; replayed through
StatisticalModel.exclusion_confidence_level on native and numerically fitted backends.  (b) Levels recorded from the
built-in backends are validated by TLC (ConfLevelTrace.tla) against the likelihood values the models themselves report."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import fitspy
fitspy.install()
import numpy as np

CFG = ("CONSTANTS Emit = TRUE\n Ns <- NsV\n Bs <- BsV\n Ss <- SsV\n Ts <- TsV\n Mus <- MusV\nINIT Init\nNEXT Next\n"
       "INVARIANTS Probability Ordered Monotone Out\nCHECK_DEADLOCK FALSE\n")
INST = ("---- MODULE ConfLevelH02 ----\nEXTENDS ConfLevelMC\nNsV == %s\nBsV == {%s}\nSsV == %s\nTsV == %s\nMusV == %s\n====\n")


def lncheck(got, want, tol=6000):
    import hypo
    g = hypo.lnm(got)
    if want < -20_000_000:
        return g < -18_000_000
    return abs(g - want) <= tol


def run(c):
    import queryfits
    queryfits.replay(c, ("excl", "excl-q"))
    import hypo
    from hypo import EX
    inst = INST % (("{2, 5, 6, 8}", "5", "{1, 3}", "{0, 2}", "{<<0, 1>>, <<1, 4>>, <<1, 1>>, <<2, 1>>, <<3, 1>>}") if not vf.THOROUGH else
                   ("{1, 2, 4, 5, 6, 8, 11}", "5", "{1, 2, 3}", "{0, 1, 2}", "{<<0, 1>>, <<1, 4>>, <<1, 1>>, <<3, 2>>, <<2, 1>>, <<3, 1>>, <<4, 1>>}"))
    r = vf.tlc("ConfLevelH02", CFG, extra_files=[("ConfLevelH02.tla", inst)], timeout=800)
    c.count(r)
    cases = r.json_prints()
    # weak and very strong signals, far deficits
    for v in (("{0, 4, 9}", "5", "{1}", "{0, 2}", "{<<1, 64>>, <<1, 32>>, <<1, 16>>, <<6, 1>>}"), ("{4, 9}", "14", "{1}", "{0, 2}", "{<<1, 32>>, <<1, 8>>, <<1, 1>>}")):
        r = vf.tlc("ConfLevelH02", CFG, extra_files=[("ConfLevelH02.tla", INST % v)], timeout=800)
        c.count(r)
        cases += [k for k in r.json_prints() if k["ex"] in ("observed", "all") and (vf.THOROUGH or k["m"]["n"] != 9 or k["mu"][1] == 1)]
    for i, k in enumerate(cases):
        m, mu = k["m"], k["mu"][0] / k["mu"][1]
        if k["mu"][1] == 1 and i % 2:      # any real number type
            mu = (int, np.int64, np.float32)[i % 3](mu)
        for kind, kw in ((hypo.LinGaussNative, {}), (hypo.LinGaussGen, {"grad": True}), (hypo.LinGaussGen, {})):
            if kind is hypo.LinGaussGen and (i + bool(kw)) % 2 and not vf.THOROUGH:
                continue
            sm = hypo.onebin(m, kind, swap=i % 7 in (1, 4, 5), **kw)
            if i % 3 == 0:   # declared names are interchangeable with members
                e = k["ex"]
            else:
                e = EX.get(k["ex"], k["ex"])
            if i % 5 == 0:
                sm.exclusion_confidence_level(0.75, expected=EX["apriori"], allow_negative_signal=not k["neg"])
            res = sm.exclusion_confidence_level(mu, expected=e, allow_negative_signal=k["neg"])
            if k["ex"] == "all":
                ok = len(res) == 2 and len(res[0]) == 1 and len(res[1]) == 5
                got = [*res[0], *res[1]] if ok else None
                want = [k["obs"], *k["expd"]]
            elif k["ex"] == "observed":
                ok, got, want = len(res) == 1, list(res), [k["obs"]]
            else:
                ok, got, want = len(res) == 5, list(res), k["expd"]
            c.traces += 1
            key = f"exact:{k['ex']}:{'q' if k['neg'] else 'qtilde'}"
            if not ok:
                c.violation(key + ":shape", {"case": k, "got": res})
            elif not all(lncheck(g, w) for g, w in zip(got, want)):
                c.violation(key, {"case": k, "kind": kind.__name__, "got": got, "ln(1-CL) micro expected": want})
    c.sample(cases[7])
    zero(c)
    import confine

    def what(sm, k, o, e, exact, i):
        cl = sm.exclusion_confidence_level(k["mu"][0] / k["mu"][1], expected=e, allow_negative_signal=k["neg"], **o)
        want = [k["obs"]] if k["ex"] == "observed" else k["expd"]
        ok = len(cl) == len(want) and all(lncheck(g, w, 6000 if exact else 20000) for g, w in zip(cl, want))
        return [("level:" + k["ex"], [] if ok else cl, [], 0)]
    confine.replay(c, what)
    # the distribution object behind the levels: tail, logarithm of the tail and value at n deviations are one object
    from spey.hypothesis_testing.distributions import AsymptoticTestStatisticsDistribution as Dist
    import math
    r = vf.tlc("TailMC", "CONSTANTS Emit = TRUE\nINIT Init\nNEXT Next\nINVARIANTS Falls Quantile Out\nCHECK_DEADLOCK FALSE\n")
    c.count(r)
    for k in r.json_prints():
        d, x = Dist(k["shift"] / 4), k["value"] / 4
        p, lp, at = float(d.pvalue(x)), float(d.logcdf(x)), float(d.expected_value(x))
        c.traces += 1
        want = k["lntail"] / 1e6
        if not (0 <= p <= 1 and abs(math.log(p) - want) <= 6e-3 * (1 + abs(want))):
            c.violation("distribution:tail", {"case": k, "got": p})
        if not abs(lp - want) <= 6e-3 * (1 + abs(want)):
            c.violation("distribution:log-tail", {"case": k, "got": lp})
        if abs(at - k["at"] / 1e6) > 1e-9:
            c.violation("distribution:value-at", {"case": k, "got": at})
    # recorded levels of the built-in backends
    evs, about = [], []
    names = list(hypo.ZOO)
    for n in names:
        for mu in ((0.7,) if not vf.THOROUGH else (0.2, 0.7, 1.0, 1.9)):
            for neg in (False, True):
                for ex in ("observed", "apriori", "aposteriori"):
                    name = "q" if neg else "qtilde"
                    f = hypo.facts(hypo.ZOO[n](), mu, ex, name)
                    res = hypo.ZOO[n]().exclusion_confidence_level(mu, expected=EX[ex], allow_negative_signal=neg)
                    f.update(k="cl", ex=ex, obs=[hypo.lnm(x) for x in res], expd=[hypo.lnm(x) for x in res], tol=20000)
                    evs.append(f)
                    about.append({"model": n, "mu": mu, "expected": ex, "neg": neg, "result": [float(x) for x in res]})
                    if ex == "observed":
                        o, x = hypo.ZOO[n]().exclusion_confidence_level(mu, expected="all", allow_negative_signal=neg)
                        evs.append(dict(f, ex="all", obs=[hypo.lnm(v) for v in o], expd=[hypo.lnm(v) for v in x]))
                        about.append({"model": n, "mu": mu, "expected": "all", "neg": neg})
    c.validate("ConfLevelTrace", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", evs, describe=lambda i: about[i],
               key=lambda i, l, cl: f"builtin:{about[i]['expected']}:{cl}")
    c.sample(about[0])


def zero(c):
    """Backends with likelihoods of their own, whose Asimov best fit may lie anywhere (ZeroMC.tla)."""
    import hypo, spey
    from hypo import EX
    from spey.base.model_config import ModelConfig
    r = vf.tlc("ZeroMC", "CONSTANT Emit = TRUE\nINIT Init\nNEXT Next\nINVARIANTS NoExclusion Order Out\nCHECK_DEADLOCK FALSE\n", timeout=300)
    c.count(r)

    class Own(spey.BackendBase):
        name, version, author, spey_requires = "verif_own", "1", "verif", ">=0.0.1"

        def __init__(self, hat, ha):
            self.hat, self.ha = hat, ha

        @property
        def is_alive(self):
            return True

        def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
            return ModelConfig(0, -10.0, [1.0], [(-10.0 if allow_negative_signal else 0.0, 10.0)], parameter_names=["mu"])

        def get_logpdf_func(self, expected=None, data=None):
            return lambda p: -(p[0] - self.hat) ** 2 / 2

        def negative_loglikelihood(self, poi_test=1.0, expected=None, **kw):
            return (poi_test - self.hat) ** 2 / 2, np.array([poi_test])

        def minimize_negative_loglikelihood(self, expected=None, allow_negative_signal=True, **kw):
            x = self.hat if allow_negative_signal else max(self.hat, 0.0)
            return (x - self.hat) ** 2 / 2, np.array([x])

        def asimov_negative_loglikelihood(self, poi_test=1.0, expected=None, test_statistics="qtilde", **kw):
            return (poi_test - self.ha) ** 2 / 2, np.array([poi_test])

        def minimize_asimov_negative_loglikelihood(self, expected=None, test_statistics="qtilde", **kw):
            x = self.ha if test_statistics in ("q", "qmu") else max(self.ha, 0.0)
            return (x - self.ha) ** 2 / 2, np.array([x])

    for k in r.json_prints():
        m = spey.StatisticalModel(Own(k["hat"] / 2, k["ha"] / 2), "own")
        neg, mu = k["name"] == "q", k["mu"] / 2
        c.traces += 1
        for ex in ("observed", "apriori", "aposteriori", "all"):
            res = m.exclusion_confidence_level(mu, expected=EX.get(ex, ex), allow_negative_signal=neg)
            parts = list(res) if ex == "all" else [res]
            want = {"observed": [[k["obs"]]], "all": [[k["obs"]], k["expd"]]}.get(ex, [k["expd"]])
            d = {"case": k, "expected": ex, "got": [[float(x) for x in p] for p in parts], "ln(1-CL) micro expected": want}
            if [len(p) for p in parts] != [len(w) for w in want]:
                c.violation(f"own:{ex}:shape", d)
            elif not all(lncheck(g, w) for p, ws in zip(parts, want) for g, w in zip(p, ws)):
                c.violation(f"own:{ex}", d)


if __name__ == "__main__":
    vf.main(run, "H02")
