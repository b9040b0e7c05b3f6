"""H05: chi-square values and interval endpoints.  ChiSqMC.tla enumerates models, references, sides and levels and emits
exact values; replayed through chi2 (single values, collections, mappings, scans), chi2_test and pull."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import fitspy
fitspy.install()
import numpy as np

MUS, THS = [-1.0, 0.0, 0.5, 1.0, 2.5], [-0.5, 0.0, 1.0]
OFF = 120          # an uninformative row moves the likelihood by 7200: differences survive, single precision does not


def run(c):
    import queryfits
    queryfits.replay(c, ("chi2", "chi2-many", "chi2-point"))
    import hypo, spey
    from hypo import EX
    from spey import StatisticalModel
    inst = "---- MODULE ChiSqH05 ----\nEXTENDS ChiSqMC\nNsV == %s\nSsV == %s\nTsV == %s\n====\n" % (
        ("{2, 5, 9}", "{1, 2}", "{0, 1, 2}") if not vf.THOROUGH else ("{1, 2, 5, 6, 9, 12}", "{1, 2, 3}", "{0, 1, 2}"))
    r = vf.tlc("ChiSqH05", "CONSTANTS Emit = TRUE\n Ns <- NsV\n Ss <- SsV\n Ts <- TsV\nINIT Init\nNEXT Next\nINVARIANTS NonNegative Sides Wider Out\nCHECK_DEADLOCK FALSE\n",
               extra_files=[("ChiSqH05.tla", inst)], timeout=800)
    c.count(r)
    cases = r.json_prints()

    def make(m, kind, **kw):
        cols, names = [[m["s"], m["t"]], [0, 1], [0, 0]], ["mu", "th"]
        if kw.pop("swap"):
            cols, names, kw["poi"] = [r[::-1] for r in cols], names[::-1], 1
        b = kind([m["b"], 0, 0], cols, [m["n"], 0, OFF], apriori=[m["b"], 0, OFF], names=names, **kw)
        return StatisticalModel(b, "x")

    def work(ik):
        i, k = ik
        out, n = [], 0
        m, e = k["m"], (EX[k["ex"]] if i % 4 else k["ex"])
        kinds = [(hypo.LinGaussNative, {})]
        if i % 6 == 0 or vf.THOROUGH:
            kinds.append((hypo.LinGaussGen, {"grad": bool(i % 12)}))
        for kind, kw in kinds:
            swap = (i // 3) % 2
            iM, iT, kw = swap, 1 - swap, dict(kw, swap=swap)
            tol = 2e-5 if kind is hypo.LinGaussNative else 2e-3
            exact = kind is hypo.LinGaussNative
            tag = lambda s: f"chi2:{s}"
            den = {"fit": None, "zero": 0.0, "two": 2.0, "point": {"mu": 1.0, iT: 0.5}}[k["ref"]]
            if k["ref"] == "zero" and i % 2:
                den = {"mu": 0.0}
            kwargs = dict(poi_test_denominator=den, expected=e, allow_negative_signal=k["neg"])

            def cmp(what, got, want):
                got = np.asarray(got, dtype=float).ravel()
                want = np.asarray(want, dtype=float).ravel() / 1e6
                if got.shape != want.shape or np.any(~np.isfinite(got)) or np.any(np.abs(got - want) > tol * (1 + np.abs(want))):
                    out.append((tag(what), {"case": k, "kind": kind.__name__, "got": got.tolist(), "want": want.tolist()}))
            # the values do not depend on the side / level dimensions of the case: once per (model, data, reference)
            if k["lim"] == "left" and k["cl"] == 95:
                sm = make(m, kind, **kw)
                forms = [("list", lambda v: list(v)), ("array", lambda v: np.array(v)), ("tuple", lambda v: tuple(v)), ("iterator", lambda v: iter(v))]
                fname, form = forms[i % 4]
                cmp("single", [sm.chi2(v, **kwargs) for v in MUS], k["mu"])
                cmp("collection-" + fname, sm.chi2(form(MUS), **kwargs), k["mu"])
                cmp("mapping", [sm.chi2({("mu" if i % 2 else iM): v}, **kwargs) for v in MUS], k["mu"])
                pt = {("mu", "th"): None}
                cmp("point", [[sm.chi2({"mu": a, iT: b}, **kwargs) for b in THS] for a in MUS[:2]], k["pt"][:2])
                cmp("scan-nuisance", [sm.chi2({"mu": a, "th": form(THS) if fname != "iterator" else THS}, **kwargs) for a in MUS[2:4]], k["pt"][2:4])
                scan = {"mu": np.array(MUS)}
                cmp("scan", sm.chi2(scan, **kwargs), k["mu"])
                if list(scan) != ["mu"] or not np.array_equal(scan["mu"], MUS):
                    out.append((tag("argument-modified"), {"case": k, "argument": str(scan)}))
                if k["ref"] == "fit" and k["neg"]:
                    hat = sm.maximize_likelihood(expected=e)[0]
                    p = [float(sm.pull(v, expected=e)) for v in MUS]
                    want = [np.sign(hat - v) * np.sqrt(max(x, 0) / 1e6) for v, x in zip(MUS, k["mu"])]
                    # a value at the best fit only has to vanish
                    if any(abs(a - b) > 5 * tol ** 0.5 for a, b in zip(p, want) if b == b and a == a) or any(a != a and exact for a in p):
                        out.append(("pull", {"case": k, "got": p, "want": want}))
                n += 1
            if k["ref"] != "fit":
                continue
            if not exact and k["cl"] in (90, 99):
                continue
            sm = make(m, kind, **kw)
            ends = sm.chi2_test(expected=e, confidence_level=k["cl"] / 100, limit_type=k["lim"], allow_negative_signal=True if k["neg"] else None)
            tol = 6e-4 if exact else 2e-3
            if k["neg"] or k["lim"] != "right" or True:
                cmp("ends-" + k["lim"], ends, k["ends"])
            par = ("th", iT)[i % 2]
            if k["neg"]:
                cmp("nuisance-" + k["lim"], sm.chi2_test(expected=e, confidence_level=k["cl"] / 100, limit_type=k["lim"], parameter=par, poi_value=1.0), k["th1"])
                cmp("nuisance-none-" + k["lim"], sm.chi2_test(expected=e, confidence_level=k["cl"] / 100, limit_type=k["lim"], parameter=par, poi_value=(0.0, 0)[i % 2]), k["th0"])
                cmp("nuisance-free-" + k["lim"], sm.chi2_test(expected=e, confidence_level=k["cl"] / 100, limit_type=k["lim"], parameter=par, poi_value=None), k["thf"])
            n += 1
        return out, n
    for bad, n in vf.pmap(work, list(enumerate(cases))):
        c.traces += n
        for key, d in bad:
            c.violation(key, d)
    c.sample(cases[5])
    # interval endpoints of built-in models lie on the level set of their own likelihood, on the side asked for
    def builtin(arg):
        n, lim, cl = arg
        zsq = {0.68: 0.988946, 0.95: 3.841459}[cl]
        out = []
        sm, fresh = hypo.ZOO[n](), hypo.ZOO[n]()
        neg = lim != "right"
        hat, nll = fresh.maximize_likelihood(allow_negative_signal=neg)
        ends = sm.chi2_test(confidence_level=cl, limit_type=lim)
        if len(ends) != (2 if lim == "two-sided" else 1):
            out.append((f"chi2:builtin-count:{n}", {"ends": ends, "limit": lim}))
        sides = {"left": (-1,), "right": (1,), "two-sided": (-1, 1)}[lim]
        for x, s in zip(ends, sides):
            v = 2 * (fresh.likelihood(float(x)) - nll)
            if (x - hat) * s <= 0 or abs(v - zsq) > 0.02:
                out.append((f"chi2:builtin-ends:{n}:{lim}", {"end": float(x), "best": float(hat), "chi2": float(v), "want": zsq}))
        for calc in ("asymptotic", "chi_square"):
            for ex in ("observed", "apriori"):
                for neg2 in (False, True):
                    for mu in (0.0, 0.4, 2.0):
                        v = fresh.exclusion_confidence_level(mu, expected=EX[ex], calculator=calc, allow_negative_signal=neg2)
                        if any(not 0.0 <= float(p) <= 1.0 for p in v):
                            out.append((f"probability:{calc}", {"model": n, "mu": mu, "ex": ex, "got": [float(p) for p in v]}))
        return out
    for bad in vf.pmap(builtin, [(n, lim, cl) for n in ("poisson", "poisson-over", "normal", "mvn", "mvn-over") for lim in ("left", "right", "two-sided")
                                 for cl in (0.68, 0.95)], chunk=1):
        c.traces += 1
        for key, d in bad:
            c.violation(key, d)
    wells(c, spey, StatisticalModel)
    limits(c, spey, StatisticalModel)
    import confine

    def what(sm, k, o, e, exact, i):
        mu, t = k["mu"][0] / k["mu"][1], 1e-5 if exact else 3e-3
        o = dict(o, expected=e, allow_negative_signal=k["neg"])
        fit, zero = k["fit"] / 1e6, k["zero"] / 1e6
        return [("chi2", sm.chi2(mu, **o), fit, t), ("chi2-zero", sm.chi2(mu, poi_test_denominator=(0.0, {"mu": 0.0})[i % 2], **o), zero, t),
                ("chi2-scan", sm.chi2({"mu": [mu, mu]}, **o), [fit, fit], t), ("chi2-collection", sm.chi2([mu, 0.0], **o), [fit, fit - zero], t),
                ("chi2-scan-zero", sm.chi2({sm.backend.poi: np.array([mu, 0.0])}, poi_test_denominator=0, **o), [zero, 0.0], t)]
    confine.replay(c, what)


def wells(c, spey, StatisticalModel):
    """Profiles with two minima (WellsMC.tla): end points of disjoint regions, from either starting point, wide or narrow."""
    import random
    from spey.base.model_config import ModelConfig
    inst = ("---- MODULE WellsH05 ----\nEXTENDS WellsMC\nCV == {-1500000, -500000, 250000, 1000000, 2000000}\nWV == {2, 6, 20}\nDV == {0, 500000, 1250000}\n====\n")
    r = vf.tlc("WellsH05", "CONSTANTS Emit = TRUE\n Centres <- CV\n Weights <- WV\n Depths <- DV\nINIT Init\nNEXT Next\nINVARIANTS OnLevel Even Encloses Out\n"
               "CHECK_DEADLOCK FALSE\n", extra_files=[("WellsH05.tla", inst)], timeout=600)
    c.count(r)

    class Wells(spey.BackendBase):
        name, version, author, spey_requires = "verif_wells", "1", "verif", ">=0.0.1"

        def __init__(self, k, nuis, start, scale):
            self.k, self.nuis, self.start, self.scale = k, nuis, start, scale

        @property
        def is_alive(self):
            return True

        def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
            lim = (-10.0 * self.scale, 10.0 * self.scale)
            one = lim if allow_negative_signal else (0.0, lim[1])
            return ModelConfig(0, lim[0], [1.0, self.start] if self.nuis else [self.start], [(-10.0, 10.0), lim] if self.nuis else [one],
                               parameter_names=["mu", "th"] if self.nuis else ["mu"])

        def f(self, x):
            x = x / self.scale
            return min(w["w"] * (x - w["m"] / 1e6) ** 2 / 2 + w["d"] / 1e6 for w in (self.k["a"], self.k["b"]))

        def get_logpdf_func(self, expected=None, data=None):
            return lambda p: -(self.f(p[1]) + (p[0] - 1) ** 2 / 2 if self.nuis else self.f(p[0]))

        def expected_data(self, pars, **k):
            return np.array([0.0])

    def one(a):
        i, k = a
        rng = random.Random(vf.SEED * 7919 + i)
        nuis, lim, fine, scale = i % 2 == 1, ("two-sided", "left", "right")[i % 3], rng.random() < 0.5, rng.choice([1.0, 1.0, 10.0])
        away = rng.random() < 0.4          # the fit starts in the other well: the reference has to be scanned for
        scale = 1.0 if away else scale     # the scan for a better reference covers a fixed window around the fit
        start = ([w["m"] for w in (k["a"], k["b"]) if w["m"] != k["best"]][0] if away else k["best"]) / 1e6 * scale
        m = StatisticalModel(Wells(k, nuis, start, scale), "w")
        kw = {"n_scan": 201 if fine else 3, "n_multistart": 201 if away else rng.choice([2, 9])}
        if nuis:
            kw.update(parameter=rng.choice(["th", 1]), poi_value=rng.choice([1.0, None, 0.0]))
        elif lim == "right":
            kw["allow_negative_signal"] = True
        ends = m.chi2_test(confidence_level=k["cl"] / 100, limit_type=lim, **kw)
        want = [x / 1e6 * scale for x in k["ends"] if lim == "two-sided" or (x < k["best"]) == (lim == "left")]
        d = {"case": k, "limit": lim, "start": start, "scale": scale, "options": {x: str(y) for x, y in kw.items()}, "got": [float(x) for x in ends], "want": want}
        tol = 1.5e-3 * scale
        near = lambda x, s: any(abs(float(x) - y) < tol for y in s)
        if not ends or not all(near(x, want) for x in ends):
            return [("wells:not an end point", d)]
        if any(b <= a for a, b in zip(ends, list(ends)[1:])):
            return [("wells:order", d)]
        if lim == "two-sided" and not (ends[0] < k["best"] / 1e6 * scale < ends[-1]):
            return [("wells:both sides", d)]
        # every interval of the region lies within the first window searched only for the nuisance at scale one
        if fine and scale == 1.0 and not all(near(y, ends) for y in want):
            return [("wells:missing", d)]
        return []
    cs = r.json_prints()
    random.Random(vf.SEED).shuffle(cs)
    if not vf.THOROUGH:
        cs = cs[:700]
    for bad in vf.pmap(one, list(enumerate(cs))):
        c.traces += 1
        for key, d in bad:
            c.violation(key, d)


def limits(c, spey, StatisticalModel):
    """Intervals cut by the limits of the parameter, or without an end on one side (LimitsMC.tla)."""
    import math
    from spey.base.model_config import ModelConfig
    inst = ("---- MODULE LimitsH05 ----\nEXTENDS LimitsMC\nBV == {-700000, 200000, 1500000}\nRV == {300000, 700000, 6000000}\n====\n")
    r = vf.tlc("LimitsH05", "CONSTANTS Emit = TRUE\n Bests <- BV\n Rooms <- RV\nINIT Init\nNEXT Next\nINVARIANTS Within NeverAbove OnLevelUnlessCut Out\n"
               "CHECK_DEADLOCK FALSE\n", extra_files=[("LimitsH05.tla", inst)], timeout=600)
    c.count(r)

    class Cut(spey.BackendBase):
        name, version, author, spey_requires = "verif_cut", "1", "verif", ">=0.0.1"

        def __init__(self, k, nuis):
            self.k, self.nuis = k, nuis

        @property
        def is_alive(self):
            return True

        def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
            k = self.k
            if self.nuis:
                return ModelConfig(0, -10.0, [1.0, k["h"] / 1e6], [(-10.0, 10.0), ((k["h"] - k["l"]) / 1e6, (k["h"] + k["r"]) / 1e6)], parameter_names=["mu", "th"])
            return ModelConfig(0, -10.0, [k["h"] / 1e6], [(-10.0 if allow_negative_signal else 0.0, 10.0)], parameter_names=["mu"])

        def f(self, x):
            d = x - self.k["h"] / 1e6
            v = self.k["w"] * d * d / 2
            if not self.nuis and self.k["flat"] == ("left" if d < 0 else "right"):
                v = min(v, 0.2)
            return v

        def get_logpdf_func(self, expected=None, data=None):
            return lambda p: -(self.f(p[1]) + (p[0] - 1) ** 2 / 2 if self.nuis else self.f(p[0]))

        def expected_data(self, pars, **k):
            return np.array([0.0])

    def one(a):
        i, k = a
        nuis, lim = i % 3 != 0, ("two-sided", "left", "right")[(i // 3) % 3]
        if not nuis and k["flat"] == "none":
            return []
        kw = {"parameter": ("th", 1)[i % 2], "poi_value": (1.0, None)[(i // 2) % 2]} if nuis else {"allow_negative_signal": True}
        # a search that goes on beyond the limit of the parameter may also report the crossing of the level it finds there
        want = [(k["nl"], False), (k["nr"], False)] if nuis else [(k["sl"]["x"], k["sl"]["open"]), (k["sr"]["x"], k["sr"]["open"])]
        cross = [k["sl"]["x"], k["sr"]["x"]]
        pick = {"two-sided": slice(0, 2), "left": slice(0, 1), "right": slice(1, 2)}[lim]
        want, cross = want[pick], cross[pick]
        d = {"case": k, "limit": lim, "options": {x: str(y) for x, y in kw.items()}, "want": want}
        try:
            got = [float(x) for x in StatisticalModel(Cut(k, nuis), "x").chi2_test(confidence_level=k["cl"] / 100, limit_type=lim, **kw)]
        except Exception as e:  # noqa: BLE001
            return [("limits:refused", {**d, "error": repr(e)})]
        d["got"] = got
        if len(got) != len(want) or any((math.isfinite(g) and abs(g) < 9e4) if o else not (abs(g - w / 1e6) < 2e-3 or abs(g - x / 1e6) < 2e-3)
                                        for g, (w, o), x in zip(got, want, cross)):
            return [("limits:" + ("nuisance" if nuis else "strength"), d)]
        return []
    cs = r.json_prints()
    if len(cs) < 200:
        raise vf.MachineryError("too few interval cases")
    for bad in vf.pmap(one, list(enumerate(cs))):
        c.traces += 1
        for key, d in bad:
            c.violation(key, d)


if __name__ == "__main__":
    vf.main(run, "H05")
