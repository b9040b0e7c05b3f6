"""H01: test statistics.  TestStatMC.tla enumerates likelihood shapes, tested values and statistics, checks the
definition's consequences and emits every case with the defined value; each is replayed into
spey.hypothesis_testing.test_statistics.  HypoModel runs add the same statistics end to end."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import numpy as np

CFG = "CONSTANT Emit = TRUE\nINIT Init\nNEXT Next\nINVARIANTS NonNegative OneSided TrueMin Shift Out\nCHECK_DEADLOCK FALSE\n"


def run(c):
    from spey.hypothesis_testing.test_statistics import compute_teststatistics, get_test_statistic
    from spey.system.exceptions import AsimovTestStatZero, UnknownTestStatistics
    r = c.model("TestStatMC", CFG)
    cases = r.json_prints()
    if len(cases) < 1000:
        raise vf.MachineryError("too few cases")
    U = 1e6
    for k in cases:
        def nll(m, kap, base):
            return lambda x: -(base / U + kap * (x - m / U) ** 2 / 2)
        lp, lpA = nll(k["hat"], k["kap"], k["base"]), nll(k["hatA"], k["kapA"], 0)
        mu, hat = k["mu"] / U, k["hat"] / U
        seen = []

        def spy(x):
            seen.append(x)
            return lp(x)
        nhat = (k["base"] + k["lie"]) / U
        got = float(get_test_statistic(k["name"])(mu, hat, -nhat, spy))
        if not abs(got - k["q"] / U) < 2e-5 or got < 0:
            c.violation(f"value:{k['name']}", {"case": k, "got": got, "expected": k["q"] / U})
        c.traces += 1
        if k["name"] == "qmu_left":
            continue
        try:
            a, b, d = map(float, compute_teststatistics(mu, (hat, nhat), lp, (k["hatA"] / U, 0.0), lpA, k["name"]))
        except AsimovTestStatZero:
            a = b = d = None
        sq, sqA = (k["q"] / U) ** 0.5, (k["qA"] / U) ** 0.5
        if k["delta"] == 2_000_000_001:
            if d is not None:
                c.violation(f"undefined-shift:{k['name']}", {"case": k, "got": [a, b, d]})
        elif d is None:
            c.violation(f"shift-refused:{k['name']}", {"case": k})
        elif max(abs(a - sq), abs(b - sqA)) > 3e-3 or abs(d - k["delta"] / U) > 5e-3:
            c.violation(f"shift:{k['name']}", {"case": k, "got": [a, b, d], "expected": [sq, sqA, k["delta"] / U]})
    c.sample(cases[0])
    c.sample(cases[len(cases) // 2])
    # unknown names are refused, by name only
    for bad in ("", "Q", "qtildemu", "chi2", "q1", "qmu-tilde", "asymptotic", "q0 ", "None"):
        try:
            get_test_statistic(bad)
            c.violation("unknown-accepted", {"name": bad})
        except UnknownTestStatistics:
            pass
        try:
            compute_teststatistics(1.0, (0.5, 0.0), lambda x: 0.0, (0.0, 0.0), lambda x: 0.0, bad)
            c.violation("unknown-accepted", {"name": bad, "in": "compute"})
        except UnknownTestStatistics:
            pass
    endtoend(c)


def endtoend(c):
    """The statistics seen through the public queries, against the exact values of the one-bin model."""
    import spey
    from spey import StatisticalModel
    from backends import LinGaussNative, LinGaussGen
    from spey.hypothesis_testing.test_statistics import compute_teststatistics
    cfg = ("CONSTANTS Emit = TRUE\n Ns <- NsV\n Bs <- BsV\n Ss <- SsV\n Ts <- TsV\n Mus <- MusV\nINIT Init\nNEXT Next\n"
           "INVARIANTS Probability Ordered Monotone Out\nCHECK_DEADLOCK FALSE\n")
    inst = ("---- MODULE ConfLevelH01 ----\nEXTENDS ConfLevelMC\nNsV == {3, 5, 8}\nBsV == {5}\nSsV == {1, 2}\nTsV == {0, 2}\n"
            "MusV == {<<0, 1>>, <<1, 2>>, <<3, 1>>}\n====\n")
    r = vf.tlc("ConfLevelH01", cfg, extra_files=[("ConfLevelH01.tla", inst)])
    c.count(r)
    for k in r.json_prints():
        if k["ex"] not in ("observed", "apriori"):
            continue
        m = k["m"]
        for kind in (LinGaussNative, LinGaussGen):
            b = kind([m["b"], 0], [[m["s"], m["t"]], [0, 1]], [m["n"], 0], apriori=[m["b"], 0], grad=True)
            sm = StatisticalModel(b, "x")
            name = "q" if k["neg"] else "qtilde"
            mu = k["mu"][0] / k["mu"][1]
            e = spey.ExpectationType.observed if k["ex"] == "observed" else spey.ExpectationType.apriori
            hat, nhat = sm.maximize_likelihood(expected=e, allow_negative_signal=k["neg"])
            hatA, nhatA = sm.maximize_asimov_likelihood(expected=e, test_statistics=name)
            a, bb, _ = compute_teststatistics(
                mu, (hat, nhat), lambda x: -sm.likelihood(float(x), expected=e),
                (0.0 if abs(hatA) < 1e-4 else hatA, nhatA), lambda x: -sm.asimov_likelihood(float(x), expected=e, test_statistics=name),
                "q")
            # q is compared through the plain statistic: its reference is the fit, which already carries the bound
            for what, got, exp in (("observed", a, k["q"]), ("asimov", bb, k["qA"])):
                if abs(float(got) ** 2 - exp / 1e6) > 2e-3:
                    c.violation(f"end-to-end:{what}", {"case": k, "kind": kind.__name__, "got": float(got) ** 2, "expected": exp / 1e6})
            c.traces += 1


if __name__ == "__main__":
    vf.main(run, "H01")
