"""B05: third-moment expansion.  ThirdMoment.tla enumerates expansions, derives the moments they have, and requires the
expansion of those moments to return the coefficients; inadmissible moments and two-sided uncertainties likewise."""
import logging, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import numpy as np

INST = "---- MODULE ThirdB05 ----\nEXTENDS ThirdMoment\nBadV == {<<1, 3>>, <<1, -3>>, <<2, 9>>, <<4, 100>>, <<9, -400>>, <<16, 182>>, <<5, 32>>, <<2, -50>>}\nBsV == {%s}\nCsV == {%s}\nRhosV == {%s}\nMeansV == {%s}\nUpsV == {%s}\nDnsV == {%s}\n====\n"
CFG = ("CONSTANTS Emit = TRUE\n Bs <- BsV\n Cs <- CsV\n Rhos <- RhosV\n Means <- MeansV\n Ups <- UpsV\n Dns <- DnsV\n BadPairs <- BadV\nINIT Init\nNEXT Next\nINVARIANTS Injective Condition Odd NoScale Out\nCHECK_DEADLOCK FALSE\n")


UNITS = [(1.0, "both"), (1e-3, "both"), (0.1, "swap"), (250.0, "both"), (1e4, "both"), (0.02, "first"), (30.0, "second"), (1.0, "more"), (1e3, "more"),
         (1e-4, "mixed"), (50.0, "mixed"), (1e-5, "swap")]
SIDE_UNITS = [1.0, 1e-4, 0.01, 70.0, 3e3, 1e5]
SidesOne = 4 / np.sqrt(2 * np.pi)


class Keep(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, r):
        if r.levelno >= logging.WARNING:
            self.got.append(r.getMessage())


def run(c):
    from spey.backends.default_pdf.third_moment import third_moment_expansion, compute_third_moments
    lst = lambda xs: ", ".join(map(str, xs))
    if vf.THOROUGH:
        inst = INST % (lst(range(1, 11)), lst(range(-4, 5)), lst([-60, -25, 0, 10, 50, 90]), "40", lst(range(1, 12)), lst(range(1, 12)))
    else:
        inst = INST % (lst([1, 2, 3, 5, 8]), lst([-3, -1, 0, 1, 2, 4]), lst([-25, 0, 50, 80]), "30", lst([1, 2, 3, 5, 8]), lst([1, 2, 3, 5, 8]))
    r = vf.tlc("ThirdB05", CFG, extra_files=[("ThirdB05.tla", inst)], workers=4, timeout=800)
    c.count(r)
    rows = r.json_prints()
    if len(rows) < 1000:
        raise vf.MachineryError("too few cases")

    def perform(i):
        w = rows[i]
        out = []
        near = lambda a, b, t: np.shape(a) == np.shape(b) and np.all(np.abs(np.asarray(a) - np.asarray(b)) <= t)
        h = Keep()
        log = logging.getLogger("Spey")
        log.handlers, old, lev = [h], log.handlers, log.level
        log.setLevel(logging.WARNING)
        try:
            with np.errstate(all="ignore"):
                if w["kind"] == "two":
                    for un, form in UNITS if i % 7 == 0 or vf.THOROUGH else [UNITS[0], UNITS[1 + i % (len(UNITS) - 1)]]:
                        h.got.clear()
                        # the two bins alone, each alone, exchanged, or next to an independent bin
                        sel = {"both": [0, 1], "first": [0], "second": [1], "swap": [1, 0], "more": [0, 2, 1], "mixed": [0, 1]}[form]
                        us = np.array([un, un if form != "mixed" else 1.0, un])[sel]
                        cov0 = np.array([[w["cov"][0], w["cov"][1], 0.0], [w["cov"][1], w["cov"][2], 0.0], [0.0, 0.0, (16 + 2 * 4) * 1e4]]) / 1e4
                        rho0 = np.array([[1.0, w["rho"] / 100, 0.0], [w["rho"] / 100, 1.0, 0.0], [0.0, 0.0, 1.0]])
                        cov = cov0[np.ix_(sel, sel)] * np.outer(us, us)
                        mean = np.array(w["mean"] + [20.0], dtype=float)[sel] * us
                        m3 = np.array(w["m3"] + [6 * 16 * 2 + 8 * 8], dtype=float)[sel] * us ** 3
                        wA, wB, wC = [np.array(v, dtype=float)[sel] for v in (w["A"] + [18], w["B"] + [4], w["C"] + [2])]
                        keep = (cov.copy(), mean.copy(), m3.copy())
                        A, B, C, corr = third_moment_expansion(mean, cov, m3, True)
                        three = third_moment_expansion(mean, cov, m3)
                        tag = {"units": un, "form": form, "A": A.tolist(), "B": B.tolist(), "C": C.tolist()}
                        if not (near(A / us, wA, 1e-5) and near(B / us, wB, 1e-5) and near(C / us, wC, 1e-5)):
                            out.append(("coefficients", tag))
                        elif not (near((A + C) / us, mean / us, 1e-6) and near((B ** 2 + 2 * C ** 2) / us ** 2, np.diag(cov) / us ** 2, 1e-4) and near((6 * B ** 2 * C + 8 * C ** 3) / us ** 3, m3 / us ** 3, 1e-3)):
                            out.append(("moments", tag))
                        if len(three) != 3 or not all(near(a / us, b / us, 1e-12) for a, b in zip(three, (A, B, C))):
                            out.append(("with and without correlations", tag))
                        if not near(corr, rho0[np.ix_(sel, sel)], 2e-4):
                            out.append(("correlations", {**tag, "corr": corr.tolist()}))
                        if h.got and any("condition" in g or "zero" in g for g in h.got):
                            out.append(("admissible moments flagged", h.got))
                        if not all(np.array_equal(a, b) for a, b in zip(keep, (cov, mean, m3))):
                            out.append(("arguments changed", tag))
                elif w["kind"] == "bad":
                    for flip in (1, -1):
                        v, m3, mean = np.array(w["v"], dtype=float)[::flip], np.array(w["m3"], dtype=float)[::flip], np.array(w["mean"], dtype=float)[::flip]
                        h.got.clear()
                        A, B, C = third_moment_expansion(mean, np.diag(v), m3)
                        if not h.got:
                            out.append(("inadmissible moments not flagged", ""))
                        if not (near(A[::flip], w["A"], 1e-5) and near(B[::flip], np.array(w["B"]) / 1e6, 1e-5) and near(C[::flip], w["C"], 1e-5)):
                            out.append(("inadmissible moments", {"A": A.tolist(), "B": B.tolist(), "C": C.tolist()}))
                else:
                    u, d, want = w["u"], w["d"], w["m3"] / 1e6
                    for un in SIDE_UNITS:
                        near3 = lambda g, want: near(np.asarray(g) / un ** 3, want, 2e-5 * (1 + max(abs(v) for v in want)))
                        g = compute_third_moments(np.array([u * un, d * un, 2.0 * un]), np.array([d * un, u * un, 2.0 * un]))
                        g2, err = compute_third_moments([u * un], [-d * un], return_integration_error=True)
                        if not near3(g, [want, -want, 0.0]):
                            out.append(("third moment of a two-sided Gaussian", {"units": un, "got": np.asarray(g).tolist()}))
                        if not near3(g2, [want]) or np.shape(err) != (1,):
                            out.append(("signs of the uncertainties", {"units": un, "got": np.asarray(g2).tolist()}))
                        one = u ** 3 * SidesOne
                        g = compute_third_moments(np.array([u * un, 0.0]), np.array([0.0, u * un]))
                        if not near3(g, [one, -one]):
                            out.append(("third moment of a one-sided uncertainty", {"units": un, "got": np.asarray(g).tolist()}))
        finally:
            log.handlers = old
            log.setLevel(lev)
        return out
    for w, bad in zip(rows, vf.pmap(perform, range(len(rows)))):
        c.traces += 1
        for key, d in bad:
            c.violation(key, {"case": w, "got": d})
    c.sample(rows[7])


if __name__ == "__main__":
    vf.main(run, "B05")
