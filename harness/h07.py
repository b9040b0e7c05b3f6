"""H07: uncertainty of the signal strength and pulls.  SigmaMC.tla enumerates one-bin models and emits both uncertainty
routes and the pull; replayed on backends with and without second derivatives, number types and collections."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import fitspy
fitspy.install()
import numpy as np

INST = "---- MODULE SigmaH07 ----\nEXTENDS SigmaMC\nNsV == %s\nSsV == %s\nTsV == %s\nMusV == %s\n====\n"
CFG = ("CONSTANTS Emit = TRUE\n Ns <- NsV\n Ss <- SsV\n Ts <- TsV\n Mus <- MusV\nINIT Init\nNEXT Next\nINVARIANTS Agree AntiSym Unit Out\nCHECK_DEADLOCK FALSE\n")


def run(c):
    import queryfits
    queryfits.replay(c, ("sigma", "sigma-hessian", "pull", "pull-many", "pull-map"))
    import hypo
    from hypo import EX
    inst = INST % (("{3, 6, 9}", "{1, 3}", "{0, 2}", "{<<-1, 1>>, <<1, 1>>, <<5, 2>>, <<4, 1>>, <<1, 8>>}") if not vf.THOROUGH else
                   ("0..10", "1..4", "0..3", "{<<-2, 1>>, <<-1, 1>>, <<1, 3>>, <<1, 8>>, <<1, 1>>, <<2, 1>>, <<5, 2>>, <<4, 1>>}"))
    r = vf.tlc("SigmaH07", CFG, extra_files=[("SigmaH07.tla", inst)], timeout=800)
    c.count(r)
    cases = r.json_prints()

    def forms(k):
        a, b = k["mu"]
        v = [a / b]
        if b == 1:
            v += [int(a), np.int64(a), np.float32(a), np.float64(a)]
        return v

    def work(ik):
        i, k = ik
        out, n = [], 0
        for kind, kw, what in ((hypo.LinGaussNative, {}, "sigmaA"), (hypo.LinGaussHess, {"grad": bool(i % 2)}, "sigma"), (hypo.LinGaussGen, {"grad": True}, "sigmaA")):
            if kind is hypo.LinGaussGen and i % 3 and not vf.THOROUGH:
                continue
            tol = 1e-4 if kind is hypo.LinGaussNative else 4e-3
            if 0 < k["mu"][0] * 2 < k["mu"][1]:     # close to the reference the statistic is small and its square root coarse
                tol = 1e-3 if kind is hypo.LinGaussNative else 2e-2
            fs = forms(k)
            v = fs[i % len(fs)]
            e = EX[k["ex"]] if i % 3 else k["ex"]
            swap = (i // 2) % 2
            sm = hypo.onebin(k["m"], kind, swap=swap, names=["mu", "th"], **kw)
            got = float(sm.sigma_mu(v, expected=e, test_statistics=k["name"]))
            n += 1
            if not abs(got - k[what] / 1e6) <= tol * (1 + k[what] / 1e6):
                out.append((f"sigma:{what}:{k['name']}", {"case": k, "kind": kind.__name__, "got": got}))
            if kind is hypo.LinGaussHess:
                g2 = float(sm.sigma_mu_from_hessian(({"mu": float(v)} if i % 2 else {int(swap): float(v)}), expected=e))
                if not abs(g2 - k["sigma"] / 1e6) <= tol * (1 + k["sigma"] / 1e6):
                    out.append(("sigma:hessian-mapping", {"case": k, "got": g2}))
            if k["name"] != "q":
                continue
            ptol = 3e-3 if kind is hypo.LinGaussNative else 6e-3
            for form, val in (("single", v), ("list", [v, 0.5]), ("array", np.array([float(v), 0.5])), ("tuple", (v,)), ("mapping", {"mu": v}), ("mapping", {int(swap): v})):
                for neg, want in ((True, k["pull"]), (False, k["pullP"])):
                    try:
                        p = sm.pull(val, expected=e, allow_negative_signal=neg)
                        p = float(np.ravel(p)[0])
                    except (TypeError, ValueError, IndexError) as exc:
                        out.append((f"pull:{form}:refused", {"case": k, "error": repr(exc)}))
                        continue
                    if not abs(p - want / 1e6) <= ptol * (1 + abs(want) / 1e6):
                        out.append((f"pull:{form}", {"case": k, "kind": kind.__name__, "neg": neg, "got": p}))
        return out, n
    for bad, n in vf.pmap(work, list(enumerate(cases))):
        c.traces += n
        for key, d in bad:
            c.violation(key, d)
    c.sample(cases[3])

    # built-in models: the pull at the best fit vanishes, its square is the statistic; the uncertainty is the curvature of the
    # profile likelihood the model reports
    def builtin(arg):
        n, ex = arg
        e = EX[ex]
        out = []
        sm, fresh = hypo.ZOO[n](), hypo.ZOO[n]()
        hat, nll = fresh.maximize_likelihood(expected=e)
        p0 = float(sm.pull(float(hat), expected=e))
        if not abs(p0) < 5e-3:
            out.append((f"pull:at-best-fit:{n}", {"got": p0}))
        s = float(sm.sigma_mu(float(hat), expected=e))
        for d in (-1.0, 1.0):
            x = float(hat) + d * s
            v = float(sm.pull(x, expected=e))
            w = 2 * (float(fresh.likelihood(x, expected=e)) - nll)
            if v * d > 0 or abs(v * v - w) > 1e-3 * (1 + w):
                out.append((f"pull:built-in:{n}", {"x": x, "expected": ex, "pull": v, "likelihood": w}))
        h = 0.1 * s
        L = [float(fresh.likelihood(float(hat) + j * h, expected=e)) for j in (-1, 0, 1)]
        curv = (L[0] + L[2] - 2 * L[1]) / h ** 2
        if abs(s * curv ** 0.5 - 1) > 0.03:
            out.append((f"sigma:built-in:{n}", {"sigma": s, "expected": ex, "from profile": curv ** -0.5}))
        return out
    for bad in vf.pmap(builtin, [(n, ex) for n in hypo.ZOO for ex in ("observed", "apriori")], chunk=1):
        c.traces += 1
        for key, d in bad:
            c.violation(key, d)
    import confine

    def what(sm, k, o, e, exact, i):
        mu, t = k["mu"][0] / k["mu"][1], 1e-5 if exact else 3e-3
        p, w = float(sm.pull((mu, {"mu": mu})[i % 2], expected=e, allow_negative_signal=k["neg"], **o)), k["pull"] / 1e6
        res = [("pull", p * abs(p), w * abs(w), t)]
        if mu > 0:
            res.append(("sigma", sm.sigma_mu(mu, expected=e, test_statistics="q" if k["neg"] else "qtilde", **o), k["sigma"] / 1e6, t))
        return res
    confine.replay(c, what)


if __name__ == "__main__":
    vf.main(run, "H07")
