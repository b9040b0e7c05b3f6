"""H06: discovery significance.  SigMC.tla enumerates one-bin models (excess, deficit, none) and emits the significances
and p-values the code must return; built-in backends are validated by ConfLevelTrace.tla against the likelihood values
they report themselves."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import fitspy
fitspy.install()

INST = "---- MODULE SigH06 ----\nEXTENDS SigMC\nNsV == %s\nSsV == %s\nTsV == %s\n====\n"
CFG = ("CONSTANTS Emit = TRUE\n Ns <- NsV\n Ss <- SsV\n Ts <- TsV\nINIT Init\nNEXT Next\n"
       "INVARIANTS NoExcess Monotone Ordered Central Precision Out\nCHECK_DEADLOCK FALSE\n")


def run(c):
    import queryfits
    queryfits.replay(c, ("significance",))
    import hypo
    from hypo import EX
    inst = INST % (("{2, 5, 6, 7, 9, 14, 18}", "{1, 2, 4}", "{0, 1, 2}") if not vf.THOROUGH else ("0..16", "1..5", "0..3"))
    r = vf.tlc("SigH06", CFG, extra_files=[("SigH06.tla", inst)], timeout=800)
    c.count(r)
    cases = r.json_prints()

    def work(ik):
        i, k = ik
        out, n = [], 0
        for kind, kw in ((hypo.LinGaussNative, {}), (hypo.LinGaussGen, {"grad": True}), (hypo.LinGaussGen, {}), (hypo.LinGaussHess, {})):
            if kind is not hypo.LinGaussNative and i % 3 and not vf.THOROUGH:
                continue
            exact = kind is hypo.LinGaussNative
            sm = hypo.onebin(k["m"], kind, swap=i % 5 in (1, 2), **kw)
            if i % 4 == 1:
                sm.exclusion_confidence_level(1.0, expected=EX["apriori"])
            e = k["ex"] if i % 3 == 0 else EX[k["ex"]]
            sA, s, p, pe = sm.significance(expected=e)
            key = f"exact:{k['ex']}:" + ("excess" if k["s"] else "deficit")
            st = 1e-5 if exact else 4e-3
            bad = []
            if abs(float(sA) - k["sA"] / 1e6) > st:
                bad.append("expected")
            # around a vanishing statistic the fit noise enters through the square root
            if abs(float(s) - k["s"] / 1e6) > st and abs(float(s) ** 2 - (k["s"] / 1e6) ** 2) > (1e-5 if exact else 1e-4):
                bad.append("observed")
            lt = 400 if exact else 30000
            if len(p) != 1 or abs(hypo.lnp(p[0]) - k["lnp"]) > lt - 3e-5 * k["lnp"]:
                bad.append("p-value")
            if len(pe) != 5 or any(abs(hypo.lnp(a) - b) > lt for a, b in zip(pe, k["lnpe"])):
                bad.append("expected p-values")
            n += 1
            for w in bad:
                out.append((key + ":" + w, {"case": k, "kind": kind.__name__, "got": [float(sA), float(s), [float(x) for x in p], [float(x) for x in pe]]}))
        return out, n
    for bad, n in vf.pmap(work, list(enumerate(cases))):
        c.traces += n
        for key, d in bad:
            c.violation(key, d)
    c.sample(cases[4])

    def builtin(arg):
        n, ex = arg
        f = hypo.facts(hypo.ZOO[n](), 0.0, ex, "q0")
        sm = hypo.ZOO[n]()
        sA, s, p, pe = sm.significance(expected=EX[ex])
        f.update(k="sig", ex=ex, r=[hypo.micro(sA), hypo.micro(s)], obs=[hypo.lnp(x) for x in p], expd=[hypo.lnp(x) for x in pe], stol=6000, tol=20000)
        return f, f"{n}:{ex}"
    res = vf.pmap(builtin, [(n, ex) for n in hypo.ZOO for ex in ("observed", "apriori", "aposteriori")])
    evs, about = [x[0] for x in res], [x[1] for x in res]
    c.validate("ConfLevelTrace", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", evs, describe=lambda i: about[i],
               key=lambda i, l, cl: f"built-in:{about[i]}:{cl}")
    import confine

    def what(sm, k, o, e, exact, i):
        o = dict(o, par_bounds=[(0.0, 50.0) if b[1] == 50.0 else b for b in o["par_bounds"]])
        sA, s, p, pe = sm.significance(expected=e, **o)
        return [("expected", sA, k["sA"] / 1e6, 1e-5 if exact else 3e-3), ("observed", s * s, (k["s"] / 1e6) ** 2, 1e-5 if exact else 3e-3)]
    confine.replay(c, what)


if __name__ == "__main__":
    vf.main(run, "H06")
