"""Options reach every fit behind a query (Confine.tla): answers of a model whose nuisance parameter is confined to one value by the
options of the query are those of the model without it."""
import numpy as np
import vf

INST = "---- MODULE ConfineI ----\nEXTENDS Confine\nNsV == %s\nSsV == %s\nTsV == %s\nAsV == %s\n====\n"
CFG = ("CONSTANTS Emit = TRUE\n Ns <- NsV\n Ss <- SsV\n Ts <- TsV\n As <- AsV\nINIT Init\nNEXT Next\nINVARIANTS Sharper Signs Out\nCHECK_DEADLOCK FALSE\n")


def cases(c):
    v = ("{3, 6, 9}", "{1, 2}", "{1, 2}", "{-1, 0, 1}") if not vf.THOROUGH else ("{2, 3, 5, 6, 9, 12}", "1..3", "1..2", "-2..2")
    r = vf.tlc("ConfineI", CFG, extra_files=[("ConfineI.tla", INST % v)], timeout=600)
    c.count(r)
    return r.json_prints()


def replay(c, what, kinds=None):
    """what(sm, case, opts, e, exact) -> [(key, got, want, tol)]"""
    import hypo
    ks = cases(c)

    def work(ik):
        i, k = ik
        out, n = [], 0
        for j, (kind, kw) in enumerate(kinds or [(hypo.LinGaussNative, {}), (hypo.LinGaussGen, {"grad": True}), (hypo.LinGaussGen, {})]):
            if j and (i + j) % 4 and not vf.THOROUGH:
                continue
            exact = kind is hypo.LinGaussNative
            swap = (i // 2 + j) % 2 == 1
            sm = hypo.onebin(k["m"], kind, swap=swap, names=["mu", "th"], **kw)
            a = float(k["a"])
            b = [(-50.0 if k["neg"] else 0.0, 50.0), (a, a) if exact else (a - 1e-7, a + 1e-7)]
            init = [0.5, a]
            if swap:
                b, init = b[::-1], init[::-1]
            opts = {"par_bounds": list(b), "init_pars": list(init)}
            if a == 0 and i % 2:
                opts.pop("init_pars")
            e = hypo.EX[k["ex"]] if i % 3 else k["ex"]
            try:
                res = what(sm, k, opts, e, exact, i)
            except Exception as exc:
                out.append(("options:refused", {"case": k, "kind": kind.__name__, "error": repr(exc)}))
                continue
            n += 1
            for key, got, want, tol in res:
                got, want = np.ravel(np.asarray(got, float)), np.ravel(np.asarray(want, float))
                if got.shape != want.shape or np.any(~(np.abs(got - want) <= tol * (1 + np.abs(want)))):
                    out.append(("options:" + key, {"case": k, "kind": kind.__name__, "swapped": swap, "options": str(opts), "got": got.tolist(), "want": want.tolist()}))
            if opts["par_bounds"] != b or (opts.get("init_pars") or init) != init:
                out.append(("options:modified", {"case": k, "options": str(opts)}))
        return out, n
    for bad, n in vf.pmap(work, list(enumerate(ks))):
        c.traces += n
        for key, d in bad:
            c.violation(key, d)
    c.sample(ks[3])
