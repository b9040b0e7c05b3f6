"""P01: edits of the parameter space.  ParamSpaceMC.tla enumerates layouts, edits and (simulated) edit sequences; the
harness performs them on real configurations and ParamSpaceTrace.tla judges every returned value and the configuration
afterwards.  The rescaled configurations of the built-in models are judged by the same operators."""
import time, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

NONE, NINF = 1999999999, -1999999999
INST = """---- MODULE ParamP01 ----
EXTENDS ParamSpaceMC
PairsV == {<<-2, 3>>, <<0, 3>>, <<None, None>>, <<None, 3>>, <<-2, None>>, <<1, 3>>}
MinsV == {-5, -2, 0, NInf}
ValsV == {-7, -2, -1, 0, 2, 3, 9}
UppersV == {None, 0, 4, 10}
NParsV == %s
====
"""
CFG = ("CONSTANTS Emit = TRUE\n Pairs <- PairsV\n Mins <- MinsV\n Vals <- ValsV\n Uppers <- UppersV\n NPars <- NParsV\n Depth = %d\n SingleFix = %s\n"
       "INIT Init\nNEXT Next\nINVARIANTS OneName SameSpace %s\nCHECK_DEADLOCK FALSE\n")
TCFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"


def dec(x):
    return None if x == NONE else float("-inf") if x == NINF else float(x)


def enc(x, scale=1):
    if x is None:
        return NONE
    x = float(x)
    if x == float("-inf"):
        return NINF
    if x != x or abs(x) > 1e9 / scale:
        return 1999999998
    r = round(x * scale)
    return r if scale > 1 or r == x else 1999999997


def encb(bs, scale=1):
    try:
        return [[enc(a, scale), enc(b, scale)] for a, b in bs]
    except (TypeError, ValueError):
        return [[str(bs)]]


def make(c):
    from spey.base.model_config import ModelConfig
    n = len(c["bounds"])
    return ModelConfig(poi_index=c["poi"] - 1, minimum_poi=dec(c["min"]), suggested_init=[1.0 + j for j in range(n)],
                       suggested_bounds=[tuple(dec(x) for x in b) for b in c["bounds"]],
                       parameter_names=list(c["names"]) if c["named"] else None, suggested_fixed=[j % 2 == 1 for j in range(n)])


def rest(cfg):
    return (cfg.poi_index, cfg.minimum_poi, list(cfg.suggested_init), list(cfg.suggested_fixed), cfg.npar)


def perform(cfg, o, how, before):
    """Perform one edit; returns the event."""
    e = dict(o, err="", out=[])
    arg = None
    try:
        if o["op"] == "fix":
            vals = {j - 1: (float(v) if how % 2 else v) for j, v in o["fx"]}
            arg, keep = vals, dict(vals)
            if not vals:
                out = cfg.fixed_poi_bounds_multi({} if how % 2 else None)
            elif list(vals) == [cfg.poi_index] and how % 3 == 0:
                out = cfg.fixed_poi_bounds(vals[cfg.poi_index])
            else:
                out = cfg.fixed_poi_bounds_multi(vals)
            e["out"] = encb(out)
            if arg != keep:
                e["err"] = "argument changed"
            if vals:
                for k in range(len(out)):
                    out[k] = (-777.0, -776.0)
        elif o["op"] == "rescale":
            ub = dec(o["ub"])
            if how % 2 and ub is not None:
                out = cfg.rescale_poi_bounds(o["neg"], ub)
            elif ub is None and how % 2:
                out = cfg.rescale_poi_bounds(allow_negative_signal=o["neg"])
            else:
                out = cfg.rescale_poi_bounds(allow_negative_signal=o["neg"], poi_upper_bound=ub)
            e["out"] = encb(out)
            for k in range(len(out)):
                out[k] = (-777.0, -776.0)
        elif o["op"] == "rename":
            mp = {a: b for a, b in o["mp"]}
            keep = dict(mp)
            cfg.change_parameter_names(mp)
            if mp != keep:
                e["err"] = "argument changed"
        else:
            req = {(k["n"] if k["k"] == "name" else k["i"] - 1): v for k, v in zip(o["ks"], o["vs"])}
            e["out"] = [[j + 1, enc(v)] for j, v in cfg.resolve_poi_indices(req).items()]
    except ValueError as exc:
        e["err"] = type(exc).__name__
    e.update(bounds=encb(cfg.suggested_bounds), names=list(cfg.parameter_names or []), same=rest(cfg) == before)
    return e


def run(c):
    inst = INST % ("{1, 2}" if not vf.THOROUGH else "{1, 2, 3}")
    ex = [("ParamP01.tla", inst)]
    r = c.model("ParamP01", CFG % (0, "FALSE", "Feasible EmitAll"), extra_files=ex, workers=4, timeout=800)
    cases = r.json_prints()
    rng = random.Random(vf.SEED)
    if vf.THOROUGH and len(cases) > 1200:
        cases = [k for k in cases if len(k["c"]["bounds"]) < 3 or rng.random() < 0.03]
    r = vf.tlc("ParamP01", CFG % (5, "TRUE", "EmitOut"), extra_files=[("ParamP01.tla", INST % "{2, 3}")],
               args=["-simulate", "num=%d" % (25 if not vf.THOROUGH else 400), "-depth", "7", "-seed", str(vf.SEED)], timeout=600)
    c.count(r)
    seqs, seen = [], set()
    for k in r.json_prints():
        key = str(k)
        if key not in seen:
            seen.add(key)
            seqs.append(k)

    seqs = rng.sample(seqs, min(len(seqs), 1200 if not vf.THOROUGH else 20000))

    def work(a):
        i, k = a
        out = []
        if "ops" in k:
            ev = []
            cfg = make(k["c"])
            before = rest(cfg)
            renames = []
            for n, o in enumerate(sorted(k["ops"], key=str)):
                if o["op"] == "rename":
                    if vf.THOROUGH or i % 16 == 0:        # names do not depend on the bounds
                        renames.append((n, o))
                else:
                    ev.append(perform(cfg, o, i + n, before))
            out.append({"c": k["c"], "ev": ev})
            for n, o in renames:      # every renaming on its own configuration, then looked up again
                cfg = make(k["c"])
                t = [perform(cfg, o, i + n, rest(cfg))]
                for nm in ("mu", "z"):
                    t.append(perform(cfg, {"op": "resolve", "ks": [{"k": "name", "n": nm, "i": 0}], "vs": [1]}, i, rest(cfg)))
                out.append({"c": k["c"], "ev": t})
        else:
            cfg = make(k["c"])
            before = rest(cfg)
            out.append({"c": k["c"], "ev": [perform(cfg, o, i + n, before) for n, o in enumerate(k["h"])]})
        return out
    sel = cases if vf.THOROUGH else [k for n, k in enumerate(cases) if len(k["c"]["bounds"]) == 1 or n % 4 == vf.SEED % 4]
    traces = [t for ts in vf.pmap(work, list(enumerate(sel + seqs))) for t in ts if t["ev"]]
    print(len(traces), sum(len(t["ev"]) for t in traces), time.time()-c.t0)
    c.sample(traces[0]["ev"][:2])
    c.validate("ParamSpaceTrace", TCFG, traces, key=lambda i, l, cl: "edit:" + cl.strip('"'), heap="6g")

    # built-in models: the configuration for another domain of the signal strength
    import hypo

    def builtin(n):
        def one(sm):
            base = sm.backend.config()
            S = 1000000
            cc = {"poi": base.poi_index + 1, "min": enc(base.minimum_poi, S), "bounds": encb(base.suggested_bounds, S),
                  "named": base.parameter_names is not None, "names": list(base.parameter_names or [])}
            ev = []
            for neg in (True, False):
                for ub in (10.0, 3.0, 40.0):
                    for via in (sm.backend.config, sm.config):
                        got = via(allow_negative_signal=neg, poi_upper_bound=ub)
                        e = {"op": "rescale", "neg": neg, "ub": enc(ub, S), "err": "", "out": encb(got.suggested_bounds, S)}
                        again = sm.backend.config()
                        same = (got.poi_index, enc(got.minimum_poi, S), list(got.suggested_init), list(got.parameter_names or []), got.npar) == \
                               (cc["poi"] - 1, cc["min"], list(base.suggested_init), cc["names"], base.npar)
                        e.update(bounds=encb(again.suggested_bounds, S), names=list(again.parameter_names or []), same=same)
                        ev.append(e)
            return {"c": cc, "ev": ev}
        return one(MORE[n]() if n in MORE else hypo.ZOO[n]())
    import numpy as np, spey
    A = np.array
    MORE = {
        "uncorr-modifiers": lambda: spey.get_backend("default.uncorrelated_background")(signal_yields=[4.0, 5.0], background_yields=[20.0, 30.0], data=[21, 33],
            absolute_uncertainties=[3.0, 4.0], modifiers=[{"name": "n", "type": "normalization", "uncertainties": [1.0, 1.0]}, {"name": "s", "type": "shape", "uncertainties": [[1.0, 0.5], [1.0, 2.0]]}]),
        "mvn-callable": lambda: spey.get_backend("default.multivariate_normal")(signal_yields=lambda p: A([p[0], p[0] + p[1]]), background_yields=[5.0, 6.0],
            data=[5.0, 7.0], covariance_matrix=A([[2.0, 0.1], [0.1, 3.0]]), n_signal_parameters=2),
    }
    names = [*hypo.ZOO, *MORE]
    tr = vf.pmap(builtin, names)
    c.validate("ParamSpaceTrace", TCFG, tr, describe=lambda i: names[i], key=lambda i, l, cl: f"built-in:{names[i]}:" + cl.strip('"'))


if __name__ == "__main__":
    vf.main(run, "P01")
