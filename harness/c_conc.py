"""C01/C02: interleavings of the result cache, recorded under a controlled scheduler and validated by TLC
against specs/ResultCache.tla."""
import os, sys, random, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, vsched

PID = sys.argv[1] if len(sys.argv) > 1 else "C01"

import numpy, scipy.optimize, scipy.stats, autograd, requests, tqdm, packaging.version, joblib  # noqa
try:
    import iminuit  # noqa
except ImportError:
    pass
import concurrent.futures, weakref, collections, functools  # noqa


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def load():
    with vsched.patched():
        import spey.system.cache as m
    return m


class Driver:
    def __init__(self, mod, rng):
        self.mod, self.rng = mod, rng

    def scenario(self):
        r = self.rng
        kind = r.choice(["inst", "inst", "inst", "slots", "func"])
        nthr = r.choice([2, 2, 3, 3, 4])
        nkey = r.choice([1, 2, 2, 3])
        nobj = r.choice([1, 1, 2])
        mx = r.choice([0, 1, 1, 1, 2, 2, -1])
        clear_p = r.choice([0, 0, 0.15, 0.3]) if PID == "C02" else r.choice([0, 0, 0, 0.15])
        fail_p = r.choice([0, 0.2, 0.5]) if PID == "C02" else r.choice([0, 0, 0.2])
        prog = []
        for _ in range(nthr):
            ops = []
            for _ in range(r.choice([1, 2, 2, 3])):
                o = r.randint(1, nobj)
                if r.random() < clear_p:
                    ops.append(("clear", o, 0))
                else:
                    ops.append(("call", o, r.randint(1, nkey)))
            prog.append(ops)
        policy = r.choice(["random", "random", "pct", "budget"])
        return dict(kind=kind, nobj=nobj, nkey=nkey, max=mx, prog=prog, fail=fail_p, copy=r.random() < 0.7,
                    policy=policy, preempt=r.choice([0.2, 0.5, 0.9]), budget=r.choice([1, 2, 3, 4]),
                    lines=r.random() < 0.5, seed=r.randrange(1 << 30), base=r.random() < 0.3)

    def build(self, sc, compute):
        mx = None if sc["max"] < 0 else sc["max"]
        deco = self.mod.cache_results
        objs = {}
        if sc["kind"] == "func":
            def mk(o):
                @deco(maxsize=mx, copy_on_return=sc["copy"])
                def fn(key):
                    return compute(o, key)
                return fn
            for o in range(1, sc["nobj"] + 1):
                objs[o] = mk(o)
            get = lambda o: objs[o]
        else:
            body = {"__slots__": ("o",)} if sc["kind"] == "slots" else {}

            def calc(self, key):
                return compute(self.o, key)
            body["calc"] = deco(maxsize=mx, copy_on_return=sc["copy"])(calc)
            cls = type("Thing", (), body)
            for o in range(1, sc["nobj"] + 1):
                objs[o] = cls(); objs[o].o = o
            get = lambda o: objs[o].calc
        return get, objs

    def run(self, sc):
        rng = random.Random(sc["seed"])
        ev = []
        st = {"x": 0}
        files = ()
        if sc["lines"]:
            files = (self.mod.__file__,)
        sched = vsched.Sched(rng, policy="pct" if sc["policy"] == "pct" else "random", preempt=sc["preempt"],
                             trace_files=files, budget=sc["budget"] if sc["policy"] == "budget" else None)
        cur_t = {}
        import _thread
        failseed = random.Random(sc["seed"] + 1)

        def compute(o, k):
            t = cur_t[_thread.get_ident()]
            st["x"] += 1
            x = st["x"]
            ev.append({"e": "begin", "t": t, "o": o, "k": k, "x": x})
            fail = t > 0 and not st.get("calm") and failseed.random() < sc["fail"]
            val = ["v"]
            sched.point()
            val.append(x)
            sched.point()
            val.append(o)
            sched.point()
            if fail:
                ev.append({"e": "end", "t": t, "x": x, "ok": False})
                raise (BaseBoom if sc["base"] else Boom)(x)
            val.append(k)
            ev.append({"e": "end", "t": t, "x": x, "ok": True})
            return val

        with vsched.patched():
            get, objs = self.build(sc, compute)

        def ret_value(v, o, k):
            if isinstance(v, list) and len(v) == 4 and v[0] == "v" and isinstance(v[1], int):
                x = v[1]
                if v[2:] != [o, k]:
                    return 0          # a value computed for something else
                return x
            return 0

        def do(t, op, o, k):
            if op == "call":
                ev.append({"e": "call", "t": t, "o": o, "k": k})
                note = None
                try:
                    v = get(o)(k)
                    r = ret_value(v, o, k)
                    if sc["copy"] and isinstance(v, list):
                        v.append("mutated by caller")
                    elif r == 0:
                        note = repr(v)[:80]
                except (Boom, BaseBoom) as e:
                    r = -e.args[0]
                except vsched.Stuck:
                    raise
                except BaseException as e:
                    r, note = 0, repr(e)[:120]
                d = {"e": "ret", "t": t, "v": r}
                if note:
                    d["note"] = note
                ev.append(d)
            else:
                ev.append({"e": "clrcall", "t": t, "o": o})
                try:
                    get(o).cache_clear()
                except vsched.Stuck:
                    raise
                except BaseException as e:
                    ev.append({"e": "error", "t": t, "note": repr(e)[:120]})
                    return
                ev.append({"e": "clrret", "t": t, "o": o})

        def worker(t, ops):
            def f():
                cur_t[_thread.get_ident()] = t
                for op, o, k in ops:
                    do(t, op, o, k)
                    sched.point()
            return f

        with vsched.patched():
            ok = sched.run([worker(i + 1, ops) for i, ops in enumerate(sc["prog"])])
            if not ok:
                ev.append({"e": "stuck", "blocked": [w.wid for w in sched.workers if w.state == "blocked"]})
                return ev
            for o in sorted(objs):
                n = get(o).cache_info()["size"]
                ev.append({"e": "info", "o": o, "n": n})
            # afterwards everything still works
            st["calm"] = True
            cur_t[_thread.get_ident()] = 1
            for o in sorted(objs):
                for k in range(1, sc["nkey"] + 1):
                    do(1, "call", o, k)
                    ev.append({"e": "info", "o": o, "n": get(o).cache_info()["size"]})
        return ev


MODEL = """SPECIFICATION MSpec
CONSTANTS Thread={%s} Obj={1} Key={%s} Execs={} MaxCalls=%d MaxClears=1 MaxFails=1 Maxes={%s}
INVARIANTS OneMarker OnceRetained Bounded RightValue OwnFailure NoDuplicateWork
%s
CHECK_DEADLOCK FALSE
"""
IMPL = """SPECIFICATION Spec
CONSTANTS Thread={1,2} Obj={1} Key={1,2} Execs={1,2,3,4,5,6} MaxCalls=%d MaxClears=1 MaxFails=1 Maxes={%s} Fixed=%s
INVARIANTS NoInternalError QueueConsistent
%s
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TSpec
CONSTANTS Thread={1,2,3,4} Obj={1,2} Key={1,2,3} Execs={}
INVARIANTS Inv Report
CHECK_DEADLOCK FALSE
"""


def check(c):
    if PID == "C01":
        c.model("ResultCacheMC", MODEL % ("1,2", "1,2", 2, "0,1,2", ""), "abstract cache, safety, 2 threads", workers=4)
        if vf.THOROUGH:
            c.model("ResultCacheMC", MODEL % ("1,2,3", "1,2", 2, "1", ""), "abstract cache, safety, 3 threads", workers=8, timeout=800)
    else:
        c.model("ResultCacheMC", MODEL % ("1,2", "1,2", 2, "1", "PROPERTY Ends"), "every call ends", workers=4)
    if vf.THOROUGH:
        c.model("ResultCacheImpl", IMPL % (2, "0,1,2", "TRUE", "PROPERTIES Ends Refines"), "algorithm refines the cache", workers=8, timeout=800)
    elif PID == "C02":
        c.model("ResultCacheImpl", IMPL % (2, "1", "TRUE", "PROPERTY Ends"), "algorithm: every call ends", workers=4)
        c.model("ResultCacheImpl", IMPL % (2, "1", "FALSE", ""), "algorithm before the repair", workers=2, must_hold=False)
    else:
        c.model("ResultCacheImpl", IMPL % (1, "0,1", "TRUE", "PROPERTY Refines"), "algorithm refines the cache", workers=4)
    mod = load()
    rng = random.Random(vf.SEED * 7919 + (1 if PID == "C01" else 2))
    d = Driver(mod, rng)
    n = 6000 if vf.THOROUGH else 700
    # targeted shapes first: same key from every thread / overfull store / clear in flight
    scs, traces = [], []
    for i in range(n):
        sc = d.scenario()
        if i % 3 == 0:
            sc["nobj"] = 1
            sc["prog"] = [[(op, 1, min(k, 2)) for op, o, k in ops] for ops in sc["prog"]]
        scs.append(sc)
        ev = d.run(sc)
        traces.append({"max": sc["max"], "ev": ev})
    c.extra["threads_interleaved"] = sum(len(s["prog"]) for s in scs)
    c.extra["stuck_runs"] = sum(1 for t in traces if t["ev"][-1]["e"] == "stuck")
    c.sample(traces[0])

    def key(i, l, clause):
        e = traces[i]["ev"][l - 1] if 0 < l <= len(traces[i]["ev"]) else {"e": "?"}
        return f"cache-interleaving:{e['e']}"
    for k in range(0, len(traces), 1500):
        part = traces[k:k + 1500]
        off = k
        c.validate("ResultCacheTrace", TRACE, part, describe=lambda i: scs[off + i], workers=8,
                   key=lambda i, l, cl: key(off + i, l, cl), timeout=800)


if __name__ == "__main__":
    vf.main(check, PID)
