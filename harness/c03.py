"""C03: histories generated from specs/ResultCacheSeq.tla replayed on the real cache."""
import os, sys, random, copy, gc
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import numpy as np

CFG = """SPECIFICATION Spec
CONSTANTS Obj={%s} Key={%s} Spell={%s} Maxes={%s} Depth=%d
INVARIANTS Bounded Distinct Isolated
CHECK_DEADLOCK FALSE
"""


class Boom(Exception):
    pass


def big(i):
    a = np.zeros(5000); a[2500] = i
    return a


def nc(vals):
    a = np.zeros(2 * len(vals)); a[::2] = vals
    return a[::2]


CELL = []


def cell(v):
    """An array of objects: one list, the same one on every call, with other contents."""
    CELL[:] = [v]
    a = np.empty(1, dtype=object)
    a[0] = CELL
    return a


class Bag:
    """Not hashable, its text leaves out most of its contents."""
    __hash__ = None

    def __init__(self, i):
        self.values = big(i)

    def __eq__(self, o):
        return bool(np.all(self.values == o.values))

    def __repr__(self):
        return f"Bag({self.values})"


REC = [("m", "f8"), ("s", "f8")]
# families of pairwise different argument values; each value with equivalent spellings
def D(*items):
    return dict(items)


FAM = [
    [lambda: ((1,), {}), lambda: ((), {"a": 1}), lambda: ((1, 2), {}), lambda: ((), {"c": None, "b": 2, "a": 1})],
    [lambda: ((1, 3), {}), lambda: ((), {"b": 3, "a": 1}), lambda: ((1,), {"b": 3})],
    [lambda: ((3, 1), {}), lambda: ((), {"b": 1, "a": 3})],
    [lambda: ((1,), {"c": 2}), lambda: ((1, 2), {"c": 2}), lambda: ((), {"c": 2, "a": 1})],
    [lambda: ((np.array([1.0, 2.0]),), {}), lambda: ((nc([1.0, 2.0]),), {}), lambda: ((), {"a": np.array([1.0, 2.0])})],
    [lambda: ((np.array([2.0, 1.0]),), {}), lambda: ((nc([2.0, 1.0]),), {}), lambda: ((np.array([1.0, 2.0])[::-1],), {})],
    [lambda: ((np.array([[1.0, 2.0]]),), {}), lambda: ((np.array([1.0, 2.0]).reshape(1, 2),), {})],
    [lambda: ((np.array([[1.0], [2.0]]),), {})],
    [lambda: ((np.array([[1.0, 2.0], [3.0, 4.0]]),), {}), lambda: ((np.array([[1.0, 3.0], [2.0, 4.0]]).T,), {})],
    [lambda: ((np.array([[1.0, 3.0], [2.0, 4.0]]),), {}), lambda: ((np.asfortranarray([[1.0, 3.0], [2.0, 4.0]]),), {})],
    [lambda: ((D(("x", 1), ("y", [1, 2])),), {}), lambda: ((D(("y", [1, 2]), ("x", 1)),), {})],
    [lambda: ((D(("x", 2), ("y", [1, 1])),), {}), lambda: ((D(("y", [1, 1]), ("x", 2)),), {})],
    [lambda: ((D(("x", 1), ("y", [2, 1])),), {})],
    [lambda: (({"x": 1},), {})],
    [lambda: ((["x", 1],), {})],
    [lambda: (([("x", 1)],), {})],
    [lambda: ((D((0, 1.0), ("theta", 2.0)),), {}), lambda: ((D(("theta", 2.0), (0, 1.0)),), {})],
    [lambda: ((D((0, 2.0), ("theta", 1.0)),), {}), lambda: ((D(("theta", 1.0), (0, 2.0)),), {})],
    [lambda: ((big(1),), {}), lambda: ((big(1),), {"b": 2})],
    [lambda: ((big(2),), {})],
    [lambda: (([big(1)],), {}), lambda: (([big(1)], 2), {})],
    [lambda: (([big(2)],), {})],
    [lambda: ((None,), {}), lambda: ((), {"a": None})],
    [lambda: (("None",), {})],
    [lambda: (("",), {})],
    [lambda: (([],), {}), lambda: (([],), {"c": None})],
    [lambda: (([[]],), {})],
    [lambda: (([1.0, (2.0, 3.0)],), {})],
    [lambda: (([(1.0, 2.0), 3.0],), {})],
    [lambda: (([1.0, 2.0, 3.0],), {})],
    [lambda: ((1,), {"kw": 5, "kv": 6}), lambda: ((1,), {"kv": 6, "kw": 5})],
    [lambda: ((1,), {"kw": 6, "kv": 5}), lambda: ((1, 2), {"kv": 5, "kw": 6})],
    [lambda: ((1,), {"kw": 5})],
    [lambda: ((0.1 + 0.2,), {})],
    [lambda: ((0.3,), {})],
    [lambda: ((1e-300,), {})],
    [lambda: ((0.0,), {})],
    [lambda: (({1, 2},), {}), lambda: (({2, 1},), {})],
    [lambda: (({1, 3},), {})],
    [lambda: (({"p": np.array([1.0, 0.0])},), {})],
    [lambda: (({"p": np.array([0.0, 1.0])},), {})],
    [lambda: ((-1,), {})],
    [lambda: ((-2,), {})],
    [lambda: ((2**61 - 1,), {})],
    [lambda: ((np.array([1.5, "x"], dtype=object),), {}), lambda: ((), {"a": np.array([1.5, "x"], dtype=object)})],
    [lambda: ((np.array([2.5, "x"], dtype=object),), {}), lambda: ((np.array(["x", 2.5], dtype=object)[::-1],), {})],
    [lambda: ((cell(1),), {}), lambda: ((cell(1), 2), {})],
    [lambda: ((cell(2),), {}), lambda: ((cell(2), 2), {})],
    [lambda: ((np.array(["2020-01-01"], dtype="M8[D]"),), {})],
    [lambda: ((np.array(["2020-01-02"], dtype="M8[D]"),), {}), lambda: ((), {"a": np.array(["2020-01-02"], dtype="M8[D]")})],
    [lambda: ((np.array(["ab", "c"]),), {})],
    [lambda: ((np.array(["a", "bc"]),), {})],
    [lambda: ((np.array([(1.0, 2.0)], dtype=REC),), {})],
    [lambda: ((np.array([(1.0, 2.0)], dtype=REC[::-1]),), {})],
    [lambda: ((np.ma.array([3.0, 4.0], mask=[0, 1]),), {}), lambda: ((np.ma.array([3.0, 4.0], mask=[False, True]), 2), {})],
    [lambda: ((np.ma.array([3.0, 4.0], mask=[1, 0]),), {})],
    [lambda: ((Bag(1),), {}), lambda: ((Bag(1), 2), {})],
    [lambda: ((Bag(2),), {}), lambda: ((Bag(2),), {"c": None})],
    [lambda: ((1,), {"c": Bag(1)})],
    [lambda: ((1,), {"c": Bag(2)})],
    [lambda: ((np.array([True, False]),), {})],
    [lambda: ((np.array([1.0 + 2.0j]),), {}), lambda: ((), {"a": np.array([1.0 + 2.0j])})],
    [lambda: ((np.array([1.0 - 2.0j]),), {})],
    [lambda: ((np.array(7.0),), {})],
    [lambda: ((bytearray(b"ab"),), {}), lambda: ((bytearray(b"ab"), 2), {})],
    [lambda: ((bytearray(b"ac"),), {})],
]


def replay(mod, case, kind, cp, rng, fam=None):
    """Returns None or (index, reason)."""
    if fam is None:
        k = rng.randrange(len(FAM))
        fam = rng.sample(range(len(FAM)), 3) if rng.random() < 0.6 else [(k + d) % len(FAM) for d in rng.sample(range(3), 3)]
    rng = random.Random(rng.random())
    st = {"n": 0, "fail": False, "ran": False}
    mx = None if case["max"] < 0 else case["max"]
    deco = mod.cache_results(maxsize=mx, copy_on_return=cp)

    def body(o):
        st["n"] += 1
        st["ran"] = True
        x = st["n"]
        if st["fail"]:
            raise Boom(x)
        return [x, np.array([x, x]), {"k": [x]}, o]

    if kind == "func":
        def make(o):
            @deco
            def fn(a, b=2, *, c=None, **kw):
                return body(o)
            return fn
        get = lambda ob: ob
        cpy = lambda ob, o: make(o)
    else:
        ns = {"__slots__": ("o", "__weakref__") if case["max"] % 2 else ("o",)} if kind == "slots" else {}

        def calc(self, a, b=2, *, c=None, **kw):
            return body(self.o)
        ns["calc"] = deco(calc)
        cls = type("Thing", (), ns)
        if kind == "super":
            class Derived(cls):
                @deco
                def calc(self, a, b=2, *, c=None, **kw):
                    n = st["n"]
                    v = super().calc(a, b, c=c, **kw)
                    if st["n"] == n:           # the inner result was retained, the outer was not
                        st["n"] += 1; st["ran"] = True
                        v = [st["n"], np.array([st["n"], st["n"]]), {"k": [st["n"]]}, self.o]
                        if st["fail"]:
                            raise Boom(st["n"])
                    return v
            cls = Derived

        def make(o):
            t = cls(); t.o = o
            return t
        get = lambda ob: ob.calc

        def cpy(ob, o):
            t = copy.deepcopy(ob) if rng.random() < 0.4 else copy.copy(ob)
            t.o = o
            return t

    objs, uid, held = {}, {}, []
    nuid = 0

    def put(o, ob):
        objs[o] = ob
    for o in range(1, len(case["h"][0]["size"]) + 1):
        nuid += 1; uid[o] = nuid; put(o, make(nuid))
    for i, h in enumerate(case["h"]):
        try:
            if h["op"] == "call":
                args, kw = FAM[fam[h["k"] - 1]][(h["sp"] - 1) % len(FAM[fam[h["k"] - 1]])]()
                st["fail"], st["ran"] = h["fails"], False
                try:
                    v = get(objs[h["o"]])(*args, **kw)
                    good = isinstance(v, list) and len(v) == 4 and list(v[1]) == [v[0], v[0]] and v[2] == {"k": [v[0]]}
                    if not good:
                        return i, f"value changed by a caller: {v!r}"
                    if v[3] != uid[h["o"]]:
                        return i, f"value of object {v[3]} returned for object {uid[h['o']]}"
                    x = v[0]
                    held.append((v, args, kw))
                except Boom as e:
                    x = -e.args[0]
                if st["ran"] != h["ran"]:
                    return i, f"computation {'ran' if st['ran'] else 'did not run'}; args {args!r:.60} {kw!r:.60}"
                if x != h["x"]:
                    return i, f"got result {x}, expected {h['x']}"
            elif h["op"] == "clear":
                get(objs[h["o"]]).cache_clear()
            elif h["op"] == "fresh":
                nuid += 1
                if h["p"] == 0 or kind == "func":
                    objs.pop(h["o"], None)
                    gc.collect() if rng.random() < 0.05 else None
                    ob = make(nuid)
                else:
                    ob = cpy(objs[h["p"]], nuid)
                uid[h["o"]] = nuid
                put(h["o"], ob)
            elif h["op"] == "mutate":
                for v, args, kw in held:
                    if cp:
                        v[1][:] = 999.0
                        v[2]["k"].append("junk")
                        v[0] = "junk"
                        v.append(1)
                    for a in list(args) + list(kw.values()):
                        if isinstance(a, np.ndarray):
                            if a.dtype.names is None and a.dtype.kind in "fiubcO":
                                a[...] = -5.0
                        elif isinstance(a, Bag):
                            a.values[:] = -5.0
                        elif isinstance(a, list):
                            a.append(1)
                        elif isinstance(a, dict):
                            a["junk"] = 1
                        elif isinstance(a, set):
                            a.add(99)
                held.clear()
            info = {o: get(objs[o]).cache_info() for o in objs}
            for o in objs:
                if info[o]["size"] != h["size"][o - 1]:
                    return i, f"object {o} retains {info[o]['size']} results, expected {h['size'][o-1]}"
                if info[o]["maxsize"] != mx:
                    return i, "maxsize"
        except Exception as e:   # an error of the code under test
            return i, f"unexpected {type(e).__name__}: {e!s:.100}"
    return None


def check(c):
    c.assumptions.append("argument values are drawn from a table of pairwise different values with equivalent spellings (harness/c03.py FAM)")
    bfs = c.model("ResultCacheSeq", CFG % ("1,2", "1,2", "1", "1,2", 4 if vf.THOROUGH else 3), "all histories", workers=1, timeout=800)
    n = 12000 if vf.THOROUGH else 800
    dep = 16
    sim = c.model("ResultCacheSeq", CFG % ("1,2", "1,2,3", "1,2,3,4", "0,1,2,3", dep), "random long histories", workers=1,
                  args=("-simulate", f"num={n}", "-depth", str(dep + 3), "-seed", str(vf.SEED)), timeout=800)
    unl = c.model("ResultCacheSeq", CFG % ("1,2", "1,2,3", "1,2,3,4", "5,6", dep), "large store", workers=1,
                  args=("-simulate", f"num={n // 5}", "-depth", str(dep + 3), "-seed", str(vf.SEED + 1)), timeout=800)
    cases = bfs.json_prints()
    sims = sim.json_prints()
    unls = unl.json_prints()
    for x in unls[: len(unls) // 2]:
        x["max"] = -1
    cases = [(x, "bfs") for x in cases] + [(x, "sim") for x in sims] + [(x, "sim") for x in unls]
    if len(sims) < n // 2:
        raise vf.MachineryError("no histories generated")
    import spey.system.cache as mod
    import logging
    rng = random.Random(vf.SEED)
    hangs = 0
    kinds = ["inst", "slots", "func", "super"]
    c.extra["histories"] = len(cases)
    # every two values of the table on one object that retains both
    two = [x for x, src in cases if src == "bfs" and x["max"] == 2 and len(x["h"]) >= 3 and all(h["op"] == "call" and h["o"] == 1 and not h["fails"] for h in x["h"][:3])
           and [h["k"] for h in x["h"][:3]] == [1, 2, 1]]
    if not two:
        raise vf.MachineryError("no history with two keys")
    for a in range(len(FAM)):
        for b in range(len(FAM)):
            if a == b or hangs >= 3:
                continue
            case = two[(a * 7 + b) % len(two)]
            try:
                with vf.guard(10):
                    bad = replay(mod, case, kinds[(a + b) % 3], True, random.Random(a * 1000 + b), [a, b, (b + 1) % len(FAM)])
            except vf.Hang:
                bad, hangs = (2, "call never returned"), hangs + 1
            c.traces += 1
            if bad:
                c.violation("cache-history:" + bad[1].split(":")[0].split(";")[0][:40], {"values": [a, b], "history": case["h"][: bad[0] + 1], "why": bad[1]})
    c.sample(cases[-1][0])
    for i, (case, src) in enumerate(cases):
        if hangs >= 3:
            break
        kind = kinds[i % 4]
        # the nested cache of "super" changes when the inner computation runs; keep histories without clears
        if kind == "super" and any(h["op"] in ("clear",) or h.get("fails") for h in case["h"]):
            kind = "inst"
        cp = rng.random() < 0.75
        if not cp:
            case = dict(case)
        s = rng.randrange(1 << 30)
        try:
            with vf.guard(10):
                bad = replay(mod, case, kind, cp, random.Random(s))
        except vf.Hang as e:
            bad = (len(case["h"]) - 1, "call never returned")
            hangs += 1
        c.traces += 1
        if bad:
            idx, why = bad
            c.violation("cache-history:" + why.split(":")[0].split(";")[0][:40],
                        {"kind": kind, "copy": cp, "seed": s, "max": case["max"], "history": case["h"][: idx + 1], "why": why})


if __name__ == "__main__":
    vf.main(check, "C03")
