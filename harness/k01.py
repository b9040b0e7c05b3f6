"""K01: combinations as ordered collections of uniquely named models.  Combiner.tla enumerates histories over several
collections (joins create new ones) with the contents required after every step; the harness replays them and looks at
every collection through every accessor after every step."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

CFG = "CONSTANTS Emit = TRUE\n Depth = %d\n MaxObj = 3\nINIT Init\nNEXT Next\nINVARIANTS Unique EmitOut\n%sCHECK_DEADLOCK FALSE\n"
NAMES = ["a", "b", "a", "c", "ab"]


def run(c):
    from backends import LinGaussGen
    from spey import StatisticalModel
    from spey.combiner import UnCorrStatisticsCombiner
    from spey.system.exceptions import AnalysisQueryError

    def fresh():
        return [StatisticalModel(LinGaussGen([6 + i, 0], [[2, 1], [0, 1]], [8, 0], apriori=[6, 0]), n) for i, n in enumerate(NAMES)]

    def look(K, ms, want):
        """Every way of looking at a collection must show exactly `want` (model numbers from 1)."""
        objs, names = [ms[i - 1] for i in want], [NAMES[i - 1] for i in want]
        n = len(want)
        same = lambda got, exp: len(got) == len(exp) and all(g is e for g, e in zip(got, exp))
        bad = []
        if len(K) != n:
            bad.append("length")
        if not same(list(K), objs):
            bad.append("iteration")
        if list(K.analyses) != names:
            bad.append("names")
        if not same(list(K.statistical_models), objs):
            bad.append("statistical_models")
        it = list(K.items())
        if [a for a, _ in it] != names or not same([m for _, m in it], objs):
            bad.append("items")
        for m in ms:
            if (m in K) != any(m is o for o in objs):
                bad.append("membership")
        for i in range(-n - 2, n + 3):
            try:
                got = K[i]
                if not (-n <= i < n) or got is not objs[i]:
                    bad.append("lookup by position")
            except AnalysisQueryError:
                if -n <= i < n:
                    bad.append("lookup by position refused")
        for nm in ("a", "b", "c", "ab", "z", ""):
            try:
                got = K[nm]
                if nm not in names or got is not objs[names.index(nm)]:
                    bad.append("lookup by name")
            except AnalysisQueryError:
                if nm in names:
                    bad.append("lookup by name refused")
        for s in (slice(None), slice(1, None), slice(0, 2), slice(None, None, -1)):
            if not same(list(K[s]), objs[s]):
                bad.append("slice")
        return bad

    def perform(h):
        out = []
        ms = fresh()
        Ks = [UnCorrStatisticsCombiner(*[ms[i - 1] for i in s]) for s in h[0]["start"]]
        for step, e in enumerate(h[1:]):
            x, err, new = e["op"], "", None
            try:
                if x["op"] == "append":
                    Ks[x["o"] - 1].append(ms[x["m"] - 1])
                elif x["op"] == "junk":
                    Ks[x["o"] - 1].append([ms[3].backend, "c", None, UnCorrStatisticsCombiner(ms[3])][step % 4])
                elif x["op"] == "remove":
                    Ks[x["o"] - 1].remove(x["n"])
                elif x["op"] == "join":
                    new = Ks[x["o"] - 1] @ Ks[x["p"] - 1]
                elif x["op"] == "joinmodel":
                    new = Ks[x["o"] - 1] @ ms[x["m"] - 1]
                elif x["op"] == "joinjunk":
                    new = Ks[x["o"] - 1] @ ["c", 3, ms[3].backend][step % 3]
                else:
                    new = UnCorrStatisticsCombiner(*[ms[i - 1] for i in x["ms"]])
            except (AnalysisQueryError, TypeError, ValueError) as exc:
                err = "AnalysisQueryError" if isinstance(exc, AnalysisQueryError) else type(exc).__name__
            if (err != "") != (e["err"] != ""):
                out.append((f"{x['op']}: " + ("refused" if err else "accepted"), step, err))
                break
            if err != e["err"]:
                out.append((f"{x['op']}: documented error", step, err))
            if new is not None:
                if any(new is k for k in Ks):
                    out.append((f"{x['op']}: returns an existing collection", step, ""))
                Ks.append(new)
            stop = False
            for i, want in enumerate(e["after"]):
                for b in look(Ks[i], ms, want):
                    touched = i == x.get("o", 0) - 1 or i == len(Ks) - 1
                    out.append((f"after {x['op']}: {b}" + ("" if touched else " of another collection"), step, [m.analysis for m in Ks[i]]))
                    stop = True
            if stop:
                break
        return out

    r = c.model("Combiner", CFG % (2, "PROPERTIES RefusedUnchanged OneChanges\n"), workers=4, timeout=700)
    hs = r.json_prints()
    rng = random.Random(vf.SEED)
    r = vf.tlc("Combiner", CFG % (7, ""), args=["-simulate", "num=%d" % (25 if not vf.THOROUGH else 500), "-depth", "9", "-seed", str(vf.SEED)], timeout=600)
    c.count(r)
    long = r.json_prints()
    r = vf.tlc("Combiner", CFG % (3, ""), workers=4, timeout=700, heap="6g")
    c.count(r)
    mid = r.json_prints()
    if not vf.THOROUGH:
        long, mid = rng.sample(long, min(800, len(long))), rng.sample(mid, min(6000, len(mid)))
    allh = hs + mid + long
    for h, bad in zip(allh, vf.pmap(perform, allh)):
        c.traces += 1
        for key, step, got in bad:
            c.violation(key, {"history": h, "step": step, "got": got})
    c.sample(mid[0])


if __name__ == "__main__":
    vf.main(run, "K01")
