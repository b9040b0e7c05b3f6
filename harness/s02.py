"""S02: log capture and initialisation of the package's logger.  LogCapture.tla enumerates histories of captures (nested,
left normally, by errors, by failing output), disabling, initialisation, attached handlers, level changes and records, with
the configuration and the output every sink must show after each step; the harness replays them on the real logger."""
import io, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

CFG = "CONSTANTS Emit = TRUE\n Depth = %d\n MaxNest = 3\n Narrow = FALSE\nINIT Init\nNEXT Next\nINVARIANTS Restored NothingStale OneEach OnlyAbove EmitOut\n%sCHECK_DEADLOCK FALSE\n"
MC = "CONSTANTS Emit = FALSE\n Depth = %d\n MaxNest = 2\n Narrow = FALSE\nINIT Init\nNEXT Next\nINVARIANTS Restored NothingStale OneEach OnlyAbove\nPROPERTIES Scoped ExactlyOneAfterInit\nCHECK_DEADLOCK FALSE\n"


class Broken(io.StringIO):
    def write(self, *_):
        raise ValueError("output is gone")


class Exit(Exception):
    pass


def text(m):
    """Record number m[1] at level m[0]; some need their arguments merged, some hold signs that look like formatting."""
    lv, n = m
    return [f"L{lv} message {n}.", f"L{lv} message {n} 100% done {{x}}.", f"L{lv} message {n}: three items."][n % 3]


def emit(log, m):
    lv, n = m
    if n % 3 == 2:
        log.log(lv, "L%s message %d: %s items.", lv, n, "three")
    elif n % 3 == 0 and n % 2:
        class Obj:
            def __str__(self):
                return text(m)
        log.log(lv, Obj())
    else:
        log.log(lv, text(m))


def replay(hist, variant):
    import logging
    from spey.system import logger as sl
    log = logging.getLogger("Spey")
    logging.disable(0)
    for h in list(logging.root.handlers):
        logging.root.removeHandler(h)
    logging.root.addHandler(logging.NullHandler())
    sys.stderr = open(os.devnull, "w")
    for h in list(log.handlers):
        log.removeHandler(h)
    sinks = {"i1": io.StringIO(), "i2": io.StringIO()}
    sl.init(sinks["i1"])
    log.setLevel(20)

    class Plain(logging.Handler):
        def __init__(self, fmt=None):
            super().__init__()
            self.lines = []
            if fmt:
                self.setFormatter(fmt)

        def emit(self, record):
            self.lines.append((self.format(record), record.getMessage(), record.levelno))
    users = {"plain": Plain(logging.Formatter("%(message)s")), "colour": Plain(sl.ColoredFormatter("%(message)s"))}
    stack = []                 # (kind, context manager, stream, handlers found on entry, number)
    entered = 0
    bad = []

    def lines(k):
        if k in users:
            return [x[0] for x in users[k].lines]
        return [x for x in sinks[k].getvalue().split("\n") if x]

    def same(got, want):
        """The lines are exactly these records, each once and whole."""
        return len(got) == len(want) and all(g.count(text(w)) == 1 and g.count("Spey") <= 1 for g, w in zip(got, want))

    def leave(err, number=None):
        k = len(stack) - 1 if number is None else next(i for i, e in enumerate(stack) if e[4] == number)
        kind, cm, stream, found, _ = stack.pop(k)
        later = [i for i in range(k, len(stack)) if stack[i][0] == kind]
        ret = None
        if err:
            e = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "write": None}[err]
            if e is None:
                try:
                    cm.__exit__(None, None, None)
                except ValueError:
                    pass
            else:
                ex = e("stop")
                try:
                    swallowed = cm.__exit__(e, ex, None)
                    if swallowed:
                        bad.append("an error is swallowed")
                except BaseException as got:
                    if got is not ex:
                        raise
        else:
            cm.__exit__(None, None, None)
        if later:                              # the next one of its kind has to bring back what this one found
            i = later[0]
            stack[i] = (*stack[i][:3], found, stack[i][4])
        elif kind == "cap" and [id(h) for h in log.handlers] != [id(h) for h in found]:
            bad.append("handlers found on entry are not restored")
        return stream

    import contextlib
    for n, st in enumerate(hist):
        op, x = st["op"], st["x"]
        if op == "log":
            emit(log, x)
        elif op == "level":
            if variant % 2:
                import spey
                spey.set_log_level({40: 0, 30: 1, 20: 2, 10: 3}[x])
            else:
                log.setLevel(x)
        elif op == "prop":
            log.propagate = x
        elif op == "add":
            log.addHandler(users[x])
        elif op == "del":
            log.removeHandler(users[x])
        elif op == "init":
            sl.init(sinks[x])
        elif op == "enter":
            nxt = [s for s in hist[n + 1:]]
            stream = io.StringIO()
            broken = False
            entered += 1
            for s in nxt:                      # is this capture going to be left with its output gone?
                if s["op"] == "leaveall":
                    break
                if s["op"] == "leave" and s["x"]["id"] == entered:
                    broken = s["x"]["err"] == "write"
                    break
            if broken:
                stream = Broken()
            found = list(log.handlers)
            if variant % 3 == 2 and not broken:
                cm = sl.capture_logs(x)        # to standard output
                stack.append(("cap", cm, "stdout", found, entered))
            else:
                cm = sl.capture_logs(level=x, stream=stream)
                stack.append(("cap", cm, stream, found, entered))
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                cm.__enter__()
            if stack[-1][2] == "stdout":
                stack[-1] = ("cap", cm, buf, found, entered)
        elif op == "disable":
            cm = sl.disable_logging(x) if variant % 2 or x != 50 else sl.disable_logging()
            cm.__enter__()
            entered += 1
            stack.append(("dis", cm, None, None, entered))
        elif op == "leave":
            stream = leave(x["err"], x["id"])
            if x["kind"] == "cap" and not x["loose"]:
                got = [l for l in stream.getvalue().split("\n") if l]
                if not same(got, x["got"]):
                    bad.append(f"captured output {got} instead of {[text(m) for m in x['got']]}")
        elif op == "leaveall":
            while stack:
                leave(x["err"])
        c = st["cfg"]
        if log.level != c["level"]:
            bad.append(f"level {log.level} instead of {c['level']} after {op}")
        if bool(log.propagate) != c["prop"]:
            bad.append(f"propagation {log.propagate} after {op}")
        if log.manager.disable != st["dis"]:
            bad.append(f"disabled level {log.manager.disable} instead of {st['dis']} after {op}")
        if len(log.handlers) != len(c["hs"]):
            bad.append(f"{len(log.handlers)} handlers instead of {len(c['hs'])} after {op}")
        else:
            for h, (nm, _) in zip(log.handlers, c["hs"]):
                if nm in users and h is not users[nm]:
                    bad.append(f"order of handlers after {op}")
                if nm in ("i1", "i2") and getattr(h, "stream", sinks[nm]) is not sinks[nm]:
                    bad.append(f"a handler shows on the wrong stream after {op}")
        for k in ("i1", "i2", "plain", "colour"):
            want = st["out"][k]
            got = lines(k)
            if k == "plain":
                ok = got == [text(w) for w in want]
            else:
                ok = same(got, want)
            if not ok:
                bad.append(f"{k} shows {got[-2:]} instead of {[text(w) for w in want][-2:]} after {op}")
        if bad:
            while stack:
                try:
                    leave("")
                except Exception:
                    pass
            return n + 1, bad
    while stack:
        leave("ValueError")
    return None


def overlapped(seed):
    """Captures and disabling in two or three threads, switched between any two lines of the logger module; when all have
    been left the logger has to be what it was."""
    import importlib.util, logging
    import vsched
    r = random.Random(seed)
    path = os.path.join(vf.REPO, "src", "spey", "system", "logger.py")
    log = logging.getLogger("Spey")
    logging.disable(0)
    sys.stderr = open(os.devnull, "w")
    with vsched.patched():
        spec = importlib.util.spec_from_file_location("verif_logger", path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        for h in list(log.handlers):
            log.removeHandler(h)
        sink = io.StringIO()
        keep = logging.StreamHandler(sink)
        log.addHandler(keep)
        level = r.choice([10, 20, 30])
        log.setLevel(level)
        log.propagate = False
        sched = vsched.Sched(r, policy=r.choice(["random", "pct"]), preempt=r.choice([0.3, 1.0, 3.0]), trace_files=(path,))
        broken = []

        def work(plan):
            def f():
                for kind, lv, end in plan:
                    cm = mod.capture_logs(level=lv, stream=io.StringIO()) if kind == "cap" else mod.disable_logging(lv)
                    try:
                        with cm:
                            log.warning("inside")
                            if end:
                                raise KeyError("stop")
                    except KeyError as e:
                        if e.args != ("stop",):
                            broken.append(repr(e))
                    except vsched.Stuck:
                        raise
                    except BaseException as e:   # noqa
                        broken.append(repr(e))
            return f
        plans = [[(r.choice(["cap", "cap", "dis"]), r.choice([10, 20, 40]), r.random() < 0.2) for _ in range(r.choice([1, 1, 2]))]
                 for _ in range(r.choice([2, 2, 3]))]
        ended = sched.run([work(p) for p in plans])
    if not ended:
        return "overlapping captures never end", plans
    if broken:
        return "an overlapping capture fails", broken
    if log.level != level or log.propagate or log.manager.disable:
        return "level, propagation or disabling differ after overlapping captures", [log.level, log.propagate, log.manager.disable, plans]
    if log.handlers != [keep]:
        return "handlers differ after overlapping captures", [str(log.handlers), plans]
    before = sink.getvalue()
    log.error("again")
    if sink.getvalue() != before + "again\n":
        return "records are lost after overlapping captures", plans
    return None


def run(c):
    import spey  # noqa: F401
    c.model("LogCapture", MC % 4, name="histories of 4 steps", workers=6)
    if vf.THOROUGH:
        c.model("LogCapture", MC % 5, name="histories of 5 steps", workers=8, timeout=800)
    hists = []
    r = c.model("LogCapture", CFG % (3 if not vf.THOROUGH else 4, ""), name="every short history", workers=4)
    hists += r.json_prints()
    rnd = random.Random(vf.SEED)
    rnd.shuffle(hists)
    hists = hists[:4000 if not vf.THOROUGH else 40000]
    # two levels, captures and one way of leaving: every history of some more steps
    r = c.model("LogCapture", (CFG % (5 if not vf.THOROUGH else 6, "")).replace("Narrow = FALSE", "Narrow = TRUE"), name="every narrow history", workers=4)
    hs = r.json_prints()
    rnd.shuffle(hs)
    hists += hs[:8000 if not vf.THOROUGH else 60000]
    for depth, num in ((8, 15), (14, 15)) if not vf.THOROUGH else ((8, 150), (14, 150), (24, 100)):
        r = c.model("LogCapture", CFG % (depth, ""), name=f"sampled histories of {depth} steps", workers=4,
                    args=("-simulate", f"num={num}", "-seed", str(vf.SEED + depth), "-depth", str(depth + 1)))
        hs = r.json_prints()
        rnd.shuffle(hs)
        hists += hs[:1500 if not vf.THOROUGH else 12000]
    res = vf.pmap(lambda i: replay(hists[i], i), range(len(hists)))
    c.traces += len(hists)
    c.extra["histories_replayed"] = len(hists)
    for i, x in enumerate(res):
        if x:
            n, bad = x
            c.violation(f"{hists[i][n-1]['op']}: {bad[0].split(' [')[0]}"[:90], {"history": hists[i][:n], "step": n, "observed": bad})
    n = 400 if not vf.THOROUGH else 6000
    seeds = [rnd.randrange(1 << 30) for _ in range(n)]
    for s, x in zip(seeds, vf.pmap(overlapped, seeds)):
        if x:
            c.violation(x[0], {"seed": s, "observed": x[1]})
    c.traces += n
    c.extra["overlapping_captures"] = n
    c.sample(hists[0])
    c.sample(hists[-1])


vf.main(run, "S02")
