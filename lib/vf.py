"""Shared machinery of the checks: running TLC, bookkeeping of evidence, verdicts.

Outcome of a check (see finish()): exit 0, or exit 1 with a VIOLATION line.  Anything
else (TLC failing for a reason other than a property, a harness crash) is an error exit 2.
"""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"

os.environ.setdefault("SPEY_CHECKUPDATE", "OFF")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
if os.path.join(REPO, "src") not in sys.path:
    sys.path.insert(0, os.path.join(REPO, "src"))

_SCRATCH = tempfile.mkdtemp(prefix="verif-")
atexit.register(lambda: shutil.rmtree(_SCRATCH, ignore_errors=True))


def scratch(name=None):
    d = tempfile.mkdtemp(prefix=(name or "d") + "-", dir=_SCRATCH)
    return d


class MachineryError(Exception):
    pass


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            pass
        if m is None:
            m2 = re.search(r"The number of states generated: (\d+)", out)
            self.generated = int(m2.group(1)) if m2 else 0
            self.distinct = self.generated
        else:
            self.generated, self.distinct = int(m.group(1)), int(m.group(2))
        self.prints = []
        for line in out.splitlines():
            if line.startswith('"@') or line.startswith("<<\"@"):
                self.prints.append(line)

    def json_prints(self):
        """Lines printed with PrintT("@" \\o ToJson(x))."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"@'):
                res.append(json.loads(json.loads(line)[1:]))
        return res

    @property
    def violated(self):
        m = re.search(r"(Invariant|Temporal property|Action property) (\S+) (is|was) violated|Temporal properties were violated|Deadlock reached", self.out)
        return m.group(0) if m else None


def tlc(module, cfg, env=None, workers=1, timeout=600, args=(), heap="3g", expect_ok=True, extra_files=()):
    """Run TLC on specs/<module>.tla with the configuration text `cfg`."""
    d = scratch("tlc")
    for f in os.listdir(SPECS):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPECS, f), os.path.join(d, f))
    for name, text in extra_files:
        with open(os.path.join(d, name), "w") as fh:
            fh.write(text)
    with open(os.path.join(d, "model.cfg"), "w") as fh:
        fh.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss32m", f"-Xmx{heap}", "-cp", JARS, "tlc2.TLC",
           "-metadir", os.path.join(d, "states"), "-workers", str(workers), "-config", "model.cfg", *args, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as exc:
        raise MachineryError(f"TLC timed out on {module}") from exc
    r = TLCResult(p.stdout, p.returncode)
    shutil.rmtree(d, ignore_errors=True)
    if expect_ok and p.returncode != 0:
        raise MachineryError(f"TLC failed on {module} (rc {p.returncode}):\n" + p.stdout[-4000:])
    return r


def to_tla(x):
    """Python value -> TLA+ expression text."""
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return json.dumps(x)
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(to_tla(v) for v in x) + ">>"
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(sorted(to_tla(v) for v in x)) + "}"
    if isinstance(x, dict):
        return "[" + ", ".join(f"{k} |-> {to_tla(v)}" for k, v in x.items()) + "]"
    raise TypeError(type(x))


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.assumptions = []
        self.violations = []  # (key, detail)
        self.extra = {}
        self.evaluations = 0
        self.known = self._known()

    def _known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return {}
        data = json.load(open(p))
        return {(f["property"], f["key"]): f for f in data.get("findings", [])}

    # -- model runs
    def model(self, module, cfg, name=None, must_hold=True, **kw):
        """Exhaustive check of the design itself; a violation here is a machinery error (the
        specification does not depend on the repository)."""
        r = tlc(module, cfg, expect_ok=False, **kw)
        if must_hold and r.rc != 0:
            raise MachineryError(f"{module}: specification run failed\n" + r.out[-4000:])
        if not must_hold and r.rc == 0:
            raise MachineryError(f"{module}: expected a counterexample and got none")
        self.count(r)
        self.extra.setdefault("models", []).append(
            {"module": module, "name": name or module, "states": r.distinct, "transitions": r.generated, "holds": must_hold})
        return r

    def count(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def validate(self, module, cfg, traces, describe=None, workers=4, timeout=700, key=None, **kw):
        """Batch trace validation.  The module prints "@ACCEPT n" for an accepted trace, and for total
        (deterministic) trace specifications "@REJECT n l clause".  Everything not accepted is a violation.
        `key(i)` names the finding."""
        if not traces:
            raise MachineryError("no traces to validate")
        d = scratch("traces")
        path = os.path.join(d, "traces.json")
        with open(path, "w") as fh:
            json.dump(traces, fh)
        env = {"TRACE_FILE": path, "TRACE_DIAG": "0"}
        r = tlc(module, cfg, env=env, workers=workers, timeout=timeout, **kw)
        self.count(r)
        accepted, rejected = set(), {}
        for m in re.finditer(r'^<<"ACCEPT", (\d+)>>', r.out, re.M):
            accepted.add(int(m.group(1)))
        for m in re.finditer(r'^<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*(.*?)>>$', r.out, re.M | re.S):
            rejected.setdefault(int(m.group(1)), (int(m.group(2)), re.sub(r"\s+", " ", m.group(3))))
        bad = [i for i in range(1, len(traces) + 1) if i not in accepted or i in rejected]
        self.traces += len(traces)
        undiag = [i for i in bad if i not in rejected]
        if undiag:
            sub = undiag[:20]
            with open(path, "w") as fh:
                json.dump([traces[i - 1] for i in sub], fh)
            r2 = tlc(module, cfg, env={"TRACE_FILE": path, "TRACE_DIAG": "1"}, workers=1, timeout=timeout, **kw)
            far = {}
            for m in re.finditer(r'^<<"AT", (\d+), (\d+)>>', r2.out, re.M):
                a, b = int(m.group(1)), int(m.group(2))
                far[a] = max(far.get(a, 0), b)
            for n, i in enumerate(sub, 1):
                rejected[i] = (far.get(n, 1), "no specification step explains this event")
        for i in bad:
            l, clause = rejected.get(i, (0, "not accepted"))
            tr = traces[i - 1]
            ev = tr["ev"] if isinstance(tr, dict) and "ev" in tr else tr
            at = ev[l - 1] if isinstance(ev, list) and 0 < l <= len(ev) else None
            k = key(i - 1, l, clause) if key else f"{module}:{clause}"
            self.violation(k, {"trace": tr, "event_index": l, "event": at, "clause": clause,
                               "about": describe(i - 1) if describe else None})
        os.remove(path)
        return accepted, rejected

    def violation(self, key, detail):
        self.violations.append((str(key), detail))

    def finish(self):
        new, seen_known = [], {}
        for k, d in self.violations:
            f = self.known.get((self.pid, k))
            if f is not None:
                seen_known[k] = f
            else:
                new.append((k, d))
        for k, f in seen_known.items():
            print(f"KNOWN-FINDING: property={self.pid} {f['what']}")
        ev = {
            "property": self.pid, "tier": TIER, "seed": SEED, "level": self.level,
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces, "samples": self.samples, **self.extra},
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        rc = 0
        if new:
            rd = os.path.join(EVID, "replays")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.pid + ".json")
            with open(rp, "w") as fh:
                json.dump([{"key": k, "detail": d} for k, d in new[:50]], fh, indent=1, default=str)
            keys = []
            for k, d in new:
                if k not in keys:
                    keys.append(k)
            for k in keys[:10]:
                print(f"  {k}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            rc = 1
        else:
            print(f"OK property={self.pid} states={self.states} traces={self.traces} wall={ev['wall_s']}")
        sys.stdout.flush()
        return rc


def main(fn, pid, level="model_checking"):
    """Entry point of a check script."""
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except SystemExit:
        raise
    except Exception as exc:
        traceback.print_exc()
        if isinstance(exc, RepoError):
            c.violation(f"unexpected-exception:{str(exc.args[0]).split(':')[0]}", {"error": exc.args[0], "traceback": exc.args[1]})
        elif not isinstance(exc, NOT_THE_CODE):
            # an error out of the code under test, or an answer of a shape no caller could use
            c.violation(f"unexpected-exception:{type(exc).__name__}", {"traceback": _frames(exc), "error": str(exc)[:500]})
        if c.violations and not isinstance(exc, NOT_THE_CODE):
            rc = c.finish()
            shutil.rmtree(_SCRATCH, ignore_errors=True)
            os._exit(rc)
        sys.stdout.flush(); sys.stderr.flush()
        shutil.rmtree(_SCRATCH, ignore_errors=True)
        os._exit(2)
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush(); sys.stderr.flush()
        shutil.rmtree(_SCRATCH, ignore_errors=True)
        os._exit(2)
    shutil.rmtree(_SCRATCH, ignore_errors=True)
    os._exit(rc)


class RepoError(Exception):
    """An exception in a worker process: raised by the code under test, or by an answer of a shape no caller could use."""


# errors of the machinery or of the machine; never evidence against the code
NOT_THE_CODE = (MachineryError, OSError, MemoryError, ImportError, subprocess.SubprocessError)


def _frames(exc):
    return [f"{f.filename}:{f.lineno} {f.line}" for f in traceback.extract_tb(exc.__traceback__)]


_PM = {}


def _pm_call(i):
    try:
        return ("ok", _PM["fn"](_PM["items"][i]))
    except NOT_THE_CODE as exc:
        return ("mach", f"{type(exc).__name__}: {exc}\n" + traceback.format_exc())
    except Exception as exc:
        return ("exc", type(exc).__name__, str(exc)[:500], _frames(exc))


def _pm_init():
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def pmap(fn, items, procs=None, chunk=None):
    """Ordered parallel map over forked workers."""
    import multiprocessing as mp
    items = list(items)
    procs = min(procs or max(1, (os.cpu_count() or 2) - 1), len(items)) or 1
    _PM["fn"], _PM["items"] = fn, items
    if procs == 1:
        res = [_pm_call(i) for i in range(len(items))]
    else:
        with mp.get_context("fork").Pool(procs, initializer=_pm_init) as pool:
            res = pool.map(_pm_call, range(len(items)), chunksize=chunk or max(1, len(items) // (procs * 4)))
    out = []
    for r in res:
        if r[0] == "ok":
            out.append(r[1])
        elif r[0] == "mach":
            raise MachineryError(r[1])
        else:
            raise RepoError(f"{r[1]}: {r[2]}", r[3])
    return out


class Hang(BaseException):
    pass


class guard:
    """Context: raises Hang in the main thread after `seconds` (a call that never returns)."""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        import signal

        def h(*_):
            raise Hang(f"no answer within {self.s} s")
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)
        return self

    def __exit__(self, *a):
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False
