"""S01: the online update check.  UpdateCache.tla enumerates histories of lookups, clock advances, network outcomes, damage to
the stored answer, failing writes and processes dying while they store; each lookup comes with the number of requests and the
version that must be reported.  The harness replays them on the real check in a home folder of its own: the clock is moved by
ageing the stored files, storing is broken by a limit on the size of files, and the network is a stand-in."""
import json, os, random, re, resource, shutil, signal, subprocess, sys, time
from datetime import datetime, timedelta, timezone
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

CFG = "CONSTANTS Emit = %s\n Depth = %d\n Life = 1440\nINIT Init\nNEXT Next\nINVARIANTS Limit EmitOut\n%sCHECK_DEADLOCK FALSE\n"
PROPS = "PROPERTIES RateLimited OnlyGood\n"
VER = {"new1": "98.0.1", "new2": "98.0.2"}
HOME = {}


def setup():
    """A home folder of this process; spey is loaded only now, so that it looks there."""
    if HOME.get("pid") != os.getpid():
        h = vf.scratch("home")
        HOME.update(pid=os.getpid(), path=h)
        os.environ["HOME"] = h
        assert "spey" not in sys.modules
        import spey  # noqa: F401
    return HOME["path"]


def body(ver):
    return json.dumps({"info": {"version": VER[ver], "requires_python": ">=3.8", "name": "spey", "summary": "x" * 200},
                       "releases": {str(i): [] for i in range(20)}})


class Net:
    """Stand-in for the network."""
    def __init__(self):
        self.n, self.now, self.notime = 0, None, 0

    def request(self, sess, method, url, **kw):
        import requests
        self.n += 1
        t = kw.get("timeout")
        if t is None:
            self.notime += 1
        k = self.now
        if k == "conn":
            raise requests.ConnectionError("no route")
        if k == "timeout":
            raise requests.ConnectTimeout("slow")
        if k == "readtimeout":
            raise requests.exceptions.ReadTimeout("slow")
        if k == "boom":
            raise RuntimeError("unexpected")
        r = requests.Response()
        r.status_code, r.url, r.encoding = 200, url, "utf-8"
        txt = {"status404": body("new2"), "status500": body("new1"), "nojson": "<html>", "list": "[1]", "null": "null"}.get(k)
        if k == "status404":
            r.status_code = 404
        if k == "status500":
            r.status_code = 500
        r._content = (txt if txt is not None else k if k.startswith("{") else body(k)).encode()
        return r


def age_by(folder, minutes):
    fs = sorted(os.listdir(folder)) if os.path.isdir(folder) else []
    for f in fs:                       # oldest first: shifting backwards never hits a name still in use
        p = os.path.join(folder, f)
        st = os.lstat(p)
        os.utime(p, (st.st_atime - 60 * minutes, st.st_mtime - 60 * minutes), follow_symlinks=False)
        m = re.fullmatch(r"(.*?)(\d{8}_\d{6})(.*)", f)
        if m:
            t = datetime.strptime(m.group(2), "%Y%m%d_%H%M%S") - timedelta(minutes=minutes)
            os.rename(p, os.path.join(folder, m.group(1) + t.strftime("%Y%m%d_%H%M%S") + m.group(3)))


def spoil(path, kind):
    data = open(path, "rb").read() if os.path.isfile(path) else b'{"info": {'
    if os.path.isdir(path):
        shutil.rmtree(path)
    elif os.path.exists(path):
        st = os.stat(path)
        os.remove(path)
    else:
        st = None
    if kind == "folder":
        os.mkdir(path)
        return
    new = {"half": data[:len(data) // 2], "empty": b"", "text": b"not json", "list": b"[]", "null": b"null",
           "binary": b"\xff\xfe\x00\x80" + data, "cut1": data[:-1]}[kind]
    with open(path, "wb") as f:
        f.write(new)


def look(net):
    """One update check: (raised, requests, reported text)."""
    import logging
    from spey.system.webutils import check_updates
    log = logging.getLogger("Spey")
    seen = []

    class H(logging.Handler):
        def emit(self, record):
            seen.append((record.levelno, record.getMessage()))
    h = H()
    old, lvl = log.handlers[:], log.level
    log.handlers[:] = [h]
    log.setLevel(logging.DEBUG)
    before = net.n
    err = None
    try:
        with vf.guard(20):
            check_updates()
    except vf.Hang:
        err = "no answer"
    except Exception as exc:
        err = f"{type(exc).__name__}: {exc}"
    finally:
        log.handlers[:] = old
        log.setLevel(lvl)
    return err, net.n - before, " | ".join(m for l, m in seen if l >= logging.WARNING)


def clear(folder):
    if os.path.islink(folder) or os.path.isfile(folder):
        os.remove(folder)
    elif os.path.isdir(folder):
        shutil.rmtree(folder)


def replay(hist):
    home = setup()
    import requests
    from spey.system import webutils  # noqa: F401
    folder = os.path.join(home, ".spey")
    clear(folder)
    net = Net()
    saved = requests.sessions.Session.request
    requests.sessions.Session.request = lambda self, method, url, **kw: net.request(self, method, url, **kw)
    bad = []
    try:
        for n, st in enumerate(hist):
            op, x = st["op"], st["x"]
            if op == "look":
                net.now = x
                err, req, said = look(net)
                if err:
                    bad.append(f"the check raises: {err}")
                if st["req"] >= 0 and req != st["req"]:
                    bad.append(f"{req} requests instead of {st['req']}")
                if st["req"] < 0 and req not in (0, 1):
                    bad.append(f"{req} requests")
                got = re.findall(r"98\.0\.\d+", said)
                want = VER.get(st["ver"])
                if want is None and got:
                    bad.append(f"reports {got[0]} although nothing is known")
                if want is not None and (want not in got or any(g != want for g in got)):
                    bad.append(f"reports {got} instead of {want}")
            elif op in ("crash", "failwrite"):
                net.now = x["net"]
                if op == "crash":
                    pid = os.fork()
                    if pid == 0:
                        try:
                            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                            resource.setrlimit(resource.RLIMIT_FSIZE, (x["k"], x["k"]))
                            e, *_ = look(net)
                            os._exit(3 if e else 0)
                        finally:
                            os._exit(4)
                    _, status = os.waitpid(pid, 0)
                    if os.WIFEXITED(status) and os.WEXITSTATUS(status):
                        bad.append("the check raises while storing fails")
                else:
                    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (x["k"], hard))
                    try:
                        err, req, said = look(net)
                    finally:
                        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                    if err:
                        bad.append(f"the check raises while storing fails: {err}")
                    if req != 1 or VER["new1"] not in said:
                        bad.append("an answer that cannot be stored is not used")
            elif op == "advance":
                age_by(folder, x)
            elif op in ("damage", "plant"):
                fs = sorted(os.listdir(folder)) if os.path.isdir(folder) else []
                if op == "damage":
                    if not fs:
                        bad.append("no answer is stored")
                    else:
                        for f in fs:
                            p = os.path.join(folder, f)
                            if x == "folder" and not os.path.isdir(p):     # out of the way of what is stored next
                                os.remove(p)
                                p = os.path.join(folder, (datetime.now(tz=timezone.utc) + timedelta(minutes=10)).strftime("pypi_latest_%Y%m%d_%H%M%S.json"))
                            if not os.path.isdir(p):
                                spoil(p, x)
                else:
                    os.makedirs(folder, exist_ok=True)
                    t = datetime.now(tz=timezone.utc) + timedelta(minutes=10)   # newer by name than anything stored here
                    while True:
                        p = os.path.join(folder, f"pypi_latest_{t.strftime('%Y%m%d_%H%M%S')}.json")
                        if not os.path.exists(p) and (not fs or os.path.basename(p) > fs[-1]):
                            break
                        t += timedelta(seconds=1)
                    spoil(p, x)
            elif op == "wipe":
                shutil.rmtree(folder, ignore_errors=True)
            elif op == "block":
                shutil.rmtree(folder, ignore_errors=True)
                if x == "file":
                    open(folder, "w").close()
                else:
                    os.symlink(os.path.join(home, "nowhere", "at", "all"), folder)
            elif op == "unblock":
                os.remove(folder)
            if net.notime:
                bad.append("a request without a time limit")
            if bad:
                return n + 1, bad
    finally:
        requests.sessions.Session.request = saved
    return None


ODD = ['{}', '{"info": {}}', '{"info": null}', '{"info": []}', '{"info": {"version": null}}', '{"info": {"version": "98.0.1"}}',
       '{"info": {"version": "98.0.1", "requires_python": null}}', '{"info": {"version": "98.0.1", "requires_python": ""}}',
       '{"info": {"version": "v98", "requires_python": ">=3.8"}}', '{"info": {"version": 98, "requires_python": ">=3.8"}}',
       '{"info": {"version": "98.0.1", "requires_python": ">=3.8,<4,!=3.9.*"}}', '{"info": {"version": "98.0.1", "requires_python": ["x"]}}',
       '{"info": {"version": "98.0.1", "requires_python": ">=99"}}']


def odd(k):
    """Strange answers, from the network and from the store: nothing is ever raised."""
    home = setup()
    import requests
    folder = os.path.join(home, ".spey")
    clear(folder)
    net = Net()
    saved = requests.sessions.Session.request
    requests.sessions.Session.request = lambda self, method, url, **kw: net.request(self, method, url, **kw)
    out = []
    try:
        net.now = ODD[k]
        for _ in range(2):
            err, _, said = look(net)
            out.append((err, said))
        os.makedirs(folder, exist_ok=True)
        for f in os.listdir(folder):
            os.remove(os.path.join(folder, f))
        open(os.path.join(folder, "pypi_latest_20200101_000000.json"), "w").write(ODD[k])
        net.now = "conn"
        err, _, said = look(net)
        out.append((err, said))
    finally:
        requests.sessions.Session.request = saved
    return out


SCFG = "CONSTANTS Emit = %s\n Depth = %d\nINIT Init\nNEXT Next\nINVARIANTS Silent Once EmitOut\nCHECK_DEADLOCK FALSE\n"


def starts(hist):
    """Processes importing the package one after another in one home folder."""
    home = vf.scratch("start")
    folder = os.path.join(home, ".spey")
    try:
        for n, st in enumerate(hist):
            if st["op"] == "age":
                age_by(folder, 1500)
                continue
            env = {k: v for k, v in os.environ.items() if not k.startswith("SPEY_")}
            env.update(HOME=home, VERIF_REPO_SRC=os.path.join(vf.REPO, "src"), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
            if st["check"] != "unset":
                env["SPEY_CHECKUPDATE"] = st["check"]
            if st["level"] != "unset":
                env["SPEY_LOGLEVEL"] = {"neg": "-1"}.get(st["level"], st["level"])
            p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "s01_child.py"), st["net"]],
                               env=env, capture_output=True, text=True, timeout=120, cwd=home)
            line = [x for x in p.stdout.splitlines() if x.startswith("RESULT ")]
            if p.returncode or not line:
                return n + 1, ["the package cannot be imported: " + (p.stderr.strip().splitlines() or [""])[-1]]
            got = json.loads(line[0][7:])
            bad = []
            if got["req"] != st["req"]:
                bad.append(f"{got['req']} requests at import instead of {st['req']}")
            if got["lvl"] != st["lvl"]:
                bad.append(f"level of logging {got['lvl']} instead of {st['lvl']}")
            said = set(re.findall(r"98\.0\.\d+", p.stdout if st["lvl"] > 10 else "\n".join(
                x for x in p.stdout.splitlines() if "DEBUG" not in x and "Curernt" not in x)))
            if said != ({VER[st["say"]]} if st["say"] else set()):
                bad.append(f"announces {sorted(said)} instead of {st['say'] or 'nothing'}")
            if bad:
                return n + 1, bad
    finally:
        shutil.rmtree(home, ignore_errors=True)
    return None


def work(item):
    if item[0] == "start":
        return starts(item[1])
    return odd(item[1]) if item[0] == "odd" else replay(item[1])


def run(c):
    q = not vf.THOROUGH
    c.model("UpdateCache", CFG % ("FALSE", 4, PROPS), name="histories of 4 steps", workers=6)
    if not q:
        c.model("UpdateCache", CFG % ("FALSE", 5, PROPS), name="histories of 5 steps", workers=8, timeout=800)
    r = c.model("UpdateCache", CFG % ("TRUE", 3, ""), name="every short history", workers=4)
    rnd = random.Random(vf.SEED)
    hists = r.json_prints()
    rnd.shuffle(hists)
    hists = hists[:2500 if q else 20000]
    for depth, num in ((6, 40), (12, 40)) if q else ((6, 400), (12, 400), (20, 200)):
        r = c.model("UpdateCache", CFG % ("TRUE", depth, ""), name=f"sampled histories of {depth} steps", workers=4,
                    args=("-simulate", f"num={num}", "-seed", str(vf.SEED + depth), "-depth", str(depth + 1)))
        hs = r.json_prints()
        rnd.shuffle(hs)
        hists += hs[:1500 if q else 8000]
    c.model("Startup", SCFG % ("FALSE", 2 if q else 3), name="processes importing the package", workers=6)
    runs = []
    for depth, num in ((3, 24), (5, 8)) if q else ((3, 200), (6, 100)):
        r = c.model("Startup", SCFG % ("TRUE", depth), name=f"sampled sequences of {depth} processes", workers=1,
                    args=("-simulate", f"num={num}", "-seed", str(vf.SEED + depth), "-depth", str(depth + 1)))
        hs = r.json_prints()
        rnd.shuffle(hs)
        runs += hs[:num]
    items = [("start", h) for h in runs] + [("hist", h) for h in hists] + [("odd", k) for k in range(len(ODD))]
    c.extra["process_sequences_replayed"] = len(runs)
    res = vf.pmap(work, items)
    c.traces += len(items)
    c.extra["histories_replayed"] = len(hists)
    for it, x in zip(items, res):
        if it[0] in ("hist", "start"):
            if x:
                n, bad = x
                c.violation(f"{it[1][n-1]['op']}: {bad[0]}"[:90], {"history": it[1][:n], "step": n, "observed": bad})
        else:
            for err, _ in x:
                if err:
                    c.violation(f"strange answer: {err}"[:90], {"answer": ODD[it[1]], "observed": x})
    c.sample(hists[0])
    c.sample(hists[-1])
    c.assumptions.append("ageing the stored files (modification time and the time in their names) stands for the passage of time")


vf.main(run, "S01")
