"""R01: the backend registry.  Registry.tla enumerates histories of registrations (good and bad), scans for plug-ins and queries
with what every name must answer after each step; the harness replays them on the real registry, with plug-ins installed as
packages in a scratch folder, and looks at every name through every query after every step."""
import itertools, os, random, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

CFG = "CONSTANTS Emit = %s\n Depth = %d\nINIT Init\nNEXT Next\nINVARIANTS RegisteredUsable EmitOut\n%sCHECK_DEADLOCK FALSE\n"
COUNT = itertools.count()
UNKNOWN = {"version": "__unknown_version__", "author": "__unknown_author__", "doi": [], "arXiv": [], "zenodo": [], "spey_requires": ">=0.0.1"}

PLUGIN = '''
from spey import BackendBase, ConverterBase
from spey.backends.default_pdf.simple_pdf import Poisson, Gaussian

class Model(Poisson):
    name = "{x}.p.model"; version = "1.2"; author = "plug"; spey_requires = ">=0.0.1"
    doi = ["10.1/plug"]; arXiv = ["2.1", "1.1"]; zenodo = []
class Old(Poisson):
    name = "{x}.p.old"; version = "1.2"; author = "plug"; spey_requires = "<0.0.1"
class Misnamed(Poisson):
    name = "{x}.something"; version = "1.2"; author = "plug"; spey_requires = ">=0.0.1"
class Miscased(Poisson):
    name = "{x}.P.miscased"; version = "1.2"; author = "plug"; spey_requires = ">=0.0.1"
class Unnamed(Poisson):
    name = ""; version = "1.2"; author = "plug"; spey_requires = ">=0.0.1"
class Noreq(BackendBase):
    name = "{x}.p.noreq"; version = "1.2"; author = "plug"
    config = Poisson.config; get_logpdf_func = Poisson.get_logpdf_func; expected_data = Poisson.expected_data; is_alive = Poisson.is_alive
    get_objective_function = Poisson.get_objective_function; get_sampler = Poisson.get_sampler
class Abstract(BackendBase):
    name = "{x}.p.abstract"; version = "1.2"; author = "plug"; spey_requires = ">=0.0.1"
class Made(Gaussian):
    name = "{x}.made"
class Terse(BackendBase):
    name = "{x}.p.terse"; spey_requires = ">=0.0.1"
    def __init__(self, s, b, d):
        self.p = Poisson(s, b, d)
        self.data = self.p.data
    is_alive = property(lambda self: True)
    def config(self, *a, **k):
        return self.p.config(*a, **k)
    def get_logpdf_func(self, *a, **k):
        return self.p.get_logpdf_func(*a, **k)
    def expected_data(self, *a, **k):
        return self.p.expected_data(*a, **k)
class Converter(ConverterBase):
    name = "{x}.p.converter"; version = "1.2"; author = "plug"; spey_requires = ">=0.0.1"
    def __call__(self, s, b, d):
        return Made(s, b, d, [1.0] * len(d))
'''
PLUGCLASS = {"p.model": "Model", "p.converter": "Converter", "p.old": "Old", "p.misnamed": "Misnamed", "p.noreq": "Noreq",
             "p.unnamed": "Unnamed", "p.abstract": "Abstract", "p.terse": "Terse", "p.miscased": "Miscased"}


def make(kind, name, n):
    """A class of the given kind, and the class of the backend its models must have."""
    import spey
    from spey.backends.default_pdf.simple_pdf import Gaussian, Poisson
    ns = {"name": name, "version": f"{n}.0", "author": f"author {n}", "spey_requires": ">=0.0.1", "doi": [f"10.1/x{n}", f"10.1/a{n}"], "arXiv": [], "zenodo": ["7", "2", "7"]}
    if kind == "model":
        cls = type("M", (Poisson,), ns)
        return cls, cls
    if kind == "child":                       # a variation of another backend under a name of its own
        base = type("Base", (Gaussian,), dict(ns, name=name + ".base"))
        cls = type("C", (base,), {"name": name, "__init__": lambda self, s, b, d: base.__init__(self, s, b, d, [1.0] * len(d))})
        return cls, cls
    if kind == "converter":
        made = type("Made", (Gaussian,), dict(ns, name=name + ".made"))
        cls = type("Conv", (spey.ConverterBase,), dict(ns, __call__=lambda self, s, b, d: made(s, b, d, [1.0] * len(d))))
        return cls, made
    if kind == "abstract":
        return type("A", (spey.BackendBase,), ns), None
    if kind == "old":
        return type("O", (Poisson,), dict(ns, spey_requires="<0.0.1")), None
    if kind == "notsub":
        return type("N", (), ns), None
    P = Poisson
    full = {k: getattr(P, k) for k in ("config", "get_logpdf_func", "expected_data", "get_objective_function", "get_sampler", "is_alive")}
    if kind == "terse":                       # only what is required
        def init(self, s, b, d):
            self.p = Poisson(s, b, d)
            self.data = self.p.data
        via = {x: (lambda self, *a, x=x, **k: getattr(self.p, x)(*a, **k)) for x in ("config", "get_logpdf_func", "expected_data")}
        cls = type("T", (spey.BackendBase,), {**via, "__init__": init, "is_alive": property(lambda self: True), "name": name, "spey_requires": ns["spey_requires"]})
        return cls, cls
    drop = {"noreq": "spey_requires", "noname": "name"}[kind]
    return type("X", (spey.BackendBase,), {**full, **{k: v for k, v in ns.items() if k != drop}}), None


def plug(prefix):
    root = vf.scratch("plug")
    mod = prefix.replace(".", "_") + "_plugin"
    open(os.path.join(root, mod + ".py"), "w").write(PLUGIN.format(x=prefix))
    info = os.path.join(root, f"{mod}-1.0.dist-info")
    os.mkdir(info)
    open(os.path.join(info, "METADATA"), "w").write(f"Metadata-Version: 2.1\nName: {mod}\nVersion: 1.0\n")
    lines = "".join(f"{prefix}.{p} = {mod}:{cl}\n" for p, cl in PLUGCLASS.items())
    open(os.path.join(info, "entry_points.txt"), "w").write("[spey.backend.plugins]\n" + lines)
    sys.path.append(root)
    return root, mod


def outcome(f):
    try:
        return "ok", f()
    except Exception as exc:
        return type(exc).__name__, None


def replay(hist):
    import numpy as np
    import spey
    prefix = f"h{os.getpid()}n{next(COUNT)}"
    real = lambda n: n if n.startswith("default.") or n == "zzz" else f"{prefix}.{n}"
    start = list(spey.AvailableBackends())
    if len(set(start)) != len(start):
        return 0, ["a name is listed twice"]
    behind, meta, root, mod = {}, {}, None, None
    bad = []

    def look(n, kind, want):
        """Asking for one name through every query."""
        rn = real(n)
        got, wrapper = outcome(lambda: spey.get_backend(rn))
        if got != want:
            bad.append(f"asking for {'a ' + kind if kind != 'none' else 'an unknown name'} gives {got} instead of {want}")
            return
        gm, md = outcome(lambda: spey.get_backend_metadata(rn))
        if kind == "none":
            gb, _ = outcome(lambda: spey.get_backend_bibtex(rn))
            if gm != "PluginError" or gb != "PluginError":
                bad.append(f"metadata of an unknown name gives {gm}, its citations {gb}")
            return
        if want != "ok":
            return
        if gm != "ok":
            bad.append(f"metadata of {kind} gives {gm}")
            return
        if md["name"] != rn:
            bad.append(f"metadata of {kind} has the name of another")
        if n in meta:
            for k, v in meta[n].items():
                if md[k] != v:
                    bad.append(f"metadata of {kind}: {k} is {md[k]} instead of {v}")
        for k in ("doi", "arXiv", "zenodo"):
            md[k].append("spoilt")            # what is returned belongs to the caller
        _, again = outcome(lambda: spey.get_backend_metadata(rn))
        if again is None or any("spoilt" in again[k] for k in ("doi", "arXiv", "zenodo")):
            bad.append("metadata can be changed by a caller")
        data = [3.0 + len(n), 5.0]
        args = ([1.0, 2.0], [4.0, 6.0], data) if n != "default.normal" else ([1.0, 2.0], [4.0, 6.0], data, [1.0, 1.0])
        gm, m = outcome(lambda: wrapper(*args, analysis="an " + n, xsection=0.25, ntoys=7))
        if gm != "ok":
            bad.append(f"building a model of {kind} gives {gm}")
            return
        cls = behind.get(n)
        if not isinstance(m, spey.StatisticalModel) or (cls is not None and type(m.backend) is not cls):
            bad.append(f"the backend of a model of {kind} is {type(m.backend).__name__}")
        if m.analysis != "an " + n or m.xsection != 0.25 or m.ntoys != 7:
            bad.append("the options of a model are lost")
        if kind != "converter" and m.backend_type != rn:
            bad.append(f"backend type {m.backend_type}")
        if not np.array_equal(np.asarray(m.backend.data, float), np.asarray(data)) or not np.isfinite(m.likelihood(poi_test=1.0, return_log=True)):
            bad.append(f"a model of {kind} is not usable")

    try:
        for i, st in enumerate(hist):
            op, n, k = st["op"], st["n"], st["k"]
            if op == "register":
                cls, backend = make(k, real(n), i + 1)
                got, ret = outcome(lambda: spey.register_backend(cls))
                if (got == "ok") != (not st["errs"]) or (st["errs"] and got not in st["errs"]):
                    bad.append(f"registering {k} gives {got}, allowed {sorted(st['errs']) or 'success'}")
                elif got == "ok":
                    if ret is not cls:
                        bad.append("registration returns something else than the class")
                    behind[n] = backend
                    meta[n] = UNKNOWN if k == "terse" else {"version": f"{i + 1}.0", "author": f"author {i + 1}", "doi": [f"10.1/x{i + 1}", f"10.1/a{i + 1}"], "zenodo": ["7", "2", "7"], "spey_requires": ">=0.0.1"}
            elif op == "scan":
                root, mod = plug(prefix)
                spey.reset_backend_entries()
                import importlib
                pm = importlib.import_module(mod)
                behind.update({"p.model": pm.Model, "p.unnamed": pm.Unnamed, "p.converter": pm.Made, "p.terse": pm.Terse})
                meta["p.terse"] = UNKNOWN
                meta["p.model"] = {"version": "1.2", "author": "plug", "doi": ["10.1/plug"], "arXiv": ["2.1", "1.1"], "zenodo": []}
            else:
                look(n, st["reg"][n], st["get"][n])
            if op == "scan":
                # scanning is only claimed for installed backends
                for x in list(behind):
                    if x in ("a", "b") and real(x) not in spey.AvailableBackends():
                        return None
            names = spey.AvailableBackends()
            want = set(start) | {real(x) for x, kd in st["reg"].items() if kd != "none"}
            if set(names) != want or len(names) != len(want):
                bad.append(f"listed names after {op} {k}: {sorted(set(names) ^ want)}")
            names.append("spoilt")
            if "spoilt" in spey.AvailableBackends():
                bad.append("the list of names can be changed by a caller")
            if i == len(hist) - 1 or op != "ask":
                for x, kd in st["reg"].items():
                    if i == len(hist) - 1 or kd != "none":
                        look(x, kd, st["get"][x])
            if bad:
                return i + 1, bad
    finally:
        if root:
            sys.path.remove(root)
            sys.modules.pop(mod, None)
            shutil.rmtree(root, ignore_errors=True)
    return None


def work(hist):
    import logging
    logging.getLogger("Spey").setLevel(60)
    import requests
    old = requests.sessions.Session.request
    requests.sessions.Session.request = lambda self, method, url, **kw: (_ for _ in ()).throw(requests.ConnectionError("none"))
    try:
        return replay(hist)
    finally:
        requests.sessions.Session.request = old


def everything(_):
    """Every installed backend, as shipped."""
    import spey
    bad = []
    args = {"default.poisson": ([1.0], [2.0], [3]), "default.normal": ([1.0], [2.0], [3], [1.0]),
            "default.multivariate_normal": ([1.0, 1.0], [2.0, 2.0], [3, 2], [[1.0, 0.1], [0.1, 1.0]]),
            "default.uncorrelated_background": ([1.0], [2.0], [3], [0.5]), "default.effective_sigma": ([1.0], [2.0], [3], [[0.5, 0.4]]),
            "default.correlated_background": ([1.0, 1.0], [2.0, 2.0], [3, 2], [[0.3, 0.1], [0.1, 0.3]]),
            "default.third_moment_expansion": ([1.0, 1.0], [2.0, 2.0], [3, 2], [[0.3, 0.1], [0.1, 0.3]], [0.01, 0.02])}
    kw = {"default.poisson": ("signal_yields", "background_yields", "data"), "default.normal": ("signal_yields", "background_yields", "data", "absolute_uncertainties"),
          "default.multivariate_normal": ("signal_yields", "background_yields", "data", "covariance_matrix"),
          "default.uncorrelated_background": ("signal_yields", "background_yields", "data", "absolute_uncertainties"),
          "default.effective_sigma": ("signal_yields", "background_yields", "data", "absolute_uncertainty_envelops"),
          "default.correlated_background": ("signal_yields", "background_yields", "data", "covariance_matrix"),
          "default.third_moment_expansion": ("signal_yields", "background_yields", "data", "covariance_matrix", "third_moment")}
    for name in args:
        if name not in spey.AvailableBackends():
            bad.append(f"{name} is not available")
            continue
        if name == "default.effective_sigma":
            a = dict(zip(kw[name], args[name]), correlation_matrix=[[1.0]])
        else:
            a = dict(zip(kw[name], args[name]))
        m = spey.get_backend(name)(analysis="x", **a)
        md = spey.get_backend_metadata(name)
        if md["name"] != name or m.backend.name != name or m.backend_type != name or m.backend.version != md["version"]:
            bad.append(f"{name} is {md['name']} / {m.backend_type}")
        if not all(isinstance(md[k], list) for k in ("doi", "arXiv", "zenodo")) or not md["spey_requires"]:
            bad.append(f"metadata of {name}")
    return bad


def current():
    import re, spey
    v = re.match(r"^(\d+)\.(\d+)\.(\d+)(-.*)?$", spey.version())
    return [int(x) for x in v.groups()[:3]] + [str(bool(v.group(4))).upper()]


def text(req):
    """The requirement as a user writes it."""
    return ",".join(f"{c['op']}{'.'.join(map(str, c['v']))}" for c in req)


def requirements(reqs):
    """Backends with every requirement, registered and found among the installed ones."""
    import importlib
    import spey
    from spey.backends.default_pdf.simple_pdf import Poisson
    bad = []
    prefix = f"q{os.getpid()}n{next(COUNT)}"
    root = vf.scratch("plugreq")
    mod = prefix + "_reqs"
    try:
        open(os.path.join(root, mod + ".py"), "w").write("from spey.backends.default_pdf.simple_pdf import Poisson\n" + "".join(
            f"class R{i}(Poisson):\n    name = '{prefix}.p{i}'\n    spey_requires = '{text(r["req"])}'\n" for i, r in enumerate(reqs)))
        info = os.path.join(root, f"{mod}-1.0.dist-info")
        os.mkdir(info)
        open(os.path.join(info, "METADATA"), "w").write(f"Metadata-Version: 2.1\nName: {mod}\nVersion: 1.0\n")
        open(os.path.join(info, "entry_points.txt"), "w").write("[spey.backend.plugins]\n" + "".join(f"{prefix}.p{i} = {mod}:R{i}\n" for i in range(len(reqs))))
        sys.path.append(root)
        spey.reset_backend_entries()
        for i, r in enumerate(reqs):
            t, want = text(r["req"]), "ok" if r["met"] else "PluginError"
            name = f"{prefix}.l{i}"
            got, _ = outcome(lambda: spey.register_backend(type("L", (Poisson,), {"name": name, "spey_requires": t})))
            if got != want or (name in spey.AvailableBackends()) != r["met"]:
                bad.append((r, "registering", got))
            elif r["met"]:
                got, w = outcome(lambda: spey.get_backend(name))
                if got != "ok" or spey.get_backend_metadata(name)["spey_requires"] != t or w([1.0], [2.0], [3]).backend_type != name:
                    bad.append((r, "using what was registered", got))
            got, w = outcome(lambda: spey.get_backend(f"{prefix}.p{i}"))
            if got != want:
                bad.append((r, "asking for an installed one", got))
            elif r["met"] and (spey.get_backend_metadata(f"{prefix}.p{i}")["spey_requires"] != t or w([1.0], [2.0], [3]).backend_type != f"{prefix}.p{i}"):
                bad.append((r, "using an installed one", got))
    finally:
        if root in sys.path:
            sys.path.remove(root)
        sys.modules.pop(mod, None)
        shutil.rmtree(root, ignore_errors=True)
    return bad


def run(c):
    import spey  # noqa: F401
    import spey.backends.default_pdf.simple_pdf  # noqa: F401
    q = not vf.THOROUGH
    c.model("Registry", CFG % ("FALSE", 3 if q else 4, "PROPERTIES Stable RefusedUnchanged\n"), name="every history", workers=6)
    rnd = random.Random(vf.SEED)
    r = c.model("Registry", CFG % ("TRUE", 2, ""), name="short histories", workers=4)
    hists = r.json_prints()
    rnd.shuffle(hists)
    hists = hists[:700 if q else 5000]
    for depth, num in ((5, 20), (9, 20)) if q else ((5, 200), (9, 200), (14, 100)):
        r = c.model("Registry", CFG % ("TRUE", depth, ""), name=f"sampled histories of {depth} steps", workers=4,
                    args=("-simulate", f"num={num}", "-seed", str(vf.SEED + depth), "-depth", str(depth + 1)))
        hs = r.json_prints()
        rnd.shuffle(hs)
        hists += hs[:450 if q else 3000]
    res = vf.pmap(work, hists)
    c.traces += len(hists)
    for h, x in zip(hists, res):
        if x:
            n, bad = x
            c.violation(bad[0].split(": [")[0][:90], {"history": [{k: s[k] for k in ("op", "n", "k", "errs")} for s in h[:n]], "observed": bad})
    for b in vf.pmap(everything, [0, 1])[0]:
        c.violation(b, {"installed backends": b})
    cur = current()
    if True:
        inst = "---- MODULE RequiresR01 ----\nEXTENDS Requires\nCurV == <<%d, %d, %d>>\nPreV == %s\n====\n" % tuple(cur)
        cfg = "CONSTANTS Cur <- CurV\n Pre <- PreV\n MaxClauses = %d\n Emit = %s\nINIT Init\nNEXT Next\nINVARIANTS Order Total EmitOut\nPROPERTIES Narrows\nCHECK_DEADLOCK FALSE\n"
        r = vf.tlc("RequiresR01", cfg % (2, "TRUE"), extra_files=[("RequiresR01.tla", inst)], workers=4)
        c.count(r)
        reqs = r.json_prints()
        if not q:
            c.count(vf.tlc("RequiresR01", cfg % (3, "FALSE"), extra_files=[("RequiresR01.tla", inst)], workers=6))
        one = [x for x in reqs if len(x["req"]) == 1]
        two = [x for x in reqs if len(x["req"]) == 2]
        rnd.shuffle(two)
        reqs = one + two[:700 if q else 100000]
        c.traces += len(reqs)
        for bs in vf.pmap(requirements, [reqs[i:i + 60] for i in range(0, len(reqs), 60)], chunk=1):
            for x, what, got in bs:
                c.violation(f"requirement of {len(x['req'])} parts, {what}", {"requirement": x, "observed": got, "version": cur})
    c.extra["histories_replayed"] = len(hists)
    c.sample(hists[0])


vf.main(run, "R01")
