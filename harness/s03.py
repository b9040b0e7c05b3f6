"""S03: citation records.  Bibliography.tla enumerates the declared references of a backend and the outcome of every request,
with the requests that must be made and the records that must be returned; the harness replays them on a real registered
backend with a stand-in for the network, and does the same for single requests and for the citation of the package."""
import os, random, sys, urllib.parse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

CFG = """CONSTANTS Emit = TRUE
 Outcomes = {%s}
 MaxRefs = %d
INIT Init
NEXT Next
INVARIANTS NoTwice Matching OneSource Complete EmitOut
CHECK_DEADLOCK FALSE
"""
HOMES = {"inspire/arxiv": "https://inspirehep.net/api/arxiv/", "inspire/doi": "https://inspirehep.net/api/doi/",
         "doi": "https://doi.org/", "zenodo": "https://zenodo.org/api/records/"}
DOWN = ("conn", "timeout", "readtimeout")
ID = {"arXiv": ["2307.06996", "1809.05548"], "doi": ["10.1007/JHEP04(2019)064", "10.21468/SciPostPhys.16.1.032"], "zenodo": ["10156353", "123"]}
KIND = {"inspire/arxiv": "arXiv", "inspire/doi": "doi", "doi": "doi", "zenodo": "zenodo"}


def record(home, ident):
    return f'@software{{key_{home.replace("/", "_")},\n  author = "Ångström, Ł.",\n  id = "{ident}"\n}}' if home == "zenodo" else \
        f'@article{{key:{home.replace("/", "_")},\n    title = "{{Märchen – {ident}}}",\n}}'


class Net:
    def __init__(self):
        self.log, self.answers, self.trouble = [], [], []

    def request(self, sess, method, url, **kw):
        import requests
        u = urllib.parse.unquote(url)
        home = next((h for h, a in HOMES.items() if u.startswith(a)), "?")
        ident = u[len(HOMES[home]):] if home != "?" else u
        self.log.append((home, ident))
        o = self.answers[len(self.log) - 1] if len(self.log) <= len(self.answers) else "ok"
        acc = {k.lower(): v for k, v in (kw.get("headers") or {}).items()}.get("accept", "")
        if "bibtex" not in acc:
            self.trouble.append("the request does not ask for BibTeX")
        if kw.get("timeout") is None:
            self.trouble.append("a request without a time limit")
        self.timeout = kw.get("timeout")
        if str(method).lower() != "get":
            self.trouble.append("not a GET request")
        err = {"conn": requests.ConnectionError, "timeout": requests.ConnectTimeout, "readtimeout": requests.exceptions.ReadTimeout,
               "boom": RuntimeError, "decode": requests.exceptions.ContentDecodingError, "redirects": requests.TooManyRedirects}.get(o)
        if err:
            raise err("no answer")
        r = requests.Response()
        r.url = url
        r.status_code = {"s404": 404, "s500": 500, "s429": 429, "s301": 301, "s201": 201, "s299": 299}.get(o, 200)
        r.headers["Content-Type"] = "text/plain; charset=ISO-8859-1"
        r.encoding = "ISO-8859-1"
        r._content = b"" if o == "empty" else record(home, ident).encode("utf-8")
        return r


class patched:
    def __init__(self, net):
        self.net = net

    def __enter__(self):
        import requests
        self.old = requests.sessions.Session.request
        requests.sessions.Session.request = lambda sess, method, url, **kw: self.net.request(sess, method, url, **kw)
        return self.net

    def __exit__(self, *a):
        import requests
        requests.sessions.Session.request = self.old


def words(s):
    return s.split()


def backend(case, n):
    import spey
    from spey.backends.default_pdf.simple_pdf import Poisson
    name = f"verif.s03.n{n}.p{os.getpid()}"
    ns = {"name": name, "version": "1", "author": "x", "spey_requires": ">=0.0.1"}
    r = case["refs"]
    for k in ("arXiv", "doi", "zenodo"):
        if r[k] or n % 2:
            ns[k] = ID[k][: r[k]]
        else:
            ns[k] = []
    spey.register_backend(type("Cited", (Poisson,), ns))
    return name


def replay(item):
    import spey
    n, case = item
    name = backend(case, n)
    net = Net()
    net.answers = case["answers"]
    bad = []
    with patched(net):
        try:
            got = spey.get_backend_bibtex(name)
        except Exception as exc:
            return [f"raises {type(exc).__name__}"]
    want = [(h, ID[KIND[h]][i - 1]) for h, i in case["reqs"]]
    if net.log != want:
        bad.append(f"requests {net.log} instead of {want}")
    if set(got) != {"inspire", "doi.org", "zenodo"}:
        bad.append("kinds of records")
    else:
        for b in got:
            w = [record(h, ID[KIND[h]][i - 1]) for h, i in case["out"][b]]
            if [words(x) for x in got[b]] != [words(x) for x in w]:
                bad.append(f"records from {b}")
    meta = spey.get_backend_metadata(name)
    for k in ("arXiv", "doi", "zenodo"):
        if list(meta[k]) != ID[k][: case["refs"][k]]:
            bad.append("the declared references change")
    return bad + net.trouble


ANSWERS = ["ok", "s404", "s500", "s429", "s301", "s201", "s299", "empty", "boom", "decode", "redirects"] + list(DOWN)
GOOD = ("ok", "s201", "s299")


def single(item):
    """get_bibtex and cite against the same outcomes."""
    from spey.system.webutils import get_bibtex, ConnectionError as SpeyConnectionError
    import spey
    kind, arg = item
    bad = []
    net = Net()
    if kind == "one":
        home, ident, o, t = arg
        net.answers = [o]
        with patched(net):
            try:
                got = get_bibtex(home, ident, **({} if t is None else {"timeout": t}))
                if o in DOWN:
                    bad.append("an unreachable network is not reported")
                elif got != (record(home, ident) if o in GOOD else ""):
                    bad.append(f"record text for {o}")
            except SpeyConnectionError:
                if o not in DOWN:
                    bad.append(f"connection error for {o}")
            except Exception as exc:
                bad.append(f"raises {type(exc).__name__} for {o}")
        if net.log != [(home, ident)]:
            bad.append("requested address")
        if t is not None and net.timeout != t:
            bad.append("time limit is not the requested one")
    else:
        net.answers = list(arg)
        with patched(net):
            try:
                got = spey.cite()
            except Exception as exc:
                return [f"cite raises {type(exc).__name__}"] + net.trouble
        a, z = record("inspire/arxiv", "2307.06996"), record("zenodo", "10156353").replace("key_zenodo", "spey_zenodo")
        if any(o in DOWN for o in arg[: len(net.log)]):
            if got not in ("", []):
                bad.append("cite answers although the network is down")
        else:
            txt = got if isinstance(got, str) else "\n\n".join(got)
            want = [(a if arg[0] in GOOD else ""), (z if arg[1] in GOOD else "")]
            if words(txt) != words("\n\n".join(want)):
                bad.append(f"citation for {arg}")
            if net.log != [("inspire/arxiv", "2307.06996"), ("zenodo", "10156353")]:
                bad.append("addresses of the citation")
    return bad + net.trouble


def work(item):
    import logging
    logging.getLogger("Spey").setLevel(60)
    return single(item) if item[0] in ("one", "cite") else replay(item)


def run(c):
    import spey  # noqa: F401
    q = not vf.THOROUGH
    outs = ("ok", "s404", "conn", "readtimeout") if q else ("ok", "s404", "empty", "conn", "readtimeout", "timeout", "boom")
    r = c.model("Bibliography", CFG % (", ".join(f'"{o}"' for o in outs), 4), name="up to four references", workers=4)
    cases = r.json_prints()
    r = c.model("Bibliography", CFG % (", ".join(f'"{o}"' for o in ("ok", "s500", "s429", "empty", "boom", "decode", "s301", "timeout")), 2), name="two references, every failure", workers=4)
    rnd = random.Random(vf.SEED)
    rnd.shuffle(cases)
    cases = cases[:4000 if q else 40000] + r.json_prints()
    ids = [("inspire/arxiv", "2307.06996"), ("inspire/doi", ID["doi"][0]), ("doi", ID["doi"][1]), ("zenodo", "10156353")]
    items = list(enumerate(cases))
    items += [("one", (h, i, o, t)) for h, i in ids for o in ANSWERS for t in (None, 3, 11)]
    items += [("cite", (a, b)) for a in ANSWERS for b in ANSWERS]
    res = vf.pmap(work, items)
    c.traces += len(items)
    c.extra["cases_replayed"] = len(items)
    for it, bad in zip(items, res):
        if bad:
            c.violation(bad[0].split(" [")[0][:90], {"case": it[1], "observed": bad})
    c.sample(cases[0])
    c.sample(cases[-1])


vf.main(run, "S03")
