"""One process that imports the package: the network is a stand-in, everything else is as usual.  argv: answer of the network."""
import json, os, sys
sys.path.insert(0, os.path.join(os.environ["VERIF_REPO_SRC"]))
import requests
n = {"req": 0}
ans = sys.argv[1]


def request(self, method, url, **kw):
    n["req"] += 1
    if ans == "conn":
        raise requests.ConnectionError("no route")
    r = requests.Response()
    r.status_code, r.url, r.encoding = (500 if ans == "status500" else 200), url, "utf-8"
    ver = {"new1": "98.0.1", "new2": "98.0.2", "status500": "98.0.9"}.get(ans)
    r._content = b"<html>" if ver is None else json.dumps({"info": {"version": ver, "requires_python": ">=3.8"}}).encode()
    return r


requests.sessions.Session.request = request
import spey  # noqa: E402
import logging  # noqa: E402
print("RESULT " + json.dumps({"req": n["req"], "lvl": logging.getLogger("Spey").level, "file": spey.__file__}))
