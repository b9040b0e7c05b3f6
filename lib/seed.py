"""Development tool (no check uses it): makes, verifies and runs planted bugs.

  seed.py make FILE.py       build seeded/<id>/ from FILE.py's list S of dicts
                             (id, property, needs, breaks, edits=[(file, old, new)], demo=python text)
  seed.py run [--all|IDS]    for each: scratch copy, apply, tests, demo on both trees, the property's check
"""
import concurrent.futures as cf, json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(V, "seeded")
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", SPEY_CHECKUPDATE="OFF", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, shell=isinstance(cmd, str))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, str(x.stdout)[-500:]


def copy_repo(tag):
    d = tempfile.mkdtemp(prefix=f"seed-{tag}-", dir="/tmp")
    shutil.copytree("/repo", d + "/repo", symlinks=True)
    return d


def make(path):
    for s in runpy.run_path(path)["S"]:
        d = copy_repo(s["id"]); r = d + "/repo"
        sh("git checkout -q -- .", r)
        try:
            for f, old, new in s["edits"]:
                t = open(f"{r}/{f}").read()
                n = s.get("count", 1)
                if t.count(old) != n:
                    print(s["id"], "EDIT does not match", f, t.count(old)); break
                open(f"{r}/{f}", "w").write(t.replace(old, new))
            else:
                o = os.path.join(SD, s["id"]); os.makedirs(o, exist_ok=True)
                rc, diff = sh(["git", "diff"], r)
                open(o + "/patch.diff", "w").write(diff)
                open(o + "/demo.py", "w").write(s["demo"].lstrip("\n"))
                open(o + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 SPEY_CHECKUPDATE=OFF\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                os.chmod(o + "/demo.sh", 0o755)
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
                print(s["id"], "made")
        finally:
            shutil.rmtree(d)


def run(i, tests=True):
    o = os.path.join(SD, i); meta = json.load(open(o + "/meta.json"))
    d = copy_repo(i); r = d + "/repo"; out = [i, meta["property"]]
    try:
        sh("git checkout -q -- .", r)
        env = {"PYTHONPATH": r + "/src"}
        demo = d + "/demo"; shutil.copytree(o, demo)
        for f in ("patch.diff", "meta.json"):
            os.remove(f"{demo}/{f}")
        rc0, t0 = sh(["bash", demo + "/demo.sh"], r, env, 300)
        rc, t = sh(["git", "apply", o + "/patch.diff"], r)
        if rc:
            return out + ["PATCH FAILS " + t]
        rc1, t1 = sh(["bash", demo + "/demo.sh"], r, env, 300)
        out.append("demo ok" if rc0 == 0 and rc1 != 0 else f"DEMO BAD {rc0} {rc1} {t0[-300:]} {t1[-300:]}")
        if tests:
            rc, t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--timeout=300", "tests",
                        "--deselect", "tests/test_pkg_init.py::test_available_backends_and_get_backend_bibtex"], r, env)
            out.append("tests pass" if rc == 0 else "TESTS FAIL " + t[-600:])
        checks = {c["property"]: c["quick_cmd"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
        cmd = checks.get(meta["property"])
        if cmd:
            rc, t = sh(cmd, V, {"VERIF_REPO": r, "VERIF_EVIDENCE": d, "PYTHONPATH": r + "/src", "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            hit = rc == 1 and f"VIOLATION property={meta['property']} " in t
            out.append("CAUGHT " + " | ".join(x.strip() for x in t.splitlines()[:3]) if hit else f"MISSED rc={rc} {t[-400:]}")
        else:
            out.append("no check")
    finally:
        shutil.rmtree(d)
    return out


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        ids = sys.argv[2:]
        if ids == ["--all"]:
            ids = sorted(os.listdir(SD))
        ids = [j for i in ids for j in sorted(os.listdir(SD)) if j == i or (i.endswith("*") and j.startswith(i[:-1]))]
        with cf.ThreadPoolExecutor(3) as ex:
            for r in ex.map(run, ids):
                print(" ;; ".join(r), flush=True)
