"""Development tool (no check uses it): measures the checks on many small mechanical changes to the source.

  mutate.py list N SEED OUT.json           sample N mutants over the source files, keep those that pass the repository's tests
  mutate.py run OUT.json RES.json [JOBS]   run the checks of each kept mutant's file until one reports it

MUTATE=renames uses the second set of operators.  Mutants are applied to scratch copies of /repo only."""
import ast, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SRC = "/repo/src/spey"
MAP = {"system/cache.py": "C02 C01 C03", "base/model_config.py": "P01 L02 L03", "optimizer/core.py": "P02 P03 L02 L03 L01", "optimizer/scipy_tools.py": "P02 L02 L03",
       "optimizer/minuit_tools.py": "P02 L02 L03", "optimizer/__init__.py": "P02", "interface/statistical_model.py": "L06 L02 L03 L04 L05 L01 H07 H04 R01 K01",
       "base/hypotest_base.py": "H02 H03 H04 H05 H06 H07 L01 L05 L06", "base/utils.py": "H05 X02", "hypothesis_testing/upper_limits.py": "H04 H05", "hypothesis_testing/distributions.py": "H02 H03",
       "hypothesis_testing/toy_calculator.py": "H03", "hypothesis_testing/asymptotic_calculator.py": "H02 H06", "hypothesis_testing/utils.py": "H02 H03", "hypothesis_testing/test_statistics.py": "H01 H02 H06 H03",
       "backends/default_pdf/__init__.py": "B01 B02 B03 B04 L01 L05 L03", "backends/default_pdf/simple_pdf.py": "B01 B02 B04 L01 L05 L03", "backends/default_pdf/third_moment.py": "B05 B01",
       "backends/default_pdf/uncertainty_synthesizer.py": "B03 B01 B02", "backends/distributions.py": "B02 B04 B03", "helper_functions.py": "X01 B01 B02 K01", "math.py": "B02",
       "combiner/uncorrelated_statistics_combiner.py": "K01 K02", "multiparameter/contour.py": "X02", "system/logger.py": "S02", "system/exceptions.py": "S02", "system/webutils.py": "S03 S01",
       "__init__.py": "R01 S01 S02 S03 P03", "utils.py": "L05 H02", "base/backend_base.py": "L06 R01", "about.py": "R01 S01"}


def docs(t):
    out = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            out.add(id(n.body[0])); out.add(id(n.body[0].value))
    return out


def mutants(src):
    t = ast.parse(src)
    skip = docs(t)
    for n in ast.walk(t):  # logging, annotations and messages are no behaviour
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("log", "warnings"):
            for m in ast.walk(n):
                skip.add(id(m))
        for a in ("annotation", "returns"):
            if getattr(n, a, None) is not None:
                for m in ast.walk(getattr(n, a)):
                    skip.add(id(m))
        if isinstance(n, ast.JoinedStr) or isinstance(n, ast.Raise):
            for m in ast.walk(n):
                skip.add(id(m))
    out = []

    def add(node, new, what):
        out.append((node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, new, what))
    U = ast.unparse
    for n in ast.walk(t):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                m = ast.Call(n.func, n.args, n.keywords[:i] + n.keywords[i + 1:])
                add(n, U(m), f"drop keyword {k.arg}")
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "sorted", "abs", "max", "min", "float", "int", "set", "bool"):
                add(n, U(n.args[0]), f"drop {n.func.id}()")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy", "abs", "sqrt", "exp", "log", "array", "asarray", "atleast_1d", "isnan", "square") and len(n.args) <= 1 and not n.keywords:
                add(n, U(n.args[0] if n.args else n.func.value), f"drop {n.func.attr}")
            if len(n.args) == 2 and not n.keywords:
                add(n, U(ast.Call(n.func, n.args[::-1], [])), "swap arguments")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
            for o in alt.get(type(n.ops[0]), []):
                add(n, U(ast.Compare(n.left, [o()], n.comparators)), f"{type(n.ops[0]).__name__}->{o.__name__}")
        elif isinstance(n, ast.BinOp):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
            if type(n.op) in alt:
                add(n, "(" + U(ast.BinOp(n.left, alt[type(n.op)](), n.right)) + ")", f"{type(n.op).__name__}->{alt[type(n.op)].__name__}")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "flip bool")
            elif isinstance(n.value, (int, float)):
                for v in {n.value + 1, -n.value if n.value else 1, n.value * 2}:
                    add(n, repr(v), f"constant {n.value}->{v}")
            elif n.value is None:
                pass
        elif isinstance(n, ast.IfExp):
            add(n, "(" + U(n.body) + ")", "always first"); add(n, "(" + U(n.orelse) + ")", "always second")
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = n.values[:i] + n.values[i + 1:]
                add(n, "(" + (U(ast.BoolOp(n.op, rest)) if len(rest) > 1 else U(rest[0])) + ")", f"drop operand {i}")
            add(n, "(" + U(ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)) + ")", "and<->or")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, "(" + U(n.operand) + ")", f"drop {type(n.op).__name__}")
        elif isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                add(n.test, "True", "if True"); add(n.test, "False", "if False")
        elif isinstance(n, (ast.Expr, ast.AugAssign)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute))):
            add(n, "pass", "delete statement")
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(n, "pass", "delete " + type(n).__name__)
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                add(n, U(ast.Slice(None, n.upper, n.step)) or ":", "slice from start")
            if n.upper is not None:
                add(n, U(ast.Slice(n.lower, None, n.step)) or ":", "slice to end")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, (ast.Constant, ast.Name)):
            pass
    return [m for m in out]


SWAP = {}
for _a, _b in (("min", "max"), ("any", "all"), ("argmin", "argmax"), ("s95exp", "s95obs"), ("observed", "apriori"), ("apriori", "aposteriori"), ("floor", "ceil"), ("append", "appendleft"),
               ("popleft", "pop"), ("get", "pop"), ("sum", "prod"), ("exp", "log"), ("sqrt", "square"), ("isf", "ppf"), ("cdf", "sf"), ("pop", "get"), ("update", "setdefault"), ("diag", "asarray"),
               ("lower", "upper"), ("upper", "lower"), ("likelihood", "asimov_likelihood"), ("maximize_likelihood", "maximize_asimov_likelihood"), ("setdefault", "update"), ("logpdf", "logcdf"),
               ("minimum_poi", "poi_index"), ("suggested_bounds", "suggested_init"), ("vstack", "hstack"), ("warning", "error"), ("keys", "values"), ("list", "set"), ("sorted", "list"), ("hypot", "add")):
    SWAP.setdefault(_a, []).append(_b)
    SWAP.setdefault(_b, []).append(_a)
WORDS = [("q", "qtilde"), ("qtilde", "q"), ("q0", "qtilde"), ("qmu", "q"), ("left", "right"), ("right", "left"), ("two-sided", "right"), ("nominal", "1sigma"), ("scipy", "minuit"), ("shape", "normalization"), ("toy", "asymptotic")]


def renames(src):
    """Second set of operators: one name, word or variable in place of another of the same kind."""
    t = ast.parse(src)
    skip = docs(t)
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("log", "warnings"):
            for m in ast.walk(n):
                skip.add(id(m))
        for a in ("annotation", "returns"):
            if getattr(n, a, None) is not None:
                for m in ast.walk(getattr(n, a)):
                    skip.add(id(m))
        if isinstance(n, (ast.JoinedStr, ast.Raise)):
            for m in ast.walk(n):
                skip.add(id(m))
    out = []
    U = ast.unparse
    for fn in [n for n in ast.walk(t) if isinstance(n, ast.FunctionDef)]:
        pars = [a.arg for a in fn.args.args + fn.args.kwonlyargs if a.arg not in ("self", "cls")]
        local = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        for n in [m for b in fn.body for m in ast.walk(b)]:
            if id(n) in skip or not hasattr(n, "lineno"):
                continue
            new = []
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                new = [U(n.value) + "." + b for b in SWAP.get(n.attr, [])]
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                new = list(SWAP.get(n.id, []))
                for group in (pars, local):
                    if n.id in group:
                        near = [x for x in group if x != n.id and (x[:3] == n.id[:3] or x[-4:] == n.id[-4:] or len(x) == len(n.id))]
                        new += near[:3]
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                new = [repr(b) for a, b in WORDS if a == n.value]
            for x in new:
                out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, x, "rename"))
    return out


def apply(src, m):
    l0, c0, l1, c1, new, _ = m
    b = src.encode().split(b"\n")
    pre = b"\n".join(b[:l0 - 1] + [b[l0 - 1][:c0]])
    post = b"\n".join([b[l1 - 1][c1:]] + b[l1:])
    r = (pre + new.encode() + post).decode()
    compile(r, "x", "exec")
    return r


def copy():
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
    return d


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", SPEY_CHECKUPDATE="OFF", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def test(job):
    f, m = job
    src = open(f"{SRC}/{f}").read()
    try:
        new = apply(src, m)
    except Exception:
        return None
    if ast.dump(ast.parse(new)) == ast.dump(ast.parse(src)):
        return None
    d = copy()
    try:
        open(f"{d}/repo/src/spey/{f}", "w").write(new)
        p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests", "--deselect", "tests/test_pkg_init.py::test_available_backends_and_get_backend_bibtex"],
                           cwd=d + "/repo", env=dict(ENV, PYTHONPATH=d + "/repo/src"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150)
        return job if p.returncode == 0 else None
    except subprocess.TimeoutExpired:
        return None
    finally:
        shutil.rmtree(d)


def check(job):
    f, m = job
    src = open(f"{SRC}/{f}").read()
    d = copy()
    res = []
    try:
        open(f"{d}/repo/src/spey/{f}", "w").write(apply(src, m))
        cmds = {k: v["cmd"] for k, v in json.load(open(V + "/lib/checks.json")).items()}
        for p in MAP[f].split():
            e = dict(ENV, PYTHONPATH=d + "/repo/src", VERIF_REPO=d + "/repo", VERIF_EVIDENCE=d + "/ev", VERIF_REPLAYS=d + "/rp", VERIF_SEED="1")
            os.makedirs(d + "/ev", exist_ok=True)
            try:
                q = subprocess.run([PY, *cmds[p].split()], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                rc, out = q.returncode, q.stdout
            except subprocess.TimeoutExpired:
                rc, out = 124, ""
            if rc == 1 and "VIOLATION" in out:
                return f, m, "caught", p, [x.strip() for x in out.splitlines() if x.startswith("  ")][:2]
            if rc != 0:
                res.append((p, rc, out[-300:]))
        return f, m, "noanswer" if res else "MISSED", "", res
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        n, seed, outp = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
        only = sys.argv[5].split(",") if len(sys.argv) > 5 else list(MAP)
        rnd = random.Random(seed)
        allm = []
        for f in only:
            ms = (renames if os.environ.get("MUTATE") == "renames" else mutants)(open(f"{SRC}/{f}").read())
            print(f, len(ms))
            allm += [(f, m) for m in ms]
        rnd.shuffle(allm)
        done = set(tuple(map(str, (a, b))) for a, b in [])
        with cf.ThreadPoolExecutor(7) as ex:
            keep = [j for j in ex.map(test, allm[:n]) if j]
        json.dump(keep, open(outp, "w"))
        print("sampled", min(n, len(allm)), "of", len(allm), "pass the tests:", len(keep))
    else:
        jobs = json.load(open(sys.argv[2]))
        out = json.load(open(sys.argv[3])) if os.path.exists(sys.argv[3]) else []
        have = {json.dumps(r[:2]) for r in out}
        jobs = [j for j in jobs if json.dumps(j) not in have]
        with cf.ThreadPoolExecutor(int(sys.argv[4]) if len(sys.argv) > 4 else 2) as ex:
            for r in ex.map(check, jobs):
                out.append(r)
                print(r[2], r[3], r[0], r[1][0], r[1][5], "=>", r[1][4][:90].replace("\n", " "), r[4] if r[2] != "caught" else "", flush=True)
                json.dump(out, open(sys.argv[3], "w"))
