"""Exactly solvable statistical models shared by the L checks: definitions (also rendered to TLA+), construction and asking."""
import copy, math
import numpy as np
import vf
import hypo
from hypo import EX
from spey import StatisticalModel
from backends import LinGaussGen, LinGaussHess, LinGaussNative

NAMES = ["mu", "th_a", "th_b"]
# rows: counting bins followed by constraint terms; poi and parameter numbers are 1-based here as in the specification
MODELS = [
    dict(id="A", A=[[2, 1], [0, 1]], c=[5, 0], n=[9, 0], ap=[5, 0], alt=[2, 0], poi=1, bounds=[[-9, 9], [-5, 5]], bnd2=[[-9, 9], [-1, 1]], fixed=set(), names=["mu", "th_a"]),
    dict(id="B", A=[[2, 1, 0], [1, 0, 1], [0, 1, 0], [0, 0, 1]], c=[5, 4, 0, 0], n=[8, 1, 0, 0], ap=[5, 4, 0, 0], alt=[3, 9, 1, 0], poi=1,
         bounds=[[-9, 9], [-5, 5], [-5, 5]], bnd2=[[-9, 9], [-5, 0], [0, 5]], fixed=set(), names=["mu", "th_a", "th_b"]),
    dict(id="C", A=[[1, 2, 0], [1, 1, 1], [1, 0, 0], [0, 0, 1]], c=[4, 6, 0, 0], n=[9, 13, 0, 0], ap=[4, 6, 0, 0], alt=[1, 3, 0, 0], poi=2,
         bounds=[[-1, 1], [-9, 9], [-5, 5]], bnd2=[[-5, 5], [-9, 9], [-1, 1]], fixed=set(), names=["th_a", "mu", "th_b"]),
    dict(id="D", A=[[1, 0, 1], [0, 1, 2], [1, 0, 0], [0, 1, 0]], c=[3, 5, 0, 0], n=[1, 4, 0, 0], ap=[3, 5, 0, 0], alt=[9, 6, 0, 0], poi=3,
         bounds=[[-5, 5], [-5, 5], [-2, 9]], bnd2=[[-1, 1], [-5, 5], [-2, 9]], fixed={2}, names=["th_a", "th_b", "mu"]),
    dict(id="E", A=[[2], [1]], c=[5, 3], n=[10, 3], ap=[5, 3], alt=[4, 1], poi=1, bounds=[[-9, 9]], bnd2=[[-1, 9]], fixed=set(), names=["mu"]),
]
BYID = {m["id"]: m for m in MODELS}


def tla_fun(f):
    """dict parameter -> halves as a TLA+ function."""
    return "<<>>" if not f else " @@ ".join(f"({k} :> {v})" for k, v in f.items())


def query(op, ds="obs", fix=None, neg=True, bnd=False, stat="q"):
    return {"op": op, "ds": ds, "fix": fix or {}, "neg": neg, "bnd": bnd, "stat": stat}


def qkey(q):
    return (q["op"], q["ds"], tuple(sorted((q["fix"] or {}).items())), q["neg"], q["bnd"], q["stat"])


def answers(c, models, queries, name, invariants=("EmitOut",), must=()):
    """Answers of the specification: {(model id, query key): answer}."""
    fld = lambda m: {k: (v if k not in ("fixed",) else set(v)) for k, v in m.items() if k != "names"}
    qt = "{" + ",\n ".join("[op |-> %s, ds |-> %s, fix |-> %s, neg |-> %s, bnd |-> %s, stat |-> %s]" % (
        vf.to_tla(q["op"]), vf.to_tla(q["ds"]), tla_fun(q["fix"]), vf.to_tla(q["neg"]), vf.to_tla(q["bnd"]), vf.to_tla(q["stat"])) for q in queries) + "}"
    inst = f"---- MODULE {name} ----\nEXTENDS StatModel\nMs == {vf.to_tla([fld(m) for m in models])}\nMsV == {{Ms[i] : i \\in 1..Len(Ms)}}\nQsV == {qt}\n====\n"
    cfg = "CONSTANTS Emit = TRUE\n Models <- MsV\n Queries <- QsV\nINIT Init\nNEXT Next\nINVARIANTS " + " ".join((*invariants, *must)) + "\nCHECK_DEADLOCK FALSE\n"
    r = vf.tlc(name, cfg, extra_files=[(name + ".tla", inst)], timeout=600, workers=4)
    c.count(r)
    out = {}
    for k in r.json_prints():
        q = k["q"]
        fx = q["fix"]
        q["fix"] = {a: b for a, b in fx}
        out[(k["m"], qkey(q))] = k["a"]
    return out


def build(m, kind=LinGaussGen, grad=True, names=True, **kw):
    b = kind(m["c"], m["A"], m["n"], poi=m["poi"] - 1, names=list(m["names"]) if names else None,
             bounds=[tuple(float(x) for x in t) for t in m["bounds"]], init=[0.0] * len(m["A"][0]), minpoi=float(m["bounds"][m["poi"] - 1][0]),
             fixed=[j + 1 in m["fixed"] for j in range(len(m["A"][0]))] if m["fixed"] else None, apriori=m["ap"], grad=grad, **kw)
    return StatisticalModel(b, "model-" + m["id"], xsection=2.0)


def close(a, b, tol=2e-4):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


class Form:
    """One way of writing a query (chosen by a seeded generator); `args` are the objects handed over by the caller."""

    def __init__(self, m, q, rng, minuit=True, fixed_choice=None):
        self.m, self.q = m, q
        g = fixed_choice or (lambda k, opts: opts[int(rng.integers(len(opts)))])
        self.c = {}

        def pick(k, opts):
            self.c[k] = g(k, list(range(len(opts))))
            return opts[self.c[k] % len(opts)]
        n = len(m["names"])
        kw = {}
        if q["ds"] == "ap":
            e = "apriori"
        elif q["ds"] == "obs":
            e = pick("obs", ["observed", "aposteriori"])
        else:
            e = pick("anyexp", ["observed", "apriori", "aposteriori"])
        kw["expected"] = pick("spell", [EX[e], e])
        if q["ds"] == "alt":
            kw["data"] = pick("data", [lambda: list(m["alt"]), lambda: [float(x) for x in m["alt"]], lambda: np.array(m["alt"], dtype=float)])()
        fx = {k: v / 2 for k, v in q["fix"].items()}
        if fx:
            if list(fx) == [m["poi"]]:
                v = fx[m["poi"]]
                opts = [lambda: float(v), lambda: np.float64(v), lambda: {m["poi"] - 1: v}, lambda: {m["names"][m["poi"] - 1]: v}]
                if v == int(v):
                    opts.append(lambda: int(v))
            else:
                opts = [lambda: {k - 1: v for k, v in fx.items()}, lambda: {m["names"][k - 1]: v for k, v in fx.items()},
                        lambda: {(m["names"][k - 1] if i % 2 else k - 1): v for i, (k, v) in enumerate(fx.items())}]
            kw["poi_test"] = pick("fix", opts)()
        if q["bnd"]:
            kw["par_bounds"] = pick("bnd", [lambda: [tuple(b) for b in m["bnd2"]], lambda: [list(b) for b in m["bnd2"]], lambda: tuple(tuple(float(x) for x in b) for b in m["bnd2"])])()
        ini = pick("init", [None, None, lambda: [0.0] * n, lambda: np.zeros(n), lambda: tuple([0.0] * n)])
        if ini is not None:
            kw["init_pars"] = ini()
        if pick("grad", [0, 0, 1]):
            kw["do_grad"] = False
        if pick("constr", [0, 0, 1]) and q["op"] in ("lik", "max"):
            kw["constraints"] = []
        if minuit:
            mz = pick("minimizer", [None, None, "scipy", "minuit"])
            if mz:
                kw["minimizer"] = mz
        self.nll = pick("ret", [True, True, False])
        if q["op"] in ("lik", "max", "asl", "mxa") and not self.nll:
            kw["return_nll"] = False
        if q["op"] == "lik":
            self.rp = pick("rp", [True, True, False])
            if self.rp:
                kw["return_parameters"] = True
        if q["op"] in ("max", "mxa"):
            self.pi = pick("pi", [None, lambda: list(range(n)), lambda: list(m["names"]), lambda: [m["names"][n - 1], 0]])
            if self.pi is not None:
                self.pi = self.pi()
                kw["poi_indices"] = self.pi
        if q["op"] == "max":
            if not q["neg"] or pick("neg", [0, 1]):
                kw["allow_negative_signal"] = q["neg"]
        if q["op"] in ("asl", "mxa"):
            kw["test_statistics"] = q["stat"]
        if q["op"] == "asi":
            kw["test_statistic"] = q["stat"]
        self.kw = kw

    def __call__(self, sm):
        """The raw answer."""
        f = {"lik": "likelihood", "max": "maximize_likelihood", "asi": "generate_asimov_data", "asl": "asimov_likelihood", "mxa": "maximize_asimov_likelihood"}[self.q["op"]]
        return getattr(sm, f)(**self.kw)

    def judge(self, raw, a, tol=2e-4):
        try:
            return self._judge(raw, a, tol)
        except (TypeError, ValueError, IndexError, KeyError):
            return "form"

    def _judge(self, raw, a, tol):
        """None if the raw answer agrees with the specification's answer, otherwise what differs."""
        q, m = self.q, self.m
        ptol = max(tol, 5e-3)  # the position of a minimum is only known to the root of the value's accuracy
        P = [x / 1e6 for x in a["pars"]]
        if q["op"] == "asi":
            return None if close(raw, [x / 1e6 for x in a["data"]], ptol) else "data"
        want = a["nll"] / 1e6
        val = raw
        if q["op"] == "lik" and self.rp:
            if not (isinstance(raw, tuple) and len(raw) == 2):
                return "form"
            val, pars = raw
            if not close(pars, P, ptol):
                return "pars"
            for k, v in q["fix"].items():
                if abs(float(pars[k - 1]) - v / 2) > 1e-6:
                    return "pinned"
        elif q["op"] in ("max", "mxa"):
            mu, val = raw
            if self.pi is None:
                if not close(mu, P[m["poi"] - 1], ptol):
                    return "muhat"
            else:
                if not isinstance(mu, dict) or list(mu) != list(self.pi):
                    return "form"
                for k, v in mu.items():
                    if not close(v, P[m["names"].index(k) if isinstance(k, str) else k], ptol):
                        return "pars"
        if np.ndim(val) != 0:
            return "form"
        val = float(val)
        if not self.nll:
            if not val > 0:
                return "value"
            val = -math.log(val)
        return None if close(val, want, tol) else "value"

    def about(self):
        return {"model": self.m["id"], "query": {**self.q, "fix": {str(k): v / 2 for k, v in self.q["fix"].items()}}, "call": {k: repr(v) for k, v in self.kw.items()}}


def ok_query(m, q):
    """Queries outside the stated scope: a fixed value that the caller's own bounds exclude."""
    n = len(m["names"])
    if any(k > n for k in q["fix"]):
        return False
    if q["bnd"]:
        for k, v in q["fix"].items():
            if not (2 * m["bnd2"][k - 1][0] <= v <= 2 * m["bnd2"][k - 1][1]):
                return False
        if q["op"] in ("asi", "asl", "mxa"):
            b = m["bnd2"][m["poi"] - 1]
            h = 1 if q["stat"] == "q0" else 0
            if not (b[0] < h < b[1]) or q["stat"] not in ("q", "qmu"):
                return False
        elif not q["neg"]:
            return False
    return True
