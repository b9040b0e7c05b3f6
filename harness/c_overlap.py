"""C04: queries of one model that overlap in time.

Every schedule of specs/OverlapMC.tla (two pre-emptions, thorough: three) is forced, line by line, on two evaluations
of one model of every built-in family; whole queries (fits, confidence levels, limits) run under random schedules of a
controlled scheduler.  What came back is validated by TLC against specs/OverlapTrace.tla."""
import os, sys, random, glob, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, vsched

PID = "C04"
import numpy as np, scipy.optimize, scipy.stats, scipy.linalg, autograd, requests, tqdm, packaging.version, joblib  # noqa
import autograd.numpy as anp, autograd.scipy.stats, autograd.scipy.special  # noqa
import concurrent.futures, weakref, collections, functools, logging  # noqa

with vsched.patched():
    import spey
    import spey.interface.statistical_model, spey.hypothesis_testing, spey.optimizer.core, spey.optimizer.scipy_tools  # noqa
from spey.combiner.uncorrelated_statistics_combiner import UnCorrStatisticsCombiner

spey.set_log_level(0)
logging.getLogger("Spey").setLevel(logging.CRITICAL)
warnings.simplefilter("ignore")
np.seterr(all="ignore")
BASE = os.path.dirname(spey.__file__)
FILES = frozenset(f for d in ("backends", "backends/default_pdf", "interface", "optimizer", "base", "combiner", "hypothesis_testing")
                  for f in glob.glob(os.path.join(BASE, d, "*.py"))) | {os.path.join(BASE, "math.py"), os.path.join(BASE, "helper_functions.py")}

S, B, D = [5.0, 3.0], [20.0, 30.0], [22.0, 28.0]
C = [[20.0, 3.0], [3.0, 30.0]]
MODS = [{"type": "shape", "name": "a", "uncertainties": [0.6, 0.4]}, {"type": "normalization", "name": "b", "uncertainties": [[0.5, 0.3], [0.2, 0.1]]}]


def build(name, **kw):
    return spey.get_backend("default." + name)(signal_yields=kw.pop("signal_yields", S), background_yields=B, data=D, analysis=kw.pop("analysis", "a"), **kw)


FAM = {
    "poisson": lambda: build("poisson"),
    "poisson-nuisances": lambda: build("poisson", absolute_uncertainties=[1.0, 2.0]),
    "normal": lambda: build("normal", absolute_uncertainties=[3.0, 4.0]),
    "normal-moving": lambda: build("normal", absolute_uncertainties=lambda p: anp.array([3.0, 4.0]) * (1.0 + 0.01 * p[0] ** 2)),
    "multivariate": lambda: build("multivariate_normal", covariance_matrix=C),
    "multivariate-moving": lambda: build("multivariate_normal", covariance_matrix=lambda p: anp.array(C) * (1.0 + 0.01 * p[0] ** 2)),
    "uncorrelated": lambda: build("uncorrelated_background", absolute_uncertainties=[1.0, 2.0]),
    "uncorrelated-modifiers": lambda: build("uncorrelated_background", absolute_uncertainties=[1.0, 2.0], modifiers=MODS),
    "correlated": lambda: build("correlated_background", covariance_matrix=C),
    "third-moment": lambda: build("third_moment_expansion", covariance_matrix=C, third_moment=[12.0, 23.0]),
    "effective-sigma": lambda: build("effective_sigma", correlation_matrix=[[1.0, 0.3], [0.3, 1.0]],
                                     absolute_uncertainty_envelops=[(1.0, 2.0), (2.0, 2.5)]),
    "signal-function": lambda: build("multivariate_normal", signal_yields=lambda t: anp.array(S) * anp.exp(0.1 * t[0]), covariance_matrix=C,
                                     n_signal_parameters=1, signal_parameter_bounds=[(-2.0, 2.0)]),
    "signal-function-counts": lambda: build("uncorrelated_background", signal_yields=lambda t: anp.array(S) * anp.exp(0.1 * t[0]),
                                            absolute_uncertainties=[1.0, 2.0], n_signal_parameters=1, signal_parameter_bounds=[(-2.0, 2.0)]),
}
POINTS = {1: (0.7, [0.3, -0.4, 0.5, 0.2, -0.1]), 2: (1.9, [-0.6, 0.2, 0.1, -0.3, 0.4])}
DATA = {1: [23.0, 27.0], 2: [18.0, 33.0]}


def point(m, q):
    n = m.backend.config().npar
    mu, rest = POINTS[q]
    return np.array([mu] + [rest[i % 5] for i in range(n - 1)])


def settings(m, q):
    """What a fit is given: the starting point's range and the conditions, with the caller's own for the first query."""
    own = [scipy.optimize.NonlinearConstraint(lambda v: v[0] - 7.0, 0.0, 1.0)] if q == 1 else []
    fit = m.prepare_for_fit(data=np.array(DATA[q]), constraints=own, allow_negative_signal=True)
    x = point(m, q)
    return [[len(fit["constraints"])], [c.fun(x) for c in fit["constraints"]], fit["func"](x)]


EVAL = {
    "likelihood": lambda m, q: m.backend.get_logpdf_func(data=np.array(DATA[q]))(point(m, q)),
    "objective": lambda m, q: m.backend.get_objective_function(data=np.array(DATA[q]), do_grad=True)(point(m, q)),
    "value": lambda m, q: m.backend.get_objective_function(data=np.array(DATA[q]), do_grad=False)(point(m, q)),
    "pseudo-data": lambda m, q: m.backend.expected_data(point(m, q)),
    "condition": lambda m, q: [k.fun(point(m, q)) for k in m.backend.constraints],
    "range": lambda m, q: m.backend.config(allow_negative_signal=(q == 1), poi_upper_bound=10.0 * q).suggested_bounds[0],
    "settings": settings,
}


def flat(v):
    if isinstance(v, dict):
        v = [v[k] for k in sorted(v, key=str)]
    if isinstance(v, (tuple, list)):
        return np.concatenate([flat(x) for x in v]) if len(v) else np.zeros(0)
    return np.atleast_1d(np.asarray(v, dtype=float)).ravel()


def same(a, b, rtol, atol):
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


class Seg(vsched.Sched):
    """Runs the segments of a schedule: (thread, lines), ..."""

    def __init__(self, path):
        super().__init__(random.Random(0), max_steps=10 ** 9)
        self.trace_files = FILES
        self.path, self.k, self.left = path, 0, path[0][1]
        self.lines = {}

    def point(self, weight=1.0):
        pass

    def _pick(self, cur):
        if self.k < len(self.path):
            w = self.workers[self.path[self.k][0] - 1]
            if w.state == "ready":
                return w
        return next((w for w in self.workers if w.state == "ready"), None)

    def _line(self, frame, event, arg):
        if event == "line" and not self.dead:
            w = self.me()
            self.lines[w.wid] = self.lines.get(w.wid, 0) + 1
            if self.k < len(self.path) and self.path[self.k][0] == w.wid:
                if self.left == 0:
                    self.k += 1
                    self.left = self.path[self.k][1] if self.k < len(self.path) else 0
                    if self.k < len(self.path):
                        self._switch(w)
                    # this line is the first of a later segment of its own
                    if self.k < len(self.path) and self.path[self.k][0] == w.wid:
                        self.left -= 1
                else:
                    self.left -= 1
        return self._line


def overlap(queries, sched, model, refs, tol, probe):
    """Runs the queries (one list per thread) on one model; returns the recorded events."""
    ev = []
    who = {}

    def value(q, fn):
        try:
            v = flat(fn(model, q))
        except vsched.Stuck:
            raise
        except BaseException as e:   # noqa
            return 0, repr(e)[:160]
        for k in [q] + [k for k in refs if k != q]:
            if same(v, refs[k], *tol):
                return k, None
        return 0, [float(x) for x in v[:6]]

    def worker(t, qs):
        def f():
            for q, fn in qs:
                ev.append({"e": "call", "t": t, "q": q})
                v, note = value(q, fn)
                ev.append({"e": "ret", "t": t, "v": v, **({"note": note, "wanted": [float(x) for x in refs[q][:6]]} if note is not None else {})})
        return f
    with vsched.patched():
        ok = sched.run([worker(i + 1, qs) for i, qs in enumerate(queries)])
        if not ok:
            ev.append({"e": "stuck"})
            return ev
        for q, fn in probe:
            v, note = value(q, fn)
            ev.append({"e": "again", "q": q, "v": v, **({"note": note} if note is not None else {})})
    return ev


def evaluations(job):
    fam, kind, paths = job
    fn = {1: EVAL[kind[0]], 2: EVAL[kind[1]]}
    mk = FAM[fam]
    refs = {}
    for q in (1, 2):
        refs[q] = flat(fn[q](mk(), q))
    # how many lines an evaluation has
    lines = {}
    for q in (1, 2):
        s = Seg([(1, 10 ** 6)])
        m = mk()
        with vsched.patched():
            s.run([lambda: fn[q](m, q)])
        lines[q] = s.lines.get(1, 0)
    out, seen, runs = [], set(), 0
    warm = mk()
    for q in (1, 2):
        fn[q](warm, q)
    for path, size in paths:
        # the model's queries have `size` steps, these have their own number of lines
        path = [(t, max(1, n * lines[t] // size) if lines[t] > size else n) for t, n in path]
        pos = {1: 0, 2: 0}
        good = True
        for k, (t, n) in enumerate(path):
            pos[t] += n
            last = all(u != t for u, _ in path[k + 1:])
            if not last and pos[t] >= lines[t]:
                good = False
        if not good:
            continue
        segs = []
        for k, (t, n) in enumerate(path):
            last = all(u != t for u, _ in path[k + 1:])
            segs.append((t, 10 ** 6 if last else n))
        for model in (warm, None):
            if model is None and len(path) > 3:
                continue
            runs += 1
            ev = overlap([[(1, fn[1])], [(2, fn[2])]], Seg(segs), model or mk(), refs, (1e-9, 1e-11), [(1, fn[1]), (2, fn[2])])
            k = repr([{x: e[x] for x in e if x not in ("note", "wanted")} for e in ev])
            if k not in seen:
                seen.add(k)
                out.append({"ev": ev, "about": {"family": fam, "queries": kind, "schedule": segs, "fresh": model is None}})
    return out, runs, lines


QUERY = {
    "likelihood": lambda x: lambda m, q: m.likelihood(0.4 * x),
    "maximum": lambda x: lambda m, q: m.maximize_likelihood(data=[22.0 + x, 28.0 - 2 * x] if not isinstance(m, UnCorrStatisticsCombiner) else None,
                                                          allow_negative_signal=bool(x % 2), init_pars=None),
    "conditioned": lambda x: lambda m, q: m.maximize_likelihood(**({} if isinstance(m, UnCorrStatisticsCombiner) or x % 2 else {
        "constraints": [scipy.optimize.NonlinearConstraint(lambda v: 0.1 * x - v[0], 0.0, 100.0)]})),
    "asimov": lambda x: lambda m, q: m.asimov_likelihood(0.4 * x, test_statistics=["qtilde", "q", "q0"][x % 3]),
    "asimov-maximum": lambda x: lambda m, q: m.maximize_asimov_likelihood(test_statistics=["qtilde", "q", "q0"][x % 3])[1],
    "level": lambda x: lambda m, q: m.exclusion_confidence_level(0.3 + 0.4 * x),
    "chi2": lambda x: lambda m, q: m.chi2(0.2 + 0.5 * x),
    "pull": lambda x: lambda m, q: m.pull(0.2 + 0.5 * x),
    "limit": lambda x: lambda m, q: m.poi_upper_limit(confidence_level=0.7 + 0.05 * x),
    "significance": lambda x: lambda m, q: m.significance(expected=["observed", "aposteriori", "apriori"][x % 3])[2],
}
QTOL = {"maximum": (1e-3, 1e-4), "conditioned": (1e-3, 1e-4), "limit": (1e-3, 1e-6)}


def members():
    a, b = build("multivariate_normal", covariance_matrix=C, analysis="a"), build("uncorrelated_background", absolute_uncertainties=[1.0, 2.0], analysis="b")
    return a, b


WHOLE = dict(FAM)
del WHOLE["signal-function"], WHOLE["signal-function-counts"]
WHOLE["combination"] = lambda: UnCorrStatisticsCombiner(*members())
_REF = {}


def ref(fam, kind, x):
    k = (fam, kind, x)
    if k not in _REF:
        _REF[k] = flat(QUERY[kind](x)(WHOLE[fam](), 0))
    return _REF[k]


def whole(job):
    fam, seed = job
    r = random.Random(seed)
    nthr = r.choice([2, 2, 3])
    kinds = [r.choice(list(QUERY)) for _ in range(nthr)]
    if r.random() < 0.5:
        kinds = [kinds[0]] * nthr          # the same query for different values
    queries, refs, probe, q, tol, text = [], {}, [], 0, (1e-6, 1e-7), []
    for k in kinds:
        qs = []
        for _ in range(r.choice([1, 1, 2])):
            x = r.randint(0, 5)
            same_q = [(i, y) for i, (kk, y) in enumerate(text, 1) if (kk, y) == (k, x)]
            if same_q:
                n = same_q[0][0]
            else:
                q += 1
                n = q
                text.append((k, x))
                refs[n] = ref(fam, k, x)
            qs.append((n, QUERY[k](x)))
        queries.append(qs)
    for k in set(kinds):
        if k in QTOL:
            tol = max(tol, QTOL[k])
    # one question to the model afterwards
    q += 1
    refs[q] = ref(fam, "likelihood", 3)
    probe.append((q, QUERY["likelihood"](3)))
    s = vsched.Sched(r, policy=r.choice(["random", "random", "pct", "budget"]), preempt=r.choice([0.01, 0.1, 0.6, 1.0]), max_steps=10 ** 9,
                     budget=None)
    if s.policy == "budget":
        s.policy, s.budget = "random", r.choice([1, 2, 5, 20])
    s.trace_files = FILES
    s.limit = 240
    ev = overlap(queries, s, WHOLE[fam](), refs, tol, probe)
    # a value equal to that of another query with the same answer counts as the asker's
    return {"ev": ev, "about": {"family": fam, "queries": text, "seed": seed}}


MODEL = """SPECIFICATION Spec
CONSTANTS Thread={%s} N1=%d N2=%d N3=%d Size<-Sizes Design="%s" Preemptions=%d Emit=%s
INVARIANTS OwnAnswer EmitOut
%s
CHECK_DEADLOCK FALSE
"""
TRACE = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"


def check(c):
    c.model("OverlapMC", MODEL % ("1,2,3", 3, 3, 2, "own", 6, "FALSE", "PROPERTY Ends"), "overlapping queries, three threads", workers=4)
    c.model("OverlapMC", MODEL % ("1,2", 4, 4, 0, "shared", 1, "FALSE", ""), "one place for the rates of all queries", must_hold=False)
    n = 64 if vf.THOROUGH else 32
    r = c.model("OverlapMC", MODEL % ("1,2", n, n, 0, "own", 2, "TRUE", ""), "all schedules with two pre-emptions", workers=1)
    paths = [(p, n) for p in r.json_prints()]
    if vf.THOROUGH:
        r = c.model("OverlapMC", MODEL % ("1,2", 14, 14, 0, "own", 3, "TRUE", ""), "all schedules with three pre-emptions", workers=1)
        paths += [(p, 14) for p in r.json_prints() if len(p) > 4]
    rng = random.Random(vf.SEED * 31 + 4)
    kinds = list(EVAL)
    jobs = []
    for f in FAM:
        pairs = [(k, k) for k in kinds] + [("likelihood", "pseudo-data"), ("objective", "condition"), ("value", "objective")]
        for p in pairs:
            if ("condition" in p and not FAM[f]().backend.constraints):
                continue
            sub = paths if vf.THOROUGH else [x for x in paths if len(x[0]) < 4] + rng.sample([x for x in paths if len(x[0]) == 4], 220)
            jobs.append((f, p, sub))
    traces, runs, long_ = [], 0, 0
    for out, k, lines in vf.pmap(evaluations, jobs, chunk=1):
        traces += out
        runs += k
        long_ = max(long_, *lines.values())
    c.extra["evaluations_overlapped"] = runs
    c.extra["longest_evaluation_in_lines"] = long_
    per = 60 if vf.THOROUGH else 8
    jobs = [(f, rng.randrange(1 << 30)) for f in WHOLE for _ in range(per)]
    traces += vf.pmap(whole, jobs, chunk=1)
    c.extra["whole_queries_overlapped"] = len(jobs)
    c.assumptions.append("second derivatives (autograd keeps one stack of traces for all threads), random draws and log output are not claimed under overlap")
    c.sample(traces[0])
    c.validate("OverlapTrace", TRACE, [{"ev": [{k: v for k, v in e.items() if k not in ("note", "wanted")} for e in t["ev"]]} for t in traces],
               describe=lambda i: traces[i], workers=4, key=lambda i, l, cl: f"overlap:{traces[i]['about']['family']}:{cl}")


if __name__ == "__main__":
    vf.main(check, PID)
