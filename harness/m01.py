"""M01: one experiment, many presentations.  Present.tla proves that its rewritings keep the meaning of a presentation and
enumerates the chains of them; each presentation is built with the real backends, asked everything a user asks, and
PresentTrace.tla compares the answers with those of the original presentation in the original unit of the signal strength."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import numpy as np

CFG = "CONSTANTS Depth = %d\n Emit = TRUE\nINIT Init\nNEXT Next\nINVARIANTS SameMeaning ScoreScales Out\nPROPERTIES OnlyRescale\nCHECK_DEADLOCK FALSE\n"
CFG1 = CFG.replace(" Out", "").replace("TRUE", "FALSE")
TCFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
BACK = {"poisson": "default.poisson", "uncorr": "default.uncorrelated_background", "corr": "default.correlated_background", "normal": "default.normal",
        "mvn": "default.multivariate_normal", "third": "default.third_moment_expansion", "effsig": "default.effective_sigma"}
MUS = (0.0, 0.5, 1.0, 1.7)


def shape(x, form, whole):
    """The same numbers in another container."""
    a = np.array(x, dtype=float)
    if form == "list":
        return a.tolist()
    if form == "float":
        return [np.float64(v) for v in a] if a.ndim == 1 else a.tolist()
    if form == "int" and whole and np.all(a == np.round(a)):
        return [int(v) for v in a] if a.ndim == 1 else a.astype(int)
    if form == "strided":
        big = np.full(tuple(2 * n for n in a.shape), -1.0)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return big[tuple(slice(None, None, 2) for _ in a.shape)]
    if form == "readonly":
        a.setflags(write=False)
    return a


def make(q, only=None):
    import spey
    idx = list(range(len(q["n"]))) if only is None else [only]
    f, fm = q["fam"], q["form"]
    pick = lambda v: [v[i] for i in idx]
    s = [a / b for a, b in pick(q["s"])]
    kw = dict(signal_yields=shape(s, fm, True), background_yields=shape(pick(q["b"]), fm, True), data=shape(pick(q["n"]), fm, True))
    u = np.array(pick(q["u"]), float)
    cov = np.array([[q["cov"][i][j] for j in idx] for i in idx], float)
    if f in ("uncorr", "normal"):
        kw["absolute_uncertainties"] = shape(u, fm, True)
    if f in ("corr", "mvn", "third"):
        kw["covariance_matrix"] = shape(cov, fm if fm != "list" else "array", True)
    if f == "third":
        kw["third_moment"] = shape(pick(q["tm"]), fm if fm in ("strided", "readonly") else "array", False)
    if f == "effsig":
        kw["correlation_matrix"] = shape(cov / np.outer(u, u), fm if fm != "list" else "array", False)
        kw["absolute_uncertainty_envelops"] = [tuple(float(v) for v in e) for e in pick(q["env"])]
    return spey.get_backend(BACK[f])(**kw, analysis=f"channel{idx[0]}" if only is not None else "all")


def build(q):
    if not q["parts"]:
        return make(q)
    from spey.combiner import UnCorrStatisticsCombiner
    return UnCorrStatisticsCombiner(*[make(q, i) for i in range(len(q["n"]))])


def answers(q, sigma0=None):
    """Everything observable about the presentation, as facts [name, kind, v (micro), tol]."""
    import hypo
    from backends import micro
    from spey import ExpectationType as E
    k = q["k"][0] / q["k"][1]
    sm = build(q)
    out = []

    def big(x):
        x = float(x)
        return 2_000_000_003 if x != x else 2_000_000_001 if x > 2000 else -2_000_000_001 if x < -2000 else micro(x)

    def fact(name, kind, v, tol=4000):
        out.append({"name": name, "kind": kind, "v": v, "tol": tol})
    nlls = {}
    for ex in (E.observed, E.apriori):
        nlls[ex], best = sm.maximize_likelihood(expected=ex)
        fact(f"best-fit-{ex}", "strength", big(nlls[ex]), None)
        fact(f"best-fit-positive-{ex}", "strength", big(sm.maximize_likelihood(expected=ex, allow_negative_signal=False)[0]), None)
        for mu in MUS:
            fact(f"nll-{ex}-{mu}", "plain", big(sm.likelihood(mu / k, expected=ex) - best))
        for mu in MUS[1:3]:
            fact(f"chi2-{ex}-{mu}", "plain", big(sm.chi2(poi_test=mu / k, expected=ex, allow_negative_signal=True)))
    for ex in (E.observed, E.apriori, E.aposteriori):
        for mu in MUS[1:3]:
            for j, cl in enumerate(sm.exclusion_confidence_level(poi_test=mu / k, expected=ex)):
                fact(f"cls-{ex}-{mu}-{j}", "level", hypo.lnm(cl))
        for mu in MUS[1:3]:
            for j, cl in enumerate(sm.exclusion_confidence_level(poi_test=mu / k, expected=ex, calculator="chi_square")):
                fact(f"chi-square-level-{ex}-{mu}-{j}", "level", hypo.lnm(cl))
        fact(f"limit-{ex}", "strength", big(sm.poi_upper_limit(expected=ex, confidence_level=0.9)), None)
    for j, x in enumerate(sm.poi_upper_limit(expected=E.apriori, expected_pvalue="2sigma")):
        fact(f"limit-band-{j}", "strength", big(x), None)
    sA, sig, ps, eps = sm.significance()
    fact("significance", "plain", big(sig))
    for j, x in enumerate(ps):
        fact(f"significance-p-{j}", "level", hypo.lnp(x))
    # the expected significance is that of a signal of strength one, so of the shown unit
    fact("significance-asimov", "plain", big(sA))
    hat = nlls[E.observed]
    # the side towards more signal: the other one asks for fits far outside the region of positive rates, which take minutes
    for j, x in enumerate(sm.chi2_test(expected=E.observed, confidence_level=0.68, limit_type="right")):
        fact(f"interval-{j}", "strength", big(x), None)
    if not q["parts"]:
        fact("sigma", "strength", big(sm.sigma_mu(hat, expected=E.observed)), None)
        for mu in MUS[1:3]:
            fact(f"pull-{mu}", "plain", big(sm.pull(mu / k, expected=E.observed)))
    data = sm.generate_asimov_data(expected=E.observed)
    n = len(q["n"])
    per = [float(data[f"channel{i}"][0]) for i in range(n)] if q["parts"] else [float(x) for x in np.ravel(data)[:n]]
    group = {}
    for ids, x, s in zip(q["ids"], per, q["s"]):
        if s[0] == 0:
            continue
        i = min(ids)
        i = i if i < 50 else ("cut", (i - 60) % 100)
        group[i] = group.get(i, 0.0) + x
    q["groups"] = group
    return out, group


def run(c):
    from backends import micro
    r = c.model("Present", CFG1 % (3 if not vf.THOROUGH else 4), name="Present (deep)", timeout=800, workers=4)
    r = vf.tlc("Present", CFG % (2 if not vf.THOROUGH else 3), timeout=800)
    c.count(r)
    P = [q for q in r.json_prints()]
    rnd = random.Random(vf.SEED)
    bases = {q["start"]: q for q in P if not q["path"]}
    one = [q for q in P if len(q["path"]) == 1 and q["path"] != ["reform"]]
    more = [q for q in P if len(q["path"]) > 1 or q["path"] == ["reform"]]
    rnd.shuffle(more)
    # favour chains of different rewritings
    more.sort(key=lambda q: -len(set(q["path"])) + rnd.random())
    todo = one + more[:110 if not vf.THOROUGH else 1100]
    allq = list(bases.values()) + todo
    rnd.shuffle(todo)
    ans = vf.pmap(answers, allq, chunk=2)
    base = {}
    for q, a in zip(allq, ans):
        if not q["path"]:
            base[q["start"]] = a
    traces = []
    for q, (facts, group) in zip(allq, ans):
        b0, g0 = base[q["start"]]
        d = {f["name"]: f["v"] for f in b0}
        # the scale of a strength: distance between best fit and limit
        width = abs(d["limit-observed"] - d["best-fit-positive-observed"]) if abs(d["limit-observed"]) < 2_000_000_000 else 1_000_000
        tol = int(0.01 * width) + 2000
        for f in facts:
            f["tol"] = tol
        b = [dict(f, tol=tol) for f in b0]
        if q["k"] != [1, 1]:
            b, facts = ([f for f in x if f["name"] != "significance-asimov"] for x in (b, facts))
        have = {f["name"] for f in facts}
        b = [f for f in b if f["name"] in have]
        keys = [i for i in g0 if i in group]
        if keys:
            b = b + [{"name": "asimov", "kind": "shape", "v": [micro(g0[i]) for i in keys], "tol": 0}]
            # data of a shifted Gaussian channel move with its background
            sh = {min(ids): bb for ids, bb in zip(q["ids"], q["b"])}
            s0 = {min(ids): bb for ids, bb in zip(bases[q["start"]]["ids"], bases[q["start"]]["b"])}
            move = (lambda i: sh[i] - s0[i]) if q["fam"] in ("normal", "mvn") else (lambda i: 0)
            merged = {min(ids): len(ids) for ids in q["ids"]}
            facts = facts + [{"name": "asimov", "kind": "shape", "v": [micro(group[i] - move(i)) if merged[i] == 1 else micro(g0[i]) for i in keys], "tol": 0}]
        traces.append({"k": q["k"], "base": b, "got": facts, "about": f"{bases[q['start']]['fam']}->{q['fam']}{'/parts' if q['parts'] else ''}"})
    c.validate("PresentTrace", TCFG, traces, describe=lambda i: allq[i], key=lambda i, l, cl: f"present:{cl}")
    c.sample({"presentation": allq[-1], "facts": len(ans[-1][0])})


if __name__ == "__main__":
    vf.main(run, "M01")
