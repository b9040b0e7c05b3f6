"""L01: queries are pure.  StatHist.tla generates histories of queries, refills of the caller's own container and scribbles over
returned answers; each history runs on one instance, every answer is compared with the one required by the query alone."""
import copy, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import numpy as np

INST = "---- MODULE HistI ----\nEXTENDS StatHist\nUS == %s\n====\n"
CFG = "CONSTANTS K = %d\n D = %d\n Emit = TRUE\n UsesSlot <- US\nSPECIFICATION %s\nINVARIANTS Pure Held OnlySlot EmitOut\nCHECK_DEADLOCK FALSE\n"


def histories(c, k, slots, depth, args=(), cap=None, spec="Spec"):
    r = vf.tlc("HistI", CFG % (k, depth, spec), extra_files=[("HistI.tla", INST % vf.to_tla(set(slots)))], args=args, timeout=700, workers=4 if not args else 1)
    c.count(r)
    h = []
    seen = set()
    for x in r.json_prints():
        key = tuple(map(tuple, x))
        if key not in seen:
            seen.add(key)
            h.append(x)
    h.sort()
    return h[:cap] if cap else h


# ---- the alphabet: name -> function(sm, slot contents, given) ; `given` collects the objects handed over by the caller
def alphabet(hypo, npar, names, poi, minuit=True):
    E = hypo.EX
    other = [j for j in range(npar) if j != poi]

    def give(g, *objs):
        g.extend(objs)
        return objs if len(objs) > 1 else objs[0]

    Q = []
    add = Q.append
    add(("lik", False, lambda sm, s, g: sm.likelihood(1.0, return_parameters=True)))
    add(("lik-data", True, lambda sm, s, g: sm.likelihood(0.4, data=s, return_parameters=True)))
    add(("lik-apriori", False, lambda sm, s, g: sm.likelihood(0.0, expected=E["apriori"], init_pars=give(g, [0.1] * npar))))
    add(("lik-dict", False, lambda sm, s, g: sm.likelihood(give(g, {poi: 0.6}), init_pars=give(g, np.full(npar, 0.2)), constraints=give(g, []))))
    add(("lik-negative", False, lambda sm, s, g: sm.likelihood(-0.2, expected="apriori")))
    add(("max", False, lambda sm, s, g: sm.maximize_likelihood()))
    add(("max-init", False, lambda sm, s, g: sm.maximize_likelihood(allow_negative_signal=False, init_pars=give(g, [0.0] * npar), poi_indices=give(g, list(range(npar))))))
    add(("max-data", True, lambda sm, s, g: sm.maximize_likelihood(data=s, poi_indices=list(range(npar)))))
    add(("max-fixed", False, lambda sm, s, g: sm.maximize_likelihood(fixed_poi_value=give(g, {poi: 0.3}))))
    add(("asimov", False, lambda sm, s, g: sm.generate_asimov_data(expected=E["apriori"])))
    add(("asimov-q0", False, lambda sm, s, g: sm.generate_asimov_data(test_statistic="q0", init_pars=give(g, [0.0] * npar))))
    add(("asimov-lik", False, lambda sm, s, g: sm.asimov_likelihood(0.8, test_statistics="q")))
    add(("asimov-max", False, lambda sm, s, g: sm.maximize_asimov_likelihood(expected=E["apriori"])))
    add(("chi2-scan", False, lambda sm, s, g: sm.chi2(give(g, [0.0, 0.5, 1.5]))))
    add(("chi2-ref", False, lambda sm, s, g: sm.chi2(0.8, 0.1, expected=E["apriori"])))
    add(("pull", False, lambda sm, s, g: sm.pull(give(g, np.array([0.2, 1.1])))))
    add(("cls", False, lambda sm, s, g: sm.exclusion_confidence_level(poi_test=1.2)))
    add(("cls-band", False, lambda sm, s, g: sm.exclusion_confidence_level(poi_test=0.9, expected=E["apriori"])))
    add(("signif", False, lambda sm, s, g: sm.significance()))
    add(("sigma", False, lambda sm, s, g: sm.sigma_mu(1.0, expected=E["apriori"])))
    add(("sample", False, lambda sm, s, g: (np.random.seed(11), sm.fixed_poi_sampler(1.0, 4))[1]))
    add(("config", False, lambda sm, s, g: copy.deepcopy([sm.backend.config(allow_negative_signal=False).suggested_bounds, sm.backend.config(allow_negative_signal=True, poi_upper_bound=7.0).suggested_bounds,
                                                         sm.backend.config().suggested_init])))
    if other:
        j = other[-1]
        add(("lik-nuis", False, lambda sm, s, g: sm.likelihood(give(g, {j: 0.25}), return_parameters=True)))
        add(("chi2-dict", False, lambda sm, s, g: sm.chi2(give(g, {poi: give(g, [0.2, 0.9]), j: 0.1}))))
        add(("chi2-nuis-ref", False, lambda sm, s, g: sm.chi2(give(g, {j: 0.3}), give(g, {j: 0.0}))))
        add(("sample-nuis", False, lambda sm, s, g: (np.random.seed(12), sm.fixed_poi_sampler(give(g, {poi: 0.5, j: 0.4}), 3))[1]))
    if minuit:
        add(("minuit", False, lambda sm, s, g: sm.maximize_likelihood(minimizer="minuit", init_pars=give(g, [0.0] * npar))))
    return Q


SLOW = [("limit", False, lambda sm, s, g: sm.poi_upper_limit()), ("chi2-interval", False, lambda sm, s, g: sm.chi2_test())]


def num(x):
    """Comparable content of an answer."""
    if isinstance(x, dict):
        return {k: num(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [num(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.generic,)):
        return x.item()
    return x


def same(a, b, tol=1e-9):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * (1 + abs(b))
    return a == b


def scribble(x):
    """The caller overwrites what it was given, in place where possible."""
    if isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = 12345
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        for i in range(len(x)):
            if isinstance(x[i], (int, float)):
                x[i] = 12345.0
        x.append(7)
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)
    elif isinstance(x, dict):
        x["scribbled"] = 1


def held(b):
    """The data and defaults a backend holds, through its public face and its own attributes."""
    pub = {}
    for k in ("data", "signal_yields", "background_yields"):
        if hasattr(b, k):
            pub[k] = num(getattr(b, k))
    for k in ("c", "M", "n", "apriori", "init", "bounds"):
        if hasattr(b, k):
            pub[k] = num(copy.deepcopy(getattr(b, k)))
    for a in (True, False):
        cfg = b.config(allow_negative_signal=a)
        pub["cfg", a] = [num(list(cfg.suggested_init)), num([list(t) for t in cfg.suggested_bounds]), num(cfg.parameter_names), num(cfg.suggested_fixed), cfg.poi_index, float(cfg.minimum_poi)]
    pub["constraints"] = len(getattr(b, "constraints", []) or [])
    return pub


def run_history(mk, Q, ref, slots, h):
    """Violations of one history on one fresh instance."""
    out = []
    sm = mk()
    h0 = held(sm.backend)
    slot = list(slots[1])
    cur = 1
    keep = []  # (name, live answer, snapshot)
    names = []
    for op, qi in h:
        if op == "refill":
            cur = 3 - cur
            slot[:] = slots[cur]
            names.append("refill")
            continue
        if op == "scribble":
            _, live, _ = keep.pop()
            scribble(live)
            names.append("scribble")
            continue
        name, uses, f = Q[qi - 1]
        names.append(name)
        given = []
        want = ref[(qi, cur if uses else 0)]
        spy = Spy(given)
        try:
            live = f(sm, slot, spy)
        except vf.Hang:
            raise
        except Exception as exc:
            if want == ("error", type(exc).__name__):
                continue
            out.append((f"history:{name}:error", {"history": list(names), "error": repr(exc)}))
            break
        got = num(copy.deepcopy(live))
        if isinstance(want, tuple):
            out.append((f"history:{name}:no-error", {"history": list(names)}))
        elif not same(got, want):
            out.append((f"history:{name}", {"history": list(names), "got": got, "want": want}))
        if not spy.intact():
            out.append((f"input-modified:{name}", {"history": list(names), "inputs": repr(spy.items)}))
        if slot != slots[cur]:
            out.append((f"input-modified:{name}:data", {"history": list(names)}))
            slot[:] = slots[cur]
        for n0, lv, snap in keep:
            if not same(num(copy.deepcopy(lv)), snap, 0):
                out.append((f"answer-modified:{n0}:by:{name}", {"history": list(names)}))
        keep.append((name, live, got))
    h1 = held(sm.backend)
    if h1 != h0:
        out.append(("model-modified", {"history": list(names), "before": repr(h0), "after": repr(h1)}))
    return out


class Spy(list):
    """Collects the objects handed over together with copies of their contents."""

    def __init__(self, sink):
        super().__init__()
        self.items = []

    def extend(self, objs):
        for o in objs:
            self.items.append((o, copy.deepcopy(o)))

    def intact(self):
        return all(type(a) is type(b) and same(num(a), num(b), 0) for a, b in self.items)


def reference(mk, Q, slots):
    ref = {}
    for i, (name, uses, f) in enumerate(Q, 1):
        for s in ((1, 2) if uses else (0,)):
            try:
                ref[(i, s)] = num(copy.deepcopy(f(mk(), list(slots[s or 1]), Spy([]))))
            except Exception as exc:
                ref[(i, s)] = ("error", type(exc).__name__)
    return ref


def run(c):
    import hypo, smodel as S
    zoo = ["uncorr-under", "corr-over", "poisson", "poisson-over", "normal", "mvn", "third", "effsig"]
    subjects = {}
    for m in S.MODELS:
        n = len(m["names"])
        for kind in (S.LinGaussGen, S.LinGaussHess, S.LinGaussNative):
            mk = (lambda m=m, kind=kind: S.build(m, kind))
            alt2 = [x + 1 for x in m["alt"]]
            subjects[f"{kind.__name__}-{m['id']}"] = (mk, alphabet(hypo, n, m["names"], m["poi"] - 1) + (SLOW if kind is not S.LinGaussGen and not m["fixed"] else []), {1: [float(x) for x in m["alt"]], 2: [float(x) for x in alt2]}, 1)
    for z in zoo:
        mk = hypo.ZOO[z]
        cfg = mk().backend.config()
        d = [float(x) for x in np.ravel(mk().backend.data)]
        Q = alphabet(hypo, cfg.npar, cfg.parameter_names, cfg.poi_index)
        subjects[z] = (mk, Q, {1: [round(x * 0.8) + 1.0 for x in d], 2: [round(x * 1.1) + 2.0 for x in d]}, 2)
    kmax = max(len(v[1]) for v in subjects.values())
    slots_idx = {i for v in subjects.values() for i, q in enumerate(v[1], 1) if q[1]}
    # all pairs (with a refill or scribble in between for length 3), plus long random histories
    pairs = histories(c, kmax, slots_idx, 2)
    trip = histories(c, kmax, slots_idx, 3, spec="SpecAlt")
    nlong = 40 if not vf.THOROUGH else 600
    longs = histories(c, kmax, slots_idx, 14, args=("-simulate", f"num={nlong * 3}", "-depth", "16", "-seed", str(vf.SEED + 5)), cap=nlong)
    c.extra["histories"] = {"pairs": len(pairs), "triples": len(trip), "long": len(longs)}
    c.sample(longs[0])

    def job(name):
        mk, Q, slots, cost = subjects[name]
        ref = reference(mk, Q, slots)
        rng = np.random.default_rng([vf.SEED, sum(map(ord, name))])
        out, n = [], 0
        fits = lambda h: all(q <= len(Q) for _, q in h)
        P = [h for h in pairs if fits(h)]
        T = [h for h in trip if fits(h)]
        L = [[e for e in h if e[1] <= len(Q)] for h in longs]
        share = (1.0 if vf.THOROUGH else 0.16 if cost == 1 else 0.06)
        # repeated question first: the same one twice is always asked
        sel = [h for h in P if h[0][1] == h[1][1]] + [h for h in P if h[0][1] != h[1][1] and rng.random() < share]
        # ... and again after its answer was overwritten or its data refilled, always
        sel += [h for h in T if h[0][1] == h[2][1] and (h[1][0] == "scribble" or h[0][1] in slots_idx)]
        sel += [T[i] for i in rng.permutation(len(T))[:(30 if cost == 1 else 12) if not vf.THOROUGH else 400]]
        sel += [L[i] for i in rng.permutation(len(L))[:(8 if cost == 1 else 5) if not vf.THOROUGH else 120]]
        for h in sel:
            while h and h[0][0] == "scribble":
                h = h[1:]
            n += 1
            h2 = []
            for e in h:  # a scribble needs an answer before it
                if e[0] == "scribble" and (not h2 or h2[-1][0] != "ask"):
                    continue
                h2.append(e)
            out += run_history(mk, Q, ref, slots, h2)
            if len(out) > 30:
                break
        return name, out, n
    for name, bad, n in vf.pmap(job, list(subjects), chunk=1):
        c.traces += n
        for key, d in bad:
            c.violation(f"{key}", {"model": name, **d})


if __name__ == "__main__":
    vf.main(run, "L01")
