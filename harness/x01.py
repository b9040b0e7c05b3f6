"""X01: merging correlated bins.  MergeBins.tla defines the result of a merge; TLC checks that it conserves totals, variances and
the kept bins, and enumerates small requests with their results; the harness runs these and many larger random ones through the
real function, the latter validated by TLC (MergeTrace.tla)."""
import copy, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

CFG = "CONSTANTS N = %d\n Emit = TRUE\nINIT Init\nNEXT Next\nINVARIANTS Conserved Partition Symmetric Kept Whole EmitOut\nCHECK_DEADLOCK FALSE\n"


def call(np, b, d, c, gs, s, scale=None, dtype=None):
    """scale, dtype: per input, of background, data, covariance and signal; the results come back in units of the scale."""
    from spey.helper_functions import merge_correlated_bins
    names = ("background_yields", "data", "covariance_matrix", "signal_yields")
    scale = dict(zip(names, scale or (1.0,) * 4))
    dtype = dict(zip(names, dtype or (float,) * 4))
    mk = lambda k, v: np.array(v, dtype=dtype[k]) if scale[k] == 1.0 else np.array(v, dtype=float) * scale[k]
    args = {k: mk(k, v) for k, v in zip(names, (b, d, c, s)) if v is not None}
    args["merge_groups"] = copy.deepcopy(gs)
    before = copy.deepcopy(args)
    try:
        r = merge_correlated_bins(return_group_indices=True, **args)
        r2 = merge_correlated_bins(**copy.deepcopy(before))
    except Exception:
        return None
    same = all(np.array_equal(args[k], before[k]) if k != "merge_groups" else args[k] == before[k] for k in args)
    same = same and all(np.array_equal(r[k], r2[k]) for k in r2) and "group_indices" not in r2
    rnd = lambda v: [rnd(x) for x in v] if np.ndim(v) else int(round(float(v)))
    ints = lambda k: rnd(np.asarray(r[k], dtype=float) / scale[k])
    exact = lambda k: bool(np.all(np.abs(np.asarray(r[k]) / scale[k] - np.round(np.asarray(r[k]) / scale[k])) < 1e-6))
    ok = all(exact(k) for k in r if k in scale)
    return {"b2": ints("background_yields"), "d2": ints("data"), "c2": ints("covariance_matrix"),
            "s2": ints("signal_yields") if "signal_yields" in r else [],
            "full": [[int(i) for i in g] for g in r["group_indices"]], "same": int(same), "exact": int(ok)}


SPREAD = "CONSTANTS N = %d\n K = %d\n Sig = {%s}\n Emit = TRUE\nINIT Init\nNEXT Next\nINVARIANTS Symmetric Variances Back Units EmitOut\nCHECK_DEADLOCK FALSE\n"


def spread(c, np, rnd):
    """Conversions between correlations and covariances."""
    from spey.helper_functions import correlation_to_covariance, covariance_to_correlation
    for n, k, sig in ((1, 1, "1, 2, 7"), (2, 3, "1, 2, 5, 40"), (3, 2, "1, 2, 30")) + (((3, 4, "1, 3, 50"),) if vf.THOROUGH else ()):
        xs = c.model("Spread", SPREAD % (n, k, sig), name=f"conversions of {n} quantities", workers=4).json_prints()
        rnd.shuffle(xs)
        for i, x in enumerate(xs[:1500 if vf.THOROUGH else 500]):
            unit = [1.0, 0.125, 1024.0, 2.0 ** -20][i % 4]            # exact in binary
            s, cor, cov = np.array(x["s"], dtype=float) * unit, np.array(x["cor"]) / k, np.array(x["cov"]) * unit**2 / k
            if unit == 1.0 and i % 8 == 0:
                s = np.array(x["s"])                                    # whole numbers
                if np.all(np.array(x["cov"]) % k == 0):
                    cov = np.array(x["cov"]) // k
            keep = [v.copy() for v in (s, cor, cov)]
            try:
                a, b = correlation_to_covariance(cor, s), covariance_to_correlation(cov)
                back, forth = covariance_to_correlation(a), correlation_to_covariance(b, s)
            except Exception as exc:
                c.violation("conversion fails", {"case": x, "error": repr(exc)})
                continue
            if not all(np.array_equal(u, v) for u, v in zip(keep, (s, cor, cov))):
                c.violation("conversion changes its input", x)
            # covariances in whole numbers whose variances need not be squares: the same correlations
            try:
                whole = covariance_to_correlation(np.array(x["cov"]))
            except Exception as exc:
                whole = np.array([[repr(exc)]])
            if whole.shape != (n, n) or not np.issubdtype(whole.dtype, np.number) or not np.allclose(whole, keep[1], rtol=1e-12, atol=1e-13):
                c.violation("conversion of whole numbers", {"case": x, "observed": whole.tolist()})
            for what, got, want in (("covariance", a, keep[2]), ("correlation", b, keep[1]), ("correlation and back", back, keep[1]), ("covariance and back", forth, keep[2])):
                got = np.asarray(got)
                if got.shape != (n, n) or not np.allclose(got, want, rtol=1e-12, atol=1e-13 * float(np.max(np.abs(want)))):
                    c.violation(f"conversion: {what}", {"case": x, "unit": unit, "observed": got.tolist()})
            c.traces += 1


def run(c):
    import numpy as np
    q = not vf.THOROUGH
    r = c.model("MergeBinsMC", CFG % 4, name="requests over four bins", workers=6)
    cases = r.json_prints()
    if vf.THOROUGH:
        r = c.model("MergeBinsMC", CFG % 5, name="requests over five bins", workers=8)
        cases += r.json_prints()
    for n, x in enumerate(cases):
        sig = x["y"][::-1] if n % 3 else None
        got = call(np, x["y"], x["y"], x["m"], x["gs"], sig, dtype=((int if n % 2 else float),) * 4)
        if not x["ok"]:
            if got is not None:
                c.violation("an inadmissible grouping is accepted", x)
            continue
        if got is None:
            c.violation("an admissible grouping is refused", x)
            continue
        for k, w in (("b2", x["yy"]), ("d2", x["yy"]), ("c2", x["mm"]), ("full", x["full"]), ("same", 1), ("exact", 1)):
            if got[k] != w:
                c.violation({"b2": "background yields", "d2": "data", "c2": "covariance", "full": "order", "same": "inputs are modified", "exact": "fractions are lost"}[k], {"case": x, "observed": got})
    c.extra["small_requests"] = len(cases)
    rnd = random.Random(vf.SEED)
    traces = []
    for _ in range(1500 if q else 15000):
        n = rnd.randrange(2, 9) if rnd.random() < 0.6 else rnd.randrange(9, 24)
        bins = list(range(n))
        rnd.shuffle(bins)
        gs = []
        while bins and rnd.random() < 0.7:
            k = rnd.randrange(1, min(4, len(bins)) + 1)
            gs.append([bins.pop() for _ in range(k)])
        if rnd.random() < 0.25 and gs:
            kind = rnd.randrange(4)
            if kind == 0:
                gs[-1] = gs[-1] + [rnd.choice(rnd.choice(gs))]
            elif kind == 1:
                gs.append([rnd.choice(gs[0])])
            elif kind == 2:
                gs[0] = gs[0] + [rnd.choice([n, n + 1, -1, -n])]
            else:
                gs = gs + [list(gs[0])]
        vec = lambda hi: [rnd.randrange(0, hi) for _ in range(n)]
        b, d, s = vec(2000), vec(2000), vec(500) if rnd.random() < 0.6 else None
        cov = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                cov[i][j] = cov[j][i] = rnd.randrange(-3000, 3000) if i != j else rnd.randrange(1, 9000)
        sc = tuple(rnd.choice([1.0, 1.0, 0.125]) for _ in range(4))
        dt = tuple(rnd.choice([float, int]) for _ in range(4))
        got = call(np, b, d, cov, gs, s, scale=sc, dtype=dt)
        t = {"n": n, "gs": gs, "b": b, "d": d, "s": s or [], "c": cov, "raised": int(got is None)}
        t.update(got or {"b2": [], "d2": [], "s2": [], "c2": [], "full": [], "same": 1, "exact": 1})
        traces.append(t)
    # lengths that do not belong together
    for k in range(60):
        n = 2 + k % 4
        b, d, s = [1] * n, [2] * n, [3] * n
        cov = [[1] * n for _ in range(n)]
        what = k % 6
        if what == 0:
            d = d + [1]
        elif what == 1:
            b = b + [1]
        elif what == 2:
            s = s + [1]
        elif what == 3:
            cov = [r + [1] for r in cov]
        elif what == 4:
            cov = cov + [[1] * n]
        else:
            s = s[:-1]
        if call(np, b, d, cov, [[0, 1]], s) is not None:
            c.violation("inputs of different lengths are accepted", {"b": b, "d": d, "s": s, "c": cov})
    spread(c, np, rnd)
    c.sample(traces[0])
    c.validate("MergeTrace", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", traces, key=lambda i, l, cl: cl, workers=4)
    c.traces += len(cases)


vf.main(run, "X01")
