"""Configurations of the built-in models for Builtin.tla and the construction of the real models."""
import numpy as np
import vf

BACK = {"uncorr": "default.uncorrelated_background", "corr": "default.correlated_background", "third": "default.third_moment_expansion",
        "effsig": "default.effective_sigma", "poisson": "default.poisson", "poissonunc": "default.poisson", "normal": "default.normal",
        "mvn": "default.multivariate_normal"}
FAMS = list(BACK)
SIMPLE = {"poisson", "poissonunc", "normal", "mvn"}


def rho_of(rng, k):
    while True:
        r = [[100] * k for _ in range(k)]
        for i in range(k):
            for j in range(i):
                r[i][j] = r[j][i] = rng.choice([0, 0, 10, 25, 40, 60, -20, -35, 50])
        m = np.array(r) / 100.0
        if np.min(np.linalg.eigvalsh(m)) > 0.25:
            return r


def config(rng, fam, k=None, mods=0, nsp=0, call=False, kinds=None, dead=False, smax=14, npts=6, wide=False, widths=False, big=False):
    k = k or rng.choice([1, 2, 2, 3])
    b = [rng.randint(12, 40) for _ in range(k)]
    s = [0] * k if dead else [rng.choice([0, 2, 3, 5, 8, smax]) for _ in range(k)]
    if not dead and not any(s):
        s[rng.randrange(k)] = 4
    if not dead and k > 1 and rng.random() < 0.35:
        s[rng.randrange(k)] = -rng.choice([1, 3, 6, 9])
        if not any(x > 0 for x in s):
            s[0] = 3
    if dead and k > 1 and rng.random() < 0.5:
        s[0] = -2
    if mods:
        s = [max(0, x) for x in s]
    c = {"fam": fam, "b": b, "s": s, "n": [rng.randint(8, 45) for _ in range(k)], "sg": [rng.randint(2, 6) for _ in range(k)],
         "dn": [rng.randint(2, 6) for _ in range(k)], "C": [rng.choice([0, 1, 1, 2, -1]) for _ in range(k)], "rho": rho_of(rng, k),
         "nsp": nsp, "call": call, "g": [[rng.choice([-1, 1, 2]) for _ in range(k)] for _ in range(nsp)], "mods": [], "cs": int(widths and fam in ("normal", "mvn"))}
    if fam == "third":
        # admissible: 0 <= B_i B_j + 4 C_i C_j rho
        c["C"] = [x if 2 * x * x <= sg * sg else 0 for x, sg in zip(c["C"], c["sg"])]
        if any(c["sg"][i] * c["sg"][j] + 4 * c["C"][i] * c["C"][j] * c["rho"][i][j] / 100 <= 1 for i in range(k) for j in range(k)):
            c["C"] = [abs(x) for x in c["C"]]
            if any(c["sg"][i] * c["sg"][j] + 4 * c["C"][i] * c["C"][j] * c["rho"][i][j] / 100 <= 1 for i in range(k) for j in range(k)):
                return config(rng, fam, k, mods, nsp, call, kinds, dead, smax, npts, wide, widths)
    for m in range(mods):
        kind = (kinds or ["normalization", "shape"])[m % 2] if kinds else rng.choice(["normalization", "shape"])
        up = [rng.choice([0, 1, 2, 3]) for _ in range(k)]
        if rng.random() < 0.25:
            up[rng.randrange(k)] = -1
        if big and m == 0 and mods < 3:      # variations several times the yield
            j = rng.randrange(k)
            up[j] = max(1, s[j]) * rng.choice([4, 5, 6])
        sym = rng.random() < 0.4
        c["mods"].append({"kind": kind, "name": rng.choice(["jes", "pdf", "lumi"]) + str(m), "up": up, "dn": list(up) if sym else [rng.choice([0, 1, 2, 4]) for _ in range(k)], "sym": sym})
    n = 1 + nsp + (0 if fam in SIMPLE - {"poissonunc"} else k) + sum(1 if x["kind"] == "normalization" else k for x in c["mods"])
    lo = 1 + nsp + (0 if fam in SIMPLE - {"poissonunc"} else k)
    pts = []
    for t in range(npts):
        p = []
        for j in range(n):
            if j == 0:
                p.append(rng.choice([0, 300000, 1000000, 500000, 1700000, -300000, 2000000]))
            elif j <= nsp:
                p.append(rng.choice([-1000000, 0, 500000, 2000000]))
            elif j < lo:
                p.append(rng.choice([-1500000, -1000000, -400000, 0, 300000, 700000, 1200000, 2100000]))
            else:
                p.append(0 if t == 0 else 500000 * rng.choice([-3, -2, -1, 0, 1, 1, 2, 3]))
        pts.append(p)
    c["pts"] = pts
    c["data"] = [[2 * x for x in c["n"]], [2 * x for x in b], [rng.randint(10, 90) for _ in range(k)], [2 * rng.randint(6, 40) for _ in range(k)],
                 [0 if j == 0 else 2 * rng.choice([0, 1, rng.randint(6, 40)]) for j in range(k)]]
    return c


def signal(c):
    if not c["call"]:
        return [float(x) for x in c["s"]]
    s, g = np.array(c["s"], dtype=float), [np.array(x, dtype=float) for x in c["g"]]

    def f(a):
        v = s
        for j, w in enumerate(g):
            v = v + a[j] * w
        return v
    return f


def kwargs(c, mods=True):
    k = len(c["b"])
    sg, rho = np.array(c["sg"], dtype=float), np.array(c["rho"]) / 100.0
    f = c["fam"]
    a = {"signal_yields": signal(c), "background_yields": [float(x) for x in c["b"]], "data": list(c["n"])}
    if f in ("uncorr", "normal", "poissonunc"):
        a["absolute_uncertainties"] = [float(x) for x in c["sg"]]
    if f in ("corr", "mvn"):
        a["covariance_matrix"] = rho * np.outer(sg, sg)
    if c["cs"]:
        grow = lambda p: 1.0 + 0.25 * sum(p[j] ** 2 for j in range(1 + c["nsp"]))
        if f == "normal":
            a["absolute_uncertainties"] = lambda p: sg * grow(p)
        else:
            cov = a["covariance_matrix"]
            a["covariance_matrix"] = lambda p: cov * grow(p) ** 2
    if f == "third":
        C = np.array(c["C"], dtype=float)
        a["covariance_matrix"] = rho * np.outer(sg, sg) + 2 * np.outer(C, C) * rho ** 2
        a["third_moment"] = 6 * sg ** 2 * C + 8 * C ** 3
    if f == "effsig":
        a["correlation_matrix"] = rho
        a["absolute_uncertainty_envelops"] = [(float(u), float(d)) for u, d in zip(c["sg"], c["dn"])]
    if f not in ("poisson", "poissonunc") and c["nsp"]:
        a["n_signal_parameters"] = c["nsp"]
    if c["mods"] and mods:
        a["modifiers"] = [{"name": m["name"], "type": m["kind"], "uncertainties": ([float(x) for x in m["up"]] if m["sym"] else [[float(u), float(d)] for u, d in zip(m["up"], m["dn"])])} for m in c["mods"]]
    return a


def build(c, mods=True):
    import spey
    return spey.get_backend(BACK[c["fam"]])(**kwargs(c, mods))


def predictions(chk, cfgs, workers=4):
    """Run the specification over the configurations; returns (headers, points)."""
    import json, os
    d = vf.scratch("cases")
    path = os.path.join(d, "cases.json")
    json.dump(cfgs, open(path, "w"))
    r = vf.tlc("BuiltinMC", "CONSTANTS Emit = TRUE\nINIT Init\nNEXT Next\nINVARIANTS Linear ZeroStrength Layout Vanishing MinIsTight Out\nCHECK_DEADLOCK FALSE\n",
               env={"CASE_FILE": path}, workers=workers, timeout=800, expect_ok=False)
    if r.rc != 0:
        raise vf.MachineryError("BuiltinMC:\n" + r.out[-3000:])
    chk.count(r)
    heads, pts = {}, {}
    for x in r.json_prints():
        if "npar" in x:
            heads[x["k"] - 1] = x
        else:
            pts[(x["k"] - 1, x["at"] - 1)] = x
    return heads, pts
