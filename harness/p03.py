"""P03: which minimiser is used.  Optimiser.tla enumerates all short histories of selections, environment changes,
(un)availability and fits, with the minimiser every fit has to use; they are performed on the real package with both
numerical routines wrapped to note their use."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
import fitspy
fitspy.install()

CFG = ("CONSTANTS Emit = TRUE\n Depth = %d\n Queries = {%s}\nINIT Init\nNEXT Next\nINVARIANTS UsedKnown Honoured Default EmitOut\n%sCHECK_DEADLOCK FALSE\n")
QNAMES = ["fit", "mle", "llhd", "mle-asimov", "llhd-asimov", "asimov", "cls", "limit", "chi2", "signif", "sigma", "pull", "sampler", "combined"]


def run(c):
    import numpy as np, logging, spey
    from spey.optimizer.core import fit
    from spey.base.model_config import ModelConfig
    from backends import LinGaussGen
    from spey import StatisticalModel
    from spey.combiner import UnCorrStatisticsCombiner
    logging.getLogger("Spey").setLevel(logging.CRITICAL + 10)

    def model(i=0):
        return StatisticalModel(LinGaussGen([6, 0], [[2, 1], [0, 1]], [8 + i, 0], apriori=[6, 0], grad=bool(i % 2)), f"m{i}")

    def ask(q, k):
        if q == "fit":
            fit(func=lambda x: float((x[0] - 1) ** 2), model_configuration=ModelConfig(0, -1.0, [0.0], [(-1.0, 5.0)]), **k)
        elif q == "combined":
            UnCorrStatisticsCombiner(model(0), model(1)).maximize_likelihood(**k)
        else:
            m = model(1)
            {"mle": lambda: m.maximize_likelihood(**k), "llhd": lambda: m.likelihood(0.7, **k), "mle-asimov": lambda: m.maximize_asimov_likelihood(**k),
             "llhd-asimov": lambda: m.asimov_likelihood(0.7, **k), "asimov": lambda: m.generate_asimov_data(**k),
             "cls": lambda: m.exclusion_confidence_level(0.7, **k), "limit": lambda: m.poi_upper_limit(optimiser_arguments=dict(k) or None),
             "chi2": lambda: m.chi2(0.7, mle_kwargs=dict(k) or None, likelihood_kwargs=dict(k) or None), "signif": lambda: m.significance(**k),
             "sigma": lambda: m.sigma_mu(0.7, **k), "pull": lambda: m.pull(0.7, **k), "sampler": lambda: m.fixed_poi_sampler(0.7, 2, **k)}[q]()

    def perform(a):
        i, h = a
        used = set()

        def s(*x, **y):
            used.add("scipy")
            return fitspy.original(*x, **y)

        def m(*_):
            used.add("minuit")
        out = []
        real = sys.modules["iminuit"]
        old = os.environ.get("SPEY_OPTIMISER")
        try:
            with fitspy.hooks(scipy=s, minuit=m):
                for n, e in enumerate(h):
                    if e["op"] == "env":
                        if e["v"] == "unset":
                            os.environ.pop("SPEY_OPTIMISER", None)
                        else:
                            os.environ["SPEY_OPTIMISER"] = e["v"]
                    elif e["op"] == "set":
                        try:
                            spey.set_optimiser(e["v"])
                        except Exception as exc:
                            out.append(("selection raises", n, repr(exc)))
                    elif e["op"] == "installed":
                        sys.modules["iminuit"] = real if e["v"] == "yes" else None
                    else:
                        used.clear()
                        k = {} if e["v"] == "none" else {"minimizer": e["v"]}
                        ask(e["q"], k)
                        if used != {e["used"]}:
                            out.append((f"{e['q']}: call choice {e['v']}: expected {e['used']}", n, sorted(used)))
                        if k and k != {"minimizer": e["v"]}:
                            out.append(("options of the caller changed", n, k))
        finally:
            sys.modules["iminuit"] = real
            if old is None:
                os.environ.pop("SPEY_OPTIMISER", None)
            else:
                os.environ["SPEY_OPTIMISER"] = old
        return out

    r = vf.tlc("Optimiser", CFG % (3, '"fit"', "PROPERTIES CallOnly BadSet\n"), workers=4, timeout=600)
    c.count(r)
    hs = r.json_prints()
    rng = random.Random(vf.SEED)
    q = ", ".join(f'"{x}"' for x in QNAMES)
    r2 = vf.tlc("Optimiser", CFG % (2, q, ""), workers=4, timeout=600)
    c.count(r2)
    h2 = r2.json_prints()
    r3 = vf.tlc("Optimiser", CFG % (8, '"fit", "mle", "llhd-asimov", "cls"', ""), args=["-simulate", "num=%d" % (250 if not vf.THOROUGH else 600), "-depth", "10", "-seed", str(vf.SEED)], timeout=600)
    h3 = r3.json_prints()
    c.count(r3)
    if not vf.THOROUGH:
        hs = rng.sample(hs, min(len(hs), 2500))
        h2 = rng.sample(h2, min(len(h2), 500))
        h3 = rng.sample(h3, min(len(h3), 200))
    allh = hs + h2 + h3
    for h, bad in zip(allh, vf.pmap(perform, list(enumerate(allh)))):
        c.traces += 1
        for key, n, d in bad:
            c.violation(key, {"history": h, "event": n, "got": d})
    c.sample(h3[0])


if __name__ == "__main__":
    vf.main(run, "P03")
