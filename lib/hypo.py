"""Shared by the H checks: the model zoo and recording of hypothesis-test answers in micro units."""
import math, os, sys
import numpy as np
import vf
import spey
from spey import ExpectationType, StatisticalModel
from backends import LinGauss, LinGaussGen, LinGaussHess, LinGaussNative, micro

import logging
logging.getLogger("Spey").setLevel(logging.CRITICAL)

EX = {"observed": ExpectationType.observed, "apriori": ExpectationType.apriori, "aposteriori": ExpectationType.aposteriori}
NEGINF = -2_000_000_001


def lnm(cl):
    """CL -> ln(1 - CL) in micro units; out-of-range values get sentinels no specification value equals."""
    cl = float(cl)
    if cl != cl:
        return 2_000_000_003
    if cl > 1.0 or cl < 0.0:
        return 1_999_999_999
    return NEGINF if cl == 1.0 else micro(math.log(1.0 - cl)) if cl > 1e-4 else micro(math.log1p(-cl))


def lnp(p):
    p = float(p)
    if p != p:
        return 2_000_000_003
    if p < 0 or p > 1:
        return 1_999_999_999
    return NEGINF if p == 0 else micro(math.log(p))


def onebin(m, kind, swap=False, **kw):
    """swap: the nuisance parameter comes first and the signal strength second."""
    if swap:
        if kw.get("names"):
            kw["names"] = kw["names"][::-1]
        b = kind([m["b"], 0], [[m["t"], m["s"]], [1, 0]], [m["n"], 0], apriori=[m["b"], 0], poi=1, **kw)
        return StatisticalModel(b, "onebin")
    b = kind([m["b"], 0], [[m["s"], m["t"]], [0, 1]], [m["n"], 0], apriori=[m["b"], 0], **kw)
    return StatisticalModel(b, "onebin")


def uncorr(sig=(12.0, 15.0), bkg=(50.0, 48.0), data=(36, 33), unc=(12.0, 16.0)):
    return spey.get_backend("default.uncorrelated_background")(
        signal_yields=list(sig), background_yields=list(bkg), data=list(data), absolute_uncertainties=list(unc))


def corr(sig=(12.0, 15.0), bkg=(50.0, 48.0), data=(36, 33), cov=((144.0, 13.0), (25.0, 256.0))):
    cov = np.array(cov)
    return spey.get_backend("default.correlated_background")(
        signal_yields=list(sig), background_yields=list(bkg), data=list(data), covariance_matrix=(cov + cov.T) / 2)


def thirdm(data=(36, 33)):
    return spey.get_backend("default.third_moment_expansion")(
        signal_yields=[12.0, 15.0], background_yields=[50.0, 48.0], data=list(data),
        covariance_matrix=np.array([[144.0, 13.0], [13.0, 256.0]]), third_moment=np.array([0.5, 0.3]))


def effsig(data=(36, 33)):
    return spey.get_backend("default.effective_sigma")(
        signal_yields=[12.0, 15.0], background_yields=[50.0, 48.0], data=list(data),
        correlation_matrix=np.array([[1.0, 0.06], [0.06, 1.0]]), absolute_uncertainty_envelops=[(10.0, 15.0), (13.0, 18.0)])


def poisson(sig=(5.0, 3.0), bkg=(20.0, 31.0), data=(24, 28), **kw):
    return spey.get_backend("default.poisson")(signal_yields=list(sig), background_yields=list(bkg), data=list(data), **kw)


def normal(sig=(3.0,), bkg=(10.0,), data=(12,), unc=(2.5,)):
    return spey.get_backend("default.normal")(signal_yields=list(sig), background_yields=list(bkg), data=list(data),
                                              absolute_uncertainties=list(unc))


def mvn(data=(12.0, 9.0)):
    return spey.get_backend("default.multivariate_normal")(
        signal_yields=[3.0, 4.0], background_yields=[10.0, 12.0], data=list(data),
        covariance_matrix=np.array([[6.0, 1.0], [1.0, 8.0]]))


ZOO = {
    "uncorr-under": lambda: uncorr(), "uncorr-over": lambda: uncorr(data=(70, 68)), "uncorr-eq": lambda: uncorr(data=(52, 47)),
    "corr-under": lambda: corr(), "corr-over": lambda: corr(data=(71, 60)),
    "third": lambda: thirdm(), "third-over": lambda: thirdm(data=(70, 58)),
    "effsig": lambda: effsig(), "effsig-over": lambda: effsig(data=(66, 70)),
    "poisson": lambda: poisson(), "poisson-over": lambda: poisson(data=(31, 40)), "poisson-under": lambda: poisson(data=(11, 25)),
    "normal": lambda: normal(), "normal-under": lambda: normal(data=(7,)), "mvn": lambda: mvn(), "mvn-over": lambda: mvn(data=(19.0, 15.0)),
}


# larger models, signal uncertainties and signals with parameters of their own, for the checks of the fits themselves
_MANY = dict(sig=(3.0, 4.0, 2.0, 1.0, 6.0, 2.5), bkg=(30.0, 40.0, 20.0, 12.0, 55.0, 9.0))


def _corrn(n=5):
    w = np.array([6.0, 7.0, 4.0, 3.0, 8.0])[:n]
    return np.outer(w, w) * (0.3 + 0.7 * np.eye(n))


MORE = {
    "uncorr-many": lambda: uncorr(data=(43, 38, 11, 15, 49, 14), unc=(4.0, 5.0, 3.0, 3.0, 9.0, 2.0), **_MANY),
    "poisson-many": lambda: poisson(data=(33, 52, 24, 12, 60, 8), **_MANY),
    "corr-many": lambda: corr(sig=_MANY["sig"][:5], bkg=_MANY["bkg"][:5], data=(36, 47, 15, 14, 66), cov=_corrn()),
    "third-many": lambda: spey.get_backend("default.third_moment_expansion")(
        signal_yields=list(_MANY["sig"][:4]), background_yields=list(_MANY["bkg"][:4]), data=[25, 47, 22, 9], covariance_matrix=_corrn(4), third_moment=[20.0, -30.0, 4.0, 2.0]),
    "uncorr-sys": lambda: spey.get_backend("default.uncorrelated_background")(
        signal_yields=[12.0, 15.0, 4.0], background_yields=[50.0, 48.0, 20.0], data=[58, 51, 26], absolute_uncertainties=[6.0, 8.0, 3.0],
        modifiers=[{"type": "normalization", "name": "lumi", "uncertainties": [0.1, 0.1, 0.2]}, {"type": "shape", "name": "shape", "uncertainties": [0.1, 0.05, 0.2]}]),
    # data that pull the nuisance parameters far from where they start
    "uncorr-pull": lambda: uncorr(sig=(2.0, 1.0), bkg=(20.0, 18.0), data=(95, 6), unc=(16.0, 10.0)),
    "corr-pull": lambda: corr(sig=(2.0, 1.0), bkg=(20.0, 18.0), data=(80, 60), cov=((256.0, 10.0), (10.0, 144.0))),
    "corr-pull-low": lambda: corr(sig=(2.0, 5.0), bkg=(20.0, 18.0), data=(3, 4), cov=((256.0, 30.0), (30.0, 144.0))),
    "third-pull": lambda: spey.get_backend("default.third_moment_expansion")(
        signal_yields=[2.0, 1.0], background_yields=[20.0, 18.0], data=[140, 110], covariance_matrix=np.array([[144.0, 3.0], [3.0, 100.0]]), third_moment=np.array([3500.0, 2000.0])),
    "third-pull-left": lambda: spey.get_backend("default.third_moment_expansion")(
        signal_yields=[2.0, 1.0], background_yields=[30.0, 28.0], data=[3, 35], covariance_matrix=np.array([[144.0, 13.0], [13.0, 100.0]]), third_moment=np.array([-900.0, 400.0])),
    "effsig-pull": lambda: spey.get_backend("default.effective_sigma")(
        signal_yields=[2.0, 1.0], background_yields=[20.0, 18.0], data=[70, 62], correlation_matrix=np.array([[1.0, 0.06], [0.06, 1.0]]),
        absolute_uncertainty_envelops=[(14.0, 12.0), (9.0, 11.0)]),
    "normal-callable": lambda: spey.get_backend("default.normal")(
        signal_yields=lambda p: np.array([3.0, 4.0, 5.0]) + np.array([1.5, 0.0, -1.0]) * p[0], background_yields=[10.0, 12.0, 9.0], data=[13.0, 11.0, 12.0],
        absolute_uncertainties=[2.5, 3.0, 2.0], n_signal_parameters=1, signal_parameter_bounds=[(-1.0, 1.0)]),
}
FITS = {**ZOO, **MORE}


def asim(name):
    return {"test_statistics": name}


def facts(sm, mu, ex, name):
    """Likelihood facts of a fresh model, from its public queries, relative to the best fit (micro).  The Asimov dataset
    is rebuilt from its definition: expected data of the fit conditional on the documented hypothesis."""
    e = EX[ex]
    neg = name in ("q", "qmu")
    hat, nhat = sm.maximize_likelihood(expected=e, allow_negative_signal=neg)
    _, pars = sm.likelihood(1.0 if name == "q0" else 0.0, expected=e, return_parameters=True)
    dA = [float(x) for x in sm.backend.expected_data(pars)]
    hatA, nhatA = sm.maximize_likelihood(expected=e, allow_negative_signal=neg, data=dA)
    L = lambda x: float(sm.likelihood(float(x), expected=e))
    A = lambda x: float(sm.likelihood(float(x), expected=e, data=dA))
    return {"name": name, "mu": micro(mu), "hat": micro(hat), "nmu": micro(L(mu) - nhat), "nhat": 0, "n0": micro(L(0.0) - nhat),
            "hatA": micro(hatA), "nmuA": micro(A(mu) - nhatA), "nhatA": 0, "n0A": micro(A(0.0) - nhatA)}
