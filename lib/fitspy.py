"""Observation points at the two numerical routines, installed before spey is imported so that it does not matter how spey
refers to them (module attribute, from-import, alias)."""
import functools
import iminuit, iminuit.minuit
import scipy.optimize

_minimize, _Minuit = scipy.optimize.minimize, iminuit.Minuit
HOOK = {"scipy": None, "init": None, "minuit": None}


@functools.wraps(_minimize)
def minimize(*a, **k):
    h = HOOK["scipy"]
    return h(*a, **k) if h else _minimize(*a, **k)


class Minuit(_Minuit):
    def __init__(self, fcn, *args, grad=None, **kws):
        super().__init__(fcn, *args, grad=grad, **kws)
        if HOOK["init"]:
            HOOK["init"](self, grad)

    def migrad(self, ncall=None, *a, **b):
        if HOOK["minuit"]:
            HOOK["minuit"](self, "migrad", ncall)
        return super().migrad(ncall, *a, **b)

    def simplex(self, ncall=None, *a, **b):
        if HOOK["minuit"]:
            HOOK["minuit"](self, "simplex", ncall)
        return super().simplex(ncall, *a, **b)


Minuit.__name__ = Minuit.__qualname__ = "Minuit"


def install():
    scipy.optimize.minimize = minimize
    iminuit.Minuit = iminuit.minuit.Minuit = Minuit


class hooks:
    """with hooks(scipy=f, init=g, minuit=h): ..."""
    def __init__(self, **h):
        self.h = h

    def __enter__(self):
        self.old = dict(HOOK)
        HOOK.update(self.h)

    def __exit__(self, *a):
        HOOK.update(self.old)


original = _minimize
