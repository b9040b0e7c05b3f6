"""Programmable statistical models whose answers the TLA+ side can compute exactly.

Rows i: expected counts  lam_i = c_i + sum_j M[i][j] * par_j ;  data n_i ;  variance 1/w_i
        nll(par; data) = sum_i w_i (data_i - lam_i)^2 / 2
Everything integral (w_i may be a fraction of integers w_i / W).
"""
import itertools
from fractions import Fraction as F
import numpy as np

from spey.base.backend_base import BackendBase
from spey.base.model_config import ModelConfig
from spey.utils import ExpectationType


class LinGauss(BackendBase):
    name = "verif_lingauss"
    version = "1.0"
    author = "verif"
    spey_requires = ">=0.0.1"

    def __init__(self, c, M, n, w=None, W=1, poi=0, names=None, bounds=None, init=None, minpoi=-100.0,
                 fixed=None, apriori=None, grad=False, alive=True, plan=None):
        self.c, self.M, self.n = [int(x) for x in c], [list(r) for r in M], [float(x) for x in n]
        self.rows, self.npar = len(c), len(M[0])
        self.w = list(w) if w is not None else [1] * self.rows
        self.W = W
        self.poi = poi
        self.names = names
        self.bounds = bounds if bounds is not None else [(-50.0, 50.0)] * self.npar
        self.init = init if init is not None else [0.0] * self.npar
        self.minpoi = minpoi
        self.fixed = fixed
        self.apriori = [float(x) for x in (apriori if apriori is not None else c)]
        self.grad = grad
        self.alive = alive
        self.plan = plan
        self.calls = []
        self._A = np.array(self.M, dtype=float)
        self._c = np.array(self.c, dtype=float)
        self._w = np.array(self.w, dtype=float) / W

    @property
    def is_alive(self):
        return self.alive

    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        b = [tuple(x) for x in self.bounds]
        if not allow_negative_signal:
            b[self.poi] = (0.0, b[self.poi][1])
        return ModelConfig(poi_index=self.poi, minimum_poi=self.minpoi, suggested_init=list(self.init),
                           suggested_bounds=b, parameter_names=None if self.names is None else list(self.names),
                           suggested_fixed=None if self.fixed is None else list(self.fixed))

    def _data(self, expected, data):
        if data is not None:
            return np.asarray(data, dtype=float)
        if expected == ExpectationType.apriori:
            return np.array(self.apriori)
        return np.array(self.n)

    def _nll(self, pars, d):
        r = d - self._c - self._A @ np.asarray(pars, dtype=float)
        return 0.5 * float(np.sum(self._w * r * r))

    def get_logpdf_func(self, expected=ExpectationType.observed, data=None):
        d = self._data(expected, data)
        self.calls.append(("logpdf", str(expected), d.tolist()))
        return lambda pars: -self._nll(pars, d)

    def get_objective_function(self, expected=ExpectationType.observed, data=None, do_grad=True):
        d = self._data(expected, data)
        if do_grad and not self.grad:
            raise NotImplementedError
        self.calls.append(("objective", str(expected), d.tolist()))
        if not do_grad:
            return lambda pars: self._nll(pars, d)

        def f(pars):
            r = d - self._c - self._A @ np.asarray(pars, dtype=float)
            return self._nll(pars, d), -self._A.T @ (self._w * r)
        return f

    # exact routines for the native variants (fractions, box-constrained through active sets)
    def solve(self, data, bounds, fix):
        fix = dict(fix)
        for j, held in enumerate(self.fixed or []):
            if held:
                fix.setdefault(j, self.init[j])
        d = [F(float(x)) for x in data]
        H = [[sum(F(self.w[i], self.W) * self.M[i][a] * self.M[i][b] for i in range(self.rows)) for b in range(self.npar)] for a in range(self.npar)]
        g = [sum(F(self.w[i], self.W) * self.M[i][a] * (d[i] - self.c[i]) for i in range(self.rows)) for a in range(self.npar)]
        free = [j for j in range(self.npar) if j not in fix]
        best = None
        for pat in itertools.product((0, 1, 2), repeat=len(free)):
            x = [None] * self.npar
            for j, v in fix.items():
                x[j] = F(float(v))
            act = []
            ok = True
            for j, p in zip(free, pat):
                if p == 0:
                    act.append(j)
                else:
                    v = bounds[j][p - 1]
                    if v is None:
                        ok = False
                        break
                    x[j] = F(float(v))
            if not ok:
                continue
            m = len(act)
            A = [[H[a][b] for b in act] + [g[a] - sum(H[a][k] * x[k] for k in range(self.npar) if k not in act)] for a in act]
            sing = False
            for i in range(m):
                p = next((r for r in range(i, m) if A[r][i] != 0), None)
                if p is None:
                    sing = True
                    break
                A[i], A[p] = A[p], A[i]
                A[i] = [v / A[i][i] for v in A[i]]
                for r in range(m):
                    if r != i and A[r][i] != 0:
                        A[r] = [u - A[r][i] * v for u, v in zip(A[r], A[i])]
            if sing:
                continue
            for i, a in enumerate(act):
                x[a] = A[i][m]
            if any((bounds[j][0] is not None and x[j] < F(float(bounds[j][0]))) or (bounds[j][1] is not None and x[j] > F(float(bounds[j][1]))) for j in free):
                continue
            v = sum(F(self.w[i], self.W) * (d[i] - self.c[i] - sum(self.M[i][k] * x[k] for k in range(self.npar))) ** 2 for i in range(self.rows)) / 2
            if best is None or v < best[0]:
                best = (v, x)
        return best


class LinGaussGen(LinGauss):
    """Generic route with expected data and sampler."""

    def expected_data(self, pars):
        return (self._c + self._A @ np.asarray(pars, dtype=float)).tolist()

    def get_sampler(self, pars):
        pars = [float(x) for x in pars]

        def sampler(size, *a, **k):
            self.calls.append(("sample", pars, size))
            if self.plan is not None:
                return self.plan(pars, size)
            base = np.asarray(self.expected_data(pars))
            return np.array([base + ((7 * (i + 1)) % 5 - 2) for i in range(size)])
        return sampler


class LinGaussHess(LinGaussGen):
    def get_hessian_logpdf_func(self, expected=ExpectationType.observed, data=None):
        H = -(self._A.T * self._w) @ self._A
        return lambda pars: H


class LinGaussNative(LinGaussGen):
    """Own (exact) likelihood and fit."""

    def _bounds(self, allow_negative_signal, par_bounds):
        return [tuple(b) for b in (par_bounds if par_bounds is not None else self.config(allow_negative_signal).suggested_bounds)]

    def negative_loglikelihood(self, poi_test=1.0, expected=ExpectationType.observed, data=None, return_parameters=False,
                               init_pars=None, par_bounds=None, **kw):
        d = self._data(expected, data)
        self.calls.append(("native_nll", str(expected), d.tolist()))
        fix = {self.poi: poi_test} if not isinstance(poi_test, dict) else self.config().resolve_poi_indices(poi_test)
        v, x = self.solve(d, self._bounds(True, par_bounds), fix)
        x = np.array([float(t) for t in x])
        return (float(v), x) if return_parameters else float(v)

    def minimize_negative_loglikelihood(self, expected=ExpectationType.observed, allow_negative_signal=True, data=None,
                                        init_pars=None, par_bounds=None, poi_indices=None, fixed_poi_value=None, **kw):
        d = self._data(expected, data)
        self.calls.append(("native_min", str(expected), d.tolist()))
        fix = {} if fixed_poi_value is None else ({self.poi: fixed_poi_value} if not isinstance(fixed_poi_value, dict) else self.config().resolve_poi_indices(fixed_poi_value))
        v, x = self.solve(d, self._bounds(allow_negative_signal, par_bounds), fix)
        if poi_indices is None:
            return float(x[self.poi]), float(v)
        return {k: float(x[self.names.index(k) if isinstance(k, str) else k]) for k in poi_indices}, float(v)


def micro(x, scale=1_000_000):
    """Float -> integer micro units; infinities and NaN as sentinels outside the value range."""
    x = float(x)
    if x != x:
        return 2_000_000_003
    if x == float("inf"):
        return 2_000_000_001
    if x == float("-inf"):
        return -2_000_000_001
    v = int(round(x * scale))
    return max(-2_000_000_000, min(2_000_000_000, v))
