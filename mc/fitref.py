"""Reference minimization: the likelihood of the reference model with analytic gradient, minimized by L-BFGS-B with a
Newton polish, over any subset of free parameters and within bounds.  Independent of the code under test."""
import math

import numpy as np
from scipy.optimize import minimize

from .models import nbins


class FitRef:
    def __init__(self, r):
        self.r = r
        self.names = r.names()
        self.n = len(self.names)
        self.k = len(r.procs)
        self.blocks = []
        pos = self.k
        for c in r.ch.values():
            ts = []
            for q, t in c.t.items():
                ts.append((r.procs.index(q), c.eff[q], np.array(t.counts), np.array(t.rel()), slice(pos, pos + t.n),
                           np.array(t.inv_corr())))
                pos += t.n
            self.blocks.append((np.array(c.data, dtype=float), ts))
        self.constr = [(r.procs.index(q), v, e) for q, (v, e) in r.constr.items()]

    def fg(self, x):
        """value and gradient; (inf, zeros) outside the domain"""
        x = np.asarray(x, dtype=float)
        f, g = 0.0, np.zeros(self.n)
        for data, ts in self.blocks:
            nu = np.zeros(len(data))
            parts = []
            for iy, eff, c, rel, sl, inv in ts:
                b = c * (1.0 + rel * x[sl])
                s = b.sum()
                fr = b / s if s != 0 else np.zeros_like(b)
                parts.append((fr, s))
                nu += x[iy] * eff * fr
            if np.any((nu <= 0) & (data > 0)) or not np.all(np.isfinite(nu)):
                return math.inf, np.zeros(self.n)
            pos = data > 0
            f += float(nu[~pos].sum())
            f += float(np.sum(data[pos] * (nu[pos] / data[pos] - 1.0 - np.log(nu[pos] / data[pos]))))
            d = np.where(pos, 1.0 - data / np.where(pos, nu, 1.0), 1.0)
            for (iy, eff, c, rel, sl, inv), (fr, s) in zip(ts, parts):
                g[iy] += eff * float(d @ fr)
                if s != 0:
                    g[sl] += x[iy] * eff * c * rel / s * (d - float(d @ fr))
                g[sl] += inv @ x[sl]
                f += 0.5 * float(x[sl] @ inv @ x[sl])
        for i, v, e in self.constr:
            f += 0.5 * ((x[i] - v) / e) ** 2
            g[i] += (x[i] - v) / e ** 2
        return f, g

    def f(self, x):
        return self.fg(x)[0]

    def hess(self, x):
        x = np.asarray(x, dtype=float)
        h = np.zeros((self.n, self.n))
        for i in range(self.n):
            s = 1e-5 * max(1.0, abs(x[i]))
            a, b = np.array(x), np.array(x)
            a[i] += s
            b[i] -= s
            h[i] = (self.fg(a)[1] - self.fg(b)[1]) / (2 * s)
        return (h + h.T) / 2

    def cov(self, x, fixed=()):
        """inverse second derivative matrix of the free parameters, zeros elsewhere"""
        free = [i for i in range(self.n) if i not in fixed]
        c = np.zeros((self.n, self.n))
        if free:
            c[np.ix_(free, free)] = np.linalg.inv(self.hess(x)[np.ix_(free, free)])
        return c

    def edm(self, x, fixed=(), bounds=None):
        """estimated distance to the minimum over the free parameters, in units of the likelihood; parameters at a
        bound with the gradient pushing outwards do not count."""
        bounds = bounds or {}
        f, g = self.fg(x)
        if not math.isfinite(f):
            return math.inf
        free = []
        for i in range(self.n):
            if i in fixed:
                continue
            lo, hi = bounds.get(i, (None, None))
            tol = 1e-3 * max(1.0, abs(x[i])) * 0.05
            if lo is not None and x[i] - lo < tol and g[i] > 0:
                continue
            if hi is not None and hi - x[i] < tol and g[i] < 0:
                continue
            free.append(i)
        if not free:
            return 0.0
        h = self.hess(x)[np.ix_(free, free)]
        w, v = np.linalg.eigh(h)
        if w[0] <= 0:
            return math.inf
        p = v.T @ g[free]
        return float(0.5 * np.sum(p * p / w))

    def minimize(self, x0, fixed=(), bounds=None, starts=()):
        """(value, vector) of the lowest minimum found; None if the reference itself does not converge"""
        bounds = bounds or {}
        x0 = np.array(x0, dtype=float)
        free = [i for i in range(self.n) if i not in fixed]
        if not free:
            return self.f(x0), x0
        best = None
        for start in [x0] + [np.where([i in free for i in range(self.n)], s, x0) for s in starts]:
            y = np.array(start, dtype=float)
            for i in free:
                lo, hi = bounds.get(i, (None, None))
                if lo is not None:
                    y[i] = max(y[i], lo)
                if hi is not None:
                    y[i] = min(y[i], hi)

            def fun(z, y=y):
                full = np.array(y)
                full[free] = z
                f, g = self.fg(full)
                if not math.isfinite(f):
                    return 1e10, np.zeros(len(free))
                return f, g[free]
            b = [bounds.get(i, (None, None)) for i in free]
            z = y[free]
            for _ in range(3):
                z = minimize(fun, z, jac=True, method="L-BFGS-B", bounds=b,
                             options={"maxiter": 5000, "maxfun": 20000, "ftol": 1e-15, "gtol": 1e-10, "maxcor": 30}).x
            full = np.array(y)
            full[free] = z
            full = self._newton(full, free, bounds)
            v = self.f(full)
            if math.isfinite(v) and (best is None or v < best[0]):
                best = (v, full)
        if best is None or not self.edm(best[1], fixed, bounds) < 1e-6:
            return None
        return best

    def _newton(self, x, free, bounds):
        for _ in range(20):
            f, g = self.fg(x)
            act = []
            for i in free:
                lo, hi = bounds.get(i, (None, None))
                if (lo is not None and x[i] <= lo and g[i] > 0) or (hi is not None and x[i] >= hi and g[i] < 0):
                    continue
                act.append(i)
            if not act or not math.isfinite(f):
                return x
            try:
                step = np.linalg.solve(self.hess(x)[np.ix_(act, act)], g[act])
            except np.linalg.LinAlgError:
                return x
            y = np.array(x)
            y[act] -= step
            for i in act:
                lo, hi = bounds.get(i, (None, None))
                if lo is not None:
                    y[i] = max(y[i], lo)
                if hi is not None:
                    y[i] = min(y[i], hi)
            fy = self.f(y)
            if not fy < f:
                return x
            x = y
        return x
