"""Reference model in plain Python.  Imports neither numpy nor the code under test."""
import math

INF = float("inf")


def fsum(xs):
    xs = list(xs)
    if any(math.isinf(x) or math.isnan(x) for x in xs):
        return sum(xs)
    return math.fsum(xs)


# ---------------------------------------------------------------- histograms
def find_bin(edges, x):
    """Index of the bin of x or None: [e_i, e_i+1), the last bin closed."""
    n = len(edges) - 1
    if not (x == x) or x < edges[0] or x > edges[n]:
        return None
    if x == edges[n]:
        return n - 1
    for i in range(n):
        if edges[i] <= x < edges[i + 1]:
            return i
    return None


def linspace(lo, hi, n):
    """n points from lo to hi."""
    return [lo + (hi - lo) * i / (n - 1) for i in range(n - 1)] + [hi]


class RHist:
    """axes: list of edge lists; contents flat in row-major order."""

    def __init__(self, axes):
        self.axes = [[float(e) for e in a] for a in axes]
        self.shape = tuple(len(a) - 1 for a in self.axes)
        self.n = 1
        for s in self.shape:
            self.n *= s
        self.w = [[] for _ in range(self.n)]   # all weights per bin, summed on reading
        self.base = [0.0] * self.n
        self.base2 = [0.0] * self.n
        self.empty = True

    def fill(self, points, weights=None):
        self.empty = False
        if weights is None:
            weights = [1.0] * len(points)
        for p, w in zip(points, weights):
            idx = 0
            for a, x in zip(self.axes, p):
                b = find_bin(a, x)
                if b is None:
                    idx = None
                    break
                idx = idx * (len(a) - 1) + b
            if idx is not None:
                self.w[idx].append(float(w))

    def counts(self):
        return [fsum([b] + w) for b, w in zip(self.base, self.w)]

    def err2(self):
        return [fsum([b] + [x * x for x in w]) for b, w in zip(self.base2, self.w)]

    def key(self):
        return (tuple(self.counts()), tuple(self.err2()))


def nest(flat, shape):
    if len(shape) == 1:
        return list(flat)
    n = len(flat) // shape[0]
    return [nest(flat[i * n:(i + 1) * n], shape[1:]) for i in range(shape[0])]


# ---------------------------------------------------------------- matrices
def eye(n):
    return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]


def diag(d):
    return [[d[i] if i == j else 0.0 for j in range(len(d))] for i in range(len(d))]


def madd(a, b):
    return [[x + y for x, y in zip(r, s)] for r, s in zip(a, b)]


def outer(u, v):
    return [[x * y for y in v] for x in u]


def mmul(a, b):
    bt = list(zip(*b))
    return [[fsum(x * y for x, y in zip(r, c)) for c in bt] for r in a]


def transpose(a):
    return [list(r) for r in zip(*a)]


def inverse(m):
    n = len(m)
    a = [list(map(float, m[i])) + [1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if a[p][c] == 0:
            raise ZeroDivisionError("singular")
        a[c], a[p] = a[p], a[c]
        d = a[c][c]
        a[c] = [x / d for x in a[c]]
        for r in range(n):
            if r != c and a[r][c] != 0:
                f = a[r][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return [r[n:] for r in a]


def cov2corr(cov):
    n = len(cov)
    s = [math.sqrt(cov[i][i]) for i in range(n)]
    return [[(cov[i][j] / (s[i] * s[j]) if s[i] > 0 and s[j] > 0 else 0.0) for j in range(n)] for i in range(n)]


def quad_form(v, m):
    return fsum(v[i] * m[i][j] * v[j] for i in range(len(v)) for j in range(len(v)))


def syst_cov(nom, up, down):
    d = []
    for n, u, w in zip(nom, up, down):
        s = (abs(u - n) + abs(w - n)) / 2
        d.append(-s if u < w else s)
    return outer(d, d)


# ---------------------------------------------------------------- templates and models
class RTemplate:
    def __init__(self, counts, err2, shape=None):
        self.counts = [float(c) for c in counts]
        self.err2 = [float(e) for e in err2]
        self.shape = tuple(shape) if shape else (len(counts),)
        self.n = len(self.counts)
        self.cov = diag([e if e != 0 else 1e-14 for e in self.err2])
        self.varied = False
        self.reset()

    def copy(self):
        t = RTemplate(self.counts, self.err2, self.shape)
        t.cov = [list(r) for r in self.cov]
        t.varied = self.varied
        t.y, t.nui = self.y, list(self.nui)
        return t

    def reset(self):
        self.y = fsum(self.counts)
        self.nui = [0.0] * self.n

    def add_cov(self, c):
        self.cov = madd(self.cov, c)
        self.varied = True

    def add_variation(self, up, down):
        self.add_cov(syst_cov(self.counts, up, down))

    def rel(self):
        return [math.sqrt(self.cov[i][i]) / self.counts[i] if self.counts[i] != 0 else 1e-7
                for i in range(self.n)]

    def fractions(self, nui=None):
        nui = self.nui if nui is None else nui
        r = self.rel()
        b = [c * (1 + t * e) for c, t, e in zip(self.counts, nui, r)]
        s = fsum(b)
        return [x / s for x in b] if s != 0 else [0.0] * self.n

    def values(self):
        return [self.y * f for f in self.fractions()]

    def errors(self):
        return [r * v for r, v in zip(self.rel(), self.values())]

    def corr(self):
        return cov2corr(self.cov) if self.varied else eye(self.n)

    def inv_corr(self):
        return inverse(self.corr()) if self.varied else eye(self.n)

    def key(self):
        return (tuple(self.counts), tuple(map(tuple, self.cov)), self.y, tuple(self.nui))


def poisson_term(n, nu):
    """nu - n - n log(nu/n)"""
    if n == 0:
        return nu
    if nu == 0:
        return INF
    d = (nu - n) / n
    if abs(d) < 1e-3:
        # n * (d - log1p(d)) without cancellation
        s, p = 0.0, d
        for k in range(2, 12):
            p *= d
            s += (p / k) * (1 if k % 2 == 0 else -1)
        return n * s
    if abs(d) > 0.5:
        return nu - n - n * math.log(nu / n)
    return n * (d - math.log1p(d))


class RChannel:
    def __init__(self, name):
        self.name = name
        self.t = {}        # process -> RTemplate, in insertion order
        self.eff = {}
        self.data = None   # flat

    def nb(self):
        return next(iter(self.t.values())).n

    def expected(self, yields, nuis):
        """yields, nuis per process of this channel, in its own order."""
        per = [[y * e * f for f in t.fractions(n)]
               for t, e, y, n in zip(self.t.values(), self.eff.values(), yields, nuis)]
        return [fsum(c) for c in zip(*per)]

    def total(self):
        return [fsum(c) for c in zip(*[t.values() for t in self.t.values()])]


class RModel:
    def __init__(self):
        self.procs = []
        self.ch = {}
        self.constr = {}   # process -> (value, error)

    def npar(self):
        return len(self.procs) + sum(t.n for c in self.ch.values() for t in c.t.values())

    def names(self):
        return [f"{p}_yield" for p in self.procs] + [
            f"{c.name}_{p}_bin_{i}" for c in self.ch.values() for p, t in c.t.items() for i in range(t.n)]

    def yields(self):
        return [fsum(c.t[p].y for c in self.ch.values() if p in c.t) for p in self.procs]

    def yield_errors(self):
        return [math.sqrt(fsum(e * e for c in self.ch.values() if p in c.t for e in c.t[p].errors()))
                for p in self.procs]

    def nuis(self):
        return [x for c in self.ch.values() for t in c.t.values() for x in t.nui]

    def x0(self):
        return self.yields() + self.nuis()

    def split(self, x):
        """(yields by process, {(channel, process): nuisance list})"""
        y = dict(zip(self.procs, x))
        pos, nui = len(self.procs), {}
        for c in self.ch.values():
            for p, t in c.t.items():
                nui[c.name, p] = list(x[pos:pos + t.n])
                pos += t.n
        return y, nui

    def update(self, x):
        y, nui = self.split(x)
        for c in self.ch.values():
            for p, t in c.t.items():
                t.y = y[p] * c.eff[p]
                t.nui = nui[c.name, p]

    def set_yield(self, p, v):
        for c in self.ch.values():
            if p in c.t:
                c.t[p].y = v * c.eff[p]

    def reset(self):
        for c in self.ch.values():
            for t in c.t.values():
                t.reset()

    def expected(self, x):
        y, nui = self.split(x)
        return {c.name: c.expected([y[p] for p in c.t], [nui[c.name, p] for p in c.t])
                for c in self.ch.values()}

    def nll(self, x):
        y, nui = self.split(x)
        terms = []
        for c in self.ch.values():
            ex = c.expected([y[p] for p in c.t], [nui[c.name, p] for p in c.t])
            terms += [poisson_term(n, v) for n, v in zip(c.data, ex)]
            for p, t in c.t.items():
                terms.append(0.5 * quad_form(nui[c.name, p], t.inv_corr()))
        for p, (v, e) in self.constr.items():
            terms.append(0.5 * ((y[p] - v) / e) ** 2)
        return fsum(terms)

    def scale(self):
        """magnitude used for absolute tolerances of likelihood values"""
        return 1 + sum(sum(abs(d) for d in c.data) for c in self.ch.values() if c.data)

    def key(self):
        return (tuple(self.procs),
                tuple((c.name, tuple((p, t.key(), c.eff[p]) for p, t in c.t.items()),
                       tuple(c.data) if c.data else None) for c in self.ch.values()),
                tuple(self.constr.items()))
