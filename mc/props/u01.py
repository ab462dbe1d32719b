"""U01: every covariance of 1 to 3 (4) dimensions from alphabets of variances over many magnitudes (zero included) and
correlations; the logarithm helper on a grid of magnitudes times relative distances down to the last bit against 60-digit
logarithms; every (nominal, up, down) combination per bin for systematic covariances; every split of short arrays."""
import decimal
import itertools
import math
from decimal import Decimal

import numpy as np

from .. import ref
from ..core import Part

decimal.getcontext().prec = 60


def frozen(a):
    a = np.array(a)
    a.setflags(write=False)
    return a


def run_cov(acc, item):
    from templatefitter.utility import corr2cov, cov2corr
    var, cors, dt = item
    n = len(var)
    corr = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for (i, j), c in zip(itertools.combinations(range(n), 2), cors):
        corr[i][j] = corr[j][i] = c
    s = [math.sqrt(v) for v in var]
    cov = [[corr[i][j] * s[i] * s[j] if i != j else var[i] for j in range(n)] for i in range(n)]
    tag = f"{item}: "
    acc.op("cov2corr, corr2cov", item)
    c = frozen(cov)
    got = cov2corr(c)
    want = [[(1.0 if i == j else corr[i][j]) if var[i] > 0 and var[j] > 0 else 0.0 for j in range(n)] for i in range(n)]
    acc.eq(got, want, tag + "correlation", 1e-9, 1e-12)
    acc.eq(c, cov, tag + "covariance modified", 0, 0)
    v = frozen(var)
    back = corr2cov(frozen(got), v if dt == "array" else list(var))
    scale = [[max(abs(cov[i][j]), 1e-300) for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(n):
            acc.true(abs(float(back[i][j]) - cov[i][j]) <= 1e-9 * max(scale[i][j], 1e-3 * s[i] * s[j]),
                     f"{tag}covariance {i},{j} is {back[i][j]} instead of {cov[i][j]} after a round trip")
    acc.eq(corr2cov(frozen(corr), v), cov, tag + "covariance from correlation", 1e-9, 1e-300)
    # and again: the correlation of that covariance
    acc.eq(cov2corr(np.array(back)), want, tag + "correlation after a round trip", 1e-9, 1e-12)
    acc.state(item)


def run_scale(acc, item):
    """element by element, for matrices of all kinds (zeros on the diagonal, not symmetric, not positive)"""
    from templatefitter.utility import corr2cov
    n, m, var = item
    c = [list(m[i * n:(i + 1) * n]) for i in range(n)]
    acc.op("corr2cov", item)
    got = corr2cov(frozen(c), frozen(var))
    acc.eq(got, [[c[i][j] * math.sqrt(var[i]) * math.sqrt(var[j]) for j in range(n)] for i in range(n)], f"{item}: covariance", 1e-12, 1e-300)
    acc.state(item)


def run_log(acc, item):
    from templatefitter.utility import xlogyx
    kind, x, ys = item
    xs = np.array([x] * len(ys))
    yv = np.array(ys)
    acc.op("xlogyx", kind, x, len(ys))
    got = np.asarray(xlogyx(frozen(xs), frozen(yv)))
    acc.eq(got.shape, xs.shape, "shape")
    one = [float(xlogyx(float(x), float(y))) for y in ys]
    col = np.asarray(xlogyx(float(x), yv))
    for y, g, o, c in zip(ys, got, one, col):
        acc.step()
        if x == 0:
            w = 0.0
        else:
            w = float(Decimal(x) * (Decimal(y) / Decimal(x)).ln())
        for v, how in ((g, "array"), (o, "scalar"), (c, "broadcast")):
            acc.true(abs(float(v) - w) <= 4e-15 * abs(w) + 1e-300, f"xlogyx({x!r}, {y!r}) is {float(v)!r} instead of {w!r} ({how})")
    if x and 1e-30 < x < 1e30:
        f = np.asarray(xlogyx(np.array(xs, dtype=np.float32), np.array(yv, dtype=np.float32)))
        for a, b, g in zip(np.array(xs, dtype=np.float32), np.array(yv, dtype=np.float32), f):
            if 1e-30 < b < 1e30 and 1e-30 < float(b) / float(a) < 1e30:
                w = float(Decimal(float(a)) * (Decimal(float(b)) / Decimal(float(a))).ln())
                acc.true(abs(float(g) - w) <= 2e-6 * abs(w) + 1e-35, f"xlogyx({a!r}, {b!r}) is {float(g)!r} instead of {w!r} (single precision)")
    acc.state((x, ys[0]))


def run_syst(acc, item):
    from templatefitter.utility import get_systematic_cov_mat
    bins, dt = item
    nom, up, down = (list(v) for v in zip(*bins))
    a = [frozen(np.array(v, dtype=dt)) for v in (nom, up, down)]
    acc.step()
    c = get_systematic_cov_mat(*a)
    n = len(nom)
    acc.eq(c, ref.syst_cov(nom, up, down), f"{item}: covariance", 1e-12, 1e-12)
    acc.eq(np.asarray(c), np.asarray(c).T, f"{item}: symmetry", 0, 0)
    for i in range(n):
        acc.eq(float(c[i][i]), ((abs(up[i] - nom[i]) + abs(down[i] - nom[i])) / 2) ** 2, f"{item}: variance {i}", 1e-12, 1e-12)
        for j in range(n):
            # rank one
            acc.eq(float(c[i][i] * c[j][j]), float(c[i][j] ** 2), f"{item}: rank", 1e-9, 1e-12)
            si, sj = (-1 if up[k] < down[k] else 1 for k in (i, j))
            acc.true(c[i][j] * si * sj >= 0, f"{item}: sign of {i},{j}", float(c[i][j]))
    for v, w, name in zip(a, (nom, up, down), ("nominal", "up", "down")):
        acc.eq(v, w, f"{item}: {name} contents modified", 0, 0)
    b = [np.array(v, dtype=dt) for v in (nom, up, down)]     # not protected against writing
    acc.eq(get_systematic_cov_mat(*b), c, f"{item}: second call", 1e-12, 1e-12)
    for v, w, name in zip(b, (nom, up, down), ("nominal", "up", "down")):
        acc.eq(v, w, f"{item}: {name} contents modified by the second call", 0, 0)
    acc.state(item)


def run_split(acc, item):
    from templatefitter.utility import array_split_into
    n, sizes, kind = item
    vals = [1.5 * i - 2 for i in range(n)]
    src = {"array": lambda: frozen(vals), "list": lambda: list(vals), "iterator": lambda: iter(vals)}[kind]()
    acc.op("split", item)
    for szs in (list(sizes), tuple(sizes)):
        if kind == "iterator":
            src = iter(vals)
        got = [np.asarray(g) for g in array_split_into(src, szs)]
        want, pos = [], 0
        for s in sizes:
            want.append(vals[pos:] if s is None else vals[pos:pos + s])
            if s is None:       # takes everything that is left and ends the splitting
                break
            pos += s
        acc.eq(len(got), len(want), f"{item}: number of pieces")
        for k, (g, w) in enumerate(zip(got, want)):
            acc.eq([float(v) for v in g], w, f"{item}: piece {k}", 0, 0)
    if kind != "iterator":
        acc.eq(list(src), vals, f"{item}: source", 0, 0)
    acc.state(item)


def compositions(n, k):
    if k == 0:
        return [()] if n == 0 else []
    return [(i,) + c for i in range(n + 1) for c in compositions(n - i, k - 1)]


def parts(tier, seed):
    deep = tier == "thorough"
    var = [0.0, 1e-30, 0.25, 9.0, 1e8] if not deep else [0.0, 1e-300, 1e-14, 1e-4, 0.25, 1.0, 9.0, 1e8, 1e200]
    cor = [-1.0, -0.4, 0.0, 0.7, 1.0]
    cov = [((v,), (), d) for v in var for d in ("array", "list")]
    cov += [(v, (c,), d) for v in itertools.product(var, repeat=2) for c in cor for d in ("array", "list")]
    cov += [(v, c, "array") for v in itertools.product(var if not deep else var[::2], repeat=3) for c in itertools.product(cor, repeat=3)]
    if deep:
        cov += [(v, c, "array") for v in itertools.product([0.0, 0.25, 1e8], repeat=4) for c in itertools.product([-0.4, 0.0, 0.7], repeat=6)]
    log = []
    mags = [10.0 ** k for k in range(-60, 61, 6 if not deep else 2)] + [1.0, 3.0, 7.5, 0.1, 1 / 3, 12345.678, 1e5 + 0.1, 2.0 ** 40]
    eps = [0.0] + [s * 2.0 ** -k for k in range(1, 53) for s in (1, -1)] + [s * 10.0 ** -k for k in range(1, 16) for s in (1, -1)]
    ratios = [10.0 ** k for k in range(-100, 101, 5)] + [1.01, 0.99, 1.5, 0.7, 2.0, 3.0]
    for x in mags:
        ys = sorted({x * (1 + e) for e in eps} | {float(np.nextafter(x, np.inf)), float(np.nextafter(x, 0))})
        log.append(("close", x, tuple(ys)))
        log.append(("far", x, tuple(x * r for r in ratios)))
    log.append(("zero", 0.0, tuple(mags)))
    vals = [0.0, 1.0, 2.5]
    bins = list(itertools.product(vals, repeat=3))
    syst = [((b,), "float64") for b in bins] + [(bb, d) for bb in itertools.product(bins, repeat=2) for d in ("float64",)]
    syst += [(bb, d) for bb in itertools.product(itertools.product([0, 1, 4], repeat=3), repeat=2)
             for d in ("int64", "uint64", "uint8", "int8", "uint16", "int16", "int32", "uint32", "float32")]
    syst += [(bb, d) for bb in itertools.product(itertools.product([0, 1, 100], repeat=3), repeat=2) for d in ("uint8", "int8", "uint64")]
    trip = bins if deep else [b for i, b in enumerate(bins) if i % 2 == 0]
    syst += [(bb, "float64") for bb in itertools.product(trip, repeat=3)]
    # more bins: single shifts anywhere on top of a common one
    for n in range(4, 13 if deep else 9):
        for i in range(n):
            for j in range(n):
                rows = [[2.0 + 0.5 * (k % 3), 2.5, 1.5] for k in range(n)]
                rows[i] = [3.0, 1.0, 4.0]
                rows[j] = rows[j][:1] + rows[j][1:][::-1]
                syst += [(tuple(map(tuple, rows)), d) for d in ("float64", "float32")]
    split = []
    for n in range(0, 7 if deep else 6):
        for k in range(0, 5):
            for m in range(0, n + 1):
                for c in compositions(m, k):
                    for kind in ("array", "list", "iterator"):
                        split.append((n, c, kind))
                        if m < n or k == 0:
                            split.append((n, c + (None,), kind))
                            split += [(n, c + (None,) + more, kind) for more in ((0,), (2,), (None,), (1, None))]
                        if m == n:
                            split += [(n, c + more, kind) for more in ((1,), (2, 1), (None,))]
                        elif k:
                            split.append((n, c + (n + 1,), kind))
    scale = [(n, m, v) for n in (1, 2) for m in itertools.product((-0.5, 0.0, 1.0, 2.0), repeat=n * n) for v in itertools.product((0.0, 1e-14, 4.0, 9e8), repeat=n)]
    scale += [(3, (1.0, a, b, a, d, 0.0, b, 0.0, 0.0), v) for a in (0.0, 0.5) for b in (0.0, -1.0) for d in (0.0, 1.0) for v in itertools.product((0.0, 4.0, 9.0), repeat=3)]
    for n in (6, 9, 13, 21, 40) + ((77,) if deep else ()):
        for k in range(6):
            d = [(1.0, 4.0, 1e-6, 2.25e4)[(i * (k + 1)) % 4] for i in range(n)]
            # all pairs correlated: weakly, strongly, or along two directions
            f = [((0.9, 1e-3, 0.3, 1e-7, 0.95, 0.5)[k]) * (1 if (i * (k + 2)) % 3 else -1) for i in range(n)]
            cov.append((tuple(d), tuple(f[i] * f[j] for i in range(n) for j in range(i + 1, n)), ("array", "list")[k % 2]))
        for k in range(3):
            syst.append((tuple((2.0 + 0.5 * (i % 3), 2.5 + 0.1 * ((i * (k + 1)) % 7), 2.25 - 0.2 * (i % (k + 2))) for i in range(n)), "float64"))
            split.append((n, (1,) * (n // 2) + (None,), ("array", "list", "iterator")[k]))
    return [Part("scaling", scale, run_scale, "all matrices over 4 values in up to 2 dimensions and some in 3"),
            Part("correlations", cov, run_cov, f"{len(var)} variances, {len(cor)} correlations, up to {4 if deep else 3} dimensions"),
            Part("logarithms", log, run_log, f"{len(mags)} magnitudes x {len(eps) + len(ratios)} ratios"),
            Part("systematics", syst, run_syst, "all relations of nominal, up and down in up to 3 bins"),
            Part("splits", split, run_split, "all sizes of arrays up to 5 or 6 entries")]
