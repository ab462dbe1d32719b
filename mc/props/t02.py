"""T02: every sequence up to the stated depth of added covariances, weight variations, refused covariances and parameter
changes on 1D and 2D templates (uniform and irregular binnings), compared after every operation with the reference
covariance, correlation, inverse correlation, uncertainties and values; every combination of up/down relations."""
import itertools
import math

import numpy as np
import pandas as pd

from ..core import Part
from .. import ref
from ..models import SCALES, contents, covariance, make_template, nbins, scaled

GEO = {
    "uniform": [[0.0, 1.0, 2.0, 3.0]],
    "irregular": [[0.0, 0.25, 2.0, 2.5]],
    "2d": [[0.0, 1.0, 2.0], [-1.0, 0.0, 1.0]],
    "2d irregular": [[0.0, 0.25, 2.0], [-1.0, 0.5, 1.0]],
    "2d oblong": [[0.0, 1.0, 2.0, 4.0], [-1.0, 0.5, 1.0]],
}


def inverse_of(acc, got, corr, want, what):
    """Inverses of nearly singular matrices carry no digits and are not compared."""
    try:
        w = want()
        big = max(abs(x) for row in w for x in row)
    except ZeroDivisionError:
        big = 1e30
    if big > 1e6:
        acc.outcome("nearly singular correlation")
        return
    acc.eq(got, w, what, 1e-7, 1e-9 * max(1.0, big))


def near(acc, got, want, what):
    """covariances, each element on the scale of its row and column"""
    acc.eq(list(np.shape(got)), list(np.shape(want)), what + " shape")
    s = [math.sqrt(abs(want[i][i])) for i in range(len(want))]
    g = np.asarray(got, dtype=float).tolist()
    for i, row in enumerate(want):
        for j, w in enumerate(row):
            if not abs(g[i][j] - w) <= 1e-9 * s[i] * s[j]:
                acc.true(False, f"{what} {i},{j} is {g[i][j]} instead of {w}", got)
    acc.compared += 1


def matrices(acc, t, r, what=""):
    near(acc, t.cov_mat, r.cov, what + "covariance")
    near(acc, sum(np.asarray(c) for c in t.cov_mats), r.cov, what + "sum of the covariances")
    corr = r.corr()
    acc.eq(t.corr, corr, what + "correlation", 1e-9, 1e-12)
    inverse_of(acc, t.inv_corr_mat, corr, r.inv_corr, what + "inverse correlation")
    tiny = 1e-11 * min([1.0] + [abs(v) for v in r.values() if v])
    acc.eq(t.values, ref.nest(r.values(), r.shape), what + "values", 1e-9, tiny)
    acc.eq(t.errors, ref.nest(r.errors(), r.shape), what + "errors", 1e-9, tiny * 1e-7)
    acc.eq(t.params, [r.y] + r.nui, what + "parameters", 1e-13, 0)
    acc.state(r.key())


# weight variations of events: positions, up and down weights
def events(geo, k):
    axes = GEO[geo]
    n = 9
    pts = [[a[0] + (a[-1] - a[0]) * (((i * m + k) % 11) / 10.0) for i in range(n)] for a, m in zip(axes, (3, 7))]
    pts = [p + [a[-1] + 1.0, a[0] - 2.0] for p, a in zip(pts, axes)]
    up = [1.0 + 0.3 * ((i + k) % 4) for i in range(n)] + [50.0, 60.0]
    down = [1.0 - 0.2 * ((i * 2 + k) % 5) for i in range(n)] + [70.0, 80.0]
    if k in (4, 6):      # events may count negatively
        down = [w - 1.9 * ((i + k) % 2) for i, w in enumerate(down)]
    if k in (5, 6):
        up = [w - 3.3 * ((i + k) % 3) for i, w in enumerate(up)]
    if k in (7, 9):      # without weights every event counts once
        up = [1.0] * len(up)
    if k in (8, 9):
        down = [1.0] * len(down)
    return pts, up, down


def binned(geo, pts, w):
    r = ref.RHist(GEO[geo])
    r.fill(list(zip(*pts)), w)
    return r.counts()


BAD = {"smaller": lambda n: np.ones((n - 1, n - 1)), "vector": lambda n: np.ones(n), "one": lambda n: np.ones((1, 1)),
       "column": lambda n: np.ones((n, 1)), "row": lambda n: np.ones((1, n)), "wide": lambda n: np.ones((n, n + 1)),
       "cube": lambda n: np.ones((1, n, n)), "scalar": lambda n: np.array(2.0)}


def run(acc, item):
    geo, zeros, ops = item
    shape = tuple(len(a) - 1 for a in GEO[geo])
    counts, err2 = contents(3, nbins(shape), () if zeros in SCALES else zeros)
    if zeros in SCALES:
        counts, err2 = scaled(counts, err2, zeros)
    t = make_template("t", counts, GEO[geo], err2)
    other = make_template("o", counts, GEO[geo], err2)
    r = ref.RTemplate(counts, err2, shape)
    r0 = ref.RTemplate(counts, err2, shape)
    matrices(acc, t, r, "new template: ")
    for op in ops:
        acc.op(*op)
        if op[0] == "cov":
            c = np.array(covariance(op[1], counts))
            keep = c.copy()
            t.add_cov_mat(c)
            r.add_cov(keep.tolist())
            acc.eq(c, keep, "covariance passed in was modified", 0, 0)
            c[...] = 99.0
        elif op[0] == "var":
            pts, up, down = events(geo, op[1])
            d = [np.array(p) for p in pts]
            d = d[0] if len(d) == 1 else tuple(d)
            u, w = np.array(up), np.array(down)
            if op[1] == 2:
                u, w = pd.Series(u), pd.Series(w)
            if op[1] == 3:
                u, w = list(up), list(down)
            t.add_variation(d, None if op[1] in (7, 9) else u, None if op[1] in (8, 9) else w)
            r.add_variation(binned(geo, pts, up), binned(geo, pts, down))
            acc.eq([list(u), list(w)], [up, down], "weights passed in were modified", 0, 0)
            acc.eq(np.asarray(d).tolist(), pts if len(pts) > 1 else pts[0], "data passed in were modified", 0, 0)
        elif op[0] == "bad":
            acc.refused(lambda: t.add_cov_mat(BAD[op[1]](r.n)), f"covariance of wrong shape ({op[1]})")
        elif op[0] == "yield":
            t.yield_param = 17.5
            r.y = 17.5
        elif op[0] == "nui":
            v = [0.25 * (i + 1) for i in range(r.n)]
            t.nui_params = np.array(v)
            r.nui = v
        elif op[0] == "reset":
            t.reset()
            r.reset()
        matrices(acc, t, r, f"after {op}: ")
    matrices(acc, other, r0, "another template: ")
    acc.outcome(r.key())


def run_order(acc, item):
    """The order of additions does not matter."""
    geo, adds = item
    shape = tuple(len(a) - 1 for a in GEO[geo])
    counts, err2 = contents(3, nbins(shape))
    first = None
    for perm in itertools.permutations(adds):
        t = make_template("t", counts, GEO[geo], err2)
        for kind, k in perm:
            if kind == "cov":
                t.add_cov_mat(np.array(covariance(k, counts)))
            else:
                pts, up, down = events(geo, k)
                d = [np.array(p) for p in pts]
                t.add_variation(d[0] if len(d) == 1 else tuple(d), np.array(up), np.array(down))
            acc.op(kind, k)
        got = (t.cov_mat, t.corr, t.inv_corr_mat, t.errors)
        if first is None:
            first = got
        for a, b, what in zip(got, first, ("covariance", "correlation", "inverse correlation", "errors")):
            acc.eq(a, b, f"{what} depends on the order {perm}", 1e-6, 1e-9)


def run_patterns(acc, item):
    """Every relation of up, down and nominal in every bin."""
    geo, deltas, scale = item
    edges = GEO[geo]
    shape = tuple(len(a) - 1 for a in edges)
    counts, err2 = contents(5, nbins(shape))
    # small shifts are compared where the statistical errors are even smaller
    err2 = [e * (scale * 1e-3) ** 2 if scale < 1 else e for e in err2]
    deltas = [(u * scale, d * scale) for u, d in deltas]
    t = make_template("t", counts, edges, err2)
    r = ref.RTemplate(counts, err2, shape)
    from ..models import centres
    pts = [np.array(p) for p in centres(edges)]
    up = [c + u for c, (u, d) in zip(counts, deltas)]
    down = [c + d for c, (u, d) in zip(counts, deltas)]
    t.add_variation(pts[0] if len(pts) == 1 else tuple(pts), np.array(up), np.array(down))
    r.add_variation(up, down)
    acc.op("variation", deltas)
    matrices(acc, t, r)


def parts(tier, seed):
    deep = tier == "thorough"
    items = []
    for geo in GEO:
        one = "2d" not in geo
        ops = [("var", 0), ("var", 1), ("yield",), ("nui",), ("reset",)]
        if one:
            ops += [("cov", 1), ("cov", 2), ("bad", "one")]
        n = 5 if deep else 4
        for d in range(0, n + 1):
            for seq in itertools.product(ops, repeat=d):
                if d == n and not any(o[0] in ("var", "cov") for o in seq[:2]):
                    continue
                items.append((geo, () if d > 2 else (), seq))
        for zeros in ((0,), (1, 2), (0, 1, 2)):
            for d in range(0, 4):
                for seq in itertools.product([o for o in ops if o[0] != "bad"], repeat=d):
                    items.append((geo, zeros, seq))
        for kind in SCALES:
            for d in range(0, 4):
                for seq in itertools.product([o for o in ops if o[0] != "bad"], repeat=d):
                    items.append((geo, kind, seq))
        for k in (2, 3, 4, 5, 6, 7, 8, 9):
            items += [(geo, (), (("var", k),)), (geo, (1,), (("var", k), ("var", 0)))]
        if one:
            items += [(geo, (), seq + (("bad", b),) + tail) for b in BAD for seq in ((), (("cov", 1),), (("var", 0), ("nui",)))
                      for tail in ((), (("cov", 2),))]
    order = [(geo, adds) for geo in GEO for adds in itertools.combinations(
        [("var", 0), ("var", 1), ("var", 3)] + ([("cov", 1), ("cov", 2)] if "2d" not in geo else []), 3)]
    ds = [-0.5, 0.0, 0.25, 0.75] if deep else [-0.5, 0.0, 0.25]
    pairs = list(itertools.product(ds, repeat=2))
    pat = [("irregular", p, s) for s in (1, 1e-4) for p in itertools.product(pairs, repeat=3)]
    if deep:
        pat += [("2d", p, 1) for p in itertools.product(pairs[:9], repeat=4)]
    else:
        pat += [("2d", p, 1) for p in itertools.product([pairs[0], pairs[2], pairs[6], pairs[7], pairs[5]], repeat=4)]
    # many additions to one template
    long = []
    for geo in GEO:
        kinds = [("var", 0), ("var", 1), ("var", 3), ("var", 2)] + ([] if "2d" in geo else [("cov", 1), ("cov", 2)])
        for a in kinds:
            long += [(geo, (), (a,) * 9), (geo, (), (a,) * 40)]
            long += [(geo, (), tuple((a, b)[i % m == 0] for i in range(24))) for b in kinds if a != b for m in (2, 5)]
    return [
        Part("many additions", long, run, "9, 24 and 40 additions"),
        Part("covariance sequences", items, run, f"all sequences up to depth {5 if deep else 4}"),
        Part("order of additions", order, run_order, "all orders of all triples"),
        Part("patterns of variations", pat, run_patterns, "all relations of up, down and nominal contents in every bin"),
    ]
