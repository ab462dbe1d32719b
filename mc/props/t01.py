"""T01: for every pattern of bin contents and errors over small alphabets (zero, negative, fractional), every yield and
every grid point of nuisance parameters, values, errors and fractions of real 1D and 2D templates are compared with the
formula; templates with varied covariances and every bin count are included."""
import itertools
import math

import numpy as np

from ..core import Part
from .. import ref
from ..models import contents, covariance, make_edges, make_template, nbins, variation, centres

LIMITS = ((-1.0, 2.0), (0.0, 3.0))


def tolerable(r, nui):
    """False if the normalisation nearly cancels, where rounding decides."""
    b = [c * (1 + t * e) for c, t, e in zip(r.counts, nui, r.rel())]
    s, m = ref.fsum(b), sum(abs(x) for x in b)
    return all(x == 0 for x in b) or abs(s) > 1e-6 * m


def observe(acc, t, r, what=""):
    if not tolerable(r, r.nui):
        acc.outcome("cancelling normalisation skipped")
        return
    f = r.fractions()
    sc = max(abs(v) for v in r.values())
    acc.eq(t.yield_param, r.y, what + "yield", 1e-12)
    acc.eq(np.asarray(t.fractions(np.array(r.nui))).ravel(), f, what + "fractions", 1e-9, 1e-12)
    acc.eq(t.values, ref.nest(r.values(), r.shape), what + "values", 1e-9, 1e-12 * sc)
    acc.eq(t.errors, ref.nest(r.errors(), r.shape), what + "errors", 1e-9, 1e-12 * sc)
    if any(f):
        acc.eq(float(np.sum(t.fractions(np.array(r.nui)))), 1.0, what + "sum of fractions", 1e-9, 1e-9)
    acc.state(r.key())


def run_grid(acc, item):
    shape, counts, err2, yields, grid = item
    edges = make_edges(shape, LIMITS)
    t = make_template("t", counts, edges, err2)
    r = ref.RTemplate(counts, err2, shape)
    acc.op("make", counts, err2)
    acc.eq(t.num_bins, len(counts), "num_bins")
    acc.eq(tuple(t.shape), tuple(shape), "shape")
    observe(acc, t, r, "new template: ")
    if sum(counts) != 0:
        acc.eq(t.values, ref.nest(list(counts), shape), "new template does not reproduce its histogram", 1e-9,
               1e-12 * max(abs(c) for c in counts))
    if all(c == 0 for c in counts):
        acc.eq(t.values, ref.nest([0.0] * len(counts), shape), "empty template does not predict zero", 0, 0)
    for y in yields:
        for nui in itertools.product(grid, repeat=len(counts)):
            if y is not None:
                t.yield_param = y
                r.y = y
            t.nui_params = np.array(nui, dtype=float)
            r.nui = list(nui)
            acc.step(2)
            observe(acc, t, r, f"yield {y}, nuisances {nui}: ")
    t.reset()
    r.reset()
    observe(acc, t, r, "after reset: ")
    acc.outcome(tuple(r.fractions()))


def run_vary(acc, item):
    shape, seed, zeros, ops, y, nseed = item
    edges = make_edges(shape, LIMITS)
    counts, err2 = contents(seed, nbins(shape), zeros)
    t = make_template("t", counts, edges, err2)
    r = ref.RTemplate(counts, err2, shape)
    pts = [np.array(p) for p in centres(edges)]
    for op in ops:
        if op == "cov" and len(shape) == 1:
            t.add_cov_mat(np.array(covariance(seed, counts)))
            r.add_cov(covariance(seed, counts))
        else:
            up, down = variation(int(op[-1]) if op != "cov" else 3, counts)
            t.add_variation(pts[0] if len(shape) == 1 else tuple(pts), np.array(up), np.array(down))
            r.add_variation(up, down)
        acc.op(op)
        observe(acc, t, r, f"after {op}: ")
        if y is not None:
            t.yield_param = y
            r.y = y
        nui = [math.sin(k * 1.3 + nseed) for k in range(r.n)]
        t.nui_params = np.array(nui)
        r.nui = nui
        observe(acc, t, r, f"after {op} and new parameters: ")
        # fractions at a given point do not depend on the current parameters
        other = [0.5 * math.cos(k) for k in range(r.n)]
        acc.eq(np.asarray(t.fractions(np.array(other))).ravel(), r.fractions(other), "fractions elsewhere", 1e-9, 1e-12)
        observe(acc, t, r, f"after {op}, new parameters and another evaluation: ")


def parts(tier, seed):
    deep = tier == "thorough"
    cs, es = [0.0, 0.5, 3.0, -1.0], [0.0, 1.0, 4.0]
    grid = [-1.5, 0.0, 0.5, 2.0, 25.0]
    ys = [None, 0.0, 10.5, -3.0]
    items = []
    for n, shape in ((1, (1,)), (2, (2,)), (2, (1, 2)), (2, (2, 1)), (3, (3,))):
        for c in itertools.product(cs, repeat=n):
            for e in itertools.product(es, repeat=n):
                g = grid if n < 3 or deep else [-1.5, 0.0, 2.0]
                if n == 3 and not deep and (e[0] == 0 and c[0] == 3.0):
                    continue
                items.append((shape, c, e, ys if n < 3 or deep else ys[2:3], g))
    for c in itertools.product([0.0, 2.5], repeat=4):
        items.append(((2, 2), c, (1.0, 4.0, 0.0, 2.0), [None, 7.0], [0.0, 1.5]))
    for scale in (1e-30, 1e-16, 1e-9, 1e-5, 1e6, 1e12, 1e25):
        for c in itertools.product([0.0, 0.75, 3.0], repeat=3):
            for e in ((0.0, 1.0, 4.0), (0.5, 0.0, 2.0)):
                items.append(((3,), tuple(v * scale for v in c), tuple(v * scale * scale for v in e), [None, 10.5 * scale], [-1.5, 0.0, 2.0]))
    vary = []
    for shape in ((2,), (3,), (5,), (2, 2), (2, 3), (3, 2), (12,), (3, 3)):
        for s in (1, 2, 4):
            for zeros in ((), (0,), (1,), (0, 2)):
                for k in (1, 2, 3):
                    for ops in itertools.product(["cov", "var0", "var1", "var2"], repeat=k):
                        if k == 3 and not deep and ops[0] != "cov":
                            continue
                        for y in (None, 6.5):
                            vary.append((shape, s, zeros, ops, y, 1))
    for shape in ((24,), (33,), (65,), (4, 6), (11, 3), (6, 12)):
        for zeros in ((), (2,)):
            for k in (1, 2):
                vary += [(shape, 2, zeros, ops, y, 1) for ops in itertools.product(["cov", "var0", "var1"], repeat=k) for y in (None, 6.5)]
    sizes = [((n,), contents(n, n, (n // 2,) if n > 2 else ())) for n in range(1, 120 if deep else 60)]
    sizes += [((a, b), contents(a + 2 * b, a * b, (a - 1,))) for a in range(1, 8 if deep else 6) for b in range(1, 8 if deep else 6) if a * b > 1]
    sizes += [((n,), contents(n, n, (n // 3,))) for n in (64, 65, 100, 128, 129, 200, 256, 257, 300, 513)]
    sizes += [((a, b), contents(a + b, a * b, (b + 1,))) for a, b in ((12, 11), (3, 40), (40, 3), (1, 70), (20, 20))]
    sz = [(sh, tuple(c), tuple(e), [None, 12.5], [0.5] if len(c) > 1 else [0.0, 0.5]) for sh, (c, e) in sizes]
    return [
        Part("contents, errors, yields and nuisances", items, run_grid, "all patterns for up to 3 bins (1D) and 2 bins / 2x2 (2D)"),
        Part("varied covariances", vary, run_vary, "all sequences of up to 3 variations"),
        Part("bin counts", sz, run_grid, "every number of bins up to the bound, all shapes up to 5x5 (7x7), larger ones up to 513 and 20x20"),
    ]
