"""H02: every bin count up to the bound and every range of a catalogue, declared in every offered way (count, count
tuple, explicit edges as array or list; ranges as tuples or lists) in one and two dimensions, is compared with the
equivalent declaration and with exact geometry, before and after fills, and both are offered to a channel."""
import itertools

import numpy as np

from ..core import Part
from .. import ref

RANGES = [(0.0, 1.0), (0, 5), (-3.0, 3.0), (0.1, 0.8), (-1e-3, 2e-3), (100.0, 1e5), (-7, -2), (0.0, 1e-6), (-0.3, 0.6)]


def geometry1(acc, h, edges, what):
    n = len(edges) - 1
    w = abs(edges[-1] - edges[0])
    tol = 1e-12 * max(w, max(abs(e) for e in edges))
    acc.eq(np.asarray(h.bin_edges), edges, what + "edges", 0, tol)
    acc.eq([float(h.bin_edges[0]), float(h.bin_edges[-1])], [edges[0], edges[-1]], what + "first and last edge", 0, 0)
    acc.eq(h.num_bins, n, what + "num_bins")
    acc.eq(tuple(h.shape), (n,), what + "shape")
    acc.eq(tuple(h.range), (edges[0], edges[-1]), what + "range", 0, 0)
    acc.eq(h.bin_mids, [(a + b) / 2 for a, b in zip(edges[:-1], edges[1:])], what + "centres", 0, tol)
    acc.eq(h.bin_widths, [b - a for a, b in zip(edges[:-1], edges[1:])], what + "widths", 0, tol)
    acc.eq(float(np.sum(h.bin_widths)), edges[-1] - edges[0], what + "sum of widths", 0, 3 * tol)
    acc.eq(np.asarray(h.bin_counts).shape, (n,), what + "shape of contents")
    acc.eq(np.asarray(h.bin_errors).shape, (n,), what + "shape of errors")
    acc.state(tuple(edges))


def declare1(n, rng, how):
    from templatefitter.histograms import Hist1d
    lo, hi = rng
    edges = np.linspace(lo, hi, n + 1)
    if how == "count":
        return Hist1d(n, rng)
    if how == "count list range":
        return Hist1d(n, list(rng))
    if how == "count tuple":
        return Hist1d((n,), rng)
    if how == "count keyword":
        return Hist1d(bins=n, range=rng)
    if how == "edges array":
        return Hist1d(edges)
    if how == "edges list":
        return Hist1d([float(e) for e in edges])
    if how == "binned":
        return Hist1d.from_binned_data(np.zeros(n), edges)
    if how == "binned list":
        return Hist1d.from_binned_data(np.zeros(n), [float(e) for e in edges])


HOW1 = ["count", "count list range", "count tuple", "count keyword", "edges array", "edges list", "binned", "binned list"]


def run1(acc, item):
    n, rng = item
    edges = ref.linspace(float(rng[0]), float(rng[1]), n + 1)
    hs = {}
    for how in HOW1:
        h = hs[how] = declare1(n, rng, how)
        acc.op("declare", how)
        geometry1(acc, h, edges, how + ": ")
    w = edges[-1] - edges[0]
    x = np.array([edges[0] + w * ((k * 0.377) % 1.05) for k in range(7)] + [edges[0], edges[-1]])
    for rounds in range(2):
        for how, h in hs.items():
            h.fill(x, np.array([0.5 + k for k in range(len(x))]))
            geometry1(acc, h, edges, how + " after a fill: ")
            acc.eq(h.bin_counts, hs["count"].bin_counts, how + " contents differ from declaration by count")
    # a channel declared by count accepts every one of them
    from templatefitter.templates import Channel, Template1d
    for how, h in hs.items():
        ch = Channel("c", n, rng)
        ch.add_template("p", Template1d("t", "v", h), 1.0)
        for other in hs.values():
            ch.add_data(other)
        acc.eq(np.asarray(ch.bin_edges), edges, how + ": edges of a channel", 0, 1e-12 * max(1.0, abs(w)))
    acc.outcome(n)


def run_irregular(acc, item):
    from templatefitter.histograms import Hist1d
    edges, kind = item
    e = {"array": np.array(edges), "list": list(edges), "float list": [float(x) for x in edges],
         "int array": np.array(edges)}[kind]
    if kind == "int array":
        e = e.astype(int)
    h = Hist1d(e)
    ex = [float(x) for x in edges]
    geometry1(acc, h, ex, kind + ": ")
    h.fill(np.array([ex[0], ex[-1], (ex[0] + ex[1]) / 2]), None)
    geometry1(acc, h, ex, kind + " after a fill: ")
    if kind in ("array", "int array"):
        e[0] -= 1
        geometry1(acc, h, ex, "after changing the array of edges: ")
    acc.op("declare", kind)


def declare2(nx, ny, rx, ry, how):
    from templatefitter.histograms import Hist2d
    ex, ey = np.linspace(*rx, nx + 1), np.linspace(*ry, ny + 1)
    if how == "count":
        return Hist2d((nx, ny), (rx, ry))
    if how == "count lists":
        return Hist2d([nx, ny], [list(rx), list(ry)])
    if how == "edges tuple":
        return Hist2d((ex, ey))
    if how == "edges list":
        return Hist2d([ex, ey])
    if how == "edges lists":
        return Hist2d([[float(e) for e in ex], [float(e) for e in ey]])
    if how == "binned":
        return Hist2d.from_binned_data(np.zeros((nx, ny)), (ex, ey))


HOW2 = ["count", "count lists", "edges tuple", "edges list", "edges lists", "binned"]


def geometry2(acc, h, ax, what):
    tol = [1e-12 * max(abs(a[-1] - a[0]), max(abs(e) for e in a)) for a in ax]
    n = [len(a) - 1 for a in ax]
    acc.eq(list(h.num_bins), n, what + "num_bins")
    acc.eq(list(h.shape), n, what + "shape")
    acc.eq(np.asarray(h.bin_counts).shape, tuple(n), what + "shape of contents")
    acc.eq(len(h.bin_edges), 2, what + "number of axes")
    acc.eq(len(h.range), 2, what + "number of ranges")
    for k in (0, 1):
        a = ax[k]
        acc.eq(np.asarray(h.bin_edges[k]), a, f"{what}edges {k}", 0, tol[k])
        acc.eq([float(h.bin_edges[k][0]), float(h.bin_edges[k][-1])], [a[0], a[-1]], f"{what}first and last edge {k}", 0, 0)
        acc.eq(tuple(h.range[k]), (a[0], a[-1]), f"{what}range {k}", 0, 0)
        acc.eq(np.asarray(h.bin_mids[k]), [(p + q) / 2 for p, q in zip(a[:-1], a[1:])], f"{what}centres {k}", 0, tol[k])
        acc.eq(np.asarray(h.bin_widths[k]), [q - p for p, q in zip(a[:-1], a[1:])], f"{what}widths {k}", 0, tol[k])
    acc.eq(tuple(h.xrange), (ax[0][0], ax[0][-1]), what + "xrange", 0, tol[0])
    acc.eq(tuple(h.yrange), (ax[1][0], ax[1][-1]), what + "yrange", 0, tol[1])
    acc.eq(np.asarray(h.x_edges), ax[0], what + "x_edges", 0, tol[0])
    acc.eq(np.asarray(h.y_edges), ax[1], what + "y_edges", 0, tol[1])
    geometry1(acc, h.x_projection(), ax[0], what + "x projection ")
    geometry1(acc, h.y_projection(), ax[1], what + "y projection ")


def run2(acc, item):
    nx, ny, rx, ry = item
    ax = [ref.linspace(float(rx[0]), float(rx[1]), nx + 1), ref.linspace(float(ry[0]), float(ry[1]), ny + 1)]
    hs = {}
    for how in HOW2:
        h = hs[how] = declare2(nx, ny, rx, ry, how)
        acc.op("declare", how)
        geometry2(acc, h, ax, how + ": ")
    x = np.array([ax[0][0] + (ax[0][-1] - ax[0][0]) * ((k * 0.377) % 1.05) for k in range(7)])
    y = np.array([ax[1][0] + (ax[1][-1] - ax[1][0]) * ((k * 0.617) % 1.05) for k in range(7)])
    for how, h in hs.items():
        h.fill((x, y), np.array([0.5 + k for k in range(7)]))
        geometry2(acc, h, ax, how + " after a fill: ")
        acc.eq(h.bin_counts, hs["count"].bin_counts, how + " contents differ from declaration by count")
    from templatefitter.templates import Channel, Template2d
    for how, h in hs.items():
        ch = Channel("c", (nx, ny), (rx, ry))
        ch.add_template("p", Template2d("t", ("v", "w"), h), 1.0)
        for other in hs.values():
            ch.add_data(other)
    acc.outcome((nx, ny))


def run_irregular2(acc, item):
    from templatefitter.histograms import Hist2d
    ex, ey = item
    h = Hist2d([np.array(ex), np.array(ey)])
    geometry2(acc, h, [list(ex), list(ey)], "irregular: ")
    h.fill((np.array([ex[0], ex[-1]]), np.array([ey[0], ey[-1]])))
    geometry2(acc, h, [list(ex), list(ey)], "irregular after a fill: ")


def parts(tier, seed):
    deep = tier == "thorough"
    n1, n2 = (200, 8) if deep else (40, 4)
    gaps = [0.5, 1.0, 3.25]
    irr = []
    for k in range(1, 6 if deep else 5):
        for g in itertools.product(gaps, repeat=k):
            e = [-1.0]
            for s in g:
                e.append(e[-1] + s)
            irr += [(tuple(e), kind) for kind in ("array", "list")]
    for scale in (1e-3, 1e-8, 1e7):
        for g in itertools.product(gaps, repeat=3):
            irr += [((0.0, g[0] * scale, (g[0] + g[1]) * scale, sum(g) * scale), kind) for kind in ("array", "list")]
    for n in (2, 3, 5, 6, 10, 50):        # almost equally wide
        for d in (1e-3, 1e-6, 1e-9):
            for k in {0, n // 2, n - 1}:
                e = [0.0]
                for i in range(n):
                    e.append(e[-1] + (1.0 + d if i == k else 1.0))
                irr.append((tuple(e), "array"))
    irr += [(t, k) for t in ((0, 1, 3), (-2, 0, 1, 7), (5, 6)) for k in ("array", "list", "int array", "float list")]
    some = sorted({i[0] for i in irr if len(i[0]) < 8})[:: 7 if deep else 19]
    pairs = list(itertools.product(some, repeat=2))
    # axes of the same range and number of bins, but other edges
    for n in range(2, 6 if deep else 5):
        for lo, hi in ((0.0, 4.0), (-1.0, 2.0)):
            same = [tuple(lo + (hi - lo) * sum(g[:i]) / sum(g) for i in range(n)) + (hi,) for g in
                    (tuple(1.0 + ((i + k) * (i + 1)) % n for i in range(n)) if k else (1.0,) * n for k in range(3))]
            pairs += itertools.product(same, repeat=2)
    big = {n: [tuple(a + 0.25 * i * i for i in range(n + 1)) if k else tuple(a * i for i in range(n + 1)) for k, a in ((0, 0.5), (1, -3.0))]
           for n in (1, 11, 33, 40, 64, 129, 300)}
    irr += [(e, kind) for v in big.values() for e in v for kind in ("array", "list")]
    pairs += [(a, b) for n, m in ((40, 33), (1, 300), (300, 1), (11, 129), (33, 40), (64, 64), (129, 11)) for a in big[n] for b in big[m]]
    rr = RANGES if deep else RANGES[:5]
    return [
        Part("1d declarations", [(n, r) for n in (*range(1, n1 + 1), 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 513, 1000, 1025) for r in RANGES], run1, f"1..{n1} and up to 1025 bins, {len(RANGES)} ranges, 8 ways"),
        Part("1d explicit edges", irr, run_irregular, "all sequences of up to 5 gaps of 3 sizes"),
        Part("2d declarations", [(a, b, r, s) for a in range(1, n2 + 1) for b in range(1, n2 + 1) for r in rr for s in rr],
             run2, f"1..{n2} x 1..{n2} bins, all pairs of ranges, 6 ways"),
        Part("2d large declarations", [(a, b, r, s) for a, b in ((12, 11), (1, 40), (40, 1), (9, 70), (33, 8), (64, 65)) for r in rr[:3] for s in rr[:3]], run2, "up to 64x65 bins"),
        Part("2d explicit edges", pairs, run_irregular2, "all pairs of a subset, and of axes with equal ranges and numbers of bins, large ones"),
    ]
