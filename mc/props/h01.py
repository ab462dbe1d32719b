"""H01: every sequence of fills up to the stated length over an alphabet of positions (below, on every edge, one ulp
beside every inner edge, inside, above the range) and weights is run on fresh histograms and compared, bin by bin, with
exact sums; every container and number type for data and weights; every small number of entries per fill."""
import itertools
import math

import numpy as np
import pandas as pd

from ..core import Part
from .. import ref

EDGES = {
    "uniform": (3, (0.0, 3.0)),
    "irregular": np.array([0.0, 0.5, 2.0, 2.5]),
    "negative": np.array([-4.0, -1.0, 0.0, 0.25]),
    "decimal": (7, (0.1, 0.8)),
    "single": (1, (-1.0, 1.0)),
    "large": (2, (-1e6, 3e6)),
    "small": np.array([1e-9, 3e-9, 4e-9]),
    "many": (64, (0.0, 16.0)),
}


def edges_of(e):
    return ref.linspace(*e[1], e[0] + 1) if isinstance(e, tuple) else [float(x) for x in e]


def make1(e, **kw):
    from templatefitter.histograms import Hist1d
    return Hist1d(e[0], e[1], **kw) if isinstance(e, tuple) else Hist1d(e, **kw)


def positions(edges, few=False):
    w = (edges[-1] - edges[0])
    if any(e != round(e * 4) / 4 for e in edges):
        # edges that are not exact in binary: stay clear of the last few ulps
        eps = 1e-9 * w
        return ([edges[0] - 0.3 * w, edges[-1] + 0.2 * w, edges[0], edges[-1], edges[0] + eps, edges[-1] - eps, edges[0] - eps]
                + [lo + 0.37 * (hi - lo) for lo, hi in zip(edges[:-1], edges[1:])]
                + [e + d for e in edges[1:-1] for d in (-eps, eps)])
    out = [edges[0] - 0.3 * w, edges[-1] + 0.2 * w, edges[0], edges[-1]]
    for lo, hi in zip(edges[:-1], edges[1:]):
        out.append(lo + 0.37 * (hi - lo))
    for e in edges[1:-1]:
        out.append(e)
        if not few:
            out += [math.nextafter(e, -math.inf), math.nextafter(e, math.inf)]
    out += [math.nextafter(edges[0], -math.inf), math.nextafter(edges[-1], -math.inf)]
    if not few:
        out += [math.inf, -math.inf]
    return out


def compare(acc, h, r, what=""):
    acc.eq(h.bin_counts, ref.nest(r.counts(), r.shape), what + "contents", 1e-12, 1e-12)
    acc.eq(h.bin_errors_sq, ref.nest(r.err2(), r.shape), what + "squared errors", 1e-12, 1e-12)
    acc.eq(h.bin_errors, ref.nest([math.sqrt(e) for e in r.err2()], r.shape), what + "errors", 1e-12, 1e-12)
    acc.eq(bool(h.is_empty), r.empty, what + "is_empty")
    acc.state(r.key())


def run_seq(acc, item):
    """item: (edges name, ((x, w), ...) events, sizes of the fills)"""
    name, events, sizes = item
    e = EDGES[name]
    h, r = make1(e), ref.RHist([edges_of(e)])
    acc.eq(bool(h.is_empty), True, "new histogram is_empty")
    pos = 0
    for s in sizes:
        part = events[pos:pos + s]
        pos += s
        x = np.array([v for v, _ in part], dtype=float)
        if part and all(w is None for _, w in part):
            h.fill(x, None)
            r.fill([(v,) for v in x])
        else:
            w = np.array([1.0 if b is None else b for _, b in part], dtype=float)
            h.fill(x, w)
            r.fill([(v,) for v in x], w)
        acc.op("fill", part)
        compare(acc, h, r)
    acc.outcome(tuple(r.counts()))


def compositions(n):
    if n == 0:
        return [()]
    return [(k,) + rest for k in range(1, n + 1) for rest in compositions(n - k)]


WEIGHTS = [None, 2.5, -1.0, 0.0, 0.1, 1 / 3, -1e-7, 16777217.0, 1.23456789012345e8, 1e-30, 1.0, 1e15 / 7]


def seq_items(n, few):
    for name, e in EDGES.items():
        if name == "many":
            for x in positions(edges_of(e)):
                yield name, ((x, 2.5),), (1,)
            continue
        pos = positions(edges_of(e), few)
        if name in ("decimal", "large", "small", "single"):
            k = min(n, 2)
        else:
            k = n
        for length in range(1, k + 1):
            ws = WEIGHTS if length == 1 else ([None, 0.1, -1 / 3] if length == 2 else [None, -1.7])
            evs = [(x, w) for x in pos for w in ws]
            for ev in itertools.product(evs, repeat=length):
                for sizes in compositions(length):
                    yield name, ev, sizes


DATA_KINDS = ["list", "tuple", "f8", "f4", "i8", "i4", "series", "iseries", "strided", "readonly"]
WEIGHT_KINDS = ["none", "list", "ilist", "tuple", "f8", "f4", "i8", "i1", "u1", "i2", "series", "iseries", "strided",
                "readonly", "bool", "f2"]


def wrap(kind, vals):
    if kind == "list":
        return [float(v) for v in vals]
    if kind == "ilist":
        return [int(v) for v in vals]
    if kind == "tuple":
        return tuple(float(v) for v in vals)
    if kind in ("series", "iseries"):
        a = np.array(vals, dtype=float if kind == "series" else np.int64)
        return pd.Series(a, index=[3 * i + 5 for i in reversed(range(len(vals)))])
    if kind == "strided":
        a = np.zeros(2 * len(vals))
        a[::2] = vals
        return a[::2]
    if kind == "readonly":
        a = np.array(vals, dtype=float)
        a.flags.writeable = False
        return a
    return np.array(vals).astype({"f8": "f8", "f4": "f4", "i8": "i8", "i4": "i4", "i1": "i1", "u1": "u1", "i2": "i2",
                                  "bool": "?", "f2": "f2"}[kind])


WV = {"i1": [100, -128, 127, 3, -1, 50, 0, 2], "u1": [255, 200, 16, 3, 0, 128, 1, 17],
      "i2": [300, -32768, 32767, 182, 5, 1000, 0, -2], "bool": [1, 0, 1, 1, 0, 1, 1, 1]}


def dump(x):
    return None if x is None else [float(v) for v in (x.values if hasattr(x, "values") else x)]


def run_kinds(acc, item):
    """item: (edges name, data kind, weight kind, how)"""
    name, dk, wk, how = item
    e = EDGES[name]
    ints = [0, 1, 2, 3, -1, 5, 1, 2]
    flt = [0.0, 0.5, 2.25, 2.5, -0.75, 3.0, 1.5, 0.75]
    vals = [1, 0, 1, 1, 0, 0, 1, 1] if dk == "bool" else (ints if dk in ("i8", "i4", "iseries") else flt)
    wv = WV.get(wk, [2, 7, -3, 100, 5, 11, 0, 4] if wk in ("ilist", "i8", "iseries") else
                [2.5, 0.25, -3.0, 100.5, 5.0, 11.0, 0.0, 4.75])
    x = wrap(dk, vals)
    w = None if wk == "none" else wrap(wk, wv)
    x0, w0 = dump(x), dump(w)
    r = ref.RHist([edges_of(e)])
    if how == "constructor":
        h = make1(e, data=x, weights=w) if w is not None else make1(e, data=x)
    else:
        h = make1(e)
        h.fill(x, w)
    r.fill([(v,) for v in x0], w0)
    acc.op(how, dk, wk)
    compare(acc, h, r, f"{dk} data with {wk} weights: ")
    h.fill(x, w)
    r.fill([(v,) for v in x0], w0)
    acc.op("fill again")
    compare(acc, h, r, f"{dk} data with {wk} weights, twice: ")
    acc.eq(dump(x), x0, "data passed in was modified")
    acc.eq(dump(w), w0, "weights passed in were modified")
    # fills do not alias earlier inputs
    if dk in ("f8", "list"):
        x[0] = 2.25
        if wk in ("f8", "list"):
            w[0] = 77.0
        compare(acc, h, r, "after changing the inputs: ")


def run_sizes(acc, item):
    name, n, weighted = item
    e = EDGES[name]
    ed = edges_of(e)
    lo, w = ed[0], ed[-1] - ed[0]
    xs = [lo + w * (((i * 37) % 101) / 97.0 - 0.02) for i in range(n)]
    ws = [(0.5 + (i % 7)) / 3 for i in range(n)] if weighted else None
    h, r = make1(e), ref.RHist([ed])
    h.fill(np.array(xs, dtype=float), None if ws is None else np.array(ws))
    r.fill([(x,) for x in xs], ws)
    acc.op("fill", n)
    compare(acc, h, r, f"{n} entries: ")


# -- two dimensions
EDGES2 = {
    "uniform": ((2, 3), ((0.0, 2.0), (-1.0, 2.0))),
    "irregular": [np.array([0.0, 0.5, 3.0]), np.array([-2.0, 0.0, 0.25])],
    "flat": ((1, 2), ((0.0, 1.0), (0.0, 4.0))),
}


def edges2(e):
    if isinstance(e, tuple):
        return [ref.linspace(lo, hi, n + 1) for n, (lo, hi) in zip(*e)]
    return [[float(x) for x in a] for a in e]


def make2(e, **kw):
    from templatefitter.histograms import Hist2d
    return Hist2d(e[0], e[1], **kw) if isinstance(e, tuple) else Hist2d([np.array(a) for a in e], **kw)


def run_seq2(acc, item):
    name, events, sizes = item
    e = EDGES2[name]
    h, r = make2(e), ref.RHist(edges2(e))
    pos = 0
    for s in sizes:
        part = events[pos:pos + s]
        pos += s
        x = np.array([v[0] for v, _ in part])
        y = np.array([v[1] for v, _ in part])
        w = None if all(b is None for _, b in part) else np.array([1.0 if b is None else b for _, b in part])
        h.fill((x, y), w)
        r.fill(list(zip(x, y)), w)
        acc.op("fill", part)
        compare(acc, h, r)
    acc.outcome(tuple(r.counts()))


def items2(n):
    for name, e in EDGES2.items():
        ax = edges2(e)

        def small(edges):
            return positions(edges, True) + [math.nextafter(x, -math.inf) for x in edges[1:-1]] + [math.inf]
        pts = list(itertools.product(small(ax[0]), small(ax[1])))
        for ev in itertools.product(pts, WEIGHTS):
            yield name, (ev,), (1,)
        if n > 1:
            few = list(itertools.product(*[[a[0] - 1, a[0], a[1], (a[-2] + a[-1]) / 2, a[-1]] for a in ax]))
            for a, b in itertools.product(few, repeat=2):
                for wa, wb in ((None, None), (0.1, -1 / 3), (None, 3.3)):
                    yield name, ((a, wa), (b, wb)), (2,)
                    yield name, ((a, wa), (b, wb)), (1, 1)
        if n > 2:
            few = few[::3]
            for a, b, c in itertools.product(few, repeat=3):
                for sizes in compositions(3):
                    yield name, ((a, 1.5), (b, -1.0), (c, None)), sizes


def run_kinds2(acc, item):
    name, outer, dk, wk, how = item
    e = EDGES2[name]
    xs, ys = [0, 1, 2, 0, 1, 5, 2, -1], [0, -1, 2, 1, 1, 0, 3, 0]
    if dk not in ("i8", "i4", "iseries"):
        xs, ys = [v + 0.25 for v in xs], [v - 0.5 for v in ys]
    if dk == "bool":
        xs, ys = [0, 1, 1, 0, 1, 0, 1, 1], [1, 0, 1, 1, 0, 0, 1, 0]
    wv = WV.get(wk, [2, 7, -3, 100, 5, 11, 0, 4] if wk in ("ilist", "i8", "iseries") else
                [2.5, 0.25, -3.0, 100.5, 5.0, 11.0, 0.0, 4.75])
    x, y = wrap(dk, xs), wrap(dk, ys)
    d = {"tuple": (x, y), "list": [x, y]}.get(outer)
    if d is None:
        d = np.array([dump(x), dump(y)])
    w = None if wk == "none" else wrap(wk, wv)
    x0, y0, w0 = dump(x), dump(y), dump(w)
    r = ref.RHist(edges2(e))
    if how == "constructor":
        h = make2(e, data=d, weights=w)
    else:
        h = make2(e)
        h.fill(d, w) if w is not None else h.fill(d)
    r.fill(list(zip(x0, y0)), w0)
    acc.op(how, outer, dk, wk)
    compare(acc, h, r, f"{outer} of {dk} data with {wk} weights: ")
    h.fill(d, w)
    r.fill(list(zip(x0, y0)), w0)
    compare(acc, h, r, f"{outer} of {dk} data with {wk} weights, twice: ")
    acc.eq([dump(x), dump(y)], [x0, y0], "data passed in was modified")
    acc.eq(dump(w), w0, "weights passed in were modified")


def run_sizes2(acc, item):
    name, n, weighted, whole = item
    e = EDGES2[name]
    ax = edges2(e)
    pts = [tuple(a[0] + (a[-1] - a[0]) * (((i * k + j) % 53) / 51.0 - 0.01) for j, (a, k) in enumerate(zip(ax, (17, 29))))
           for i in range(n)]
    ws = [(0.5 + (i % 7)) / 3 for i in range(n)] if weighted else None
    h, r = make2(e), ref.RHist(ax)
    xy = [[p[0] for p in pts], [p[1] for p in pts]]
    h.fill(np.array(xy, dtype=float) if whole else tuple(np.array(v, dtype=float) for v in xy),
           None if ws is None else np.array(ws))
    r.fill(pts, ws)
    acc.op("fill", n)
    compare(acc, h, r, f"{n} entries: ")


def run_big(acc, item):
    """many bins, many entries in one bin, many fills"""
    shape, irregular, n, fills, weighted = item
    ax = [ref.linspace(-1.0 - k, 2.0 + k, m + 1) for k, m in enumerate(shape)]
    if irregular:
        ax = [[v + 0.3 * (a[1] - a[0]) * (i % 3) for i, v in enumerate(a)] for a in ax]
    # half of the entries in one bin, the others everywhere and a few outside
    pts = [tuple((a[-2] + a[-1]) / 2 if i % 2 else a[0] + (a[-1] - a[0]) * (((i * q) % 1009) / 1000.0 - 0.0020314159) for a, q in zip(ax, (17, 29))) for i in range(n)]
    ws = [(0.5 + (i % 7)) / 3 for i in range(n)]
    if len(shape) == 1:
        h = make1(np.array(ax[0]) if irregular else (shape[0], (ax[0][0], ax[0][-1])))
    else:
        h = make2([np.array(a) for a in ax] if irregular else (shape, tuple((a[0], a[-1]) for a in ax)))
    r = ref.RHist(ax)
    acc.op("fills", item)
    for k in range(fills):
        part = slice(n * k // fills, n * (k + 1) // fills)
        x = [np.array([p[j] for p in pts[part]]) for j in range(len(shape))]
        w = ws[part] if weighted and k % 3 != 1 else None
        h.fill(x[0] if len(shape) == 1 else tuple(x), None if w is None else np.array(w))
        r.fill(pts[part], w)
    compare(acc, h, r, f"{item}: ")


def parts(tier, seed):
    deep = tier == "thorough"
    sizes = sorted(set(list(range(0, 70 if deep else 20)) + [2 ** k + d for k in range(5, 15 if deep else 12) for d in (-1, 0, 1)]))
    ks = [(n, dk, wk, how) for n in ("uniform", "irregular") for dk in DATA_KINDS for wk in WEIGHT_KINDS
          for how in ("fill", "constructor")]
    k2 = [(n, o, dk, wk, how) for n in ("uniform", "irregular") for o in ("tuple", "list", "array")
          for dk in DATA_KINDS for wk in WEIGHT_KINDS for how in ("fill", "constructor")
          if not (o == "array" and dk in ("list", "tuple"))]
    big = [(s, irr, n, f, w) for s in [(k,) for k in (13, 31, 33, 64, 65, 100, 127, 129, 200, 255, 257, 600, 1025)] +
           [(12, 12), (11, 40), (40, 3), (3, 130), (1, 70), (300, 2), (33, 34)] for irr in (False, True)
           for n, f in ((700, 1), (3000, 1), (400, 130), (257, 5)) for w in (False, True)]
    return [
        Part("many bins, entries and fills", big, run_big, "up to 1122 bins, 3000 entries, 130 fills"),
        Part("1d fill sequences", list(seq_items(3, not deep)), run_seq, "all event lists up to length 3, all divisions into fills"),
        Part("1d containers and types", ks, run_kinds, "10 data kinds x 16 weight kinds"),
        Part("1d number of entries", [(n, k, w) for n in EDGES for k in sizes for w in (False, True)], run_sizes,
             f"up to {sizes[-1]} entries"),
        Part("2d fill sequences", list(items2(3 if deep else 2)), run_seq2, "all event lists up to length 3"),
        Part("2d containers and types", k2, run_kinds2, "28 data kinds x 16 weight kinds"),
        Part("2d number of entries", [(n, k, w, o) for n in EDGES2 for k in sizes for w in (False, True) for o in (False, True)], run_sizes2,
             f"up to {sizes[-1]} entries"),
    ]
