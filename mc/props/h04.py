"""H04: histograms made from binned data of every number type and layout, followed by every sequence up to the stated
depth of fills, changes of the arrays it was made from, and creation of second histograms from the same or from the
first one's arrays; every array and histogram is compared after each operation."""
import itertools
import math

import numpy as np

from ..core import Part
from .. import ref

EDGES = [[0.0, 1.0, 1.5, 4.0]]
EDGES2 = [[0.0, 1.0, 3.0], [-1.0, 0.0, 0.5, 2.0]]
TYPES = ["f8", "f4", "f2", "i8", "i4", "i2", "u1", "readonly", "strided", "fortran"]


def arr(kind, vals, shape):
    a = np.array(vals, dtype=float).reshape(shape)
    if kind == "readonly":
        a.flags.writeable = False
        return a
    if kind == "strided":
        b = np.zeros([2 * s for s in shape])
        b[tuple(slice(None, None, 2) for _ in shape)] = a
        return b[tuple(slice(None, None, 2) for _ in shape)]
    if kind == "fortran":
        return np.asfortranarray(a)
    return a.astype(kind)


def counts_for(kind, n):
    base = [4, 0, 9, 2, 16, 250, 1, 7]
    if kind in ("i8", "i4", "i2", "u1"):
        return [float(v) for v in base[:n]]
    return [v + (0.1 if kind in ("f4", "f2") else 0.25) for v in base[:n]]    # not exact in few bits


def same(acc, h, r, what):
    acc.eq(h.bin_counts, ref.nest(r.counts(), r.shape), what + "contents", 1e-12, 1e-12)
    acc.eq(h.bin_errors_sq, ref.nest(r.err2(), r.shape), what + "squared errors", 1e-12, 1e-12)
    acc.eq(h.bin_errors, ref.nest([math.sqrt(e) for e in r.err2()], r.shape), what + "errors", 1e-12, 1e-12)
    acc.eq(bool(h.is_empty), False, what + "is_empty")
    ed = h.bin_edges
    ed = [ed] if len(r.axes) == 1 else list(ed)
    acc.eq([np.asarray(e) for e in ed], r.axes, what + "edges")


def run(acc, item):
    from templatefitter.histograms import Hist1d, Hist2d
    dim, kind, ekind, ops = item
    axes = EDGES if dim == 1 else EDGES2
    r = ref.RHist(axes)
    r.f4 = bool({"f4", "f2"} & {kind, ekind})
    cls = Hist1d if dim == 1 else Hist2d
    cv = counts_for(kind, r.n)
    c = arr(kind, cv, r.shape)
    edges = [np.array(a) for a in axes]
    e = None
    if ekind != "none":
        ev = [0.5 * k if ekind not in ("i8", "i4", "i2", "u1") else float(k + 10) for k in range(1, r.n + 1)]
        e = arr(ekind, ev, r.shape)
        r.base2 = [v * v for v in np.asarray(e, dtype=float).ravel().tolist()]
    else:
        r.base2 = [abs(v) for v in np.asarray(c, dtype=float).ravel().tolist()]
    r.base = np.asarray(c, dtype=float).ravel().tolist()
    h = cls.from_binned_data(c, edges[0] if dim == 1 else edges, e)
    live = [(h, r, "histogram: ")]
    src = {"c": (c, c.tolist()), "e": (e, None if e is None else e.tolist()),
           "g0": (edges[0], list(axes[0])), "g1": (edges[-1], list(axes[-1]))}
    same(acc, h, r, "histogram: ")
    pts = [(0.5, 1.25, 1.0, 9.0), (1.5, 0.25, -0.5, 0.0)]
    for k, op in enumerate(ops):
        acc.op(op)
        if op in ("fill", "wfill"):
            w = [2.5, 1.0, 0.5, 3.0] if op == "wfill" else None
            data = np.array(pts[0]) if dim == 1 else (np.array(pts[0]), np.array(pts[1]))
            hh, rr, _ = live[0]
            hh.fill(data, None if w is None else np.array(w))
            rr.fill([(x,) for x in pts[0]] if dim == 1 else list(zip(*pts)), w)
        elif op == "fill2" and len(live) > 1:
            hh, rr, _ = live[1]
            data = np.array([0.5]) if dim == 1 else (np.array([0.5]), np.array([-0.5]))
            hh.fill(data, np.array([7.0]))
            rr.fill([(0.5,)] if dim == 1 else [(0.5, -0.5)], [7.0])
        elif op == "change" and c.flags.writeable:
            c[...] = 33
            src["c"] = (c, c.tolist())
            if e is not None and e.flags.writeable:
                e[...] = 5
                src["e"] = (e, e.tolist())
        elif op == "edges":
            edges[0][0] -= 1.0
            src["g0"] = (edges[0], edges[0].tolist())
            if dim == 1:
                src["g1"] = src["g0"]
        elif op == "clone" and len(live) < 2:
            hh, rr, _ = live[0]
            h2 = cls.from_binned_data(hh.bin_counts, hh.bin_edges, hh.bin_errors)
            r2 = ref.RHist(axes)
            r2.base, r2.base2, r2.f4 = rr.counts(), rr.err2(), rr.f4
            live.append((h2, r2, "second histogram: "))
        elif op == "again" and len(live) < 2 and not any(o in ops[:k] for o in ("change", "edges")):
            h2 = cls.from_binned_data(c, edges[0] if dim == 1 else edges, e)
            r2 = ref.RHist(axes)
            r2.base, r2.base2, r2.f4 = list(r.base), list(r.base2), r.f4
            live.append((h2, r2, "second histogram: "))
        for hh, rr, what in live:
            same(acc, hh, rr, what)
        for key, (a, was) in src.items():
            if a is not None:
                acc.eq(a.tolist(), was, f"array {key} the histogram was made from")
        acc.state((r.key(), len(live)))
    acc.outcome(tuple(r.counts()))


COUNTS = {"plain": lambda n: [4.0 + 1.5 * i for i in range(n)], "zeros": lambda n: [0.0] * n,
          "ones": lambda n: [1.0] * n, "some zero": lambda n: [0.0 if i % 2 else 3.0 for i in range(n)],
          "first only": lambda n: [5.0] + [0.0] * (n - 1), "last only": lambda n: [0.0] * (n - 1) + [2.0],
          "negative": lambda n: [(-1) ** i * (2.0 + i) for i in range(n)], "huge": lambda n: [1e9 + i for i in range(n)],
          "tiny": lambda n: [1e-9 * (i + 1) for i in range(n)], "unsorted": lambda n: [float((7 * i + 3) % 11) for i in range(n)]}
ERRORS = {"none": None, "zeros": lambda n: [0.0] * n, "plain": lambda n: [0.5 + i for i in range(n)],
          "some zero": lambda n: [float(i % 2) for i in range(n)], "first only": lambda n: [2.0] + [0.0] * (n - 1),
          "last only": lambda n: [0.0] * (n - 1) + [3.0], "tiny": lambda n: [1e-8] * n, "huge": lambda n: [1e6 + i for i in range(n)],
          "ones": lambda n: [1.0] * n}
AXES = {"one bin": [0.0, 1.0], "even": [0.0, 1.0, 2.0, 3.0], "almost even": [0.0, 1.0, 2.001, 3.0],
        "nearly even": [0.0, 1.0000001, 2.0, 3.0], "uneven": [-2.0, 0.0, 0.5, 7.0], "negative": [-3.0, -2.0, -0.5],
        "large": [1e6, 1e6 + 1, 1e6 + 3], "small": [0.0, 1e-6, 3e-6], "symmetric": [-2.0, -0.5, 0.5, 2.0],
        "many": [0.1 * i * i for i in range(9)], "tenths": [0.1 * i for i in range(5)]}


def run_values(acc, item):
    """every pattern of contents and errors on every kind of edges, in every container"""
    from templatefitter.histograms import Hist1d, Hist2d
    axes, ck, ek, box = item
    axes = [list(AXES[a]) for a in axes]
    r = ref.RHist(axes)
    r.f4 = False
    c = COUNTS[ck](r.n)
    e = None if ERRORS[ek] is None else ERRORS[ek](r.n)
    if box == "list":
        args = (ref.nest(c, r.shape), axes[0] if len(axes) == 1 else axes, None if e is None else ref.nest(e, r.shape))
    else:
        edges = [np.array(a) for a in axes]
        edges = edges[0] if len(axes) == 1 else (tuple(edges) if box == "tuple" else edges)
        args = (np.array(c).reshape(r.shape), edges, None if e is None else np.array(e).reshape(r.shape))
    h = (Hist1d if len(axes) == 1 else Hist2d).from_binned_data(*args)
    acc.op("from_binned_data", *item)
    w2 = [v * v for v in e] if e is not None else [abs(v) for v in c]
    acc.eq(h.bin_counts, ref.nest(c, r.shape), "contents", 0, 0)
    acc.eq(h.bin_errors_sq, ref.nest(w2, r.shape), "squared errors", 1e-12, 0)
    acc.eq(h.bin_errors, ref.nest([math.sqrt(v) for v in w2], r.shape), "errors", 1e-12, 0)
    ed = [h.bin_edges] if len(axes) == 1 else list(h.bin_edges)
    acc.eq([np.asarray(x) for x in ed], axes, "edges", 0, 0)
    acc.eq(np.asarray(h.bin_counts).shape, r.shape, "shape of the contents")
    acc.eq(tuple(h.shape), r.shape, "shape")
    acc.eq(bool(h.is_empty), False, "is_empty")
    r.base, r.base2 = list(c), list(w2)
    pts = [tuple((a[i % (len(a) - 1)] + a[i % (len(a) - 1) + 1]) / 2 for a in axes) for i in range(4)]
    ws = [1.5, 2.0, -0.5, 3.0]
    acc.op("fill")
    cols = [np.array(x) for x in zip(*pts)]
    h.fill(cols[0] if len(axes) == 1 else tuple(cols), np.array(ws))
    r.fill(pts, ws)
    acc.eq(h.bin_counts, ref.nest(r.counts(), r.shape), "contents after a fill", 1e-12, 1e-12)
    acc.eq(h.bin_errors_sq, ref.nest(r.err2(), r.shape), "squared errors after a fill", 1e-12, 1e-12)
    acc.state(r.key())
    acc.outcome((ck, ek))


def run_mismatch(acc, item):
    """contents and errors of every shape: those that do not fit the edges are refused"""
    from templatefitter.histograms import Hist1d, Hist2d
    shape, cs, es, box = item
    edges = [[0.5 * i * (i + 1) for i in range(n + 1)] for n in shape]
    c = np.arange(1.0, 1.0 + int(np.prod(cs))).reshape(cs)
    e = None if es is None else np.full(es, 0.5)
    args = [c, edges[0] if len(shape) == 1 else edges, e]
    if box == "list":
        args = [a.tolist() if isinstance(a, np.ndarray) else a for a in args]
    acc.op("from_binned_data", *item)
    make = (Hist1d if len(shape) == 1 else Hist2d).from_binned_data
    if tuple(cs) == tuple(shape) and es in (None, tuple(shape)):
        h = make(*args)
        acc.eq(h.bin_counts, c, "contents", 0, 0)
        acc.eq(h.bin_errors, np.sqrt(c) if e is None else e, "errors", 1e-12, 0)
        acc.outcome("accepted")
    else:
        acc.refused(lambda: make(*args), f"contents of shape {cs}, errors of shape {es} for {shape} bins")
        acc.outcome("refused")
    acc.state(item)


def parts(tier, seed):
    ops = ["fill", "wfill", "change", "edges", "clone", "again", "fill2"]
    depth = 5 if tier == "thorough" else 4
    items = [(dim, k, e, seq) for dim in (1, 2) for k in TYPES for e in ["none"] + TYPES for d in (0, 1, 2)
             for seq in itertools.product(ops, repeat=d)]
    items += [(dim, k, e, seq) for dim in (1, 2) for k, e in (("f8", "none"), ("f8", "f8"), ("i8", "none"))
              for d in range(3, depth + 1) for seq in itertools.product(ops, repeat=d)]
    # the default errors of negative contents are not defined
    vals = [((a,), c, e, box) for a in AXES for c in COUNTS for e in ERRORS for box in ("array", "list")
            if not (c == "negative" and e == "none")]
    vals += [((a, b), c, e, box) for a in AXES for b in AXES for c in COUNTS for e in ERRORS for box in ("array", "tuple", "list")
             if not (c == "negative" and e == "none")]
    shapes = [(n,) for n in range(1, 5)] + [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]
    given = sorted({(n,) for n in (0, 1, 2, 3, 4, 5, 6, 9)} | {(a, b) for a in (0, 1, 2, 3, 4) for b in (1, 2, 3, 4)} | {(), (1, 1, 2), (2, 1, 1)})
    mis = [(s, c, e, b) for s in shapes for c in given for e in (None, s, *given) for b in ("array", "list")]
    return [Part("mismatch", mis, run_mismatch, f"{len(given)} shapes of contents and of errors for {len(shapes)} binnings"),
            Part("values", vals, run_values, f"{len(COUNTS)} patterns of contents x {len(ERRORS)} of errors x {len(AXES)} kinds of edges per axis x containers"),
            Part("binned data", items, run, f"10 x 11 number types and layouts, all operation sequences up to depth {depth}")]
