"""L02: every sequence up to the stated depth of fills, scalings, refused fills and projections over two instances of each
of the three legacy histogram classes, with all contents compared after each operation; every position (below, on, beside
and between edges, above) times weight; every container and number type; every way of giving the edges."""
import itertools
import math

import numpy as np
import pandas as pd

from ..core import Part
from .. import ref
from .h01 import EDGES, edges_of, positions

CONT = {
    "f8": lambda v: np.array(v, dtype=float),
    "f4": lambda v: np.array(v, dtype="f4"),
    "i8": lambda v: np.array(v, dtype="i8"),
    "i4": lambda v: np.array(v, dtype="i4"),
    "u1": lambda v: np.array(v, dtype="u1"),
    "list": list,
    "tuple": tuple,
    "series": lambda v: pd.Series(v, index=[9 - i for i in range(len(v))], dtype=float),
    "intseries": lambda v: pd.Series([int(x) for x in v]),
    "readonly": lambda v: frozen(v),
    "strided": lambda v: np.repeat(np.array(v, dtype=float), 2)[::2],
}


def frozen(v):
    a = np.array(v, dtype=float)
    a.flags.writeable = False
    return a


class Ref(ref.RHist):
    """with scaling and numbers of entries"""

    def __init__(self, axes):
        super().__init__(axes)
        self.entries = [0.0] * self.n

    def fill(self, points, weights=None):
        before = [len(w) for w in self.w]
        super().fill(points, weights)
        self.entries = [e + len(w) - b for e, w, b in zip(self.entries, self.w, before)]

    def scale(self, c):
        self.base, self.base2 = [c * v for v in self.counts()], [c * c * v for v in self.err2()]
        self.w = [[] for _ in range(self.n)]


def same(acc, h, r, what=""):
    acc.eq(h.bin_counts, ref.nest(r.counts(), r.shape), what + "contents", 1e-12, 1e-12)
    acc.eq(h.bin_errors_sq, ref.nest(r.err2(), r.shape), what + "squared errors", 1e-12, 1e-12)
    acc.eq(h.bin_errors, ref.nest([math.sqrt(e) for e in r.err2()], r.shape), what + "errors", 1e-12, 1e-12)
    if hasattr(h, "bin_entries"):
        acc.eq(h.bin_entries, ref.nest(r.entries, r.shape), what + "entries", 0, 0)
    if hasattr(h, "bin_rel_errors") and all(r.counts()):
        acc.eq(h.bin_rel_errors, [math.sqrt(e) / c if e else 1e-7 for c, e in zip(r.counts(), r.err2())], what + "relative errors", 1e-9)
    acc.state((r.key(), tuple(r.entries)))


def geometry(acc, h, axes, what=""):
    one = len(axes) == 1
    mids = [[(a + b) / 2 for a, b in zip(e[:-1], e[1:])] for e in axes]
    acc.eq([np.asarray(e) for e in h.bin_edges] if not one else np.asarray(h.bin_edges), axes if not one else axes[0], what + "edges", 1e-12)
    acc.eq([np.asarray(e) for e in h.bin_mids] if not one else np.asarray(h.bin_mids), mids if not one else mids[0], what + "bin mids", 1e-12)
    n = [len(e) - 1 for e in axes]
    got = h.nbins if hasattr(h, "nbins") else h.num_bins
    acc.eq(list(got) if not one else got, n if not one else n[0], what + "number of bins")
    if hasattr(h, "limits"):
        acc.eq([float(v) for v in h.limits], [axes[0][0], axes[0][-1]], what + "limits", 1e-12)
        acc.eq([float(h.lower_limit), float(h.upper_limit)], [axes[0][0], axes[0][-1]], what + "lower and upper limit", 1e-12)
    if not one:
        acc.eq([list(map(float, h.xlimits)), list(map(float, h.ylimits))], [[e[0], e[-1]] for e in axes], what + "limits", 1e-12)
        acc.eq([list(map(float, h.x_edges)), list(map(float, h.y_edges))], axes, what + "edges of the axes", 1e-12)
    if all(abs((e[1] - e[0]) - (e[-1] - e[0]) / (len(e) - 1)) < 1e-12 for e in axes):
        w = [e[1] - e[0] for e in axes]
        acc.eq(list(h.bin_width) if not one else h.bin_width, w if not one else w[0], what + "bin width", 1e-9)


# ------------------------------------------------------------- one dimension
def fills1(few):
    data = [(0.5, 1.25, 1.0, 9.0), (2.75, -1.0, 0.0, 3.0, 2.0), (), (1.5,)]
    ws = {0: ((2.5, -1.0, 0.5, 3.0), (0.0, 1e6, 1e-3, 1.0)), 1: ((0.25, 1.0, 2.0, 4.0, -8.0),), 2: ((),), 3: ((7.0,),)}
    out = []
    for i, d in enumerate(data if not few else data[:2]):
        out.append((d, None))
        out += [(d, w) for w in (ws[i] if not few else ws[i][:1])]
    return out


def make1(cls, axes=(3, (0.0, 3.0))):
    import templatefitter.histogram_legacy as m
    return getattr(m, cls)(*axes)


def run1(acc, item):
    cls, ops = item
    given = []
    hs = [make1(cls), make1(cls)]
    rs = [Ref([[0.0, 1.0, 2.0, 3.0]]) for _ in hs]
    for op in ops:
        acc.op(op)
        if op[0] == "fill":
            _, k, (d, w) = op
            if w is None:
                hs[k].fill(np.array(d, dtype=float))
            else:
                hs[k].fill(np.array(d, dtype=float), np.array(w, dtype=float))
            rs[k].fill([(x,) for x in d], w)
        elif op[0] == "scale":
            hs[op[1]].scale(op[2])
            rs[op[1]].scale(op[2])
        elif op[0] == "assign":
            _, k, ct, values = op
            v, e = CONT[ct](values), CONT[ct](values[::-1])
            hs[k].bin_counts = v
            hs[k].bin_errors = e
            r = rs[k]
            r.base, r.base2, r.w = [float(x) for x in values], [float(x) ** 2 for x in values[::-1]], [[] for _ in range(r.n)]
            given.append((v, values))
            given.append((e, values[::-1]))
        else:
            _, k, nd, nw = op
            acc.refused(lambda: hs[k].fill(np.linspace(0.5, 2.5, nd), np.ones(nw)), f"{nd} data and {nw} weights")
        for k in (0, 1):
            same(acc, hs[k], rs[k], f"{cls} {k} after {op}: ")
        for got, want in given:
            acc.eq(list(got), list(want), f"values assigned to a {cls} modified by {op}", 0, 0)


def run_pos(acc, item):
    """all pairs of positions x weights"""
    cls, name, evs = item
    e = EDGES[name]
    axes = edges_of(e)
    if cls == "Histogram":
        h = make1(cls, e)
    elif isinstance(e, tuple):
        h = make1(cls, e)
    else:
        h = make1(cls, (e,))
    r = Ref([axes])
    acc.op("fill", evs)
    geometry(acc, h, [axes], f"{cls} {name}: ")
    x = np.array([v for v, _ in evs])
    if all(w is None for _, w in evs):
        h.fill(x)
        r.fill([(v,) for v in x])
    else:
        w = np.array([1.0 if w is None else w for _, w in evs])
        h.fill(x, w)
        r.fill([(v,) for v in x], w)
    same(acc, h, r, f"{cls} {name}: ")


def run_types(acc, item):
    cls, dt, wt, how = item
    d = [0.0, 1.0, 2.0, 3.0, 2.0, 4.0]
    w = [3.0, 1.0, 200.0, 2.0, 0.0, 5.0]
    r = Ref([[0.0, 1.0, 2.0, 3.0]])
    r.fill([(v,) for v in d], None if wt == "none" else w)
    acc.op("fill", item)
    dd, ww = CONT[dt](d), None if wt == "none" else CONT[wt](w)
    import templatefitter.histogram_legacy as m
    c = getattr(m, cls)
    if how == "fill":
        h = c(3, (0.0, 3.0))
        h.fill(dd, ww) if ww is not None else h.fill(dd)
    elif how == "keywords":
        h = c(3, limits=(0.0, 3.0))
        h.fill(data=dd, weights=ww)
    else:
        h = c(3, (0.0, 3.0), dd, ww)
    same(acc, h, r, f"{item}: ")
    acc.eq(list(dd), d, f"{item}: data modified", 0, 0)
    if ww is not None:
        acc.eq(list(ww), w, f"{item}: weights modified", 0, 0)
    # what was passed in is not part of the histogram
    if isinstance(ww, np.ndarray) and ww.flags.writeable:
        ww[:] = 0
        same(acc, h, r, f"{item} after its weights changed: ")


def run_binned(acc, item):
    from templatefitter.histogram_legacy import Hist1d
    ct, et, edt, ops = item
    edges = [0.0, 0.5, 2.0, 2.5]
    c = CONT[ct]([4.0, 0.0, 9.0])
    e = None if et == "none" else CONT[et]([1.0, 2.0, 0.0])
    r = Ref([edges])
    r.base = [4.0, 0.0, 9.0]
    r.base2 = [4.0, 0.0, 9.0] if e is None else [1.0, 4.0, 0.0]
    acc.op("from_binned_data", item)
    ed = CONT[edt](edges)
    h = Hist1d.from_binned_data(ed, c) if e is None else Hist1d.from_binned_data(ed, c, e)
    h2 = Hist1d.from_binned_data(ed, c)
    r2 = Ref([edges])
    r2.base = r2.base2 = [4.0, 0.0, 9.0]
    geometry(acc, h, [edges], "edges")
    for op in ("none",) + ops:
        acc.op(op)
        if op == "fill":
            h.fill(np.array([0.25, 2.0, 7.0]))
            r.fill([(0.25,), (2.0,), (7.0,)])
        elif op == "wfill":
            h.fill(np.array([0.25, 2.5, -7.0]), np.array([0.5, 2.0, 3.0]))
            r.fill([(0.25,), (2.5,), (-7.0,)], [0.5, 2.0, 3.0])
        elif op == "fill2":
            h2.fill(np.array([0.75]))
            r2.fill([(0.75,)])
        elif op == "change" and isinstance(c, np.ndarray) and c.flags.writeable:
            c[:] = 1
        elif op == "changee" and isinstance(e, np.ndarray) and e.flags.writeable:
            e[:] = 7
        same(acc, h, r, f"{op}: ")
        same(acc, h2, r2, f"second histogram after {op}: ")


# ------------------------------------------------------------- two dimensions
AX2 = [[0.0, 1.0, 3.0], [-1.0, 0.0, 0.5, 2.0]]
FILLS2 = [(((0.5, -0.5), (1.0, 0.0), (3.0, 2.0), (2.0, 9.0), (-1.0, 0.25)), None),
          (((0.25, 1.5), (2.5, 0.25), (1.5, -1.0)), (2.0, -0.5, 3.0)), ((), None),
          (((0.5, -0.5), (1.5, 1.5), (1.5, -0.5)), (2.0, -2.0, 0.0))]


def make2(how):
    from templatefitter.histogram_legacy import Hist2d
    if how == "uniform":
        return Hist2d((2, 3), ((0.0, 2.0), (-1.0, 2.0))), [[0.0, 1.0, 2.0], [-1.0, 0.0, 1.0, 2.0]]
    if how == "uniformlist":
        return Hist2d([3, 1], [[0.0, 3.0], (-1.0, 2.0)]), [[0.0, 1.0, 2.0, 3.0], [-1.0, 2.0]]
    if how == "edges":
        return Hist2d([np.array(a) for a in AX2]), AX2
    if how == "edgelists":
        return Hist2d(tuple(list(a) for a in AX2)), AX2
    return Hist2d([np.array(AX2[1]), np.array(AX2[0])]), AX2[::-1]


def run2(acc, item):
    how, ops = item
    hs, rs, taken = [], [], []
    for _ in (0, 1):
        h, ax = make2(how)
        hs.append(h)
        rs.append(Ref(ax))
    geometry(acc, hs[0], rs[0].axes, how)
    for op in ops:
        acc.op(op)
        if op[0] == "fill":
            _, k, f = op
            pts, w = FILLS2[f]
            a = np.array(pts, dtype=float).reshape(-1, 2)
            if w is None:
                hs[k].fill(a)
            else:
                hs[k].fill(a, np.array(w))
            rs[k].fill(pts, w)
        elif op[0] == "bad":
            acc.refused(lambda: hs[op[1]].fill(np.array([[0.5, 0.5], [1.0, 1.0]]), np.ones(3)), "2 data and 3 weights")
        for k in (0, 1):
            same(acc, hs[k], rs[k], f"{how} {k} after {op}: ")
        if op[0] == "proj":
            project(acc, hs[op[1]], rs[op[1]], f"{how} {op[1]} after {ops}: ", taken)
    for k in (0, 1):
        project(acc, hs[k], rs[k], f"{how} {k} at the end of {ops}: ", taken)
    for got, want, what in taken:
        acc.eq([np.asarray(g) for g in got], want, what + "later", 1e-12, 1e-12)


def project(acc, h, r, what, taken):
    nx, ny = r.shape
    c, e = r.counts(), r.err2()
    wx = [[math.fsum(c[i * ny:(i + 1) * ny]) for i in range(nx)], [math.sqrt(math.fsum(e[i * ny:(i + 1) * ny])) for i in range(nx)]]
    wy = [[math.fsum(c[j::ny]) for j in range(ny)], [math.sqrt(math.fsum(e[j::ny])) for j in range(ny)]]
    for got, want, nm in ((h.x_projection(), wx, "x projection "), (h.y_projection(), wy, "y projection ")):
        acc.eq([np.asarray(g) for g in got], want, what + nm, 1e-12, 1e-12)
        if len(taken) % 3 == 1:   # nothing done to a projection affects the next one
            for g in got:
                g[...] = 99.0
            got, want = got, [[99.0] * len(v) for v in want]
        taken.append((got, want, what + nm))


def run_types2(acc, item):
    dt, wt, how = item
    from templatefitter.histogram_legacy import Hist2d
    pts = [(0.0, 1.0), (1.0, 0.0), (2.0, 2.0), (1.0, 1.0), (4.0, 1.0)]
    w = [3.0, 1.0, 200.0, 2.0, 5.0]
    r = Ref([[0.0, 1.0, 2.0], [0.0, 1.0, 2.0]])
    r.fill(pts, None if wt == "none" else w)
    a = np.array(pts).astype({"readonly": "f8", "strided": "f8"}.get(dt, dt))
    if dt == "readonly":
        a.flags.writeable = False
    if dt == "strided":
        a = np.asfortranarray(a)
    ww = None if wt == "none" else CONT[wt](w)
    acc.op("fill", item)
    if how == "fill":
        h = Hist2d((2, 2), ((0.0, 2.0), (0.0, 2.0)))
        h.fill(a, ww)
    else:
        h = Hist2d((2, 2), ((0.0, 2.0), (0.0, 2.0)), a, ww)
    same(acc, h, r, f"{item}: ")
    acc.eq(a, [list(p) for p in pts], f"{item}: data modified", 0, 0)


def run_many(acc, item):
    """many entries, many bins, many fills"""
    import templatefitter.histogram_legacy as m
    cls, shape, n, weighted, fills = item
    acc.op(item)
    axes = [[0.5 * i for i in range(k + 1)] for k in shape]
    h = m.Hist2d(shape, tuple((a[0], a[-1]) for a in axes)) if len(shape) == 2 else getattr(m, cls)(shape[0], (axes[0][0], axes[0][-1]))
    r = Ref(axes)
    for f in range(fills):
        pts = [tuple(0.25 + 0.5 * ((i * (3 + 4 * j) + f + i // 7) % (k + 1)) for j, k in enumerate(shape)) for i in range(n)]
        w = [0.5 + 0.25 * ((i * 5 + f) % 9) - (1.0 if i % 11 == 3 else 0.0) for i in range(n)] if weighted else None
        a = np.array(pts) if len(shape) == 2 else np.array([p[0] for p in pts])
        h.fill(a) if w is None else h.fill(a, np.array(w))
        r.fill(pts, w)
        if f < 2 or f == fills - 1:
            same(acc, h, r, f"{item} after {f + 1} fills: ")
    acc.state(item)


def parts(tier, seed):
    deep = tier == "thorough"
    out = []
    seqs = []
    for cls in ("Histogram", "Hist1d"):
        ops = [("fill", k, f) for k in (0, 1) for f in fills1(False)[:7 if deep else 4]]
        bad = [("bad", 0, 2, 3), ("bad", 0, 3, 2)]
        if cls == "Histogram":
            bad += [("bad", 0, 3, 1), ("bad", 1, 1, 3), ("bad", 0, 0, 1)]
            ops += [("assign", 0, ct, (4.0, 0.0, 9.0)) for ct in ("f8", "i8", "list", "series")] + [("assign", 1, "f8", (1.0, 2.0, 3.0))]
            ops += [("scale", 0, c) for c in (2.0, -0.5, 0.0, 3, 1e-5, 4e7)] + [("scale", 1, 0.1)]
        ops += bad
        for d in range(1, 4 if deep else 3):
            seqs += [(cls, s) for s in itertools.product(ops, repeat=d)]
        few = [("fill", 0, fills1(True)[1]), ("fill", 1, fills1(True)[2]), ("fill", 0, fills1(True)[3])]
        few += [("scale", 0, 2.0), ("scale", 1, -0.5), ("assign", 0, "i8", (5.0, 1.0, 2.0)), ("bad", 0, 3, 2)] if cls == "Histogram" else [("bad", 0, 3, 2)]
        for d in range(3, 6 if deep else 5):
            seqs += [(cls, s) for s in itertools.product(few, repeat=d)]
    out.append(Part("histories in one dimension", seqs, run1, "two instances, all operations to depth 2 (3), the main ones to depth 4 (5)"))
    pos = []
    for cls in ("Histogram", "Hist1d"):
        for name, e in EDGES.items():
            if cls == "Histogram" and not isinstance(e, tuple):
                continue
            p = positions(edges_of(e), few=name == "many")
            ev = [(x, w) for x in p for w in (None, 2.5, -0.75, 0.0)]
            pos += [(cls, name, (x,)) for x in ev]
            if name != "many" or deep:
                pos += [(cls, name, s) for s in itertools.product(ev[::2] if not deep else ev, repeat=2)][::1 if name != "many" else 7]
    out.append(Part("positions", pos, run_pos, "every pair of positions and weights, eight binnings"))
    types = [(cls, dt, wt, how) for cls in ("Histogram", "Hist1d") for dt in CONT for wt in ["none"] + list(CONT)
             for how in ("fill", "keywords", "constructor")
             if not (dt == "tuple" and cls == "Histogram" and False)]
    out.append(Part("containers", types, run_types, "every container of data and weights, three ways of filling"))
    bops = ["fill", "wfill", "fill2", "change", "changee"]
    binned = [(ct, et, "f8", s) for ct in CONT for et in ["none"] + list(CONT) for d in (1, 2) for s in itertools.product(bops, repeat=d)
              if d == 1 or deep or ct in ("f8", "i8", "list") and et in ("none", "f8")]
    binned += [("f8", "f8", e, ("fill", "fill2")) for e in ("f8", "f4", "list", "tuple", "readonly", "strided")]
    out.append(Part("binned data", binned, run_binned, "every number type of contents and errors, followed by up to two operations"))
    seq2 = []
    for how in ("uniform", "uniformlist", "edges", "edgelists", "swapped"):
        ops = [("fill", k, f) for k in (0, 1) for f in range(4)] + [("proj", 0), ("proj", 1), ("bad", 0)]
        for d in range(1, 4 if deep or how == "edges" else 3):
            seq2 += [(how, s) for s in itertools.product(ops, repeat=d)]
        few = [("fill", 0, 0), ("fill", 0, 1), ("fill", 1, 1), ("proj", 0), ("proj", 1)]
        if how == "edges" or deep:
            seq2 += [(how, s) for s in itertools.product(few, repeat=4)]
        if deep:
            seq2 += [(how, s) for s in itertools.product(few, repeat=5)]
    out.append(Part("histories in two dimensions", seq2, run2, "two instances, fills, refused fills and projections to depth 4 (5)"))
    types2 = [(dt, wt, how) for dt in ("f8", "f4", "i8", "u1", "readonly", "strided") for wt in ["none"] + list(CONT) for how in ("fill", "constructor")]
    out.append(Part("containers in two dimensions", types2, run_types2, "every container of weights, number types of data"))
    many = [(cls, (b,), n, w, f) for cls in ("Histogram", "Hist1d") for b in (1, 3, 17, 64, 129) for w in (False, True)
            for n, f in ((1, 70), (31, 1), (32, 1), (33, 13), (64, 2), (100, 3), (300, 1), (1025, 2), (5000, 1))]
    many += [("Hist2d", sh, n, w, f) for sh in ((1, 1), (3, 2), (12, 11), (40, 3), (1, 65)) for w in (False, True)
             for n, f in ((1, 70), (31, 1), (32, 1), (33, 13), (64, 2), (100, 3), (300, 1), (1025, 2), (5000, 1))]
    out.append(Part("many entries, bins and fills", many, run_many, "up to 5000 entries, 132 bins, 70 fills"))
    return out
