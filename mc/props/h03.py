"""H03: every sequence up to the stated depth of fills of a 2D histogram, of taking either projection, and of fills of
projections taken earlier; after every operation the histogram and all projections still held are compared with
reference sums (a projection must stay as it was when taken, apart from fills of its own)."""
import itertools
import math

import numpy as np

from ..core import Part
from .. import ref
from .h01 import compare

AXES = {
    "uniform": [[0.0, 1.0, 2.0], [0.0, 1.0, 2.0, 3.0]],
    "irregular": [[-1.0, 0.5, 0.75, 4.0], [0.0, 2.0, 2.5]],
    "row": [[0.0, 2.0], [0.0, 1.0, 2.0]],
    "square": [[0.0, 1.0, 2.0], [-1.0, 0.5, 7.0]],
    "long": [[float(i) / 2 for i in range(8)], [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0]],
    "wide": [[0.0, 1.0, 2.0], [0.25 * i for i in range(13)]],
    "large": [[0.5 * i for i in range(13)], [0.25 * i for i in range(31)]],
    "larger": [[0.25 * i for i in range(41)], [0.5 * i for i in range(35)]],
    "tiny": [[0.0, 1e-7, 2.5e-7], [0.0, 2e-7, 2.5e-7, 3e-7]],
}
FILLS = {
    "A": ([0.5, 1.5, 1.5, 0.6], [0.5, 2.25, 0.75, 1.5], [1.0, 2.5, 0.5, 3.0]),
    "B": ([1.5, 0.25, 9.0], [2.25, 2.4, 0.5], [-1.0, 4.0, 7.0]),
    "M": ([0.5, 1.75, 0.25], [0.25, 1.25, 2.25], [-3.0, -0.5, -7.25]),
    "Z": ([0.5, 1.5], [0.5, 2.25], [2.0, -2.0]),
    "N": ([0.6, 1.75], [0.25, 1.25], None),
}


def project(r, axis):
    p = ref.RHist([r.axes[axis]])
    n0, n1 = r.shape
    c, e = r.counts(), r.err2()
    if axis == 0:
        p.base = [ref.fsum(c[i * n1:(i + 1) * n1]) for i in range(n0)]
        p.base2 = [ref.fsum(e[i * n1:(i + 1) * n1]) for i in range(n0)]
    else:
        p.base = [ref.fsum(c[j::n1]) for j in range(n1)]
        p.base2 = [ref.fsum(e[j::n1]) for j in range(n1)]
    p.empty = False
    return p


def check(acc, h, r, projs):
    for what, a, b in [("histogram", h, r)] + [(f"projection {k}", p, q) for k, (p, q) in enumerate(projs)]:
        acc.eq(a.bin_counts, ref.nest(b.counts(), b.shape), what + " contents", 1e-12, 1e-12)
        acc.eq(a.bin_errors, ref.nest([math.sqrt(x) for x in b.err2()], b.shape), what + " errors", 1e-9, 1e-9)
    acc.state((r.key(), tuple(q.key() for _, q in projs)))


def run(acc, item):
    from templatefitter.histograms import Hist2d
    name, start, ops = item
    ax = AXES[name]
    r = ref.RHist(ax)
    if start == "empty":
        h = Hist2d([np.array(a) for a in ax])
    else:
        c = [1.5 + 0.75 * ((i * 5) % 4) for i in range(r.n)]
        e2 = [0.5 + 0.25 * ((i * 3) % 5) for i in range(r.n)]
        cols = start == "columns"     # contents stored column by column
        h = Hist2d.from_binned_data(np.array(c).reshape(r.shape).copy("F" if cols else "C"), [np.array(a) for a in ax],
                                    np.sqrt(np.array(e2)).reshape(r.shape).copy("F" if cols else "C"))
        r.base, r.base2 = c, e2
    projs = []
    for op in ops:
        acc.op(op)
        if op in FILLS:
            x, y, w = FILLS[op]
            if name == "tiny":
                x, y = [1e-7 * v for v in x], [1e-7 * v for v in y]
            h.fill((np.array(x), np.array(y)), None if w is None else np.array(w))
            r.fill(list(zip(x, y)), w)
        elif op in ("x", "y"):
            p = h.x_projection() if op == "x" else h.y_projection()
            q = project(r, 0 if op == "x" else 1)
            acc.eq(np.asarray(p.bin_edges), q.axes[0], f"{op} projection edges")
            acc.eq(tuple(p.shape), q.shape, f"{op} projection shape")
            projs.append((p, q))
        elif op == "p" and projs:
            p, q = projs[0]
            p.fill(np.array([q.axes[0][0], q.axes[0][-1]]), np.array([2.0, 3.5]))
            q.fill([(q.axes[0][0],), (q.axes[0][-1],)], [2.0, 3.5])
        elif op == "q" and projs:
            p, q = projs[-1]
            p.fill(np.array([q.axes[0][1]]), None)
            q.fill([(q.axes[0][1],)])
        check(acc, h, r, projs)
    acc.outcome(tuple(r.counts()))


def parts(tier, seed):
    depth = 6 if tier == "thorough" else 5
    ops = ["A", "B", "M", "N", "Z", "x", "y", "p", "q"]
    items = []
    for d in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=d):
            if "x" not in seq and "y" not in seq:
                continue
            first = min(seq.index(o) for o in "xy" if o in seq)
            if any(o in seq[:first] for o in "pq") or len([o for o in seq if o in "xy"]) > 3:
                continue
            if d >= 5 and ("N" in seq or "M" in seq or "Z" in seq or "q" in seq[:2]):
                continue
            names = AXES if d <= 3 else ["uniform"]
            items += [(n, s, seq) for n in names for s in (("empty", "binned", "columns") if d <= 3 else ("empty",))]
    return [Part("projection sequences", items, run, f"all sequences of fills and projections up to depth {depth}")]
