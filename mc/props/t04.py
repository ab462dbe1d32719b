"""T04: every sequence up to the stated depth of fills of a histogram, making templates from it, changing, varying,
evaluating and resetting these templates; after every operation every template is compared with the snapshot the
histogram had when it was made, and the histogram with everything filled into it."""
import itertools

import numpy as np

from ..core import Part
from .. import ref
from ..models import covariance, centres, variation
from .t02 import matrices
from .t03 import VALS

AXES = {"1d": [[0.0, 1.0, 2.5, 3.0]], "2d": [[0.0, 1.0, 3.0], [0.0, 0.5, 1.0]], "uniform": [[0.0, 1.0, 2.0]],
        "long": [[0.5 * i for i in range(41)]], "2d long": [[0.5 * i for i in range(7)], [1.0 * i for i in range(12)]],
        "2d uniform": [[0.0, 1.0, 2.0], [0.0, 1.0, 2.0]]}


def run(acc, item):
    from templatefitter.histograms import Hist1d, Hist2d
    from templatefitter.templates import Template1d, Template2d
    kind, start, ops = item
    axes = AXES[kind]
    one = len(axes) == 1
    r = ref.RHist(axes)
    if start == "binned":
        r.base = [2.5 + i for i in range(r.n)]
        r.base2 = [1.0 + 0.5 * i for i in range(r.n)]
        args = (np.array(r.base).reshape(r.shape), [np.array(a) for a in axes], np.sqrt(np.array(r.base2)).reshape(r.shape))
        h = Hist1d.from_binned_data(args[0], args[1][0], args[2]) if one else Hist2d.from_binned_data(*args)
    else:
        h = Hist1d(np.array(axes[0])) if one else Hist2d([np.array(a) for a in axes])
    ts, fills = [], 0
    was = [np.array(h.bin_counts), np.array(h.bin_errors_sq)]
    for op in ops:
        acc.op(op)
        t, rt = ts[0] if ts else (None, None)
        if op == "fill":
            fills += 1
            pts = [[a[0] + (a[-1] - a[0]) * ((i * 0.37 + 0.11 * fills) % 1.0) for i in range(5)] for a in axes]
            w = [1.0 + 0.5 * i + fills for i in range(5)]
            h.fill(np.array(pts[0]) if one else tuple(np.array(p) for p in pts), np.array(w))
            r.fill(list(zip(*pts)), w)
        elif op == "make":
            new = Template1d(f"t{len(ts)}", "v", h) if one else Template2d(f"t{len(ts)}", ("v", "w"), h)
            ts.append((new, ref.RTemplate(r.counts(), r.err2(), r.shape)))
        elif t is None:
            continue
        elif op == "params":
            t.yield_param = 11.5
            t.nui_params = np.array(VALS[:rt.n])
            rt.y, rt.nui = 11.5, VALS[:rt.n]
        elif op == "reset":
            t.reset()
            rt.reset()
        elif op == "reset last":
            ts[-1][0].reset()
            ts[-1][1].reset()
        elif op == "vary":
            up, down = variation(1, rt.counts)
            pts = [np.array(p) for p in centres(axes)]
            t.add_variation(pts[0] if one else tuple(pts), np.array(up), np.array(down))
            rt.add_variation(up, down)
        elif op == "cov" and one:
            t.add_cov_mat(np.array(covariance(1, rt.counts)))
            rt.add_cov(covariance(1, rt.counts))
        now = [np.array(h.bin_counts), np.array(h.bin_errors_sq)]
        if op != "fill" and was is not None:
            acc.eq(now, was, f"{op} changed the histogram", 0, 0)
        was = now
        acc.eq(h.bin_counts, ref.nest(r.counts(), r.shape), "histogram contents", 1e-12, 1e-12)
        acc.eq(h.bin_errors_sq, ref.nest(r.err2(), r.shape), "histogram squared errors", 1e-12, 1e-12)
        for k, (a, b) in enumerate(ts):
            matrices(acc, a, b, f"template {k} after {op}: ")
            acc.eq(np.asarray(a.fractions(np.zeros(b.n))).ravel(), b.fractions([0.0] * b.n), f"nominal fractions of {k}", 1e-9, 1e-12)
    acc.outcome(r.key())


def parts(tier, seed):
    deep = tier == "thorough"
    ops = ["fill", "make", "params", "reset", "reset last", "vary", "cov"]
    items = []
    depth = 7 if deep else 6
    for kind in AXES:
        for start in ("binned", "empty"):
            n = depth if (kind == "1d" and start == "binned") else (depth - 1 if kind == "2d" and start == "binned" else 3 if "long" in kind else 4)
            for d in range(1, n + 1):
                for seq in itertools.product(ops if "2d" not in kind else ops[:-1], repeat=d):
                    if "make" not in seq or seq[-1] == "make":
                        continue
                    i = seq.index("make")
                    if any(o != "fill" for o in seq[:i]) or seq.count("make") > 2 or seq.count("fill") > 3:
                        continue
                    if seq.count("cov") + seq.count("vary") > 2 or (d == n and n > 4 and "fill" not in seq[i:]):
                        continue
                    if d >= 6 and (seq.count("params") > 1 or seq.count("reset") > 1 or "fill" in seq[:i]):
                        continue
                    items.append((kind, start, seq))
    return [Part("snapshot sequences", items, run, f"all sequences up to depth {depth}")]
