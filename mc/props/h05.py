"""H05: every sequence up to the stated depth of valid fills, of fills with invalid arguments, and of fills in which
the k-th access to an argument or the k-th call of the binning routine fails, for every k (every failure point is
taken); after each failed fill the histogram must be unchanged, after each valid one it must hold the exact sums."""
import itertools

import numpy as np
import pandas as pd

from ..core import Mismatch, Part
from .. import ref
from .h01 import compare

E1 = [[0.0, 0.5, 2.0, 2.5]]
E2 = [[0.0, 1.0, 2.0], [0.0, 1.5, 2.0]]
X, Y, W = [0.25, 1.0, 2.5, 9.0, 0.5], [0.5, 1.5, 2.0, 0.0, 1.75], [1.5, -2.0, 3.0, 4.0, 0.25]


class Fault(Exception):
    pass


class Budget:
    def __init__(self, k):
        self.k = k

    def use(self):
        self.k -= 1
        if self.k == 0:
            raise Fault("injected")


class Flaky:
    """A sequence whose k-th access fails."""

    def __init__(self, vals, budget):
        self.v, self.b = np.array(vals, dtype=float), budget

    def __len__(self):
        self.b.use()
        return len(self.v)

    def __getitem__(self, i):
        self.b.use()
        return self.v[i]

    def __iter__(self):
        self.b.use()
        return iter(self.v)

    def __array__(self, dtype=None, copy=None):
        self.b.use()
        return self.v.astype(dtype) if dtype else self.v.copy()

    def __pow__(self, n):
        self.b.use()
        return self.v ** n


def invalid(dim):
    x = np.array(X) if dim == 1 else (np.array(X), np.array(Y))
    w = np.array(W)
    out = {
        "short weights": (x, w[:3]),
        "long weights": (x, np.append(w, 1.0)),
        "two weights": (x, [1.0, 2.0]),
        "empty weights": (x, []),
        "text weights": (x, ["a", "b", "c", "d", "e"]),
        "text array weights": (x, np.array(["a", "b", "c", "d", "e"])),
        "none in weights": (x, [1.0, object(), 2.0, 1.0, 1.0]),
        "dict weights": (x, {"a": 1}),
        "text object weights": (x, "abcde"),
        "no data": (None, w),
        "number as data": (3.5, w),
        "2d weights": (x, np.ones((5, 3))),
        "series of text": (x, pd.Series(["a", "b", "c", "d", "e"])),
        "tuple of text": (x, ("a", "b", "c", "d", "e")),
    }
    if dim == 1:
        out["text data"] = (["a", "b", "c", "d", "e"], w)
        out["text data without weights"] = (["a", "b"], None)
        out["2d data"] = (np.ones((5, 3)), w)
    else:
        out["axes of different length"] = ((np.array(X), np.array(Y)[:3]), w)
        out["one axis"] = ((np.array(X),), w)
        out["text axis"] = ((np.array(X), ["a"] * 5), w)
        out["axes of different length without weights"] = ((np.array(X), np.array(Y)[:3]), None)
        out["ragged without weights"] = ((np.array(X)[:2], np.array(Y)), None)
    return out


def new(dim):
    from templatefitter.histograms import Hist1d, Hist2d
    if dim == 1:
        return Hist1d(np.array(E1[0])), ref.RHist(E1)
    return Hist2d([np.array(a) for a in E2]), ref.RHist(E2)


def data(dim, wrapx=lambda v: np.array(v)):
    return wrapx(X) if dim == 1 else (wrapx(X), wrapx(Y))


FAR = [-3.0, 7.5]


def far(dim):
    return np.array(FAR) if dim == 1 else (np.array(FAR), np.array(FAR))


def points(dim):
    return [(x,) for x in X] if dim == 1 else list(zip(X, Y))


def seam(dim):
    import templatefitter.histograms.hist1d as m1
    import templatefitter.histograms.hist2d as m2
    m, name = (m1, "binned_statistic") if dim == 1 else (m2, "binned_statistic_2d")
    return m, name


def do(acc, h, r, dim, op):
    """Returns False if an invalid fill was accepted (then nothing is claimed about the histogram)."""
    acc.op(*op)
    kind = op[0]
    before = (np.array(h.bin_counts), np.array(h.bin_errors_sq), h.is_empty)
    try:
        if kind == "fill":
            h.fill(data(dim), np.array(W))
        elif kind == "nfill":
            h.fill(data(dim), None)
        elif kind == "far":
            h.fill(far(dim), np.array([2.0, 3.0]))
        elif kind == "zero":
            h.fill(data(dim), np.zeros(len(X)))
        elif kind == "none":
            x = np.array([]) if dim == 1 else (np.array([]), np.array([]))
            h.fill(x, np.array([]) if op[1] else None)
        elif kind == "invalid":
            d, w = invalid(dim)[op[1]]
            h.fill(d, w)
        elif kind == "access":
            b = Budget(op[2])
            fx = (lambda v: Flaky(v, b)) if "x" in op[1] else (lambda v: np.array(v))
            w = Flaky(W, b) if "w" in op[1] else (None if op[1] == "xn" else np.array(W))
            h.fill(data(dim, fx), w)
            if b.k > 0:
                acc.outcome("failure point beyond the fill")
            r.fill(points(dim), None if w is None else W)
            compare(acc, h, r, "fill of an unusual sequence: ")
            return True
        elif kind == "call":
            m, name = seam(dim)
            real = getattr(m, name, None)
            if real is None:
                return True
            b = Budget(op[2])
            exc = op[3]

            def flaky(*a, **k):
                try:
                    b.use()
                except Fault:
                    raise exc("injected")
                return real(*a, **k)
            setattr(m, name, flaky)
            try:
                h.fill(data(dim), np.array(W))
            finally:
                setattr(m, name, real)
            r.fill(points(dim), W)
            compare(acc, h, r, "fill: ")
            return True
    except Exception as e:
        if kind in ("fill", "nfill", "far", "zero", "none"):
            raise
        acc.outcome(type(e).__name__)
        acc.eq(np.asarray(h.bin_counts), before[0], f"failed fill {op} changed the contents", 0, 0)
        acc.eq(np.asarray(h.bin_errors_sq), before[1], f"failed fill {op} changed the errors", 0, 0)
        acc.eq(bool(h.is_empty), bool(before[2]), f"failed fill {op} changed the empty flag")
        return True
    if kind == "fill":
        r.fill(points(dim), W)
    elif kind == "nfill":
        r.fill(points(dim))
    elif kind == "far":
        r.fill([(x,) * dim for x in FAR], [2.0, 3.0])
    elif kind == "zero":
        r.fill(points(dim), [0.0] * len(X))
    elif kind == "none":
        r.fill([], [])
    else:
        acc.outcome("accepted")
        return False
    compare(acc, h, r)
    return True


def run(acc, item):
    dim, ops = item
    h, r = new(dim)
    for op in ops:
        if not do(acc, h, r, dim, op):
            return
        acc.state((r.key(), op))


def run_constructor(acc, item):
    """Construction with data that cannot be filled must fail, not give a half-filled histogram."""
    from templatefitter.histograms import Hist1d, Hist2d
    dim, name = item
    d, w = invalid(dim)[name]
    if d is None:
        return
    acc.op("construct", name)
    try:
        h = Hist1d(np.array(E1[0]), data=d, weights=w) if dim == 1 else Hist2d([np.array(a) for a in E2], data=d, weights=w)
    except Exception as e:
        acc.outcome(type(e).__name__)
        return
    h2, _ = new(dim)
    try:
        h2.fill(d, w)
    except Exception:
        raise Mismatch(f"constructor accepts {name}, fill refuses it")
    acc.outcome("accepted")


def parts(tier, seed):
    deep = tier == "thorough"
    items = []
    for dim in (1, 2):
        ok = [("fill",), ("nfill",), ("far",), ("zero",), ("none", 0), ("none", 1)]
        bad = [("invalid", n) for n in invalid(dim)]
        bad += [("access", who, k) for who in ("x", "w", "xw", "xn") for k in range(1, 25 if deep else 13)]
        bad += [("call", "binning", k, exc) for k in (1, 2, 3, 4) for exc in (MemoryError, ValueError, RuntimeError)]
        items += [(dim, (a, b, c)) for a in ok for b in bad for c in ok]
        items += [(dim, (b, c)) for b in bad for c in ok]
        items += [(dim, (b, c, d)) for b in bad for c in bad for d in ok[:1]]
        if deep:
            items += [(dim, (a, b, c, d)) for a in ok for b in bad for c in bad for d in ok]
    return [
        Part("failing fills", items, run, "all sequences of valid and failing fills up to length 3 (thorough: 4), every failure point"),
        Part("failing constructors", [(d, n) for d in (1, 2) for n in invalid(d)], run_constructor, "every invalid argument"),
    ]
