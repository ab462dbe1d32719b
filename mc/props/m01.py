"""M01: exhaustive lattices.  (1) for small models every combination of data contents, yields, nuisance parameters and
efficiencies from fixed value sets; (2) every model of a catalogue (1 to 3 processes, 1 to 3 channels, 1D and 2D,
variations, covariances, constraints, empty bins) at every point of a lattice of parameter vectors and every pattern of
empty data bins; (3) every sequence of constraints.  Each value of the real likelihood is compared with the sum formula
evaluated by the reference in plain Python; along the way input vectors must stay unmodified."""
import itertools
import math

import numpy as np

from ..core import Part
from ..models import CATALOGUE, LARGE, Pair, build, check_all, nbins

DATA = [0.0, 1e-4, 1.0, 2.5, 40.0]
YIELD = [0.0, 0.5, 12.0, 300.0]
NUI = [-1.5, 0.0, 0.75]


def value(acc, p, n, x, what, exp=None):
    """compares one value unless an expectation is negative (outside the property)"""
    ex = exp or p.r.expected(x)
    for c in ex.values():
        if any(v < 0 for v in c):
            acc.outcome("negative expectation, not compared")
            return None
    v = np.array(x, dtype=float)
    acc.step()
    got = float(n(v))
    want = p.r.nll(x)
    acc.eq(got, want, what, 1e-9, 1e-10 * (1 + sum(sum(c.data) for c in p.r.ch.values()) + sum(map(sum, ex.values()))))
    acc.eq(v, x, what + ": vector modified", 0, 0)
    acc.outcome("infinite" if math.isinf(want) else ("zero" if abs(want) < 1e-12 else "finite"))
    return got


def run_small(acc, item):
    """one process, one channel of n bins, every point of the lattice."""
    n, counts, err2, eff, var, data = item
    p = Pair()
    p.process("a")
    p.channel("u", (n,))
    p.template("u", "a", counts=list(counts), err2=list(err2), eff=eff)
    if var is not None:
        p.variation("u", "a", var)
    p.add_data(u=list(data))
    f = p.m.create_nll()
    acc.op("model", item)
    for y in YIELD:
        for nui in itertools.product(NUI, repeat=n):
            value(acc, p, f, [y] + list(nui), f"likelihood at yield {y}, nuisance {nui}")
    acc.state(p.r.key())


def run_two(acc, item):
    """two processes in two channels of one and two bins, every point of the lattice."""
    effs, order, var, data, constr = item
    p = Pair()
    for q in order:
        p.process(q)
    p.channel("u", (2,))
    p.channel("v", (1,))
    p.template("u", "b", 1, effs[0])
    p.template("u", "a", 2, effs[1])
    p.template("v", "a", 3, effs[2])
    if var:
        p.variation("u", "a", 1)
        p.variation("u", "b", 3)
    if constr:
        p.constraint("b", 10.0, 2.0)
    p.add_data(u=list(data[:2]), v=[data[2]])
    f = p.m.create_nll()
    acc.op("model", item)
    for y in itertools.product([0.0, 3.0, 50.0], repeat=2):
        for nui in itertools.product([-0.8, 0.0, 1.2], repeat=3):
            full = [nui[0], nui[1], nui[2], -nui[0], nui[1] + 0.1]
            value(acc, p, f, list(y) + full, f"likelihood at {y}, {full}")
    acc.state(p.r.key())


def lattice(p, deep):
    """points around which everything is moved one and two parameters at a time"""
    n, k = p.r.npar(), len(p.r.procs)
    base = p.point(1)
    pts = [p.point(s) for s in range(5)]
    pts.append([0.0] * k + [0.0] * (n - k))
    pts += [base[:k] + [v * (1 + 0.1 * i) for i in range(n - k)] for v in (3e-3, -1e-4)]
    for i in range(n):
        for v in ([0.0, 1e-6, 2.0, 77.0, 1e5] if i < k else [-1.3, 0.0, 0.4, 2.1, -7.0, 30.0]):
            x = list(base)
            x[i] = v
            pts.append(x)
    for i, j in itertools.combinations(range(n), 2):
        x = list(base)
        x[i] = 6.0 if i < k else 1.1
        x[j] = 8.0 if j < k else -0.6
        pts.append(x)
    return pts


def run_catalogue(acc, item):
    cfg, zeros, scale = item
    spec = dict(CATALOGUE[cfg], data=None)
    p = build(spec)
    data = {}
    k = 0
    for ch, (shape, _, _) in p.geo.items():
        data[ch] = []
        for i in range(nbins(shape)):
            data[ch].append(0.0 if (zeros >> k) & 1 else scale * (2.0 + (5 * k + 3) % 7))
            k += 1
    p.add_data(**data)
    f = p.m.create_nll()
    acc.op("model", item)
    for x in lattice(p, False):
        value(acc, p, f, x, f"likelihood at {x}")
    acc.state(p.r.key())


def run_expected(acc, item):
    """data equal or nearly equal to the expectation: no cancellation allowed"""
    cfg, seed, rel = item
    p = build(dict(CATALOGUE[cfg], data=None, constr=()))
    x = p.point(seed)
    if seed < 0:
        x = p.point(0)
    x = [v * 1000.0 if i < len(p.r.procs) else v for i, v in enumerate(x)]
    ex = p.r.expected(x)
    p.add_data(**{c: [v * (1.0 + rel * (1 if i % 2 else -0.5)) for i, v in enumerate(vs)] for c, vs in ex.items()})
    f = p.m.create_nll()
    acc.op("model", item)
    v = np.array(x)
    acc.eq(float(f(v)), p.r.nll(x), f"likelihood of data at 1+{rel} of the expectation", 1e-6, 1e-11 * sum(map(sum, ex.values())))
    acc.state(p.r.key())


def run_constraints(acc, item):
    cfg, seq, moment = item
    p = build(CATALOGUE[cfg])
    if any(q < 0 for q, _, _ in seq):
        p.process("idle")     # has no template
    f = p.m.create_nll() if moment == "before" else None
    for q, v, e in seq:
        acc.op("constraint", q, v, e)
        p.constraint("idle" if q < 0 else p.r.procs[q % len(p.r.procs)], v, e)
        if moment == "between":
            value(acc, p, p.m.create_nll(), p.point(1), f"likelihood after constraint {q, v, e}")
    f = f or p.m.create_nll()
    for s in range(4):
        value(acc, p, f, p.point(s), f"likelihood after constraints {seq} at point {s}")
    acc.state(p.r.key())


def run_large(acc, item):
    """many processes, channels, bins or variations: single and paired moves of the parameters"""
    cfg, seed, step = item
    p = build(LARGE[cfg])
    acc.op("model", item)
    check_all(acc, p, (0, 1), f"{cfg}: ")
    f = p.m.create_nll()
    x = p.point(seed)
    for i in range(seed % 2, len(x), step):
        v = list(x)
        v[i] += 0.3
        v[-1 - i // 2] -= 0.2
        value(acc, p, f, v, f"{cfg}: likelihood, parameter {i} of point {seed} moved")
    p.update(x)
    check_all(acc, p, (2,), f"{cfg} at point {seed}: ")


def parts(tier, seed):
    deep = tier == "thorough"
    small = []
    shapes = {1: [((3.0,), (2.0,)), ((0.0,), (0.0,))],
              2: [((2.0, 5.0), (1.0, 7.0)), ((0.0, 4.0), (0.0, 3.0)), ((3.0, 0.0), (2.0, 0.5)), ((0.0, 0.0), (0.0, 0.0))],
              3: [((2.0, 0.0, 3.5), (1.0, 0.0, 2.0)), ((1.0, 6.0, 2.0), (0.5, 3.0, 2.5))]}
    if deep:
        shapes[4] = [((2.0, 0.0, 3.5, 8.0), (1.0, 0.0, 2.0, 4.0)), ((1.0, 6.0, 2.0, 0.25), (0.5, 3.0, 2.5, 0.1))]
    for n, cs in shapes.items():
        for c, e in cs:
            for eff in (1.0, 0.4, 0.0):
                for var in (None, 1):
                    if var is not None and sum(x == 0 for x in c) > 1:
                        continue
                    for d in itertools.product(DATA, repeat=n):
                        small.append((n, c, e, eff, var, d))
    two = [(effs, order, var, d, con) for effs in ((1.0, 1.0, 1.0), (0.6, 0.3, 0.2), (0.0, 1.0, 0.5), (0.0, 0.0, 0.0))
           for order in (("a", "b"), ("b", "a")) for var in (False, True) for con in (False, True)
           for d in itertools.product([0.0, 2e-5, 1.0, 2.5, 40.0] if deep else [0.0, 1e-3, 1.5, 40.0], repeat=3)]
    cat = []
    for cfg, spec in CATALOGUE.items():
        n = sum(nbins(s) for _, s, _ in spec["chans"])
        masks = range(2 ** n) if (deep or n <= 5) else sorted({0, 2 ** n - 1} | {1 << i for i in range(n)} | {3 << i for i in range(n - 1)})
        cat += [(cfg, z, s) for z in masks for s in ((1.0, 100.0, 0.3, 1e-4, 1e6) if deep else (1.0, 100.0, 1e-4))]
    exp = [(cfg, s, r) for cfg in CATALOGUE for s in range(5) for r in (0.0, 1e-13, 1e-10, 1e-8, 1e-6, 1e-4, 1e-2, 0.3)]
    cons = [(0, 10.0, 2.0), (0, 14.0, 1.0), (1, 25.0, 4.0), (1, 9.0, 0.5), (2, 6.0, 3.0), (0, 0.0, 4.0), (1, -3.0, 0.01)]
    cs = [(cfg, s, mo) for cfg in ("one", "two", "mixed", "three") for d in range(0, 5 if deep else 4)
          for s in itertools.product(cons, repeat=d) for mo in ("before", "between", "after")]
    tight = [(0, 6.0, 1e-4), (1, 9.0, 1e-6), (0, 8.0, 1e5), (1, 2e4, 3e-9), (2, 0.5, 7e8)]
    cs += [(cfg, s, mo) for cfg in ("one", "two", "mixed", "three") for d in (1, 2)
           for s in itertools.product(tight + cons[:1], repeat=d) for mo in ("before", "between", "after")]
    idle = [(-1, 4.0, 2.0), (0, 10.0, 2.0), (1, 9.0, 0.5)]
    cs += [(cfg, s, mo) for cfg in ("one", "two", "mixed", "three") for d in (1, 2, 3)
           for s in itertools.product(idle, repeat=d) if any(q < 0 for q, _, _ in s) for mo in ("before", "between", "after")]
    return [
        Part("small lattice", small, run_small, "1-3 bins (4 thorough): all combinations of 4 data values per bin, 4 yields, 3 nuisance values per bin, 2 efficiencies"),
        Part("two processes", two, run_two, "all combinations of efficiencies, orders, data, yields and nuisance values"),
        Part("catalogue", cat, run_catalogue, "every model of the catalogue, patterns of empty bins, all one- and two-parameter moves"),
        Part("near the expectation", exp, run_expected, "relative deviations 0 to 0.3"),
        Part("large models", [(c, s, 1 if deep else 5) for c in LARGE for s in range(4)], run_large, "up to 13 processes, 17 channels, 132 bins, 40 variations"),
        Part("constraints", cs, run_constraints, "all sequences of up to 3 (4) constraints"),
    ]
