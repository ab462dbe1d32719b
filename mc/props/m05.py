"""M05: every model of the catalogue in every state reached by all sequences up to the stated depth of parameter changes,
variations and resets: the Asimov data (plain and rounded) are compared bin by bin with the reference, are put into the
model (and into an equal second model) and the likelihood is evaluated at the generating parameters and at all points of a
lattice around them (all one- and two-parameter moves by several step sizes); after further changes of the model, and of
the data set itself, the other side must be as before."""
import itertools

import numpy as np

from ..core import Part
from .. import models, ref
from ..models import CATALOGUE, LARGE, build, check_all, make_edges, nbins

MODELS = {k: dict(v, data=None) for k, v in CATALOGUE.items()}
LARGE_ = {k: dict(v, data=None) for k, v in LARGE.items()}
MODELS["deep"] = dict(procs=["a"], chans=[("u", (3, 4), [("a", 1, 1.0, (0, 5))])])
MODELS["narrow"] = dict(procs=["a", "b"], chans=[("u", (1,), [("a", 1, 1.0, ())]), ("v", (1, 1), [("b", 1, 1.0, ())])])
MODELS["hollow"] = dict(procs=["a", "b"], chans=[("u", (3,), [("a", 1, 1.0, (0, 1, 2)), ("b", 2, 1.0, (1,))])])


def apply(p, op):
    if op[0] == "vector":
        p.update(p.point(op[1]))
    elif op[0] == "set":
        p.set_yield(p.r.procs[op[1] % len(p.r.procs)], op[2])
    elif op[0] == "reset":
        p.reset()
    elif op[0] == "vary":
        ok = [k for k in p.tm if p.r.ch[k[0]].t[k[1]].counts.count(0.0) < 2]
        if ok:
            ch, q = ok[op[1] % len(ok)]
            p.variation(ch, q, op[2])
    elif op[0] == "one":
        ch, q = list(p.tm)[op[1] % len(p.tm)]
        p.t_yield(ch, q, op[2])


def compare(acc, p, ds, what, whole):
    acc.eq(list(ds), list(p.r.ch), what + "channels")
    for name, c in p.r.ch.items():
        shape, _, edges = p.geo[name]
        want = c.total()
        got = np.asarray(ds[name].bin_counts)
        acc.eq(list(got.shape), list(shape), f"{what}{name} shape")
        if whole:
            for g, w in zip(got.ravel().tolist(), want):
                acc.true(g == round(g) and abs(g - w) <= 0.5 + 1e-9 + 1e-12 * abs(w), f"{what}{name}: {g} is not {w} rounded")
        else:
            acc.eq(got.ravel(), want, f"{what}{name} contents", 1e-9, 1e-10)
        acc.eq(np.asarray(ds[name].bin_errors_sq), got, f"{what}{name} squared errors", 1e-9, 1e-10)
        acc.eq(np.asarray(ds[name].bin_errors), np.sqrt(got), f"{what}{name} errors", 1e-9, 1e-10)
        e = ds[name].bin_edges
        acc.eq(e if len(shape) > 1 else [np.asarray(e).tolist()], edges, f"{what}{name} edges", 1e-12, 1e-12)
        acc.eq(list(ds[name].shape), list(shape), f"{what}{name} histogram shape")
        acc.true(type(ds[name]).__name__ == f"Hist{len(shape)}d", f"{what}{name} type")


def put(acc, p, ds, what):
    p.m.add_data(**ds)
    for name in ds:
        p.r.ch[name].data = np.asarray(ds[name].bin_counts).ravel().tolist()
        p.data[name] = ds[name]
    acc.op("add_data", what)


def run(acc, item):
    cfg, ops = item
    p = build({**MODELS, **LARGE_}[cfg])
    for op in ops:
        acc.op(*op)
        apply(p, op)
    what = f"{cfg} {ops} "
    plain = p.m.generate_asimov_dataset()
    whole = p.m.generate_asimov_dataset(integer_values=True)
    again = p.m.generate_asimov_dataset(False)
    acc.step(3)
    compare(acc, p, plain, what, False)
    compare(acc, p, again, what, False)
    compare(acc, p, whole, what + "rounded ", True)
    check_all(acc, p, (), what)          # generating changed nothing
    acc.outcome([sum(c.total()) for c in p.r.ch.values()])
    # used as data
    put(acc, p, whole, "rounded")
    check_all(acc, p, (0, 1), what + "with rounded data: ")
    put(acc, p, plain, "plain")
    check_all(acc, p, (0, 1), what + "with Asimov data: ")
    twin = build({**MODELS, **LARGE_}[cfg])
    twin.m.add_data(**again)
    # independence of later changes of the model
    keep = {n: np.array(h.bin_counts) for n, h in again.items()}
    p.update(p.point(3))
    p.set_yield(p.r.procs[0], 999.0)
    ok = [k for k in p.tm if p.r.ch[k[0]].t[k[1]].counts.count(0.0) < 1]
    if ok:
        p.variation(*ok[0], 2)
    p.reset()
    for n, h in again.items():
        acc.eq(h.bin_counts, keep[n], what + f"{n} changed with the model", 0, 0)
    check_all(acc, p, (0, 1), what + "after later changes: ")
    # changing one data set changes nothing else
    before = {n: np.array(h.bin_counts) for n, h in plain.items()}
    for n, h in again.items():
        pts = models.centres(p.geo[n][2])
        h.fill(np.array(pts[0]) if len(pts) == 1 else tuple(np.array(x) for x in pts), np.ones(len(pts[0])))
        acc.eq(plain[n].bin_counts, before[n], what + f"{n}: data sets share contents", 0, 0)
    models.check_templates(acc, p, what + "after filling a data set: ")


def run_min(acc, item):
    cfg, point = item
    p = build(dict(MODELS[cfg], constr=()))
    # a state with all nuisance parameters at zero is where the penalty is lowest too
    x = list(p.r.x0())
    sums = [sum(c.eff.get(q, 0.0) for c in p.r.ch.values()) for q in p.r.procs]
    if point:
        k = len(p.r.procs)
        x = p.point(point)[:k] + [0.0] * (len(x) - k)
    p.update(x)
    if not point and any(abs(s - 1) > 1e-9 for s in sums):
        acc.outcome("start vector is not the generating one")
    put(acc, p, p.m.generate_asimov_dataset(), "asimov")
    f = p.m.create_nll()
    tol = 1e-9 * p.r.scale()
    best = float(f(np.array(x)))
    acc.eq(best, 0.0, f"{cfg}: likelihood at the generating parameters", 0, tol)
    n, k = len(x), len(p.r.procs)
    moves = [(i, d) for i in range(n) for d in ((0.5, -0.5, 1e-3, -1e-3, 3.0) if i >= k else (1.0, -0.5, 1e-3, -1e-3, 40.0))]
    for pair in itertools.chain(((m,) for m in moves), itertools.combinations(moves, 2) if n <= 12 else ()):
        y = list(x)
        for i, d in pair:
            y[i] += d * (max(1.0, abs(x[i])) if i < k else 1.0)
        if any(v < 0 for c in p.r.expected(y).values() for v in c):
            continue
        acc.step()
        v = float(f(np.array(y)))
        acc.true(v >= -tol, f"{cfg}: likelihood {v} below the one of the generating parameters at {y}", v)
    acc.state(p.r.key())


def parts(tier, seed):
    deep = tier == "thorough"
    ops = [("vector", 1), ("vector", 2), ("set", 0, 12.25), ("set", 1, 0.0), ("reset",), ("vary", 0, 1), ("vary", 1, 3), ("one", 0, 55.5), ("set", 0, 98765.4321)]
    n = 4 if deep else 3
    # sizes at which rounding could go wrong
    items = [(cfg, (("vector", 1), ("set", 0, 0.1 * 1.7 ** k), ("set", 1, 1e7 * 0.6 ** k))) for cfg in MODELS for k in range(40)]
    items += [(cfg, (("vector", 1), ("set", 0, 10.0 ** -k), ("set", 1, 3.0 * 10.0 ** -k))) for cfg in MODELS for k in range(9)]
    items += [(cfg, (("vector", 1), ("set", 0, f * 10.0 ** k), ("set", 1, 0.75 * 10.0 ** k))) for cfg in MODELS for k in range(8, 15) for f in (1.0, 4.3)]
    items += [(cfg, s) for cfg in MODELS for d in range(0, n + 1) for s in itertools.product(ops, repeat=d)
             if d < n or deep or cfg in ("swap", "chan2", "flat2", "same")]
    items += [(cfg, s) for cfg in LARGE_ for s in [()] + [(o,) for o in ops[:4]]]
    mins = [(cfg, k) for cfg in MODELS for k in range(0, 6 if deep else 4)]
    return [Part("Asimov data of every state", items, run, f"all sequences of up to {n} of {len(ops)} changes"),
            Part("minimum at the generating parameters", mins, run_min, "all one- and two-parameter moves by 5 step sizes")]
