"""F05: the significance of every process of small models for every data set of a lattice of counts (including deficits, no
signal, vanishing and huge signals), several starting points (negative and zero yields among them), nuisance switches and
held parameters, bounds of the yield in question and of others, both minimizers, against the reference minimizer; plus every pair of failing minimizations, and sequences of
significances, fits and changes with one fitter.  The model must be unchanged after each."""
import itertools
import math

import numpy as np

from ..core import Part
from ..fitmodels import SPEC, make, near
from ..fitref import FitRef
from ..models import check_unchanged, snapshot
from .f02 import run_bounds


def significance(p, minimizer, q, f=None, **kw):
    from templatefitter import TemplateFitter
    return (f or TemplateFitter(p.m, minimizer)).get_significance(q, verbose=0, **kw)


def reference(F, x0, i, hold):
    """(significance, fitted yield) or None if the reference is not sure"""
    a = F.minimize(x0, hold)
    y = np.array(a[1] if a else x0)
    y[i] = 0.0
    b = F.minimize(y, set(hold) | {i})
    if a is None or b is None:
        return None
    alt = F.minimize(np.array([abs(v) + 1 for v in x0[:len(F.r.procs)]] + [0.0] * (F.n - len(F.r.procs))), hold)
    if not hold and (alt is None or abs(alt[0] - a[0]) > 1e-4):
        return None
    return math.sqrt(max(0.0, 2 * (b[0] - a[0]))), float(a[1][i])


def compare(acc, F, x0, s, i, hold, tag, tol=(0.005, 1e-5)):
    want = reference(F, x0, i, hold)
    acc.true(s >= 0, tag + "significance negative or undefined", s)
    if want is None:
        acc.outcome("no reference")
        return
    w, y = want
    if math.isinf(w):
        acc.true(math.isinf(s), f"{tag}significance {s} instead of infinity", s)
        return
    if y < 0:
        cov = F.cov(F.minimize(x0, hold)[1], hold)
        if y < -0.05 * math.sqrt(cov[i, i]):
            acc.true(s == 0, f"{tag}significance {s} for the negative yield {y}", s)
            acc.outcome("negative yield")
            return
        w = 0.0
    acc.true(abs(float(s) ** 2 - w ** 2) <= tol[0] + tol[1] * w ** 2, f"{tag}significance {s} instead of {w} (yield {y})", s)
    acc.outcome("compared")


def call(acc, fn):
    try:
        return fn()
    except RuntimeError:
        acc.outcome("minimizer reports failure")
        return None


def run(acc, item):
    name, data, q, minimizer, start, mode = item
    chans = SPEC[name][1]
    d, pos = {}, 0
    for ch, (shape, _) in chans.items():
        n = int(np.prod(shape))
        d[ch] = list(map(float, data[pos:pos + n]))
        pos += n
    p = make(name, d)
    x = near(name, 0 if start == "data" else abs(start))
    if start == "data":     # yields that add up to the number of events
        ny, total = len(p.r.procs), sum(data)
        x[:ny] = [v * total / sum(x[:ny]) for v in x[:ny]]
        x[ny:] = [0.0] * (len(x) - ny)
    if start == -1:
        x[q] = 0.0
    p.update(x)
    F, x0 = FitRef(p.r), p.r.x0()
    ny = len(p.r.procs)
    before = snapshot(p)
    kw, hold = {}, set()
    if mode == "nui":
        kw, hold = {"fix_nui_params": True}, set(range(ny, F.n))
    acc.op("significance", item)
    s = call(acc, lambda: significance(p, minimizer, p.r.procs[q], **kw))
    if s is not None:
        compare(acc, F, x0, s, q, hold, f"{item}: ", (0.7, 0.005) if start == "data" else (0.005, 1e-5))
    check_unchanged(acc, p, before, "significance")
    acc.state(item)


def run_fail(acc, item):
    """a failing minimization gives an error and changes nothing"""
    name, minimizer, which, mode = item
    import templatefitter.minimizer as mm
    p = make(name)
    p.update(near(name))
    before = snapshot(p)
    classes = [mm.ScipyMinimizer, mm.IMinuitMinimizer]
    real = [c.minimize for c in classes]
    count = [0]

    def wrap(orig):
        def minimize(obj, *a, **k):
            count[0] += 1
            hit = count[0] in which
            if hit and mode == "before":
                raise RuntimeError("scripted failure")
            res = orig(obj, *a, **k)
            if hit and mode == "after":
                raise RuntimeError("scripted failure")
            return res._replace(succes=False) if hit else res
        return minimize
    for c, r in zip(classes, real):
        c.minimize = wrap(r)
    try:
        acc.op("significance", item)
        s = call(acc, lambda: significance(p, minimizer, p.r.procs[1]))
    finally:
        for c, r in zip(classes, real):
            c.minimize = r
    acc.true(count[0] > 0, "a minimization took place")
    if any(w <= count[0] for w in which):
        acc.true(s is None, f"{item}: a failed minimization was used", s)
    else:
        compare(acc, FitRef(p.r), p.r.x0(), s, 1, set(), f"{item}: ")
    check_unchanged(acc, p, before, "significance")
    acc.state(item)


def run_seq(acc, item):
    from templatefitter import TemplateFitter
    name, minimizer, ops = item
    p = make(name)
    p.update(near(name))
    f = TemplateFitter(p.m, minimizer)
    hold = set()
    ny = len(p.r.procs)
    for k, o in enumerate(ops):
        acc.op(o)
        F, x0, before = FitRef(p.r), p.r.x0(), snapshot(p)
        if o[0] == "s":
            i = int(o[1])
            h = set(hold) | (set(range(ny, F.n)) if o.endswith("n") else set())
            s = call(acc, lambda: significance(p, minimizer, p.r.procs[i], f, fix_nui_params=o.endswith("n")))
            if s is not None:
                compare(acc, F, x0, s, i, h, f"{item} {k}: ")
            check_unchanged(acc, p, before, "significance")
        elif o == "fit":
            res = call(acc, lambda: f.do_fit(verbose=0, get_hesse=False))
            if res is not None:
                p.r.update([float(v) for v in res.params.values])
        elif o == "less":
            p.add_data(**{c: [v * 0.55 + 2 * i for i, v in enumerate(ch.data)] for c, ch in p.r.ch.items()})
        elif o == "neg":
            x = p.r.x0()
            x[1] = -0.5
            p.update(x)
        elif o == "hold":
            f.set_parameter_fixed(ny)
            hold.add(ny)
    acc.state(item)


def parts(tier, seed):
    deep = tier == "thorough"
    both = ("scipy", "iminuit")
    lat = []
    for name, counts in (("f2", [12, 30, 75, 300] if not deep else [0, 6, 12, 20, 30, 75, 300]), ("f3", [20, 60]), ("f0", [25, 40, 65])):
        nb = sum(int(np.prod(s)) for s, _ in SPEC[name][1].values())
        for d in itertools.product(counts, repeat=nb):
            for q in range(len(SPEC[name][0])):
                for mi in both:
                    for st in (0, 1, -1):
                        if not deep and (st == 1 and name != "f2" or mi == "scipy" and st == -1 and q):
                            continue
                        lat.append((name, d, q, mi, st, "all"))
                    lat.append((name, d, q, mi, 2, "nui"))
    # many events
    for d in itertools.product([400, 3000, 12000], repeat=2):
        lat += [("f2", d, q, mi, "data", mode) for q in range(2)
                for mi, mode in (("iminuit", "all"), ("iminuit", "nui"), ("scipy", "nui"))]
    fail = [(name, mi, w, mode) for name in ("f2", "f3") for mi in both for w in ((), (1,), (2,), (1, 2), (3,))
            for mode in ("before", "after", "reported")]
    ops = ["s0", "s1", "s1n", "fit", "less", "neg", "hold"]
    seqs = [("f2", "iminuit", s) for k in (2, 3) + ((4,) if deep else ()) for s in itertools.product(ops, repeat=k) if s[-1][0] == "s"]
    seqs += [("f3", "scipy", s) for s in itertools.product(ops, repeat=2) if s[-1][0] == "s"]
    bnd = [(name, mi, (q, o), w, f"sig{q}", k) for name in ("f2", "f3", "f0") + (("f4",) if deep else ()) for mi in both
           for q in range(len(SPEC[name][0])) for o in range(len(SPEC[name][0]) + 2) if o != q
           for w in itertools.product(range(5), range(5) if deep else (0, 3)) for k in range(3 if deep else 1)]
    return [Part("data lattice", lat, run, "all combinations of counts, all processes, several starts, both minimizers"),
            Part("bounds", bnd, run_bounds, "every process, 5 kinds of bounds of its yield and of another parameter"),
            Part("failing minimizations", fail, run_fail, "every subset of minimizations"),
            Part("sequences", seqs, run_seq, "all sequences of 2 and 3 operations with one fitter")]
