"""F04: the process pool of profile scans is replaced by one whose schedule is enumerated: every assignment of points to
workers and every order of completion (workers are real forked processes with their own state, arguments are pickled as by the
real pool), compared bit by bit with one worker; every subset of points whose minimization fails, in three ways; every
combination of parameter, number of points, width, subtraction, minimizer on small models, with the points, the parabola
and every value compared with the reference minimizer; sequences of scans and fits with one fitter; and the real pool with
several numbers of processes."""
import contextlib
import itertools
import math

import numpy as np

from ..core import Part, plain
from ..fitmodels import make, near
from ..fitref import FitRef
from ..models import check_unchanged, snapshot
from ..pool import Schedule, controlled
from .f02 import check_profile


def fitter(p, minimizer):
    from templatefitter import TemplateFitter
    return TemplateFitter(p.m, minimizer)


@contextlib.contextmanager
def failing(index, values, mode):
    """minimizations that start with parameter `index` at one of `values` fail"""
    import templatefitter.minimizer as mm
    classes = [mm.ScipyMinimizer, mm.IMinuitMinimizer]
    real = [c.minimize for c in classes]

    def wrap(orig):
        def minimize(obj, *a, **k):
            first = a[0] if a else next(v for n, v in k.items() if n.startswith("initial"))
            hit = any(float(first[index]) == v for v in values)
            if hit and mode == "before":
                raise RuntimeError("scripted failure")
            res = orig(obj, *a, **k)
            if hit and mode == "after":
                raise RuntimeError("scripted failure")
            if hit and mode == "reported":
                res = res._replace(succes=False)
            return res
        return minimize
    for c, r in zip(classes, real):
        c.minimize = wrap(r)
    try:
        yield
    finally:
        for c, r in zip(classes, real):
            c.minimize = r


def scan(p, minimizer, param, schedule=None, f=None, **kw):
    f = f or fitter(p, minimizer)
    with (controlled(schedule) if schedule else contextlib.nullcontext()):
        return [np.array(v, dtype=float) for v in f.profile(param, **kw)]


# ------------------------------------------------------------------ arguments
def run_args(acc, item):
    name, minimizer, i, by, n, sigma, subtract, k = item
    p = make(name)
    p.update(near(name, k))
    before = snapshot(p)
    F, x0 = FitRef(p.r), p.r.x0()
    s = Schedule()
    param = p.r.names()[i] if by == "name" else i
    try:
        ref = fitter(p, minimizer).do_fit(update_templates=False, verbose=0)
    except RuntimeError:
        acc.outcome("minimizer reports failure")
        return
    if not ref.succes:
        acc.outcome("minimizer reports failure")
        return
    acc.op("profile", item)
    kw = {} if subtract == "default" else {"subtract_min": subtract}
    sub = subtract == "default" or subtract
    if n == 100:
        pts, val, par = scan(p, minimizer, param, s)
    else:
        pts, val, par = scan(p, minimizer, param, s, num_cpu=2, num_points=n, sigma=sigma, **kw)
    tag = f"{item}: "
    c, e = float(ref.params.values[i]), float(ref.params.errors[i])
    acc.eq([len(pts), len(val), len(par)], [n, n, n], tag + "lengths")
    acc.eq(pts, [c + (2 * q / (n - 1) - 1) * sigma * e for q in range(n)], tag + "points", 1e-6, 1e-6 * (abs(e) + 1e-3))
    acc.eq(par, [0.5 * ((x - c) / e) ** 2 + (0.0 if sub else float(ref.fcn_min_val)) for x in pts], tag + "parabola", 1e-5, 1e-6)
    check_profile(acc, F, x0, (pts, val, par), i, n, sigma, set(), {}, sub, minimizer, tag)
    acc.true(np.all(np.isnan(val) | (val >= (0.0 if sub else float(ref.fcn_min_val)) - 2e-3)), tag + "profile below the minimum", val)
    check_unchanged(acc, p, before, tag + "scan")
    acc.state(item)


# ------------------------------------------------------------------ schedules
def run_sched(acc, item):
    name, minimizer, i, n, workers, take, finish = item
    p = make(name)
    p.update(near(name))
    before = snapshot(p)
    kw = dict(num_points=n, sigma=2.0, subtract_min=True)
    base = scan(p, minimizer, i, Schedule(), num_cpu=1, **kw)
    acc.true(np.isfinite(base[1]).sum() >= n - 1, f"{item}: points succeed", base[1])
    s = Schedule(take=take, finish=finish, mode="fork")
    acc.op("scan with schedule", take, finish)
    got = scan(p, minimizer, i, s, num_cpu=workers, **kw)
    for w, a, b in zip(("points", "values", "parabola"), got, base):
        acc.eq(a, b, f"{item}: {w} depend on the schedule", 0, 0)
    check_unchanged(acc, p, before, "scan")
    acc.outcome(s.used)
    acc.state(item)


# ------------------------------------------------------------------ failing points
def run_fail(acc, item):
    name, minimizer, i, n, bad, mode, take = item
    p = make(name)
    p.update(near(name))
    before = snapshot(p)
    kw = dict(num_points=n, sigma=1.5, subtract_min=False)
    base = scan(p, minimizer, i, Schedule(), num_cpu=1, **kw)
    acc.true(np.all(np.isfinite(base[1])), f"{item}: points succeed", base[1])
    acc.op("scan with failing points", bad, mode)
    with failing(i, [float(base[0][k]) for k in bad], mode):
        got = scan(p, minimizer, i, Schedule(take=take, mode="fork" if take else "copy"), num_cpu=2, **kw)
    want = [math.nan if k in bad else float(v) for k, v in enumerate(base[1])]
    acc.eq(got[1], want, f"{item}: values", 0, 0)
    acc.eq(got[0], base[0], f"{item}: points", 0, 0)
    acc.eq(got[2], base[2], f"{item}: parabola", 0, 0)
    check_unchanged(acc, p, before, "scan")
    acc.state(item)


# ------------------------------------------------------------------ several scans with one fitter
def run_seq(acc, item):
    name, minimizer, ops = item
    p = make(name)
    p.update(near(name))
    f = fitter(p, minimizer)
    tag = f"{item}: "
    for k, o in enumerate(ops):
        acc.op(o)
        before = snapshot(p)
        F, x0 = FitRef(p.r), p.r.x0()
        if o[0] == "p":
            out = scan(p, minimizer, int(o[1]), Schedule(), f, num_cpu=2, num_points=3, sigma=1.0)
            fresh = scan(p, minimizer, int(o[1]), Schedule(), None, num_cpu=2, num_points=3, sigma=1.0)
            for w, a, b in zip(("points", "values", "parabola"), out, fresh):
                acc.eq(a, b, f"{tag}{k}: {w} differ from those of a new fitter", 1e-6, 1e-6)
            check_profile(acc, F, x0, out, int(o[1]), 3, 1.0, set(), {}, True, minimizer, tag)
            check_unchanged(acc, p, before, "scan")
        elif o == "fit":
            res = f.do_fit(update_templates=False, verbose=0, get_hesse=False)
            best = F.minimize(x0)
            acc.true(abs(res.fcn_min_val - best[0]) < 2e-3, f"{tag}{k}: fit after scans", res.fcn_min_val)
            acc.true(not np.any(np.asarray(res.params.values) == 0.125), tag)
        elif o == "data":
            p.add_data(**{c: [v + 6.0 for v in ch.data] for c, ch in p.r.ch.items()})
        elif o == "move":
            p.update(near(name, 2))
    acc.state(item)


# ------------------------------------------------------------------ the real pool
def run_real(acc, item):
    name, minimizer, i, n, cpus = item
    p = make(name)
    p.update(near(name))
    before = snapshot(p)
    kw = dict(num_points=n, sigma=2.0)
    base = scan(p, minimizer, i, Schedule(), num_cpu=1, **kw)
    for c in cpus:
        acc.op("real pool", c)
        ckw = {} if c is None else {"num_cpu": c}
        got = scan(p, minimizer, i, None, **ckw, **kw)
        for w, a, b in zip(("points", "values", "parabola"), got, base):
            acc.eq(a, b, f"{item}: {w} with {c} processes", 0, 0)
    check_unchanged(acc, p, before, "scan")
    acc.state(item)


def parts(tier, seed):
    deep = tier == "thorough"
    both = ("scipy", "iminuit")
    args = []
    for name in ("f1", "f2", "f0") + (("f3", "f4") if deep else ()):
        n = make(name).r.npar()
        for mi in both:
            for i in range(n):
                for np_, sg in ((2, 1.0), (3, 2.0), (4, 0.5)) + (((5, 3.0), (8, 1.5)) if deep else ()):
                    for sub in (True, False, "default"):
                        if name != "f1" and not deep and (np_ == 4 or (sub == "default") or (mi == "scipy" and sub)):
                            continue
                        args.append((name, mi, i, ("name", "index")[(i + np_) % 2], np_, sg, sub, i % 2))
    args += [("f1", mi, i, "name", n, 2.0, True, 0) for mi in both for n, i in ((6, 0), (7, 1), (10, 0), (11, 0), (15, 2), (20, 0))]
    args.append(("f1", "iminuit", 0, "name", 100, 2.0, "default", 0))    # the defaults
    sched = []
    perms = list(itertools.permutations(range(3)))
    for name, mi, i in (("f1", "iminuit", 0), ("f2", "iminuit", 1), ("f2", "scipy", 0)):
        for take in itertools.product(range(2), repeat=3):
            for fin in perms:
                sched.append((name, mi, i, 3, 2, take, fin))
        if deep:
            for take in itertools.product(range(3), repeat=4):
                for fin in itertools.permutations(range(4)):
                    sched.append((name, mi, i, 4, 3, take, fin))
        # many points per worker, so that pools that hand out several points at once share their objects
        for take in itertools.product(range(2), repeat=3 if not deep else 6):
            sched.append((name, mi, i, 17, 2, take, (2, 0, 1)))
        for n in (45, 101):
            sched += [(name, mi, i, n, w, tuple(range(w)), f) for w in (1, 3) for f in (tuple(range(n))[::-1], tuple((7 * k + 3) % n for k in range(n)))]
    fail = []
    for name, mi, i in (("f1", "scipy", 0), ("f2", "iminuit", 1), ("f1", "iminuit", 2)):
        n = 4 if not deep else 5
        for r in range(n + 1):
            for bad in itertools.combinations(range(n), r):
                for mode in ("before", "after", "reported"):
                    for take in (None, (0, 1, 0, 1), (0, 0, 0, 0)):
                        fail.append((name, mi, i, n, bad, mode, take))
    ops = ["p0", "p1", "p2", "fit", "data", "move"]
    seqs = [("f2", "iminuit", s) for k in (2, 3) + ((4,) if deep else ()) for s in itertools.product(ops, repeat=k)
            if s[0] not in ("data", "move") and s[-1] in ("p0", "p1", "p2", "fit")]
    seqs += [("f1", "scipy", s) for s in itertools.product(ops, repeat=2) if s[-1][0] in "pf"]
    real = [(name, mi, 0, n, c) for name, mi in (("f1", "iminuit"), ("f1", "scipy"), ("f2", "iminuit"))
            for n, c in ((2, (1, 4)), (5, (2, None)), (9, (3, 8)))]
    return [Part("arguments", args, run_args, "all parameters, numbers of points, widths, both minimizers"),
            Part("schedules", sched, run_sched, "every assignment of 3 points to 2 workers and completion order" +
                 (", 4 points to 3 workers" if deep else "")),
            Part("failing points", fail, run_fail, "every subset of 4 points, 3 kinds of failure"),
            Part("sequences", seqs, run_seq, "all sequences of 2 and 3 operations with one fitter"),
            Part("real pool", real, run_real, "1, 2, 3, 4, 8 processes", serial=False)]
