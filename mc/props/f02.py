"""F02: every subset of fixed parameters of small well-conditioned models, given by name, by index or mixed with repetitions,
every way of fixing all nuisance parameters, every assignment of bounds (none, loose, lower active, upper active, interval) to
pairs of parameters, and every sequence (up to the bound) of fixing, bounding, switching, moving the model and evaluating with
one fitter, for fits, profile scans and significances with both minimizers.  Every result is compared with the reference
minimizer over the remaining free parameters: held values, bounds, minimum, parameters, covariance and correlation with zero
entries for held ones."""
import itertools
import math

import numpy as np

from ..core import Part
from ..fitmodels import SPEC, make, near
from ..fitref import FitRef
from ..pool import Schedule, controlled

TOL_F = {"scipy": 1e-3, "iminuit": 1e-3}


def fitter(p, minimizer):
    from templatefitter import TemplateFitter
    return TemplateFitter(p.m, minimizer)


def give(f, names, i, style):
    """fixes parameter i by name, index, or both"""
    if style in (0, 2, 3):
        f.set_parameter_fixed(names[i])
    if style in (1, 2, 4):
        f.set_parameter_fixed(i)
    if style == 3:
        f.set_parameter_fixed(names[i])


def inside(x, bounds):
    return all((lo is None or x[i] >= lo - 1e-8 * max(1, abs(lo))) and (hi is None or x[i] <= hi + 1e-8 * max(1, abs(hi)))
               for i, (lo, hi) in bounds.items())


def check_fit(acc, F, x0, res, fixed, bounds, minimizer, tag):
    """compares the result of a fit from x0"""
    fixed = set(fixed)
    x = np.asarray(res.params.values, dtype=float)
    f = float(res.fcn_min_val)
    acc.eq(len(x), F.n, tag + "number of parameters")
    for i in fixed:
        acc.true(abs(x[i] - x0[i]) <= 1e-6 * max(1.0, abs(x0[i])), f"{tag}fixed parameter {i} moved from {x0[i]} to {x[i]}", x[i])
    acc.true(inside(x, bounds), f"{tag}bounds {bounds} violated", x)
    acc.eq(f, F.f(x), tag + "reported minimum and likelihood at the reported parameters", 1e-9, 1e-7)
    best = F.minimize(x0, fixed, bounds)
    if best is None:
        acc.outcome("no reference")
        return None
    fmin, xmin = best
    # minuit approaches active bounds asymptotically
    tol = 0.02 if bounds and minimizer == "iminuit" else TOL_F[minimizer]
    acc.true(f <= fmin + tol, f"{tag}minimum {f} above {fmin} at {xmin.tolist()}", f)
    acc.true(f >= fmin - 1e-5, f"{tag}minimum {f} below what is possible: {fmin}", f)
    c, r, e = (np.asarray(v, dtype=float) for v in (res.params.covariance, res.params.correlation, res.params.errors))
    acc.eq([c.shape, r.shape, e.shape], [(F.n, F.n), (F.n, F.n), (F.n,)], tag + "shapes")
    for i in fixed:
        acc.eq(float(e[i]), 0.0, f"{tag}uncertainty of fixed parameter {i}", 0, 1e-12)
        for m, w in ((c, "covariance"), (r, "correlation")):
            acc.eq(m[i].tolist(), [0.0] * F.n, f"{tag}{w} row of fixed parameter {i}", 0, 1e-12)
            acc.eq(m[:, i].tolist(), [0.0] * F.n, f"{tag}{w} column of fixed parameter {i}", 0, 1e-12)
    act = [i for i, (lo, hi) in bounds.items() if (lo is not None and xmin[i] - lo < 0.3 * abs(lo) + 0.3) or
           (hi is not None and hi - xmin[i] < 0.3 * abs(hi) + 0.3)]
    if act:
        acc.outcome("bounds near the minimum")
        return fmin
    cov = F.cov(xmin, fixed)
    sig = np.sqrt(np.diag(cov))
    free = [i for i in range(F.n) if i not in fixed]
    et = 0.02 if not bounds else 0.05
    for i in free:
        acc.true(abs(x[i] - xmin[i]) <= 0.03 * sig[i], f"{tag}parameter {i} is {x[i]} instead of {xmin[i]} +- {sig[i]}", x[i])
        if minimizer == "iminuit" and bounds:
            continue
        acc.true(abs(e[i] - sig[i]) <= et * sig[i], f"{tag}uncertainty {i} is {e[i]} instead of {sig[i]}", e[i])
        for j in free:
            acc.true(abs(c[i, j] - cov[i, j]) <= 2 * et * sig[i] * sig[j], f"{tag}covariance {i},{j} is {c[i, j]} instead of {cov[i, j]}")
            acc.true(abs(r[i, j] - cov[i, j] / sig[i] / sig[j]) <= 2 * et, f"{tag}correlation {i},{j} is {r[i, j]} instead of {cov[i, j] / sig[i] / sig[j]}")
    return fmin


def fails(acc, fn):
    """result, or None if the minimizer reports failure"""
    try:
        res = fn()
    except RuntimeError:
        acc.outcome("minimizer reports failure")
        return None
    if hasattr(res, "succes") and not res.succes:
        acc.outcome("minimizer reports failure")
        return None
    return res


def expect_significance(F, x0, i, fixed, bounds):
    a = F.minimize(x0, fixed, bounds)
    b0 = np.array(x0, dtype=float)
    b0[i] = 0.0
    b = F.minimize(b0, set(fixed) | {i}, {k: v for k, v in bounds.items() if k != i})
    if a is None or b is None:
        return None
    if abs(a[1][i]) < 0.05:
        return None
    return 0.0 if a[1][i] < 0 else math.sqrt(max(0.0, 2 * (b[0] - a[0])))


def check_significance(acc, F, x0, s, i, fixed, bounds, tag):
    want = expect_significance(F, x0, i, fixed, bounds)
    if want is None:
        acc.outcome("no reference")
        return
    if math.isinf(want):
        acc.true(math.isinf(s) and s > 0, f"{tag}significance {s} instead of infinity", s)
        return
    acc.true(s >= 0, tag + "significance negative or undefined", s)
    acc.true(abs(float(s) ** 2 - want ** 2) <= 0.005 + (0.04 if bounds else 0), f"{tag}significance {s} instead of {want}", s)
    acc.outcome("significance compared")


def check_profile(acc, F, x0, out, i, n, sigma, fixed, bounds, subtract, minimizer, tag):
    pts, val, par = (np.asarray(v, dtype=float) for v in out)
    best = F.minimize(x0, fixed, bounds)
    if best is None:
        acc.outcome("no reference")
        return
    acc.eq([len(pts), len(val), len(par)], [n, n, n], tag + "lengths")
    if not bounds:
        cov = F.cov(best[1], fixed)
        s = math.sqrt(cov[i, i])
        c = best[1][i]
        for k in range(n):
            w = c + (2 * k / (n - 1) - 1) * sigma * s
            acc.true(abs(pts[k] - w) <= 0.06 * s, f"{tag}point {k} is {pts[k]} instead of {w}", pts[k])
    for k in range(n):
        if math.isnan(val[k]):
            acc.outcome("point failed")
            continue
        start = np.array(best[1])
        start[i] = pts[k]
        ref = F.minimize(start, set(fixed) | {i}, {q: b for q, b in bounds.items() if q != i})
        if ref is None:
            acc.outcome("no reference")
            continue
        want = ref[0] - (best[0] if subtract else 0.0)
        acc.true(abs(val[k] - want) <= 0.004 + (0.03 if bounds else 0), f"{tag}profile at {pts[k]} is {val[k]} instead of {want}", val[k])
        acc.outcome("point compared")


# ------------------------------------------------------------------ subsets of fixed parameters
def run_subset(acc, item):
    name, minimizer, fixed, style, switch, what, k = item
    p = make(name)
    p.update(near(name, k))
    F = FitRef(p.r)
    names, x0, ny = p.r.names(), p.r.x0(), len(p.r.procs)
    f = fitter(p, minimizer)
    for i in fixed:
        give(f, names, i, style)
    kw = {}
    if "m" in switch:
        f.fix_nui_params()
    if "a" in switch:
        kw["fix_nui_params"] = True
    hold = set(fixed) | (set(range(ny, F.n)) if switch else set())
    acc.op(what, item)
    evaluate(acc, f, F, p, x0, hold, {}, minimizer, what, kw, f"{item}: ")
    acc.state(item)


def evaluate(acc, f, F, p, x0, hold, bounds, minimizer, what, kw, tag):
    if what == "fit":
        res = fails(acc, lambda: f.do_fit(update_templates=False, verbose=0, **kw))
        if res is not None:
            check_fit(acc, F, x0, res, hold, bounds, minimizer, tag)
            acc.outcome("fit compared")
    elif what.startswith("sig"):
        i = int(what[3:])
        s = fails(acc, lambda: f.get_significance(p.r.procs[i], verbose=0, **kw))
        if s is not None:
            check_significance(acc, F, x0, s, i, hold, bounds, tag)
    else:
        i = int(what[4:])
        with controlled(Schedule()):
            out = fails(acc, lambda: f.profile(p.r.names()[i] if i % 2 else i, num_cpu=2, num_points=3, sigma=1.5,
                                               subtract_min=bool(i % 2), **kw))
        if out is not None:
            check_profile(acc, F, x0, out, i, 3, 1.5, hold, bounds, bool(i % 2), minimizer, tag)


def run_small(acc, item):
    """parameters are held at their very values, however small or large, and the model keeps them when it is updated"""
    name, minimizer, which, sizes, what = item
    p = make(name)
    x = near(name)
    ny = len(p.r.procs)
    for q, v in zip(which, sizes):
        x[q] = v
    if max(sizes) > 1e3:       # with as many events
        p.add_data(**{c: [float(round(w * (1.1 - 0.05 * i))) for i, w in enumerate(e)] for c, e in p.r.expected(x).items()})
    p.update(x)
    x0 = p.r.x0()
    f = fitter(p, minimizer)
    for n, q in enumerate(which):
        f.set_parameter_fixed(q if n % 2 else p.r.names()[q])
    acc.op(what, item)
    res = fails(acc, lambda: f.do_fit(update_templates=what == "update", verbose=0))
    if res is None:
        return
    now = np.asarray(p.m.create_nll().x0, dtype=float)
    for q, v in zip(which, sizes):
        for got, w in ((float(res.params.values[q]), "reported"), (float(now[q]), "in the model")):
            acc.true(abs(got - x0[q]) <= 1e-9 * abs(v) + 1e-13, f"{item}: parameter {q} held at {x0[q]} is {got} {w}", got)
        acc.true(float(res.params.errors[q]) == 0, f"{item}: uncertainty of fixed parameter {q}", res.params.errors[q])
    acc.true(abs(float(res.fcn_min_val) - FitRef(p.r).f(np.asarray(res.params.values, dtype=float))) <= 1e-7 + 1e-12 * sum(map(abs, sizes)), f"{item}: minimum")
    acc.state(item)


# ------------------------------------------------------------------ bounds
def bound_menu(x0, xmin, sig, i):
    """none, loose, and intervals that keep the parameter from its minimum; all contain the starting value"""
    a, b, s = x0[i], xmin[i], sig[i]
    up, dn = max(a, b), min(a, b)
    menu = [None, (dn - 6 * s, up + 6 * s), (None, up + 5 * s)]
    if abs(a - b) > 0.3 * s:
        mid = (a + b) / 2
        menu.append((None, mid) if a < b else (mid, None))
        menu.append((a - 0.5 * s, mid) if a < b else (mid, a + 0.5 * s))
    return menu


def admits(bounds, what, xmin, sig):
    """whether the values at which the parameter is held by the significance or the scan are within its bounds"""
    if what == "fit":
        return True
    i = int(what.lstrip("sigprof"))
    lo, hi = (w if v is None else v for v, w in zip(bounds.get(i, (None, None)), (-math.inf, math.inf)))
    if what.startswith("sig"):
        return lo <= 0 <= hi
    return lo <= xmin[i] - 3 * sig[i] and xmin[i] + 3 * sig[i] <= hi


def run_bounds(acc, item):
    name, minimizer, pair, which, what, k = item
    p = make(name)
    p.update(near(name, k))
    F = FitRef(p.r)
    names, x0 = p.r.names(), p.r.x0()
    _, xmin = F.minimize(x0)
    sig = np.sqrt(np.diag(F.cov(xmin)))
    bounds = {}
    for q, w in zip(pair, which):
        m = bound_menu(x0, xmin, sig, q)
        if w >= len(m):
            acc.outcome("not in menu")
            return
        if m[w] is not None:
            bounds[q] = m[w]
    f = fitter(p, minimizer)
    for n, (q, b) in enumerate(bounds.items()):
        if (n + which[0] + len(what)) % 2:      # an open side given as an infinite number
            b = (-math.inf if b[0] is None else b[0], math.inf if b[1] is None else b[1])
        f.set_parameter_bounds(names[q] if (n + sum(which)) % 2 else q, b)
    if not admits(bounds, what, xmin, sig):
        return
    acc.op("bounds", item, bounds)
    evaluate(acc, f, F, p, x0, set(), bounds, minimizer, what, {}, f"{item} {bounds}: ")
    acc.state(item)


def run_limits(acc, item):
    """nuisance parameter limits given to a fit, together with fixed and bounded ones, do not outlive it"""
    name, minimizer, lim, fixed = item
    p = make(name)
    x = near(name)
    ny = len(p.r.procs)
    x = x[:ny] + [v * 0.3 for v in x[ny:]]
    p.update(x)
    F = FitRef(p.r)
    x0 = p.r.x0()
    f = fitter(p, minimizer)
    for i in fixed:
        give(f, p.r.names(), i, 0)
    b = {i: lim for i in range(ny, F.n)}
    acc.op("limits", item)
    res = fails(acc, lambda: f.do_fit(update_templates=False, verbose=0, nui_param_limits=lim))
    if res is not None:
        check_fit(acc, F, x0, res, fixed, {i: v for i, v in b.items() if i not in fixed}, minimizer, f"{item}: ")
    acc.op("without limits")
    res = fails(acc, lambda: f.do_fit(update_templates=False, verbose=0))
    if res is not None:
        check_fit(acc, F, x0, res, fixed, {}, minimizer, f"{item} then without: ")
    acc.state(item)


ZERO = [None, (0.0, None), (None, 0.0), (0, 7.5), (-7.5, 0), (0.0, 0.4), (-0.4, 0.0)]


def run_zero(acc, item):
    """bounds at zero, given for single parameters or as limits of all nuisance parameters"""
    name, minimizer, pair, which, how, what = item
    p = make(name)
    ny = len(p.r.procs)
    bounds = {q: ZERO[w] for q, w in zip(pair, which) if ZERO[w] is not None}
    if how == "limits":
        bounds = {i: ZERO[which[0]] for i in range(ny, p.r.npar())}
    x = near(name)
    for i in range(ny, len(x)):
        lo, hi = bounds.get(i, (None, None))
        x[i] = (0.1 if lo == 0 else -0.1) * (1 + 0.2 * (i % 3))
    p.update(x)
    F = FitRef(p.r)
    x0 = p.r.x0()
    f = fitter(p, minimizer)
    acc.op("bounds", item, bounds)
    tag = f"{item}: "
    if how == "limits":
        res = fails(acc, lambda: f.do_fit(update_templates=False, verbose=0, nui_param_limits=ZERO[which[0]]))
        if res is not None:
            check_fit(acc, F, x0, res, (), bounds, minimizer, tag)
    else:
        for n, (q, b) in enumerate(bounds.items()):
            f.set_parameter_bounds(q if n % 2 else p.r.names()[q], b)
        _, xmin = F.minimize(x0)
        if not admits(bounds, what, xmin, np.sqrt(np.diag(F.cov(xmin)))):
            return
        evaluate(acc, f, F, p, x0, set(), bounds, minimizer, what, {}, tag)
    acc.state(item)


# ------------------------------------------------------------------ sequences with one fitter
LIMITS = (-0.45, 0.5)     # of all nuisance parameters, around every starting value


def run_seq(acc, item):
    name, minimizer, ops = item
    p = make(name)
    p.update(near(name))
    names, ny = p.r.names(), len(p.r.procs)
    f = fitter(p, minimizer)
    hold, bounds, allnui = set(), {}, False
    for k, o in enumerate(ops):
        acc.op(o)
        F = FitRef(p.r)
        x0 = p.r.x0()
        tag = f"{name} {minimizer} {ops[:k + 1]}: "
        if o[0] == "F":
            give(f, names, int(o[1]), int(o[2]))
            hold.add(int(o[1]))
        elif o[0] == "B":
            i = int(o[1])
            b = {"l": (x0[i] - 0.2 * abs(x0[i]) - 0.1, None), "w": (x0[i] - 1000.0, x0[i] + 0.1 * abs(x0[i]) + 0.05), "o": (None, None)}[o[2]]
            f.set_parameter_bounds(names[i] if (o[3:] or o[2]) in "ln" else i, b)
            bounds[i] = b
            if o[2] == "o":      # open on both sides: free again
                del bounds[i]
        elif o == "N":
            f.fix_nui_params()
            allnui = True
        elif o == "U":
            p.update(near(name, 1))
            if any(not (b[0] is None or p.r.x0()[i] > b[0]) or not (b[1] is None or p.r.x0()[i] < b[1]) for i, b in bounds.items()):
                acc.outcome("model left the bounds")
                return
        else:
            kw = {"fix_nui_params": True} if o.endswith("!") else {"nui_param_limits": LIMITS} if o == "fitL" else {}
            h = hold | (set(range(ny, F.n)) if allnui or "fix_nui_params" in kw else set())
            b = dict(bounds) if o != "fitL" else {**{i: LIMITS for i in range(ny, F.n)}, **bounds}
            o = o.rstrip("!L")
            if (o.startswith("sig") and int(o[3:]) in bounds) or (o.startswith("prof") and int(o[4:]) in (set(bounds) | h)):
                continue
            evaluate(acc, f, F, p, x0, h, {i: v for i, v in b.items() if i not in h}, minimizer, o, kw, tag)
    acc.state(item)


def subsets(n):
    return [c for k in range(n + 1) for c in itertools.combinations(range(n), k)]


def run_large(acc, item):
    """bounds and fixed values of parameters of very different sizes, on the minimizers themselves"""
    from templatefitter.minimizer import minimizer_factory
    mi, centre, kinds, by_index = item
    n = len(centre)
    names = [f"q{i}" for i in range(n)]
    size = [math.sqrt(max(1.0, abs(c))) for c in centre]
    m = minimizer_factory(mi, lambda x: 0.5 * sum(((x[i] - centre[i]) / size[i]) ** 2 for i in range(n)), list(names))
    x0, want, lim = [], [], []
    for i, (c, s, k) in enumerate(zip(centre, size, kinds)):
        lo, hi = {"free": (None, None), "below": (None, c - 2 * s), "above": (c + 1.5 * s, None), "in": (c - s, c + 2 * s), "under": (c - 3 * s, c - 1.25 * s),
                  "over": (c + 0.5 * s, c + 4 * s), "held": (None, None)}[k]
        x0.append(c - s / 2 if lo is None and hi is None else (lo + hi) / 2 if lo is not None and hi is not None else hi - s if lo is None else lo + s)
        want.append(x0[-1] if k == "held" else max(-math.inf if lo is None else lo, min(math.inf if hi is None else hi, c)))
        lim.append((lo, hi))
        if k == "held":
            m.set_param_fixed(i if by_index else names[i])
        elif k != "free":
            m.set_param_bounds(i if by_index else names[i], (lo, hi))
    acc.op(item)
    res = m.minimize(np.array(x0), get_hesse=False, verbose=0)
    for i, (v, w, (lo, hi)) in enumerate(zip(res.params.values, want, lim)):
        v = float(v)
        acc.true((lo is None or v >= lo - 1e-9 * max(1.0, abs(lo))) and (hi is None or v <= hi + 1e-9 * max(1.0, abs(hi))), f"{item}: {names[i]} is {v}, outside of {lim[i]}")
        if kinds[i] == "held":
            acc.eq(v, w, f"{item}: {names[i]} is held", 1e-9, 1e-12)
        else:
            acc.true(abs(v - w) < 0.05 * size[i], f"{item}: {names[i]} is {v} instead of {w}")
    acc.state(item)


def parts(tier, seed):
    deep = tier == "thorough"
    both = ("scipy", "iminuit")
    sub = []
    for name in ("f1", "f2", "f3") + (("f0",) if deep else ()):
        p = make(name)
        n, ny = p.r.npar(), len(p.r.procs)
        for mi in both:
            for s in subsets(n):
                for st in (range(5) if deep else ((0, 1, 2) if name != "f3" else (2,))):
                    sub.append((name, mi, s, st, "", "fit", 0))
                # scans and significances with the same held parameters
                if deep or len(s) <= (1 if name == "f3" else 3):
                    q = ny - 1
                    if ny > 1:
                        sub.append((name, mi, s, 0, "", f"sig{q}", 1))
                    for i in (range(n) if deep else (0, ny)):
                        if i not in s:
                            sub.append((name, mi, s, 1, "", f"prof{i}", 1))
            for s in subsets(ny):
                for sw in ("m", "a", "ma"):
                    sub.append((name, mi, s, 0, sw, "fit", 2))
                    for q in range(ny):
                        if ny > 1:
                            sub.append((name, mi, s, 0, sw, f"sig{q}", 2))
                        if q not in s:
                            sub.append((name, mi, s, 0, sw, f"prof{q}", 2))
                sub.append((name, mi, s + (ny,), 2, "ma", "fit", 1))
    # many parameters, nearly all of them held
    p = make("f4")
    n, ny = p.r.npar(), len(p.r.procs)
    for mi in both:
        for free in [()] + [(i,) for i in range(n)] + [(i, j) for i in range(ny) for j in range(i + 1, n)]:
            sub.append(("f4", mi, tuple(i for i in range(n) if i not in free), len(free), "", "fit", 0))
        for s in subsets(ny):
            sub.append(("f4", mi, s, 0, "m", "fit", 0))
            sub += [("f4", mi, s, 0, "a", f"sig{q}", 0) for q in range(ny)]
    bnd, lim = [], []
    for name in ("f1", "f2", "f3"):
        p = make(name)
        n, ny = p.r.npar(), len(p.r.procs)
        pairs = list(itertools.combinations(range(n), 2)) if deep or n < 5 else [(0, 1), (1, 0), (0, ny), (1, ny + 1), (ny, ny + 1)]
        for mi in both:
            for pr in pairs:
                for w in itertools.product(range(5), repeat=2):
                    bnd.append((name, mi, pr, w, "fit", 0))
                    if deep or w[0] == w[1] or (0 in w and mi == "iminuit"):
                        bnd.append((name, mi, pr, w, "prof0", 0))
                        if ny > 1:
                            bnd.append((name, mi, pr, w, f"sig{ny - 1}", 0))
            for lo in ((-0.5, 0.5), (-0.2, 0.9), (-5.0, 5.0)):
                for s in ((), (0,), (ny,)):
                    lim.append((name, mi, lo, s))
    zero = []
    for name in ("f0", "f2"):
        p = make(name)
        n, ny = p.r.npar(), len(p.r.procs)
        for mi in both:
            for pr in ((1, ny), (ny, ny + 1), (n - 1, 1)) if not deep else itertools.permutations(range(n), 2):
                for w in itertools.product(range(7), repeat=2):
                    if w == (0, 0) or any(i < ny and v not in (0, 1) for i, v in zip(pr, w)):
                        continue
                    zero.append((name, mi, pr, w, "single", "fit"))
                    if deep or w[1] < 2:
                        zero += [(name, mi, pr, w, "single", "prof0"), (name, mi, pr, w, "single", "sig0")]
            zero += [(name, mi, (), (w,), "limits", "fit") for w in range(1, 7)]
    vals = [5e-5, -5e-5, 3e-7, 0.0, 1e-10] + ([-2e-8, 1e-3, 9e-5, -1e-12] if deep else [])
    small = [(name, mi, pr, v, what) for name, prs in (("f2", ((2,), (2, 5), (3, 4))), ("f3", ((3,), (6, 2)))) for mi in both for pr in prs
             for v in itertools.product(vals, repeat=len(pr)) for what in ("update", "keep")]
    # yields held at huge values
    small += [("f2", mi, (q,), (v,), what) for mi in both for q in range(2) for v in (3e4, 2.5e6, 4e8) for what in ("update", "keep")]
    ops = ["F00", "F21", "B0l", "B0w", "N", "U"]
    evs = ["fit", "fit!", "fitL", "sig0", "sig0!", "prof1", "prof1!"]
    seqs = []
    for mi in both:
        for name in ("f2", "f3") if deep else ("f2",):
            for k in range(1, 4 if deep else 3):
                if mi == "scipy" and k > (2 if deep else 1):
                    continue
                for s in itertools.product(ops + evs, repeat=k):
                    for last in (evs if deep else ("fit", "sig0", "prof1")):
                        if any(o in evs for o in s):
                            seqs.append((name, mi, s + (last,)))
            seqs += [(name, mi, s + (last,)) for s in itertools.permutations(ops, 3) for last in ("fit", "sig0", "prof1")]
    # bounds of one parameter given by name and by index, given again, next to limits of the nuisance parameters
    for mi in both:
        for k in range(1, 4):
            for s in itertools.product(("B0ln", "B0li", "B0wn", "B0wi", "B0on", "B0oi"), repeat=k):
                seqs += [("f3", mi, s + (last,)) for last in ("fit", "fitL") if last == "fit" or not any(o[2] == "o" for o in s)]
    return [Part("subsets", sub, run_subset, "all subsets of 3, 6 and 7 parameters, 3 ways to fix, nuisance switches"),
            Part("large parameters", [(mi, c, k, bi) for mi in both for c in ((50.0, 9000.0), (3e5, 0.5), (2.5e6, 700.0), (4e3, 1e5), (3e7, 2e4), (-5e4, 120.0))
                                      for k in itertools.product(("free", "below", "above", "in", "under", "over", "held"), repeat=2) if k != ("held", "held")
                                      for bi in (False, True)], run_large, "pairs of parameters from 0.5 to 3e7 x seven kinds of bounds each, both minimizers"),
            Part("extreme held values", small, run_small, "pairs of parameters, 5 tiny values each; yields of up to 4e8"),
            Part("bounds", bnd, run_bounds, "pairs of parameters, 5 kinds of bounds each"),
            Part("limits", lim, run_limits, "3 limits, fixed parameters"),
            Part("bounds at zero", zero, run_zero, "7 kinds of bounds on pairs, limits of all nuisance parameters"),
            Part("sequences", seqs, run_seq, f"all sequences of up to {4 if deep else 3} operations with one fitter")]
