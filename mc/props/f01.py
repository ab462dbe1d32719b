"""F01: fits of both minimizers on small models for every data set of a lattice (every combination of counts per bin), from
several starting points, and on the catalogue; every successful fit is compared with the minimum found by the reference
minimizer (analytic gradients, several starts, Newton polish), with the likelihood at the reported parameters, with all
one- and two-parameter moves around them, and its uncertainties and covariance with the inverse of the reference's
second-derivative matrix; Asimov data generated at every point of a lattice must give the generating parameters back."""
import itertools
import math

import numpy as np

from .. import fitmodels
from ..core import Part
from ..fitref import FitRef
from ..models import FITTABLE, CATALOGUE, build

# tolerances: likelihood, parameters (in standard deviations), uncertainties (relative)
TOL_F, TOL_X = 1e-3, 0.05
TOL_E = {"scipy": 0.02, "iminuit": 0.06}
# condition number of the correlation matrix above which a problem counts as nearly degenerate
COND = 80

SMALL = {
    "b2": dict(procs=["a"], chans=[("u", (2,), [("a", 1, 1.0, ())])]),
    "p2": dict(procs=["b", "a"], chans=[("u", (3,), [("a", 1, 0.5, ()), ("b", 5, 0.8, ())])], var=[("u", "a", 1)]),
    "c2": dict(procs=["a", "b"], chans=[("u", (2,), [("b", 1, 0.6, ()), ("a", 4, 0.3, ())]), ("v", (1,), [("a", 2, 0.7, ())])],
               constr=[("b", 16.0, 3.0)]),
    "d2": dict(procs=["a"], chans=[("u", (2, 1), [("a", 3, 1.0, ())]), ("v", (1,), [("a", 2, 1.0, ())])], cov=[("v", "a", 1)]),
}
ALL = {**SMALL, **{k: dict(v) for k, v in CATALOGUE.items()}}


def do_fit(p, minimizer, **kw):
    """None if the minimizer reports that it failed"""
    from templatefitter import TemplateFitter
    kw.setdefault("update_templates", False)
    try:
        res = TemplateFitter(p.m, minimizer).do_fit(verbose=0, **kw)
    except RuntimeError:
        return None
    return res if res.succes else None


def check_result(acc, p, res, minimizer, what, fixed=(), bounds=None, start=None, hesse=True, lattice=True, extra=()):
    """compares a successful result with the reference minimum"""
    F = FitRef(p.r)
    x = np.asarray(res.params.values, dtype=float)
    f = float(res.fcn_min_val)
    acc.true(bool(res.succes), what + "succes")
    acc.eq(f, F.f(x), what + "reported minimum and likelihood at the reported parameters", 1e-9, 1e-7)
    local = F.minimize(x, fixed, bounds)
    if local is None:
        acc.outcome("no reference minimum")
        return None
    fmin, xmin = local
    best = F.minimize(start if start is not None else p.r.x0(), fixed, bounds, starts=[np.asarray(e) for e in extra]) or local
    try:
        cov = F.cov(xmin, fixed)
        sig0 = np.sqrt(np.diag(cov))
        fr = [i for i in range(F.n) if i not in fixed]
        flat = bool(fr) and not np.linalg.cond(cov[np.ix_(fr, fr)] / np.outer(sig0[fr], sig0[fr])) < COND
    except np.linalg.LinAlgError:
        flat = True
    if flat:
        # a long valley: minimizers may stop anywhere on its floor
        acc.true(f <= fmin + 0.1, f"{what}minimum {f} above the reference minimum {fmin} at {xmin.tolist()}", f)
        acc.outcome("nearly degenerate")
        return local
    acc.true(f <= fmin + TOL_F, f"{what}minimum {f} above the reference minimum {fmin} at {xmin.tolist()}", f)
    if f > best[0] + TOL_F:
        # likelihoods of few events can have several minima; the one reported must then be one of them
        acc.outcome("another minimum is lower")
        acc.true(F.edm(x, fixed, bounds) < TOL_F, f"{what}neither the lowest nor another minimum", F.edm(x, fixed, bounds))
    free = [i for i in range(F.n) if i not in fixed]
    try:
        cov = F.cov(xmin, fixed)
    except np.linalg.LinAlgError:
        acc.outcome("singular second derivatives")
        return local
    d = np.diag(cov)
    if any(d[i] <= 0 for i in free):
        acc.outcome("no positive definite second derivatives")
        return local
    sig = np.sqrt(d)
    cond = np.linalg.cond(cov[np.ix_(free, free)] / np.outer(sig[free], sig[free])) if free else 1.0
    if cond > COND:
        acc.outcome("nearly degenerate")
    if lattice:
        big = 1.0 if f <= best[0] + TOL_F and cond < COND else 0.2
        for i, j in itertools.chain(((i, i) for i in free), itertools.combinations(free, 2)):
            for a, b in ((1.0, 1.0), (-1.0, 1.0), (0.2, -0.2), (-0.2, -0.2), (4.0, 1.0)):
                y = np.array(x)
                y[i] += a * big * sig[i]
                if i != j:
                    y[j] += b * big * sig[j]
                if bounds and any((lo is not None and y[q] < lo) or (hi is not None and y[q] > hi) for q, (lo, hi) in bounds.items()):
                    continue
                acc.step()
                acc.true(not F.f(y) < min(f, best[0]) - TOL_F, f"{what}likelihood {F.f(y)} at {y.tolist()} below the reported minimum {f}")
    if cond > COND:
        return local
    if not bounds:
        for i in free:
            acc.true(abs(x[i] - xmin[i]) <= TOL_X * sig[i] + 1e-6,
                     f"{what}parameter {i} is {x[i]} instead of {xmin[i]} +- {sig[i]}", x[i])
    if hesse and not bounds:
        tol = TOL_E[minimizer]
        c = np.asarray(res.params.covariance)
        e = np.asarray(res.params.errors)
        for i in range(F.n):
            acc.true(abs(e[i] - sig[i]) <= tol * sig[i] + 1e-9, f"{what}uncertainty {i} is {e[i]} instead of {sig[i]}", e[i])
            for j in range(F.n):
                acc.true(abs(c[i, j] - cov[i, j]) <= 2.5 * tol * sig[i] * sig[j] + 1e-9,
                         f"{what}covariance {i},{j} is {c[i, j]} instead of {cov[i, j]}", c[i, j])
        acc.outcome("uncertainties compared")
    return local


def set_data(p, data):
    pos, out = 0, {}
    for ch, c in p.r.ch.items():
        n = c.nb()
        out[ch] = [float(v) for v in data[pos:pos + n]]
        pos += n
    p.add_data(**out)


def run(acc, item):
    cfg, data, start, minimizer, hesse = item
    p = build(dict(ALL[cfg], data=None))
    set_data(p, data)
    if start:
        p.update(p.point(start))
    acc.op("fit", item)
    res = do_fit(p, minimizer, get_hesse=hesse)
    if res is None:
        acc.outcome("minimizer reports failure")
        return
    m = check_result(acc, p, res, minimizer, f"{cfg} {data} {minimizer}: ", hesse=hesse, lattice=True)
    acc.outcome("compared" if m else "no reference")
    acc.state((cfg, data, start, minimizer))


def run_cat(acc, item):
    cfg, start, minimizer = item
    p = build(ALL[cfg])
    if start:
        p.update(p.point(start))
    acc.op("fit", item)
    res = do_fit(p, minimizer)
    if res is None:
        acc.outcome("minimizer reports failure")
        return
    m = check_result(acc, p, res, minimizer, f"{cfg} {minimizer}: ")
    acc.outcome("compared" if m else "no reference")
    acc.state((cfg, start, minimizer))


def run_asimov(acc, item):
    cfg, ys, start, minimizer = item
    p = build(dict(ALL[cfg], data=None, constr=()))
    n = p.r.npar()
    gen = list(ys) + [0.0] * (n - len(ys))
    p.update(gen)
    p.m.add_data(**p.m.generate_asimov_dataset())
    for ch in p.r.ch:
        p.r.ch[ch].data = p.r.expected(gen)[ch]
    if start:
        p.update(p.point(start))
    acc.op("asimov fit", item)
    res = do_fit(p, minimizer)
    if res is None:
        acc.outcome("minimizer reports failure")
        return
    x = np.asarray(res.params.values)
    F = FitRef(p.r)
    c = F.cov(np.array(gen))
    sig = np.sqrt(np.diag(c))
    if not np.linalg.cond(c / np.outer(sig, sig)) < COND:
        # the minimum lies in a long flat valley: its floor must be reached, but not one point of it
        acc.true(abs(float(res.fcn_min_val)) < 0.1, f"{cfg}: minimum for Asimov data", res.fcn_min_val)
        acc.outcome("nearly degenerate")
        return
    acc.true(abs(float(res.fcn_min_val)) < TOL_F, f"{cfg}: minimum for Asimov data", res.fcn_min_val)
    for i in range(n):
        acc.true(abs(x[i] - gen[i]) <= TOL_X * sig[i] + 1e-6, f"{cfg} {minimizer}: parameter {i} fitted as {x[i]}, generated as {gen[i]} +- {sig[i]}", x[i])
    e = np.asarray(res.params.errors)
    for i in range(n):
        acc.true(abs(e[i] - sig[i]) <= TOL_E[minimizer] * sig[i], f"{cfg} {minimizer}: uncertainty {i} is {e[i]} instead of {sig[i]}", e[i])
    acc.outcome("compared")
    acc.state(item)


def run_agree(acc, item):
    cfg, data, start = item
    p = build(dict(ALL[cfg], data=None))
    set_data(p, data)
    if start:
        p.update(p.point(start))
    acc.op("both minimizers", item)
    a, b = do_fit(p, "scipy"), do_fit(p, "iminuit")
    if a is None or b is None:
        acc.outcome("minimizer reports failure")
        return
    F = FitRef(p.r)
    if abs(a.fcn_min_val - b.fcn_min_val) >= 2 * TOL_F:
        worse = a if a.fcn_min_val > b.fcn_min_val else b
        d = F.edm(worse.params.values)
        acc.true(d < TOL_F, f"{item}: minima {a.fcn_min_val} and {b.fcn_min_val}", d)
        acc.outcome("two minima")
        return
    x = np.asarray(a.params.values)
    cov = F.cov(x)
    sg = np.sqrt(np.abs(np.diag(cov)))
    if not np.linalg.cond(cov / np.outer(sg, sg)) < COND:
        acc.outcome("nearly degenerate")
        return
    ea, eb = np.asarray(a.params.errors), np.asarray(b.params.errors)
    acc.eq(list(a.params.names), list(b.params.names), "names")
    for i in range(len(ea)):
        acc.true(abs(a.params.values[i] - b.params.values[i]) <= 2 * TOL_X * max(ea[i], eb[i]),
                 f"{item}: parameter {i} is {a.params.values[i]} and {b.params.values[i]}")
        acc.true(abs(ea[i] - eb[i]) <= 0.15 * max(ea[i], eb[i]), f"{item}: uncertainty {i} is {ea[i]} and {eb[i]}")
    acc.outcome("compared")
    acc.state(item)


def run_good(acc, item):
    """well-conditioned models: every result is compared tightly; fits of Asimov data near their truth have to succeed"""
    name, scale, start, minimizer, hesse = item
    p = fitmodels.make(name)
    if scale is None:
        gen = fitmodels.near(name, 3)[:len(p.r.procs)] + [0.0] * (p.r.npar() - len(p.r.procs))
        p.update(gen)
        for ch, v in p.r.expected(gen).items():
            p.r.ch[ch].data = v
        if name == "f3":     # the constraint pulls away from the Asimov parameters unless they agree
            p.constraint(p.r.procs[0], gen[0], 9.0)
        p.m.add_data(**p.m.generate_asimov_dataset())
    else:
        d, pos = {}, 0
        for ch, c in p.r.ch.items():
            d[ch] = [float(round(v * scale[pos + i])) for i, v in enumerate(c.data)]
            pos += len(c.data)
        p.add_data(**d)
    p.update(fitmodels.near(name, start))
    acc.op("fit", item)
    res = do_fit(p, minimizer, get_hesse=hesse)
    if scale is None:
        acc.true(res is not None, f"{item}: fit of Asimov data fails")
    elif res is None:
        acc.outcome("minimizer reports failure")
        return
    F = FitRef(p.r)
    best = F.minimize(p.r.x0())
    if best is None:
        acc.outcome("no reference")
        return
    fmin, xmin = best
    if scale is None:
        acc.eq(xmin, gen, "reference minimum of Asimov data", 1e-4, 1e-4)
    x, e = np.asarray(res.params.values), np.asarray(res.params.errors)
    c, r = np.asarray(res.params.covariance), np.asarray(res.params.correlation)
    acc.true(abs(float(res.fcn_min_val) - fmin) < 1e-4, f"{item}: minimum {res.fcn_min_val} instead of {fmin}")
    cov = F.cov(xmin)
    sig = np.sqrt(np.diag(cov))
    if not np.linalg.cond(cov / np.outer(sig, sig)) < COND:
        acc.outcome("nearly degenerate")
        return
    if not hesse:
        # uncertainties without the matrix are estimates of the minimizer, not to be held to the same precision
        for i in range(F.n):
            acc.true(abs(x[i] - xmin[i]) <= 0.02 * sig[i], f"{item}: parameter {i} is {x[i]} instead of {xmin[i]} +- {sig[i]}", x[i])
            if minimizer == "iminuit":
                acc.true(abs(e[i] - sig[i]) <= 0.25 * sig[i], f"{item}: estimated uncertainty {i} is {e[i]} instead of {sig[i]}", e[i])
        acc.outcome("estimates compared")
        return
    for i in range(F.n):
        acc.true(abs(x[i] - xmin[i]) <= 0.02 * sig[i], f"{item}: parameter {i} is {x[i]} instead of {xmin[i]} +- {sig[i]}", x[i])
        acc.true(abs(e[i] - sig[i]) <= 0.01 * sig[i], f"{item}: uncertainty {i} is {e[i]} instead of {sig[i]}", e[i])
        for j in range(F.n):
            acc.true(abs(c[i, j] - cov[i, j]) <= 0.02 * sig[i] * sig[j], f"{item}: covariance {i},{j} is {c[i, j]} instead of {cov[i, j]}")
            acc.true(abs(r[i, j] - cov[i, j] / sig[i] / sig[j]) <= 0.02, f"{item}: correlation {i},{j} is {r[i, j]}")
    acc.outcome("compared")
    acc.state(item)


def run_many(acc, item):
    """the same model with more and more events: yields and uncertainties of up to many thousands"""
    name, scale, start, minimizer, nui = item
    p = fitmodels.make(name)
    k, n = len(p.r.procs), p.r.npar()
    gen = [scale * (100.0 + 30.0 * i) for i in range(k)] + [0.0] * (n - k)
    p.r.update(gen)
    p.add_data(**{ch: [float(round(v * (1 + 0.3 * (-1) ** i / math.sqrt(v)))) for i, v in enumerate(vs)] for ch, vs in p.r.expected(gen).items()})
    p.update([g * (1 + 0.01 * (start * (-1) ** i)) for i, g in enumerate(gen[:k])] + [0.0] * (n - k))
    acc.op("fit", item)
    fixed = () if nui else tuple(range(k, n))
    res = do_fit(p, minimizer, fix_nui_params=not nui)
    if res is None:
        acc.outcome("minimizer reports failure")
        return
    F = FitRef(p.r)
    x, e, c = (np.asarray(a, dtype=float) for a in (res.params.values, res.params.errors, res.params.covariance))
    acc.eq(float(res.fcn_min_val), F.f(x), f"{item}: reported minimum and likelihood at the reported parameters", 1e-9, 1e-6)
    best = F.minimize(p.r.x0(), fixed, None, starts=[x])
    if best is None:
        acc.outcome("no reference")
        return
    fmin, xmin = best
    cov = F.cov(xmin, fixed)
    sig = np.sqrt(np.diag(cov))
    # numerical derivatives of scipy's minimizer are of the size of the rounding errors for that many events
    acc.true(abs(float(res.fcn_min_val) - fmin) < 0.01, f"{item}: minimum {res.fcn_min_val} instead of {fmin}")
    for i in range(k):
        acc.true(abs(x[i] - xmin[i]) <= 0.1 * sig[i], f"{item}: parameter {i} is {x[i]} instead of {xmin[i]} +- {sig[i]}", x[i])
        acc.true(abs(e[i] - sig[i]) <= 0.02 * sig[i], f"{item}: uncertainty {i} is {e[i]} instead of {sig[i]}", e[i])
        for j in range(k):
            acc.true(abs(c[i, j] - cov[i, j]) <= 0.04 * sig[i] * sig[j], f"{item}: covariance {i},{j} is {c[i, j]} instead of {cov[i, j]}")
    acc.outcome("compared")
    acc.state(item)


def nb(cfg):
    from ..models import FITTABLE, nbins
    return sum(nbins(s) for _, s, _ in ALL[cfg]["chans"])


def parts(tier, seed):
    deep = tier == "thorough"
    counts = [3, 8, 20, 55] if deep else [4, 12, 40]
    lat = []
    for cfg in SMALL:
        for d in itertools.product(counts, repeat=nb(cfg)):
            for mi in ("scipy", "iminuit"):
                for s in ((0, 1, 2) if deep else (0, 1)):
                    lat.append((cfg, d, s, mi, True))
                lat.append((cfg, d, 3, mi, False))
    agree = [(cfg, d, 0) for cfg in SMALL for d in itertools.product([5, 30] if not deep else [5, 30, 11], repeat=nb(cfg))]
    cat = [(cfg, s, mi) for cfg in FITTABLE for s in range(4 if deep else 2) for mi in ("scipy", "iminuit")
           if deep or cfg not in ("mixed", "three")]
    asi = []
    for cfg in ("b2", "p2", "c2", "d2", "two", "swap", "flat2", "same"):
        k = len(ALL[cfg]["procs"])
        for ys in itertools.product([15.0, 60.0, 250.0] if k == 1 or deep else [20.0, 90.0], repeat=k):
            asi += [(cfg, ys, s, mi) for s in (0, 1, 2) for mi in ("scipy", "iminuit")]
    good = []
    for name in fitmodels.SPEC:
        n = sum(len(v) for v in fitmodels.SPEC[name][2].values())
        for mi in ("scipy", "iminuit"):
            if name in ("f4", "f5"):
                good += [(name, None, s, mi, h) for s in range(4 if deep else 1) for h in (True, False)]
                continue
            for s in range(4 if deep else 2):
                good.append((name, None, s, mi, True))
                good.append((name, None, s, mi, False))
                good += [(name, sc, s, mi, h) for h in (True, False) for sc in itertools.product((0.8, 1.0, 1.3), repeat=n) if deep or n < 3 or s == 0]
    many = [(n, sc, s, mi, nui) for n in ("f1", "f2", "f0") for sc in (1.0, 30.0, 1e3, 2e4) for s in (0, 1, -3, 20)
            for mi in ("scipy", "iminuit") for nui in (False, True)]
    return [Part("many events", many, run_many, "100 to two million events per process, three starts, nuisance parameters free or fixed"),
            Part("well-conditioned models", good, run_good, "all combinations of three counts per bin, Asimov data"),
            Part("data lattice", lat, run, f"all combinations of {len(counts)} counts per bin, 4 models, {4 if deep else 3} starts, both minimizers"),
            Part("minimizers agree", agree, run_agree, "all combinations of counts"),
            Part("catalogue", cat, run_cat, "several starting points"),
            Part("Asimov fits", asi, run_asimov, "all combinations of generated yields, 3 starts")]
