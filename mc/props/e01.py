"""E01: every model of up to 3 processes in up to 2 channels (all assignments and declaration orders) and the catalogue,
with synthetic fit results (several values and covariances, also block-diagonal, rank-deficient and zero ones) and with
results of real fits of both minimizers: J C J^T of every channel is compared with the analytic Jacobian of the reference;
expected contents at given parameters with the reference and with the written model."""
import itertools
import math

import numpy as np

from ..core import Part
from .. import models, ref
from ..models import FITTABLE, CATALOGUE, LARGE, build
from .m02 import make


def jacobian(r, ch, x):
    """d expected(ch, bin) / d parameter, in the order of the whole parameter vector"""
    names = r.names()
    y, nui = r.split(x)
    c = r.ch[ch]
    n = c.nb()
    jac = [[0.0] * len(names) for _ in range(n)]
    for q, t in c.t.items():
        rel = t.rel()
        th = nui[ch, q]
        b = [cc * (1 + h * e) for cc, h, e in zip(t.counts, th, rel)]
        s = ref.fsum(b)
        iy = names.index(f"{q}_yield")
        for k in range(n):
            jac[k][iy] += c.eff[q] * (b[k] / s if s else 0.0)
        for j in range(n):
            ij = names.index(f"{ch}_{q}_bin_{j}")
            d = t.counts[j] * rel[j]
            for k in range(n):
                jac[k][ij] = y[q] * c.eff[q] * d * ((s if j == k else 0.0) - b[k]) / s ** 2 if s else 0.0
    return jac


def covs(n, which):
    if which == "full":
        v = [0.4 + 0.13 * ((i * 7) % 5) for i in range(n)]
        m = [[0.3 * v[i] * v[j] * math.cos(1.3 * (i - j)) for j in range(n)] for i in range(n)]
        return ref.madd(m, ref.diag([0.2 + 0.1 * (i % 3) for i in range(n)]))
    if which == "diag":
        return ref.diag([0.5 + 0.25 * (i % 4) for i in range(n)])
    if which == "fixed":       # some parameters fixed: zero rows
        m = covs(n, "full")
        return [[0.0 if (i % 3 == 1 or j % 3 == 1) else m[i][j] for j in range(n)] for i in range(n)]
    if which == "one":
        u = [math.sin(i + 1.0) for i in range(n)]
        return ref.outer(u, u)
    return [[0.0] * n for _ in range(n)]


def check(acc, p, params, x, cov, what):
    for ch in p.r.ch:
        j = jacobian(p.r, ch, x)
        want = ref.mmul(ref.mmul(j, cov), ref.transpose(j))
        c = p.m.channels[ch]
        scale = max(abs(v) for row in want for v in row)
        got = np.asarray(c.propagate_parameter_uncertainties(params))
        acc.step()
        acc.eq(got, want, f"{what}bin covariance of {ch}", 1e-6, 1e-7 * max(scale, 1e-6))
        acc.eq(np.asarray(c.get_post_fit_bin_uncertainty(params)) ** 2, [max(want[i][i], 0.0) for i in range(len(want))],
               f"{what}squared bin uncertainties of {ch}", 1e-6, 1e-7 * max(scale, 1e-6))


def expected(acc, p, x, what):
    """expected contents at given parameters, and of the model written with them"""
    y, nui = p.r.split(x)
    ex = p.r.expected(x)
    for ch, c in p.r.ch.items():
        own = [y[q] for q in c.t] + [v for q in c.t for v in nui[ch, q]]
        acc.eq(np.asarray(p.m.channels[ch].bin_counts_from_param_values(np.array(own))).ravel(), ex[ch],
               f"{what}expected contents of {ch}", 1e-9, 1e-10)
    p.update(x)
    ds = p.m.generate_asimov_dataset()
    for ch, c in p.r.ch.items():
        tot = sum(np.asarray(t.values) for t in p.m.channels[ch].templates.values()).ravel()
        acc.eq(tot, ex[ch], f"{what}sum of templates of {ch} after writing", 1e-9, 1e-10)
        acc.eq(np.asarray(ds[ch].bin_counts).ravel(), ex[ch], f"{what}Asimov data of {ch} after writing", 1e-9, 1e-10)


def synthetic(p, x, cov):
    from templatefitter.minimizer import Parameters
    params = Parameters(list(p.m.create_nll().param_names))
    params.values = np.array(x)
    params.covariance = np.array(cov)
    params.errors = np.sqrt(np.diag(np.array(cov)))
    return params


def run(acc, item):
    (procs, chans), seed, kind = item
    acc.op(item)
    p = make(procs, chans)
    x = p.point(seed)
    cov = covs(len(x), kind)
    params = synthetic(p, x, cov)
    before = models.snapshot(p)
    check(acc, p, params, x, cov, "")
    models.check_unchanged(acc, p, before, "error propagation")
    acc.eq(params.values, x, "values of the result modified", 0, 0)
    acc.eq(params.covariance, cov, "covariance of the result modified", 0, 0)
    # whatever the model's current parameters are
    p.update(p.point(seed + 1))
    check(acc, p, params, x, cov, "after the model changed: ")
    expected(acc, p, x, "")
    acc.state((item[0], seed, kind))
    acc.outcome(kind)


def run_cat(acc, item):
    cfg, seed, kind = item
    p = build({**CATALOGUE, **LARGE}[cfg])
    acc.op(item)
    x = p.point(seed)
    cov = covs(len(x), kind)
    check(acc, p, synthetic(p, x, cov), x, cov, f"{cfg}: ")
    expected(acc, p, x, f"{cfg}: ")
    acc.state(item)


def run_fit(acc, item):
    from templatefitter import TemplateFitter
    cfg, minimizer, fix = item
    p = build(CATALOGUE[cfg])
    acc.op("fit", item)
    try:
        res = TemplateFitter(p.m, minimizer).do_fit(verbose=0, fix_nui_params=fix)
    except RuntimeError:
        acc.outcome("fit did not converge")
        return
    x = np.asarray(res.params.values).tolist()
    p.r.update(x)
    check(acc, p, res.params, x, np.asarray(res.params.covariance).tolist(), f"{item}: ")
    acc.state(item)
    acc.outcome("fit")


def parts(tier, seed):
    deep = tier == "thorough"
    ms = []
    for procs in itertools.chain(*(itertools.permutations("abc", r) for r in (1, 2, 3))):
        n = len(procs)
        subsets = [s for r in range(1, n + 1) for s in itertools.permutations(procs, r)]
        ms += [(procs, ((ch, s),)) for s in subsets for ch in "uxy"]
        if n < 3:
            ms += [(procs, tuple(zip(pair, ss))) for ss in itertools.product(subsets, repeat=2) for pair in (("x", "u"), ("w", "x"), ("y", "x"))]
        ms += [(procs, tuple(zip(("v", "u"), ss))) for ss in itertools.product(subsets, repeat=2)
               if n < 3 or deep or (len(ss[0]), len(ss[1])) in ((2, 1), (1, 1)) or procs == ("b", "a", "c") and len(ss[0]) + len(ss[1]) < 5]
    kinds = ("full", "diag", "fixed", "one", "zero") if deep else ("full", "fixed")
    items = [(m, s, k) for i, m in enumerate(ms) for s in ((1, 3) if not deep else (0, 1, 2, 3)) for k in kinds
             if deep or (i + s + len(k)) % 2 == 0 or len(m[0]) < 3]
    cat = [(cfg, s, k) for cfg in CATALOGUE for s in range(4 if deep else 3) for k in ("full", "diag", "fixed", "one", "zero")]
    cat += [(cfg, 1, k) for cfg in LARGE for k in ("full", "one")]
    fits = [(cfg, mi, fix) for cfg in FITTABLE for mi in ("scipy", "iminuit") for fix in (False, True)]
    return [Part("all small models", items, run, "all assignments of up to 3 processes to one or two channels in every order"),
            Part("catalogue", cat, run_cat, "five covariances, three points"),
            Part("real fits", fits, run_fit, "both minimizers, nuisance parameters free or fixed")]
