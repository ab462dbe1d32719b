"""G01: every vector of observed and expected contents from small alphabets (zeros, perfect agreement, tiny and huge values)
in up to 3 bins, one- and two-dimensional and of integer or float type, with every number of degrees of freedom of a list up
to thousands: the statistics (also the one with given uncertainties) against term-by-term sums free of cancellation, p-values against the finite series of the
chi-square distribution in 60 digits, and monotony of the p-value along every enumerated chain of statistics."""
import decimal
import itertools
import math
from decimal import Decimal

import numpy as np

from .. import ref
from ..core import Part

decimal.getcontext().prec = 60
DOFS = [1, 2, 3, 4, 5, 7, 10, 25, 60, 99, 100, 333, 1000, 1001, 5000]


def _erfc(x):
    return Decimal(math.erfc(float(x)))


def sf(x, dof):
    """upper tail of the chi-square distribution: a finite series of positive terms"""
    if x == 0:
        return 1.0
    y = Decimal(x) / 2
    if y > 50000:
        return None
    if dof % 2 == 0:
        term, s = Decimal(1), Decimal(0)
        for k in range(dof // 2):
            s += term
            term = term * y / (k + 1)
        return float(s * (-y).exp())
    s, term = Decimal(0), y.sqrt() / (Decimal(math.pi).sqrt() / 2)
    for k in range(1, (dof - 1) // 2 + 1):
        s += term
        term = term * y / (Decimal(k) + Decimal("0.5"))
    return float(_erfc(y.sqrt()) + s * (-y).exp())


def compare(acc, got, stat, dof, tag):
    acc.eq(len(got), 3, tag + "number of results")
    s, r, pv = (float(v) for v in got)
    acc.true(s >= 0, tag + "statistic negative or undefined", s)
    acc.eq(s, stat, tag + "statistic", 1e-9, 1e-12 * (1 + abs(stat)))
    acc.eq(r, s / dof, tag + "statistic per degree of freedom", 1e-12, 0)
    acc.true(0.0 <= pv <= 1.0, tag + "p-value outside the unit interval", pv)
    w = sf(s, dof)
    if w is not None:
        acc.eq(pv, w, f"{tag}p-value of {s} for {dof}", 1e-6, 1e-290)


def run(acc, item):
    from templatefitter import stats
    obs, exp, dof, kind = item
    o, e = np.array(obs, dtype=float), np.array(exp, dtype=float)
    if kind == "int":
        o = o.astype(int)
    if kind == "2d":
        o, e = o.reshape(1, -1), e.reshape(1, -1)
    o0, e0 = o.copy(), e.copy()
    tag = f"{obs} {exp} dof {dof}: "
    acc.op("statistics", item)
    if all(v > 0 for v in exp):
        compare(acc, stats.pearson_chi2_test(o, e, dof), ref.fsum((a - b) ** 2 / b for a, b in zip(obs, exp)), dof, tag + "pearson ")
        if obs == exp:
            acc.eq(float(stats.pearson_chi2_test(o, e, dof)[0]), 0.0, tag + "perfect agreement", 0, 0)
    if all(b > 0 or a == 0 for a, b in zip(obs, exp)):
        compare(acc, stats.cowan_binned_likelihood_gof(o, e, dof), 2 * ref.fsum(ref.poisson_term(a, b) for a, b in zip(obs, exp)), dof,
                tag + "likelihood ratio ")
        if obs == exp:
            acc.eq(float(stats.cowan_binned_likelihood_gof(o, e, dof)[0]), 0.0, tag + "perfect agreement", 0, 0)
    # with given uncertainties (those of the expectation, and of every size)
    for unc in ([max(v, 0.25) ** 0.5 for v in exp], [0.02 + 0.5 * i for i in range(len(exp))], [1e3 + v for v in obs]):
        u = np.array(unc).reshape(e.shape)
        compare(acc, stats.default_chi2_test(o, e, u, dof), ref.fsum(((a - b) / c) ** 2 for a, b, c in zip(obs, exp, unc)), dof, tag + f"with uncertainties {unc} ")
    acc.true(np.array_equal(o, o0) and np.array_equal(e, e0), tag + "inputs modified")
    acc.state((obs, exp, dof))


TYPES = ("f8", "f4", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "list")


def run_types(acc, item):
    """the same counts in every pair of number types"""
    from templatefitter import stats
    obs, exp, td, te, tu = item

    def mk(t, v):
        return [int(x) for x in v] if t == "list" else np.array(v).astype(t)
    o, e, u = mk(td, obs), mk(te, exp), mk(tu, [max(1, x // 2) for x in exp])
    if td == te == "list":
        o = np.array(o)
    acc.op("types", item)
    tag = f"{item}: "
    compare(acc, stats.pearson_chi2_test(o, e, 2), ref.fsum((a - b) ** 2 / b for a, b in zip(obs, exp)), 2, tag + "pearson ")
    if "list" not in (td, te):
        compare(acc, stats.cowan_binned_likelihood_gof(o, e, 2), 2 * ref.fsum(ref.poisson_term(float(a), float(b)) for a, b in zip(obs, exp)), 2,
                tag + "likelihood ratio ")
    compare(acc, stats.default_chi2_test(o, e, np.array(u), 2), ref.fsum(((a - b) / max(1, b // 2)) ** 2 for a, b in zip(obs, exp)), 2, tag + "with uncertainties ")
    acc.state(item)


def run_long(acc, item):
    """many bins: every one of them counts"""
    from templatefitter import stats
    shape, odd, big, unit = item
    n = math.prod(shape)
    o = [(3.0 + (7 * i) % 5) * unit if unit >= 0.5 else float(i % 9 == 4) for i in range(n)]
    e = [(4.0 + (3 * i) % 4) * unit for i in range(n)]
    o[odd % n] = big
    tag = f"{item}: "
    acc.op("long", item)
    a, b = np.array(o).reshape(shape), np.array(e).reshape(shape)
    u = np.array([0.5 + i % 3 for i in range(n)]).reshape(shape)
    compare(acc, stats.pearson_chi2_test(a, b, n), ref.fsum((x - y) ** 2 / y for x, y in zip(o, e)), n, tag + "pearson ")
    compare(acc, stats.cowan_binned_likelihood_gof(a, b, n), 2 * ref.fsum(ref.poisson_term(x, y) for x, y in zip(o, e)), n, tag + "likelihood ratio ")
    compare(acc, stats.default_chi2_test(a, b, u, n), ref.fsum(((x - y) / (0.5 + i % 3)) ** 2 for i, (x, y) in enumerate(zip(o, e))), n, tag + "with uncertainties ")
    acc.state(item)


def run_chain(acc, item):
    """p-values fall along growing statistics and rise with the degrees of freedom"""
    from templatefitter import stats
    which, base, dof = item
    fn = {"pearson": stats.pearson_chi2_test, "cowan": stats.cowan_binned_likelihood_gof}[which]
    last = None
    for k in range(0, 60):
        d = base * (1 + 0.05 * k)
        s, _, pv = fn(np.array([d, base]), np.array([base, base]), dof)
        acc.step()
        w = sf(float(s), dof)
        acc.eq(float(pv), w, f"{item} {d}: p-value", 1e-6, 1e-290)
        if last is not None:
            acc.true(pv <= last + 1e-15, f"{item} {d}: p-value rises from {last} to {pv}")
        last = pv
    acc.state(item)


def parts(tier, seed):
    deep = tier == "thorough"
    obs = [0.0, 1.0, 4.0, 250.0] if not deep else [0.0, 1.0, 2.0, 4.0, 37.0, 250.0, 1e6]
    exp = [0.0, 1e-6, 0.75, 4.0, 250.0] if not deep else [0.0, 1e-9, 1e-6, 0.3, 1.0, 4.0, 37.5, 250.0, 250.0000001, 1e6]
    items = []
    for n in (1, 2):
        for o in itertools.product(obs, repeat=n):
            for e in itertools.product(exp, repeat=n):
                for d in (DOFS if n == 1 else ([1, 2, 9, 100, 1000] if deep else [1, 6, 100])):
                    items.append((o, e, d, "float"))
                items.append((o, e, 2, "int"))
                items.append((o, e, 3, "2d"))
    for o in itertools.product(obs[:4], repeat=3):
        for e in itertools.product(exp[1:6], repeat=3):
            items.append((o, e, 3, "float"))
    # statistics of all sizes for all degrees of freedom
    for d in DOFS + list(range(6, 40)):
        for q in (0.01, 0.3, 0.9, 1.0, 1.1, 1.5, 3.0, 10.0):
            items.append(((10000.0 + (10000.0 * q * d) ** 0.5,), (10000.0,), d, "float"))
    chain = [(w, b, d) for w in ("pearson", "cowan") for b in (1.0, 20.0, 400.0) for d in DOFS]
    vals = [(3, 5), (5, 3), (0, 100), (100, 1), (90, 100)] + ([(1, 127), (127, 126), (7, 7)] if deep else [])
    types = [((a[0], b[0]), (a[1], b[1]), td, te, tu) for a in vals for b in vals for td in TYPES for te in TYPES for tu in ("f8", te)]
    long = [(sh, odd, big, unit) for unit in (1.0, 0.02, 300.0) for sh in ((40,), (7, 9), (300,), (3, 4, 5), (30, 40), (5001,), (20000,), (150, 150)) for odd in (0, -1, 12345) for big in (0.0, 25.0, 1e4)]
    return [Part("many bins", long, run_long, "40 to 22500 bins, one of them far off"),
            Part("count lattice", items, run, f"{len(obs)} observed x {len(exp)} expected values per bin, up to 3 bins, 15 numbers of degrees of freedom"),
            Part("number types", types, run_types, "all pairs of 11 number types for the counts"),
            Part("chains", chain, run_chain, "60 growing statistics each")]
