"""R01: the parameter container under every sequence (up to the bound) of assignments of arrays of right and wrong size and
reads by every valid and invalid identifier; both minimizers on a quadratic function with a known constrained minimum under
every sequence of fixing, bounding (by name and index), releasing, invalid requests and minimizing: values, minimum,
covariance, errors and correlation against the closed form and against each other, and every result returned so far against
the copy taken when it was returned."""
import itertools
import math

import numpy as np

from .. import ref
from ..core import Part, plain

NAMES = ["ab_yield", "b_yield", "b_yield_bin_0"]     # one a suffix of another, one a prefix
A = [[2.0, 0.6, -0.3], [0.6, 1.0, 0.2], [-0.3, 0.2, 0.5]]
CENTRE = [3.0, -2.0, 5.0]
X0 = [[1.0, 0.5, 2.0], [4.0, 0.6, 3.0]]
BAD_IDS = ["nope", "", "AB_yield", "b_yield ", "yield", "b", "bin_0", "b_yield_bin_01", "s_yield_bin", "", 3, -1, 17, 1.0, 0.5, None, ("b",), ["b"]]
N = 3


def fcn(x):
    d = [x[i] - CENTRE[i] for i in range(N)]
    return 0.5 * sum(d[i] * A[i][j] * d[j] for i in range(N) for j in range(N)) + 0.75


def constrained(x0, fixed, bounds):
    """exact minimum by enumeration of the active bounds"""
    best = None
    free = [i for i in range(N) if i not in fixed]
    opts = [[None] + [b for b in bounds.get(i, (None, None)) if b is not None] for i in free]
    for act in itertools.product(*opts):
        x = list(x0)
        solve = []
        for i, a in zip(free, act):
            if a is None:
                solve.append(i)
            else:
                x[i] = a
        if solve:
            rest = [j for j in range(N) if j not in solve]
            inv = ref.inverse([[A[i][j] for j in solve] for i in solve])
            rhs = [-sum(A[i][j] * (x[j] - CENTRE[j]) for j in rest) for i in solve]
            for k, i in enumerate(solve):
                x[i] = CENTRE[i] + sum(inv[k][m] * rhs[m] for m in range(len(solve)))
        if all((lo is None or x[i] >= lo - 1e-12) and (hi is None or x[i] <= hi + 1e-12)
               for i in free for lo, hi in [bounds.get(i, (None, None))]):
            f = fcn(x)
            if best is None or f < best[0]:
                best = (f, x)
    return best


def make(kind):
    from templatefitter.minimizer import minimizer_factory
    return minimizer_factory(kind, fcn, list(NAMES))


def content(res):
    p = res.params
    return [float(res.fcn_min_val), bool(res.succes), list(p.names), plain(p.values), plain(p.errors), plain(p.covariance),
            plain(p.correlation)]


def check_access(acc, p, tag):
    acc.eq(list(p.names), NAMES, tag + "names")
    acc.eq(p.num_params, N, tag + "num_params")
    for i, n in enumerate(NAMES):
        v, e = float(p.values[i]), float(p.errors[i])
        for k in (i, n):
            acc.eq(p.param_id_to_index(k), i, f"{tag}index of {k!r}")
            acc.eq([float(q) for q in p[k]], [v, e], f"{tag}item {k!r}", 0, 0)
            acc.eq(float(p.get_param_value(k)), v, f"{tag}value of {k!r}", 0, 0)
            acc.eq(float(p.get_param_error(k)), e, f"{tag}error of {k!r}", 0, 0)
            acc.step(3)


def check_table(acc, p, tag):
    """the printed table has a row for each parameter with its name, value and uncertainty (to the digits shown)"""
    rows = [line.replace("|", " ").split() for line in str(p).splitlines()]
    for n, v, e in zip(p.names, p.values, p.errors):
        mine = [r[r.index(n) + 1:] for r in rows if n in r]
        acc.eq(len(mine), 1, f"{tag}rows of {n} in the table")
        acc.eq([float(q) for q in mine[0][:2]], [float(v), float(e)], f"{tag}row of {n} in the table", 1e-3, 1e-12)


def run_container(acc, item):
    from templatefitter.minimizer import Parameters
    p = Parameters(list(NAMES))
    z = [[0.0] * N for _ in range(N)]
    want = {"values": [0.0] * N, "errors": [0.0] * N, "covariance": z, "correlation": z}
    for k, o in enumerate(item):
        attr, kind = o
        base = [[1.5 + k, -2.0, 0.25 * k], [4.0 + i + k for i in range(N)]][k % 2]
        if attr in ("covariance", "correlation"):
            n, c = {"short": (N - 1, N - 1), "long": (N + 1, N + 1), "wide": (N, N + 1), "narrow": (N, 1), "tall": (N + 1, N), "flat": (1, N),
                    "cube": (N, N)}.get(kind, (N, N))
            val = [[float(i * 3 + j + k) for j in range(c)] for i in range(n)]
            val = [val] if kind == "cube" else val
        else:
            val = {"ok": base, "list": base, "short": base[:-1], "long": base + [1.0], "wide": base * 2, "narrow": base[:1], "tall": [],
                   "flat": [base], "cube": [[base]]}[kind]
        acc.op("set", attr, kind)
        arr = val if kind == "list" else np.array(val)
        if kind in ("ok", "list"):
            setattr(p, attr, arr if attr in ("values", "errors") or kind == "ok" else np.array(arr))
            want[attr] = val
        else:
            acc.refused(lambda: setattr(p, attr, arr), f"{attr} of wrong size", (ValueError,))
        for a, w in want.items():
            acc.eq(getattr(p, a), w, f"{item[:k + 1]}: {a}", 0, 0)
        check_access(acc, p, f"{item[:k + 1]}: ")
    check_table(acc, p, f"{item}: ")
    for bad in BAD_IDS:
        for fn in (p.param_id_to_index, p.get_param_value, p.get_param_error, p.__getitem__):
            acc.refused(lambda: fn(bad), f"identifier {bad!r}", (ValueError, TypeError, IndexError, KeyError))
    for a, w in want.items():
        acc.eq(getattr(p, a), w, f"{a} after refused reads", 0, 0)
    acc.state((item, repr(want)))


def run_min(acc, item):
    kind, ops = item
    m = make(kind)
    fixed, bounds, results = set(), {}, []
    for k, o in enumerate(ops):
        acc.op(o)
        tag = f"{kind} {ops[:k + 1]}: "
        if o[0] == "F":
            m.set_param_fixed(NAMES[int(o[1])] if o[2] == "n" else int(o[1]))
            fixed.add(int(o[1]))
        elif o[0] == "B":
            i = int(o[1])
            b = {"u": (None, [4.5, 1.0, 4.0][i]), "l": ([0.5, 0.0, 1.0][i], None), "i": ([0.0, -1.75, 1.5][i], [6.0, 0.75, 4.5][i]),
                 "o": (None, None)}[o[2]]
            m.set_param_bounds(NAMES[i] if k % 2 else i, b)
            bounds[i] = b
        elif o == "release":
            m.release_params()
            fixed = set()
        elif o == "bad":
            for bad in BAD_IDS:
                acc.refused(lambda: m.set_param_fixed(bad), f"fixing {bad!r}", (ValueError, TypeError, IndexError, KeyError))
                acc.refused(lambda: m.set_param_bounds(bad, (0.0, 1.0)), f"bounding {bad!r}", (ValueError, TypeError, IndexError, KeyError))
        else:
            x0 = X0[int(o[1])]
            start = np.array(x0)
            hesse = o.endswith("h")
            res = m.minimize(start, get_hesse=hesse, verbose=0)
            acc.eq(start, x0, tag + "starting values were modified", 0, 0)
            results.append([res, content(res)])
            f, x = constrained(x0, fixed, {i: b for i, b in bounds.items() if i not in fixed})
            active = any(i not in fixed and any(v is not None and abs(v - x[i]) < 0.3 for v in b) for i, b in bounds.items())
            atol = 0.05 if active and kind == "iminuit" else 3e-3
            p = res.params
            acc.true(bool(res.succes), tag + "succeeds")
            acc.eq(float(res.fcn_min_val), fcn([float(v) for v in p.values]), tag + "minimum and values", 1e-9, 1e-9)
            acc.eq(float(res.fcn_min_val), f, tag + "minimum", 0, 1e-2 if active else 1e-5)
            acc.eq([float(v) for v in p.values], x, tag + "values", 0, atol)
            for i in fixed:
                acc.eq(float(p.values[i]), x0[i], tag + "fixed value", 1e-7, 1e-7)
            check_access(acc, p, tag)
            acc.eq(m.fcn_min_val, res.fcn_min_val, tag + "minimizer's minimum", 0, 0)
            for a, b in ((m.params.values, p.values), (m.param_values, p.values), (m.param_errors, p.errors),
                         (m.param_covariance, p.covariance), (m.param_correlation, p.correlation)):
                acc.eq(a, b, tag + "minimizer's parameters", 0, 0)
            if hesse and not active and (kind == "scipy" or not any(b != (None, None) for b in bounds.values())):
                free = [i for i in range(N) if i not in fixed]
                cov = [[0.0] * N for _ in range(N)]
                if free:
                    inv = ref.inverse([[A[i][j] for j in free] for i in free])
                    for a, i in enumerate(free):
                        for b, j in enumerate(free):
                            cov[i][j] = inv[a][b]
                tol = 2e-3
                acc.eq(p.covariance, cov, tag + "covariance", tol, tol)
                acc.eq(p.errors, [math.sqrt(cov[i][i]) for i in range(N)], tag + "errors", tol, tol)
            if hesse and (not bounds or kind == "scipy"):
                c = [[float(v) for v in r] for r in p.covariance]
                acc.eq([float(v) for v in p.errors], [math.sqrt(c[i][i]) for i in range(N)], tag + "errors and covariance", 1e-4, 1e-9)
                acc.eq([[float(v) for v in r] for r in p.correlation], ref.cov2corr(c), tag + "correlation and covariance", 1e-5, 1e-9)
        for n, (res, want) in enumerate(results):
            acc.eq(content(res), want, f"{tag}result {n} changed after it was returned", 0, 0)
    acc.state((kind, tuple(sorted(fixed)), tuple(sorted(bounds.items())), len(results)))


def run_size(acc, item):
    """the container keeps what it is given, for any number of parameters"""
    from templatefitter.minimizer import Parameters
    n, reverse = item
    names = [f"p{i}" for i in range(n)][::-1 if reverse else 1]
    p = Parameters(list(names))
    acc.op("container", n)
    v, e = [0.1 * i - 1.0 / 3 + 1e7 * (i % 5 == 4) for i in range(n)], [0.7 + i / 7 for i in range(n)]
    c = [[(i + 1) * (j + 1) / 9 + (i == j) for j in range(n)] for i in range(n)]
    k = [[c[i][j] / math.sqrt(c[i][i] * c[j][j]) for j in range(n)] for i in range(n)]
    p.values, p.errors, p.covariance, p.correlation = np.array(v), np.array(e), np.array(c), np.array(k)
    acc.eq([plain(p.values), plain(p.errors), plain(p.covariance), plain(p.correlation)], [v, e, c, k], f"{item}: contents", 0, 0)
    acc.eq([p.num_params, list(p.names)], [n, names], f"{item}: names")
    for i, q in enumerate(names):
        for key in (i, q):
            acc.eq(p.param_id_to_index(key), i, f"{item}: index of {key!r}")
            acc.eq([float(x) for x in p[key]] + [float(p.get_param_value(key)), float(p.get_param_error(key))], [v[i], e[i], v[i], e[i]], f"{item}: {key!r}", 0, 0)
    for bad in (n - 1, n + 1):
        for attr in ("values", "errors"):
            acc.refused(lambda: setattr(p, attr, np.zeros(bad)), f"{item}: {bad} {attr}", (ValueError,))
        for attr in ("covariance", "correlation"):
            for sh in ((bad, bad), (n, bad), (bad, n)):
                acc.refused(lambda: setattr(p, attr, np.zeros(sh)), f"{item}: {attr} of shape {sh}", (ValueError,))
    acc.eq([plain(p.values), plain(p.errors), plain(p.covariance), plain(p.correlation)], [v, e, c, k], f"{item}: contents after refusals", 0, 0)
    check_rows = [line.split() for line in str(p).splitlines()]
    for i, q in enumerate(names):
        acc.eq(len([r for r in check_rows if q in r]), 1, f"{item}: rows of {q}")
    acc.state(item)


def run_wide(acc, item):
    """more parameters: every result stays what it was while the same minimizer goes on"""
    from templatefitter.minimizer import minimizer_factory
    kind, n, ops = item
    names = [f"p{i}" for i in range(n)]
    centre = [1.5 * i - 2.0 for i in range(n)]
    m = minimizer_factory(kind, lambda x: 0.5 * sum((1 + 0.25 * i) * (x[i] - centre[i]) ** 2 for i in range(n)), list(names))
    fixed, results = set(), []
    for k, o in enumerate(ops):
        acc.op(o)
        if o == "fix":
            m.set_param_fixed(names[n - 1])
            fixed.add(n - 1)
        elif o == "fix0":
            m.set_param_fixed(0)
            fixed.add(0)
        elif o == "release":
            m.release_params()
            fixed = set()
        else:
            x0 = [c + {"a": 1.0, "b": -2.0}[o[0]] * (1 + i % 3) for i, c in enumerate(centre)]
            res = m.minimize(np.array(x0), get_hesse=o.endswith("h"), verbose=0)
            results.append([res, content(res)])
            want = [x0[i] if i in fixed else centre[i] for i in range(n)]
            tag = f"{kind} with {n} parameters {ops[:k + 1]}: "
            acc.eq([float(v) for v in res.params.values], want, tag + "values", 0, 3e-3)
            acc.eq([float(res.params[q][0]) for q in names], [float(v) for v in res.params.values], tag + "values by name", 0, 0)
            if o.endswith("h"):
                acc.eq([float(v) for v in res.params.errors], [0.0 if i in fixed else 1 / math.sqrt(1 + 0.25 * i) for i in range(n)],
                       tag + "errors", 2e-3, 2e-3)
            acc.eq(float(res.fcn_min_val), 0.5 * sum((1 + 0.25 * i) * (float(v) - c) ** 2 for i, (v, c) in enumerate(zip(res.params.values, centre))),
                   tag + "minimum", 1e-9, 1e-9)
        for q, (res, want) in enumerate(results):
            acc.eq(content(res), want, f"{kind} with {n} parameters {ops[:k + 1]}: result {q} changed after it was returned", 0, 0)
    acc.state(item)


SIMILAR = ["ab_yield", "b_yield", "b_yield_bin_0", "B_yield", "b_yield ", "_yield", "0"]


def run_names(acc, order):
    """every name and position selects its own entry whatever the order of names resembling each other"""
    from templatefitter.minimizer import Parameters
    names = [SIMILAR[i] for i in order]
    p = Parameters(list(names))
    n = len(names)
    p.values = np.array([10.0 + i for i in order])
    p.errors = np.array([0.5 + i for i in order])
    for k, i in enumerate(order):
        acc.op("lookup", k)
        for pid in (SIMILAR[i], k):
            acc.eq((p.param_id_to_index(pid), float(p.get_param_value(pid)), float(p.get_param_error(pid)), tuple(map(float, p[pid]))),
                     (k, 10.0 + i, 0.5 + i, (10.0 + i, 0.5 + i)), f"{names}: {pid!r}")
    for pid in [x for x in SIMILAR if x not in names] + ["yield", "b_yield_bin_", " b_yield", "AB_YIELD", n, -1]:
        for fn in (p.param_id_to_index, p.get_param_value, p.get_param_error, p.__getitem__):
            acc.refused(lambda: fn(pid), f"{names}: {pid!r} was accepted", (ValueError,))
    acc.state(tuple(order))


def parts(tier, seed):
    deep = tier == "thorough"
    sets = [(a, k) for a in ("values", "errors", "covariance", "correlation") for k in ("ok", "list", "short", "long")]
    cont = [s for k in range(0, 4 if deep else 3) for s in itertools.product(sets, repeat=k)]
    cont += [s + ((a, k),) + e for a in ("values", "errors", "covariance", "correlation") for k in ("wide", "narrow", "tall", "flat", "cube")
             for s in ((), ((a, "ok"),)) for e in ((), ((a, "list"),))]
    ops = ["F0n", "F1i", "F2n", "B0u", "B1l", "B2i", "B2o", "release", "bad", "M0h", "M1"]
    seqs = []
    for kind in ("scipy", "iminuit"):
        for k in range(1, 4):
            seqs += [(kind, s) for s in itertools.product(ops, repeat=k) if s[-1][0] == "M"]
        for s in itertools.product(ops, repeat=4):
            if s[-1][0] == "M":
                seqs.append((kind, s))
        if deep:
            seqs += [(kind, s + ("M1", "M0h")) for s in itertools.product(ops[:8], repeat=4) if len(set(s)) == 4]
    orders = [o for k in ((1, 2, 3, 7) if not deep else range(1, 8)) for o in itertools.permutations(range(7), k)]
    wide = [(kind, n, s) for kind in ("scipy", "iminuit") for n in (1, 2, 6, 11, 25) for d in (1, 2, 3) + ((4,) if deep else ())
            for s in itertools.product(("a", "ah", "b", "bh", "fix", "fix0", "release"), repeat=d)
            if s[-1][0] in "ab" and not (n <= 2 and any(o.startswith("fix") for o in s)) and (d < 3 or n != 25)]
    return [Part("sizes", [(n, r) for n in (*range(1, 41), 63, 64, 65, 100, 129, 200) for r in (False, True)], run_size, "containers of 1 to 40 and up to 200 parameters"),
            Part("numbers of parameters", wide, run_wide, "1 to 25 parameters, all sequences of up to 3 (4) operations"),
            Part("names", orders, run_names, "all selections and orders of 1, 2, 3 and 7 names resembling each other"),
            Part("container", cont, run_container, f"all sequences of up to {3 if deep else 2} assignments, ten shapes, all identifiers"),
            Part("minimizers", seqs, run_min, f"all sequences of up to {6 if deep else 4} operations on one minimizer")]
