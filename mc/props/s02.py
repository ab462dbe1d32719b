"""S02: linearity tests of every process of three models over several ranges, numbers of points and experiments, from
several model states, with every pattern of failing fits within the bound and scripted fitted yields: the state of the model
at every toy and fit, the points, means and spreads are compared with the definition.  Sequences of tests and studies with
one study object, and tests with real fits."""
import itertools
import math

import numpy as np

from .. import ref
from ..core import Part
from ..toys import Fits, patterns, state
from .s01 import prepare


def points(lo, hi, n):
    return [lo + (hi - lo) * k / (n - 1) for k in range(n)] if n > 1 else [lo]


def linear(acc, p, study, q, limits, n_points, n_exp, script, tag, real=False, kwargs=True):
    i = p.r.procs.index(q)
    want_pts = points(*limits, n_points)
    fits = Fits(p, script, real)
    data = state(p)["data"]
    acc.op("linearity test", q, limits, n_points, n_exp, script)
    ok = True
    with fits.installed():
        try:
            if n_points == 10 and n_exp == 200:
                pts, mean, std = study.do_linearity_test(q, limits)
            elif kwargs:
                pts, mean, std = study.do_linearity_test(q, limits, n_points=n_points, n_exp=n_exp)
            else:
                pts, mean, std = study.do_linearity_test(q, limits, n_points, n_exp)
        except RuntimeError:
            ok = False
    # the successful fits belong to the points in order, n_exp each
    done, k, fails, broken = [[] for _ in want_pts], 0, 0, False
    p.r.reset()
    base = {key: [t.y] + list(t.nui) for key, t in ((key, p.r.ch[key[0]].t[key[1]]) for key in p.tm)}
    seen = []
    for n, c in enumerate(fits.calls):
        acc.true(not broken and k < n_points, f"{tag}more fits than needed")
        want = {}
        for (ch, pr), v in base.items():
            want[ch, pr] = [want_pts[k] * p.r.ch[ch].eff[pr]] + v[1:] if pr == q else v
        acc.eq(list(c["state"]["params"].values()), list(want.values()), f"{tag}model at fit {n} (point {k})", 1e-9, 1e-9)
        acc.true(c["state"]["data"] not in seen or min(want_pts) == 0 or len(p.r.procs) == 1 and want_pts[k] < 1, f"{tag}fit {n} used a toy that had been used before")
        acc.true(c["state"]["data"] != data, f"{tag}fit {n} did not use a toy")
        seen.append(c["state"]["data"])
        if c["outcome"] == "ok" and c.get("succes", True):
            done[k].append(c["values"][i])
            fails = 0
            if len(done[k]) == n_exp:
                k += 1
        else:
            fails += 1
            broken = fails == 10
    for t in fits.toys:
        acc.true(any(abs(t["state"]["params"][key][0] - w * p.r.ch[key[0]].eff[key[1]]) < 1e-9 * (1 + abs(w))
                     for w in want_pts for key in base if key[1] == q), tag + "toy generated at another yield")
    acc.eq(ok, not broken, tag + "completed")
    acc.eq(state(p)["data"], data, tag + "data afterwards", 0, 0)
    # from here on the model may have any parameters; continue from a known one
    p.reset()
    if not ok:
        return None
    acc.eq(k, n_points, tag + "points with all their experiments")
    acc.eq(pts, want_pts, tag + "points", 1e-9, 1e-9)
    m = [ref.fsum(v) / n_exp for v in done]
    acc.eq(list(mean), m, tag + "means", 1e-9, 1e-9)
    acc.eq(list(std), [math.sqrt(ref.fsum((x - a) ** 2 for x in v) / n_exp) for v, a in zip(done, m)], tag + "spreads", 1e-7, 1e-7)
    return done


def run(acc, item):
    from templatefitter import ToyStudy
    which, minimizer, q, limits, n_points, n_exp, move, script = item
    np.random.seed(7)
    p = prepare(which, "all", move)
    linear(acc, p, ToyStudy(p.m, minimizer), q, limits, n_points, n_exp, script, f"{item}: ", kwargs=move)
    acc.state(item)


def run_seq(acc, item):
    from templatefitter import ToyStudy
    which, ops = item
    np.random.seed(8)
    p = prepare(which, "first", True)
    study = ToyStudy(p.m, "iminuit")
    for k, o in enumerate(ops):
        tag = f"{which} {ops[:k + 1]}: "
        if o[0] == "lin":
            linear(acc, p, study, *o[1:], tag)
        elif o[0] == "study":
            fits = Fits(p, o[2])
            with fits.installed():
                acc.op(*o)
                try:
                    study.do_experiments(o[1], 2)
                except RuntimeError:
                    pass
        elif o[0] == "move":
            acc.op(*o)
            p.update([7000.0 + 400 * i for i in range(len(p.r.procs))] + [0.2] * (p.r.npar() - len(p.r.procs)))
    acc.state(item)


def run_real(acc, item):
    from templatefitter import ToyStudy
    which, minimizer, q = item
    np.random.seed(9)
    p = prepare(which, "all", True)
    done = linear(acc, p, ToyStudy(p.m, minimizer), q, (4000.0, 12000.0), 3, 3, (), f"{item}: ", real=True)
    acc.outcome("completed" if done else "stopped")
    acc.state(item)


def parts(tier, seed):
    deep = tier == "thorough"
    items = []
    procs = {"t1": ["a"], "t2": ["ab", "a"], "t3": ["s", "sx", "xs"]}
    for which, qs in procs.items():
        for q in qs:
            for lim in ((1000.0, 9000.0), (8000, 2000), (500.5, 501.5), (0.0, 3000.0), (700.0, 0)):
                for npt in (1, 2, 3) + ((5,) if deep else ()):
                    for ne in (1, 2, 3):
                        for mv in (False, True):
                            items.append((which, "iminuit" if ne % 2 else "scipy", q, lim, npt, ne, mv, ()))
    items += [("t1", "scipy", "a", (1000.0, 2000.0), npt, 1, True, ()) for npt in range(4, 12)]
    items.append(("t1", "iminuit", "a", (1000.0, 2000.0), 10, 200, False, ()))   # the defaults
    items += [("t2", "iminuit", q, (1000.0, 3000.0), npt, 2, True, s) for q in ("a", "ab") for npt in (13, 17, 21, 25, 33)
              for s in ((), ("ok",) * 24 + ("raise",) * 3, ("reported",) * 9 + ("ok",) * 16 + ("reported", "raise"))]
    items += [("t3", "scipy", q, (4000.0, 3000.0), 2, ne, True, s) for q in ("s", "sx", "xs") for ne in (5, 9, 13, 21, 34, 52)
              for s in ((), ("ok",) * 5 + ("raise",) * 9 + ("ok", "reported"))]
    items += [("t2", "scipy", "ab", (3000.0, 6000.0), 13, 1, True, ("ok",) * k + ("raise",) * 10) for k in (9, 11, 12)]
    for npt, ne in ((2, 2), (3, 1), (1, 3), (2, 1)) + (((3, 2), (2, 3)) if deep else ()):
        for script, done in patterns(npt * ne, 3, ("raise", "reported")):
            if done:
                items.append(("t2", "scipy", "a", (3000.0, 6000.0), npt, ne, True, script))
    for k in range(4):
        items.append(("t3", "scipy", "xs", (3000.0, 6000.0), 2, 2, True, ("ok",) * k + ("raise",) * 10))
        items.append(("t3", "scipy", "xs", (3000.0, 6000.0), 2, 2, True, ("ok",) * k + ("raise",) * 9 + ("ok", "raise")))
    ops = [("lin", "a", (3000.0, 6000.0), 2, 2, ()), ("lin", "ab", (5000.0, 3000.0), 3, 1, ("raise", "ok", "reported")),
           ("lin", "a", (2000.0, 2500.0), 2, 1, ("ok",) + ("raise",) * 10), ("study", 2, ("ok", "ok")), ("study", 2, ("ok", "raise", "raise")),
           ("move",)]
    seqs = [("t2", s) for k in (2, 3) + ((4,) if deep else ()) for s in itertools.product(ops, repeat=k)]
    real = [(w, mi, q) for w, qs in procs.items() for q in qs for mi in ("scipy", "iminuit")]
    return [Part("patterns", items, run, "all processes, ranges, up to 3 points and 3 experiments (single ones up to 33 points, 200 experiments), failure patterns"),
            Part("histories", seqs, run_seq, "all sequences of up to 3 tests, studies and changes"),
            Part("real fits", real, run_real, "both minimizers")]
