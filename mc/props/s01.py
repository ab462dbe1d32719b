"""S01: every sequence of successful and failing fits (three kinds of failure) of toy studies of up to 3 experiments with up to
3 tries (more when thorough), on one to three processes, with and without data before, for both minimizers with scripted
answers and with real fits; and every sequence of studies (completed, aborted, ended by another error) and model changes with
one study object.  The rows must be those of the successful fits, each fit must have seen its own fresh toy, and model and
data must be what they were."""
import itertools

import numpy as np

from ..core import Part, plain
from ..models import check_unchanged, snapshot
from ..toys import Fits, patterns, state, toy_model


def refuse_results(acc, study, procs, tag):
    for what, fn in (("result_parameters", lambda: study.result_parameters), ("result_uncertainties", lambda: study.result_uncertainties),
                     ("get_toy_results", lambda: study.get_toy_results(procs[0])),
                     ("get_toy_result_pulls", lambda: study.get_toy_result_pulls(procs[0]))):
        acc.refused(fn, f"{tag}{what} without a completed study")


def check_rows(acc, p, study, fits, n, tag):
    good = [c for c in fits.calls if c["outcome"] not in ("raise", "other") and c.get("succes", True)]
    acc.eq(len(good), n, tag + "successful fits")
    par, unc = study.result_parameters, study.result_uncertainties
    acc.eq([len(par), len(unc)], [n, n], tag + "rows")
    acc.eq(par, [c["values"] for c in good] if n else par, tag + "parameters", 0, 0)
    acc.eq(unc, [c["errors"] for c in good] if n else unc, tag + "uncertainties", 0, 0)
    if n:
        for i, q in enumerate(p.r.procs):
            a, b = study.get_toy_results(q)
            acc.eq(a, [c["values"][i] for c in good], f"{tag}fitted yields of {q}", 0, 0)
            acc.eq(b, [c["errors"][i] for c in good], f"{tag}uncertainties of {q}", 0, 0)


def check_toys(acc, p, fits, before, tag):
    """every fit saw a toy of its own, generated by the model in the state before the study"""
    seen = []
    for k, c in enumerate(fits.calls):
        d = c["state"]["data"]
        acc.true(all(v is not None for v in d.values()), f"{tag}fit {k} without data")
        acc.true(d not in seen, f"{tag}fit {k} used a toy that had been used before")
        acc.true(d != before["data"], f"{tag}fit {k} did not use a toy")
        acc.eq(c["state"]["params"], before["params"], f"{tag}model parameters during fit {k}", 0, 0)
        seen.append(d)
    if fits.toys:
        gen = [t["counts"] for t in fits.toys]
        for k, d in enumerate(seen):
            acc.true(d in gen, f"{tag}data of fit {k} are not those of a toy")


def prepare(which, data, move):
    p = toy_model(which)
    chans = list(p.r.ch)
    if data == "all":
        p.auto_data(2)
    elif data == "first":
        p.add_data(**{chans[0]: [float(11 + i) for i in range(p.r.ch[chans[0]].nb())]})
    elif data == "last":
        p.add_data(**{chans[-1]: [float(5 + i) for i in range(p.r.ch[chans[-1]].nb())]})
    if move:
        n = len(p.r.procs)
        p.update([9000.0 + 500 * i for i in range(n)] + [0.4 * ((i % 5) - 2) for i in range(p.r.npar() - n)])
    return p


def one(acc, p, study, n, tries, script, done, tag, real=False):
    before, snap = state(p), snapshot(p)
    fits = Fits(p, script, real)
    with fits.installed():
        try:
            study.do_experiments(n, tries) if tries is not None else study.do_experiments(n)
            ok = True
        except (RuntimeError, ValueError) as e:
            ok, err = False, e
    acc.op("study", n, tries, script)
    if not real:
        acc.eq(ok, done, tag + "completed")
        acc.eq(len(fits.calls), len(script), tag + "number of fits")
    if not ok and (not script or script[-1] != "other"):
        acc.true(isinstance(err, RuntimeError), tag + "kind of error")
    if ok:
        check_rows(acc, p, study, fits, n, tag)
    else:
        refuse_results(acc, study, p.r.procs, tag)
    check_toys(acc, p, fits, before, tag)
    acc.eq(state(p), before, tag + "model afterwards", 0, 0)
    check_unchanged(acc, p, snap, tag + "study")
    return ok, fits


def run(acc, item):
    from templatefitter import ToyStudy
    which, minimizer, data, move, n, tries, script, done = item
    np.random.seed(12345)
    p = prepare(which, data, move)
    study = ToyStudy(p.m, minimizer)
    refuse_results(acc, study, p.r.procs, "before: ")
    one(acc, p, study, n, tries, script, done, f"{item}: ")
    acc.outcome("completed" if done else "stopped")
    acc.state(item)


def run_seq(acc, item):
    from templatefitter import ToyStudy
    which, minimizer, ops = item
    np.random.seed(4321)
    p = prepare(which, "all", True)
    study = ToyStudy(p.m, minimizer)
    rows = None
    for k, o in enumerate(ops):
        tag = f"{item[:2]} {ops[:k + 1]}: "
        if isinstance(o, tuple):
            n, tries, script, done = o
            ok, fits = one(acc, p, study, n, tries, script, done, tag)
            rows = (fits, n) if ok else None
        elif o == "move":
            acc.op(o)
            p.update([8000.0 + 100 * k + 300 * i for i in range(len(p.r.procs))] + [0.1] * (p.r.npar() - len(p.r.procs)))
        elif o == "reset":
            acc.op(o)
            p.reset()
        elif o == "data":
            acc.op(o)
            p.auto_data(k + 3)
        if rows:
            check_rows(acc, p, study, *rows, tag)
        else:
            refuse_results(acc, study, p.r.procs, tag)
    acc.state(item)


def run_real(acc, item):
    from templatefitter import ToyStudy
    which, minimizer, n, script = item
    np.random.seed(99)
    p = prepare(which, "all", True)
    study = ToyStudy(p.m, minimizer)
    ok, fits = one(acc, p, study, n, 10, script, None, f"{item}: ", real=True)
    acc.outcome("completed" if ok else "stopped")
    if ok:
        # fits of this many events are close to the generated yields
        for c in fits.calls:
            if c.get("succes"):
                for i, q in enumerate(p.r.procs):
                    y = p.r.yields()[i]
                    acc.true(abs(c["values"][i] - y) < 8 * max(c["errors"][i], y ** 0.5), f"{item}: fitted yield of {q}", c["values"][i])
    acc.state(item)


def parts(tier, seed):
    deep = tier == "thorough"
    one_ = []
    for n, tries in [(1, 1), (1, 3), (2, 2), (3, 2), (2, 3), (3, 3)] + ([(4, 2), (2, 5), (3, 4), (4, 3)] if deep else []):
        for script, done in patterns(n, tries, ("raise", "reported") if n * tries <= 6 or deep else ("raise",)):
            one_.append(("t2", "iminuit", "all", True, n, tries, script, done))
    for n, tries in ((2, 2), (0, 2), (1, 2)):
        for script, done in patterns(n, tries):
            for which, mi, data, move in itertools.product(("t1", "t2", "t3"), ("scipy", "iminuit"), ("none", "first", "last", "all"), (False, True)):
                one_.append((which, mi, data, move, n, tries, script, done))
    # successful fits with unusual results are results all the same
    for n, tries in ((2, 2), (1, 2)) + (((3, 2),) if deep else ()):
        for script, done in patterns(n, tries):
            for v in itertools.product(("ok", "nan", "zero", "negative"), repeat=script.count("ok")):
                if set(v) - {"ok"}:
                    it = iter(v)
                    s = tuple(next(it) if o == "ok" else o for o in script)
                    one_ += [(which, "scipy", "all", True, n, tries, s, done) for which in ("t1", "t2")]
    for n in (1, 2, 3):
        for k in range(n):
            one_.append(("t2", "scipy", "all", True, n, 2, ("ok",) * k + ("other",), False))
    # long runs of failures
    one_ += [("t2", mi, "all", True, 2, t, ("ok",) * a + (f,) * k + ("ok",) * (2 - a), True) for mi in ("scipy", "iminuit") for t in (5, 12, 25)
             for f in ("raise", "reported") for a in (0, 1) for k in range(2, t, 1 if deep else 3)]
    # the default number of tries is ten
    one_ += [("t2", "scipy", "all", True, 2, None, ("ok",) + ("raise",) * 9 + ("ok",), True),
             ("t2", "scipy", "all", True, 2, None, ("ok",) + ("raise",) * 10, False)]
    # many experiments
    one_ += [(which, mi, "all", True, n, 3, tuple(o for i in range(n) for o in (("raise", "ok") if i % k == k - 1 else ("ok",))), True)
             for which, mi in (("t1", "scipy"), ("t2", "iminuit"), ("t3", "scipy")) for n, k in ((11, 4), (33, 7), (70, 200), (130, 9)) + (((520, 50),) if deep else ())]
    studies = [(2, 2, ("ok", "ok"), True), (1, 2, ("raise", "ok"), True), (2, 2, ("ok", "raise", "raise"), False),
               (3, 3, ("ok", "raise", "ok", "raise", "reported", "ok"), True), (2, 1, ("ok", "reported"), False), (2, 2, ("ok", "other"), False)]
    ops = studies + ["move", "reset", "data"]
    seqs = [(w, "iminuit", s) for w in ("t2",) + (("t3",) if deep else ()) for k in (2, 3) + ((4,) if deep else ())
            for s in itertools.product(ops, repeat=k) if isinstance(s[0], tuple) or k == 2]
    real = [(w, mi, n, sc) for w in ("t1", "t2", "t3") for mi in ("scipy", "iminuit") for n in ((1, 3) if not deep else (1, 3, 12))
            for sc in ((), ("raise",), ("ok", "reported"))]
    return [Part("patterns", one_, run, "all patterns of failures of up to 3 experiments with 3 tries"),
            Part("histories", seqs, run_seq, "all sequences of up to 3 studies and changes"),
            Part("real fits", real, run_real, "both minimizers")]
