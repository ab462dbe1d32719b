"""S03: every sequence (up to the bound) of toy studies, linearity tests and later model changes (updating, resetting, setting
yields, new data, real fits) on models with several orders of processes and templates, with scripted fit outcomes: the pulls
of every process are (fitted - generated)/uncertainty with the yields of the model when the toys were generated, before and
after the changes."""
import itertools

import numpy as np

from ..core import Part
from ..toys import Fits
from .s01 import prepare


def check(acc, p, study, gen, rows, tag):
    for i, q in enumerate(p.r.procs):
        acc.eq(study.get_toy_result_pulls(q), [(v[i] - gen[i]) / e[i] for v, e in rows], f"{tag}pulls of {q}", 1e-9, 1e-9)
        a, b = study.get_toy_results(q)
        acc.eq(a, [v[i] for v, _ in rows], f"{tag}yields of {q}", 0, 0)
        acc.eq(b, [e[i] for _, e in rows], f"{tag}uncertainties of {q}", 0, 0)
    acc.refused(lambda: study.get_toy_result_pulls("nobody"), tag + "unknown process")


def run(acc, item):
    from templatefitter import TemplateFitter, ToyStudy
    which, start, ops = item
    np.random.seed(17)
    p = prepare(which, "all", False)
    ny = len(p.r.procs)
    if start:      # efficiencies add up to one, but only a written vector makes the channels agree with them
        p.update([6000.0 + 700 * i for i in range(ny)] + [0.0] * (p.r.npar() - ny))
    study = ToyStudy(p.m, "iminuit")
    gen = rows = None
    for k, o in enumerate(ops):
        tag = f"{which} {start} {ops[:k + 1]}: "
        acc.op(o)
        if o[:5] == "study":
            script = {"study": (), "studyf": ("raise", "ok", "reported", "ok")}[o]
            gen = p.r.yields()
            if not any(gen):
                return
            fits = Fits(p, script)
            with fits.installed():
                study.do_experiments(3, 4)
            rows = [(c["values"], c["errors"]) for c in fits.calls if c["outcome"] == "ok"]
        elif o == "lin":
            q = p.r.procs[-1]
            p.reset()
            p.set_yield(q, 4000.0)
            gen = p.r.yields()
            fits = Fits(p)
            with fits.installed():
                study.do_linearity_test(q, (3000.0, 4000.0), 2, 2)
            rows = [(c["values"], c["errors"]) for c in fits.calls[2:]]
            p.reset()
        elif o == "move":
            p.update([7500.0 + 1300 * i for i in range(ny)] + [0.3] * (p.r.npar() - ny))
        elif o == "reset":
            p.reset()
        elif o == "zero":       # one process without events
            p.reset()
            p.set_yield(p.r.procs[-1], 0.0)
        elif o == "set":
            p.set_yield(p.r.procs[0], 1234.5)
        elif o == "data":
            p.auto_data(5)
        elif o == "fit":
            if not all(v > 0 for v in p.r.yields()):
                acc.outcome("no real fits from zero")
                return
            res = TemplateFitter(p.m, "iminuit").do_fit(verbose=0, fix_nui_params=True)
            p.r.update([float(v) for v in res.params.values])
        elif o == "other":      # a second study object on the same model
            fits = Fits(p)
            other = ToyStudy(p.m, "scipy")
            with fits.installed():
                other.do_experiments(2)
            check(acc, p, other, p.r.yields(), [(c["values"], c["errors"]) for c in fits.calls], tag)
        if rows is not None:
            check(acc, p, study, gen, rows, tag)
    acc.state(item)


def parts(tier, seed):
    deep = tier == "thorough"
    ops = ["study", "studyf", "lin", "move", "reset", "set", "zero", "data", "fit", "other"]
    items = [(w, s, seq) for w in ("t1", "t2", "t3") for s in (0, 1) for k in (1, 2, 3) + ((4,) if deep else ())
             for seq in itertools.product(ops, repeat=k) if any(o in ("study", "studyf", "lin") for o in seq)
             and not (w == "t1" and "zero" in seq) and (k < 3 or deep or w == "t2" or seq[0] in ("study", "lin"))]
    return [Part("histories", items, run, f"all sequences of up to {4 if deep else 3} operations")]
