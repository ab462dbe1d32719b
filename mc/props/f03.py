"""F03: every sequence (up to the bound) of fits with and without updating, with both minimizers, failing fits (before or after
the minimization proper), scans, significances and changes of the model (data, parameters, yields, variations, constraints,
fixing) on one model shared by two long-lived fitters.  After every operation the whole model is compared with the reference
model updated by the reported parameters, every result handed out so far is compared with the copy taken when it was
returned, the starting values given to the minimizer are compared with the model's parameters at that time, and the reported
minimum with the reference minimum for the model's state at that time."""
import contextlib
import copy
import itertools

import numpy as np

from ..core import Part, plain
from ..fitmodels import make, near
from ..fitref import FitRef
from ..models import check_all, check_unchanged, snapshot
from ..pool import Schedule, controlled
from .f02 import check_profile, check_significance


class Script:
    """Wraps the minimizers' public minimize methods: records starting values, fails when told to."""

    def __init__(self):
        self.starts, self.fail = [], None

    @contextlib.contextmanager
    def installed(self):
        import templatefitter.minimizer as mm
        classes = [mm.ScipyMinimizer, mm.IMinuitMinimizer]
        real = [c.minimize for c in classes]

        def wrap(orig):
            def minimize(obj, *a, **k):
                first = a[0] if a else next(v for n, v in k.items() if n.startswith("initial"))
                self.starts.append(np.array(first, dtype=float))
                mode, self.fail = self.fail, None
                if mode == "before":
                    raise RuntimeError("scripted failure")
                res = orig(obj, *a, **k)
                if mode == "after":
                    raise RuntimeError("scripted failure")
                return res
            return minimize
        for c, r in zip(classes, real):
            c.minimize = wrap(r)
        try:
            yield self
        finally:
            for c, r in zip(classes, real):
                c.minimize = r


def content(res):
    p = res.params
    return [float(res.fcn_min_val), bool(res.succes), list(p.names), plain(p.values), plain(p.errors), plain(p.covariance),
            plain(p.correlation), [plain(p[n]) for n in p.names], [plain(p.get_param_value(i)) for i in range(len(p.names))]]


def run(acc, item):
    from templatefitter import TemplateFitter
    name, ops = item
    p = make(name)
    p.update(near(name))
    fit = {"i": TemplateFitter(p.m, "iminuit"), "s": TemplateFitter(p.m, "scipy")}
    held = {"i": set(), "s": set()}
    results = []
    script = Script()
    keep = None
    with script.installed():
        for k, o in enumerate(ops):
            acc.op(o)
            tag = f"{name} {ops[:k + 1]}: "
            F = FitRef(p.r)
            x0 = p.r.x0()
            before = snapshot(p)
            script.starts = []
            if o[:2] in ("fi", "fs") and o != "fix":
                which, update, fail = o[1], "u" in o[2:], None
                if "x" in o[2:]:
                    script.fail = "before"
                if "y" in o[2:]:
                    script.fail = "after"
                try:
                    kw = {} if update and k % 2 else {"update_templates": update}
                    if "n" in o[2:]:
                        kw["fix_nui_params"] = True
                    kw["verbose"] = (0, True, 2, False)[(k + len(ops)) % 4]
                    res = fit[which].do_fit(get_hesse="h" in o[2:], **kw)
                except RuntimeError:
                    res = None
                acc.true(len(script.starts) >= 1, tag + "a minimization took place")
                acc.eq(script.starts[0].tolist(), list(x0), tag + "starting values", 1e-9, 1e-9)
                if "x" in o[2:] or "y" in o[2:]:
                    acc.true(res is None, tag + "a failing minimization gave a result")
                if res is None:
                    check_unchanged(acc, p, before, tag + "failed fit")
                    acc.outcome("failed")
                else:
                    results.append([res, content(res)])
                    if update:
                        p.r.update([float(v) for v in res.params.values])
                    else:
                        check_unchanged(acc, p, before, tag + "fit without updating")
                    if res.succes:
                        best = F.minimize(x0, held[which] | (set(range(len(p.r.procs), F.n)) if "n" in o[2:] else set()))
                        if best is not None:
                            acc.true(abs(res.fcn_min_val - best[0]) <= 2e-3,
                                     f"{tag}minimum {res.fcn_min_val} instead of {best[0]} for the model at the time of the fit")
                            acc.outcome("minimum compared")
            elif o[:2] in ("pi", "ps"):
                try:
                    with controlled(Schedule()):
                        out = fit[o[1]].profile(0, num_cpu=2, num_points=3, sigma=1.0, subtract_min=False)
                    acc.eq(script.starts[0].tolist(), list(x0), tag + "starting values", 1e-9, 1e-9)
                    if 0 not in held[o[1]]:
                        check_profile(acc, F, x0, out, 0, 3, 1.0, held[o[1]], {}, False, "iminuit", tag)
                except RuntimeError:
                    acc.outcome("failed")
                check_unchanged(acc, p, before, tag + "scan")
            elif o[:2] in ("gi", "gs"):
                script.fail = {"x": "before", "y": "after"}.get(o[2:])
                try:
                    s = fit[o[1]].get_significance(p.r.procs[1], verbose=0)
                    acc.eq(script.starts[0].tolist(), list(x0), tag + "starting values", 1e-9, 1e-9)
                    check_significance(acc, F, x0, s, 1, held[o[1]], {}, tag)
                except RuntimeError:
                    acc.outcome("failed")
                check_unchanged(acc, p, before, tag + "significance")
                script.fail = None
            elif o == "data":
                p.add_data(**{c: [v * 1.1 + 7 + i for i, v in enumerate(ch.data)] for c, ch in p.r.ch.items()})
            elif o == "deficit":      # the best yield of one process is negative
                x = [0.0] * F.n
                x[:2] = [150.0, -12.0]
                p.add_data(**{c: [max(0.5, float(v)) for v in w] for c, w in p.r.expected(x).items()})
            elif o == "point":
                p.update(near(name, k + 1))
            elif o == "yield":
                p.set_yield(p.r.procs[1], 33.5 + k)
            elif o == "reset":
                p.reset()
            elif o == "var":
                ch = next(iter(p.r.ch))
                q = next(iter(p.r.ch[ch].t))
                p.variation(ch, q, 1)
            elif o == "constr":
                p.constraint(p.r.procs[0], 60.0 + 5 * k, 6.0)
            elif o == "new":
                fit = {"i": TemplateFitter(p.m, "iminuit"), "s": TemplateFitter(p.m, "scipy")}
                held = {"i": set(), "s": set()}
            elif o == "fix":
                for w in held:
                    fit[w].set_parameter_fixed(0)
                    held[w].add(0)
            elif o == "scribble":
                # results belong to the caller: writing into them does not reach the model
                for r in results:
                    r[0].params.values[:] = 0.25
                    r[0].params.errors[:] = 4.0
                results = []
                check_unchanged(acc, p, before, tag + "writing into a result")
            for n, (res, want) in enumerate(results):
                acc.eq(content(res), want, f"{tag}result {n} changed after it was returned", 0, 0)
            if k == len(ops) - 1 or o[0] == "f":
                check_all(acc, p, (0,), tag)
    acc.state((item[0], p.r.key()))


def parts(tier, seed):
    deep = tier == "thorough"
    fits = ["fiu", "fi", "fsu", "fsh", "fix", "fiyu", "fsxu", "fsy", "fiuh", "fiun", "fsun", "fsuhn"]
    other = ["pi", "gi", "gs", "giy", "data", "deficit", "point", "yield", "reset", "var", "constr", "new", "fix"]
    other = [o for o in other if o != "fix"] + ["fix", "scribble"]
    # "fix" the operation would collide with the failing fit of the same spelling
    fits = ["fi-x" if f == "fix" else f for f in fits]
    seqs = []
    for name in ("f2", "f3"):
        ops = fits + other
        for k in (1, 2):
            seqs += [(name, s) for s in itertools.product(ops, repeat=k)]
        for a, b, c in itertools.product(ops, repeat=3):
            if (deep or name == "f3") and a in ("fiu", "fsu", "fiyu", "fi")[:4 if deep else 3] and b in other + ["fiu", "fsxu"] and c in ("fiu", "fi", "fsu", "gi", "pi"):
                seqs.append((name, (a, b, c)))
            elif deep and (c[0] in "fgp") and name == "f2":
                seqs.append((name, (a, b, c)))
    if deep:
        seqs += [("f2", s) for s in itertools.product(["fiu", "fi", "fsy", "data", "point", "gi", "var", "scribble"], repeat=4)]
        seqs += [("f4", s) for s in itertools.product([o for o in fits + other if o not in ("fsh", "fsu", "gs")], repeat=2)]
    return [Part("sequences", seqs, run, "all sequences of 2 operations, 3 with fits in front" + (", 4 of a smaller alphabet" if deep else ""))]
