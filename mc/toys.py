"""Harness for toy studies: the minimizers' answers are scripted and every fit is recorded."""
import contextlib

import numpy as np

from .core import plain
from .models import Pair


def toy_model(which):
    """Models with large expectations (toys practically never coincide) and efficiencies adding up to one."""
    p = Pair()
    if which == "t1":
        p.process("a")
        p.channel("u", (3,))
        p.template("u", "a", counts=[5000.0, 7000.0, 4000.0], err2=[50.0, 60.0, 40.0])
    elif which == "t2":
        for q in ("ab", "a"):
            p.process(q)
        p.channel("u", (2, 2))
        p.template("u", "a", counts=[4000.0, 900.0, 700.0, 600.0], err2=[40.0, 9.0, 8.0, 7.0], eff=0.25)
        p.template("u", "ab", counts=[800.0, 3000.0, 500.0, 2500.0], err2=[8.0, 30.0, 5.0, 25.0], eff=1.0)
        p.channel("v", (2,))
        p.template("v", "a", counts=[6000.0, 1000.0], err2=[50.0, 10.0], eff=0.75)
    elif which == "t3":
        for q in ("s", "sx", "xs"):
            p.process(q)
        p.channel("u", (3,))
        for q, c in (("sx", [900.0, 4000.0, 800.0]), ("xs", [3000.0, 700.0, 600.0]), ("s", [500.0, 600.0, 5000.0])):
            p.template("u", q, counts=c, err2=[v / 100 for v in c], eff={"sx": 1.0, "xs": 0.5, "s": 0.5}[q])
        p.channel("v", (2,))
        for q, c in (("s", [3000.0, 500.0]), ("xs", [700.0, 2600.0])):
            p.template("v", q, counts=c, err2=[v / 100 for v in c], eff=0.5)
    return p


def state(p):
    """parameters of every template and data of every channel of the real model"""
    return {"params": {k: plain(t.params) for k, t in p.tm.items()},
            "data": {n: (plain(c.data_bin_counts) if c.has_data else None) for n, c in p.m.channels.items()}}


class Fits:
    """Answers minimizations from a script; records the model's state at each."""

    def __init__(self, p, script=(), real=False):
        self.p, self.script, self.real = p, list(script), real
        self.calls = []      # dict(state, outcome, values, errors)
        self.toys = []

    def outcome(self):
        return self.script.pop(0) if self.script else "ok"

    @contextlib.contextmanager
    def installed(self):
        import templatefitter.minimizer as mm
        from templatefitter.templates import MultiChannelTemplate
        classes = [mm.ScipyMinimizer, mm.IMinuitMinimizer]
        real = [c.minimize for c in classes]
        gen = MultiChannelTemplate.generate_toy_dataset

        def toys(obj, *a, **k):
            t = gen(obj, *a, **k)
            self.toys.append({"counts": {c: plain(h.bin_counts) for c, h in t.items()}, "state": state(self.p)})
            return t

        def wrap(orig):
            def minimize(obj, *a, **k):
                o = self.outcome()
                initial = a[0] if a else next(v for n, v in k.items() if n.startswith("initial"))
                call = {"state": state(self.p), "outcome": o, "start": plain(np.array(initial, dtype=float))}
                self.calls.append(call)
                if o == "raise":
                    raise RuntimeError("scripted failure")
                if o == "other":
                    raise ValueError("scripted error")
                if self.real:
                    res = orig(obj, *a, **k)
                else:
                    n, i = len(obj.params.names), len(self.calls)
                    par = mm.Parameters(list(obj.params.names))
                    par.values = np.array([1000.0 * i + 10.0 * j + 0.5 * ((i * j) % 3) for j in range(n)])
                    par.errors = np.array([(1.0 + 0.25 * i + 0.125 * j) * 10.0 ** ((2 * i + j) % 5 - 3) for j in range(n)])
                    par.covariance = np.diag(par.errors ** 2)
                    par.correlation = np.eye(n)
                    res = mm.MinimizeResult(-float(i), par, True)
                if o == "nan":       # a successful fit one of whose uncertainties is undefined
                    res.params.errors = np.array([np.nan] + [2.0] * (len(obj.params.names) - 1))
                elif o == "zero":    # a successful fit at zero without uncertainties
                    res.params.values, res.params.errors = np.zeros(len(obj.params.names)), np.zeros(len(obj.params.names))
                elif o == "negative":
                    res.params.values = -res.params.values
                if o == "reported":
                    res = res._replace(succes=False)
                call["values"], call["errors"] = plain(res.params.values), plain(res.params.errors)
                call["succes"] = bool(res.succes)
                return res
            return minimize
        for c, r in zip(classes, real):
            c.minimize = wrap(r)
        MultiChannelTemplate.generate_toy_dataset = toys
        try:
            yield self
        finally:
            MultiChannelTemplate.generate_toy_dataset = gen
            for c, r in zip(classes, real):
                c.minimize = r


def patterns(n, tries, fails=("raise",)):
    """every sequence of fit outcomes of a study of n experiments with that many tries each; last one may exceed them"""
    out = []

    def grow(seq, k, t):
        if k == n:
            out.append((tuple(seq), True))
            return
        grow(seq + ["ok"], k + 1, 0)
        for f in fails:
            if t + 1 < tries:
                grow(seq + [f], k, t + 1)
            else:
                out.append((tuple(seq + [f]), False))
    grow([], 0, 0)
    return out
