"""M04: every sequence up to the stated depth of setting process yields, single template yields and nuisance parameters,
writing parameter vectors, adding variations and resetting, on every model of the catalogue and on models whose
efficiencies do not add up to one; after each operation all templates, process yields, yield errors and vectors are
compared with the reference.  Setters are also run alone with every yield value of a list in every process."""
import itertools

import numpy as np

from ..core import Part
from ..models import CATALOGUE, LARGE, build, check_shape, check_templates, check_vectors

MODELS = {**CATALOGUE, **LARGE}
MODELS["loose"] = dict(procs=["b", "a"], chans=[("u", (2,), [("a", 1, 0.3, ()), ("b", 2, 1.0, (1,))]),
                                                ("v", (3,), [("a", 4, 0.25, ())])], var=[("v", "a", 1)], data=1)
MODELS["zero eff"] = dict(procs=["a", "b"], chans=[("u", (2,), [("a", 1, 0.0, ()), ("b", 2, 2.0, ())])], data=1)
MODELS["absent"] = dict(procs=["a", "lonely", "b"], chans=[("u", (2,), [("b", 1, 0.5, ())]), ("v", (1,), [("a", 2, 1.0, ())])], data=1)


def check(acc, p, tag):
    check_templates(acc, p, tag)
    check_vectors(acc, p, tag)
    acc.state(p.r.key())


def apply(p, op):
    kind = op[0]
    if kind == "set":
        q = p.r.procs[op[1] % len(p.r.procs)]
        p.set_yield(q, op[2])
    elif kind == "vector":
        x = p.point(abs(op[1]))
        if op[1] < 0:
            x = [-v for v in x[:1]] + x[1:]
        p.update(x)
    elif kind == "reset":
        p.reset()
    elif kind == "one":
        (ch, q) = list(p.tm)[op[1] % len(p.tm)]
        p.t_yield(ch, q, op[2])
    elif kind == "nui":
        (ch, q) = list(p.tm)[op[1] % len(p.tm)]
        p.t_nui(ch, q, [0.3 * (i + 1) * (-1) ** i for i in range(p.r.ch[ch].t[q].n)])
    elif kind == "vary":
        (ch, q) = list(p.tm)[op[1] % len(p.tm)]
        p.variation(ch, q, op[2])
    elif kind == "own reset":
        (ch, q) = list(p.tm)[op[1] % len(p.tm)]
        p.tm[ch, q].reset()
        p.r.ch[ch].t[q].reset()


def run(acc, item):
    cfg, ops = item
    p = build(MODELS[cfg])
    check(acc, p, f"{cfg}: ")
    for op in ops:
        acc.op(*op)
        apply(p, op)
        check(acc, p, f"{cfg} after {op}: ")
    check_shape(acc, p)


def run_value(acc, item):
    cfg, k, v = item
    p = build(MODELS[cfg])
    q = p.r.procs[k]
    acc.op("set_yield", q, v)
    p.m.set_yield(q, v)
    p.r.set_yield(q, float(v))
    check(acc, p, f"{cfg} {q}={v!r}: ")
    total = sum(c.eff.get(q, 0.0) for c in p.r.ch.values())
    acc.eq(p.m.get_yield(q), float(v) * total, f"{q} reads back", 1e-12)
    p.reset()
    check(acc, p, "after reset: ")


def parts(tier, seed):
    deep = tier == "thorough"
    ops = [("set", 0, 42.0), ("set", 1, 7), ("set", 2, 0.0), ("set", 0, -5.5), ("vector", 1), ("vector", -2), ("vector", 3), ("reset",), ("one", 1, 13.5),
           ("nui", 0), ("nui", 2), ("vary", 1, 2), ("own reset", 2)]
    n = 4 if deep else 3
    items = [(cfg, s) for cfg in MODELS if cfg not in LARGE for d in range(1, n + 1) for s in itertools.product(ops, repeat=d)]
    items += [(cfg, s) for cfg in LARGE for s in itertools.product(ops, repeat=1)]
    items += [("channels", s) for s in itertools.product(ops, repeat=2)]
    vals = [(cfg, k, v) for cfg in MODELS for k in range(len(MODELS[cfg]["procs"]))
            for v in (0, 1, 0.0, 0.1, 2.5, 17, 1e-9, 1e7, 123456789.25, -3.0, 3)]
    return [Part("parameter sequences", items, run, f"all sequences of up to {n} of {len(ops)} operations on {len(MODELS)} models"),
            Part("yield values", vals, run_value, "every process with every value")]
