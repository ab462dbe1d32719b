"""M03: (1) the declarations of a model are supplied in every admissible order (all linear extensions of their
dependencies), with evaluations (likelihood objects created early and kept, likelihood values, Asimov and toy data, values,
errors, names) after every step, after a single step, or not at all; (2) every sequence up to the stated depth of
mutations of a complete model and evaluations of it and of another model with the same names; (3) fits of this or another
model in between.  At the end every likelihood object ever made and every observable must agree with the reference model
of the content, and the likelihood of parameters given by name must be the same for all orders."""
import itertools

import numpy as np

from ..core import Part
from .. import models
from ..models import CATALOGUE, LARGE, Pair, build, check_all, contents

# declarations: name -> (dependencies, function)
SETS = {
    "flat": {
        "Pa": ((), lambda p: p.process("a")),
        "Pb": ((), lambda p: p.process("b")),
        "Cu": ((), lambda p: p.channel("u", (3,))),
        "Tua": (("Pa", "Cu"), lambda p: p.template("u", "a", 1, 0.5)),
        "Tub": (("Pb", "Cu"), lambda p: p.template("u", "b", 2, 1.0)),
        "Vua": (("Tua",), lambda p: p.variation("u", "a", 1)),
        "Wua": (("Tua",), lambda p: p.variation("u", "a", 3)),
        "Kb": (("Pb",), lambda p: p.constraint("b", 12.0, 2.0)),
        "Du": (("Cu",), lambda p: p.add_data(u=[12.0, 0.0, 9.0])),
    },
    "channels": {
        "Pa": ((), lambda p: p.process("a")),
        "Pb": ((), lambda p: p.process("b")),
        "Cu": ((), lambda p: p.channel("u", (2,))),
        "Cv": ((), lambda p: p.channel("v", (1, 2))),
        "Tua": (("Pa", "Cu"), lambda p: p.template("u", "a", 1, 0.5)),
        "Tub": (("Pb", "Cu"), lambda p: p.template("u", "b", 2, 0.25)),
        "Tva": (("Pa", "Cv"), lambda p: p.template("v", "a", 3, 0.5)),
        "Duv": (("Cu", "Cv"), lambda p: p.add_data(u=[12.0, 9.0], v=[4.0, 3.0])),
    },
    "params": {
        "Pa": ((), lambda p: p.process("a")),
        "Cu": ((), lambda p: p.channel("u", (2,))),
        "Tua": (("Pa", "Cu"), lambda p: p.template("u", "a", 1, 1.0)),
        "Ya": (("Tua",), lambda p: p.t_yield("u", "a", 33.0)),
        "Na": (("Tua",), lambda p: p.t_nui("u", "a", [0.5, -0.25])),
        "Va": (("Tua",), lambda p: p.variation("u", "a", 2)),
        "Ca": (("Tua",), lambda p: p.cov("u", "a", 1)),
        "Ka": (("Pa",), lambda p: p.constraint("a", 12.0, 2.0)),
        "Du": (("Cu",), lambda p: p.add_data(u=[12.0, 9.0])),
    },
}


def extensions(facts):
    names = list(facts)

    def rec(done):
        if len(done) == len(names):
            yield tuple(done)
            return
        for n in names:
            if n not in done and all(d in done for d in facts[n][0]):
                yield from rec(done + [n])
    return list(rec([]))


def evaluate(acc, p, kept):
    """looks at everything a model can show at this point"""
    m = p.m
    acc.step()
    if p.tm:
        n = m.create_nll()
        n.x0, n.param_names, m.nui_params
        kept.append(n)
        if models.can_evaluate(p):
            n(np.array(p.point(1)))
            n(np.asarray(n.x0))
            for k in kept:
                k(np.array(p.point(2)))
    m.process_yields, m.process_yield_errors
    for t in p.tm.values():
        t.values, t.errors, t.corr, t.fractions(t.nui_params)
    if p.r.ch and all(c.t for c in p.r.ch.values()):
        m.generate_asimov_dataset()
        m.generate_toy_dataset()
        for c in m.channels.values():
            c.num_bins, c.num_nui_params, c.efficiencies, c.bin_edges
            if p.r.procs:
                c.process_indices(m.processes)
    if p.tm and p.r.procs and all(c.t for c in p.r.ch.values()):
        m.generate_per_channel_parameters(np.array(p.point(1)))


def named_value(p, n, k):
    """likelihood at parameters defined by name"""
    x = []
    for i, name in enumerate(p.r.names()):
        h = sum((j + 1) * ord(c) for j, c in enumerate(name))
        x.append(5.0 + h % 17 if name.endswith("_yield") else ((h * (k + 1)) % 19 - 9) / 10.0)
    return float(n(np.array(x)))


def run_order(acc, item):
    which, order, when = item
    facts = SETS[which]
    canon = Pair()
    for n in facts:
        facts[n][1](canon)
    p = Pair()
    kept = []
    for i, name in enumerate(order):
        acc.op(name)
        facts[name][1](p)
        if when == "always" or when == i:
            evaluate(acc, p, kept)
    check_all(acc, p, (0, 1, 2), f"{which} {order}: ")
    ncan = canon.m.create_nll()
    for n in kept + [p.m.create_nll()]:
        for k in range(3):
            acc.eq(named_value(p, n, k), named_value(canon, ncan, k), f"{order}: likelihood of parameters by name", 1e-9, 1e-9)
            acc.eq(list(n.param_names), p.r.names(), "names of an earlier likelihood")
            acc.eq(n.x0, p.r.x0(), "start vector of an earlier likelihood", 1e-12)


# ---------------------------------------------------------------- mutations and evaluations of complete models
def other_model(cfg):
    q = build({**CATALOGUE, **LARGE}[cfg])
    for (ch, pr) in q.tm:
        q.t_yield(ch, pr, 77.0)
        q.variation(ch, pr, 4)
    q.constraint(q.r.procs[-1], 3.0, 0.5)
    return q


def apply(acc, p, st, op):
    kind = op[0]
    if kind == "variation":
        # two varied empty bins make a nearly singular matrix
        ok = [k for k in p.tm if p.r.ch[k[0]].t[k[1]].counts.count(0.0) < 2]
        ch, q = ok[op[1] % len(ok)]
        p.variation(ch, q, op[2])
    elif kind == "data":
        p.auto_data(op[1], op[2])
    elif kind == "fill":      # data filled further
        name = list(p.data)[op[1] % len(p.data)]
        pts = [np.array(x) for x in models.centres(p.geo[name][2])]
        w = [1.0 + (i + op[1]) % 3 for i in range(len(pts[0]))]
        p.data[name].fill(pts[0] if len(pts) == 1 else tuple(pts), np.array(w))
        p.r.ch[name].data = [a + b for a, b in zip(p.r.ch[name].data, w)]
    elif kind == "constraint":
        p.constraint(p.r.procs[op[1] % len(p.r.procs)], op[2], 1.5)
    elif kind == "params":
        p.update(p.point(op[1]))
    elif kind == "reset":
        p.reset()
    elif kind == "grow":
        k = len(p.r.ch)
        name = f"n{k}"
        p.channel(name, (2,))
        p.template(name, p.r.procs[0], 3 + k, 0.5)
        p.add_data(**{name: [4.0, 6.0]})
    elif kind == "process":
        name = f"q{len(p.r.procs)}"
        p.process(name)
        ch = next(iter(p.r.ch))
        p.template(ch, name, 6, 0.8)
    elif kind == "evaluate":
        evaluate(acc, p, st)
    elif kind == "keep":
        st.append(p.m.create_nll())
    elif kind == "other":
        q = other_model(op[1])
        evaluate(acc, q, [])
        q.update(q.point(3))
        evaluate(acc, q, [])
    elif kind == "fit":
        from templatefitter import TemplateFitter
        q = p if op[1] is None else other_model(op[1])
        try:
            TemplateFitter(q.m, op[2]).do_fit(update_templates=False, verbose=0, get_hesse=False)
        except RuntimeError:
            acc.outcome("fit did not converge")


def run_mut(acc, item):
    cfg, ops = item
    p = build({**CATALOGUE, **LARGE}[cfg])
    kept = []
    for op in ops:
        acc.op(*op)
        apply(acc, p, kept, op)
        if op[0] not in ("keep", "evaluate", "other"):
            models.check_nll(acc, p, (1,), None, f"after {op}: ")
            for n in kept:
                models.check_nll(acc, p, (0, 1), n, f"earlier likelihood after {op}: ")
    check_all(acc, p, (0, 1, 2), f"{cfg} after {ops}: ")
    for n in kept:
        acc.eq(list(n.param_names), p.r.names(), "names of an earlier likelihood")
        acc.eq(n.x0, p.r.x0(), "start vector of an earlier likelihood", 1e-12)
        models.check_nll(acc, p, (0, 1, 2), n, "earlier likelihood: ")


# ---------------------------------------------------------------- models that differ in one thing only
TWINS = ("same", "contents", "errors", "signs", "efficiencies", "data", "constraint values", "constraint errors", "yields", "nuisances")


def twin(kind, shape):
    """one thing of a model is reversed or swapped; names, shapes, sums and variances are those of the others"""
    def rev(k, v):
        return v[::-1] if kind == k else v
    n = models.nbins(shape)
    p = Pair()
    for q in "ab":
        p.process(q)
    p.channel("u", shape)
    p.channel("v", (2,))
    eff = rev("efficiencies", [0.75, 0.5])
    for i, q in enumerate("ab"):
        p.template("u", q, counts=rev("contents", [6.0 + (3 * j + i) % 5 for j in range(n)]),
                   err2=rev("errors", [0.5 + (2 * j + i) % 4 for j in range(n)]), eff=eff[i])
    p.template("v", "b", counts=[5.0, 8.0], err2=[0.5, 0.25], eff=0.5)
    pts = [np.array(x) for x in models.centres(p.geo["u"][2])]
    for i, q in enumerate("ab"):
        rt = p.r.ch["u"].t[q]
        shift = [0.5 + 0.25 * ((j + i) % 3) for j in range(n)]
        sign = [-1 if kind == "signs" and j == n - 1 else 1 for j in range(n)]
        up = [c + s * d for c, s, d in zip(rt.counts, sign, shift)]
        down = [c - s * d for c, s, d in zip(rt.counts, sign, shift)]
        p.tm["u", q].add_variation(pts[0] if len(pts) == 1 else tuple(pts), np.array(up), np.array(down))
        rt.add_variation(up, down)
    p.add_data(u=rev("data", [7.0 + 3 * j for j in range(n)]), v=[9.0, 4.0])
    for q, v, e in zip("ab", rev("constraint values", [30.0, 22.0]), rev("constraint errors", [4.0, 2.5])):
        p.constraint(q, v, e)
    x = p.point(1)
    p.update(rev("yields", x[:2]) + rev("nuisances", x[2:]))
    return p


def run_twins(acc, item):
    shape, kinds = item
    ms = [twin(k, shape) for k in kinds]
    kept = [p.m.create_nll() for p in ms]
    for n in range(2):
        for k, p, nll in zip(kinds, ms, kept):
            acc.op(k, n)
            check_all(acc, p, (n, 2), f"{item}, the model with other {k}, time {n}: ", nll)
    for k, p in zip(kinds, ms):
        p.reset()
        check_all(acc, p, (1,), f"{item}, the model with other {k}, reset: ")


def parts(tier, seed):
    deep = tier == "thorough"
    twins = [(s, ks) for s in ((3,), (1,), (2, 2), (4,)) for ks in itertools.product(TWINS, repeat=2)]
    twins += [(s, ks) for s in ((3,),) + (((2, 2), (6,)) if deep else ()) for ks in itertools.product(TWINS if deep else TWINS[::2], repeat=3)]
    orders = []
    for which, facts in SETS.items():
        ext = extensions(facts)
        for k, o in enumerate(ext):
            orders.append((which, o, "always"))
            if deep:
                orders += [(which, o, i) for i in [None] + list(range(2, len(o)))]
            elif k % 10 == 0 or which == "params":
                orders += [(which, o, i) for i in [None] + list(range(2, len(o), 2))]
    ops = [("variation", 0, 1), ("variation", 1, 3), ("data", 3, (0,)), ("data", 1, ()), ("fill", 1), ("constraint", 0, 12.0),
           ("constraint", 0, 25.0), ("params", 2), ("reset",), ("grow",), ("process",), ("evaluate",), ("keep",)]
    muts = []
    for cfg in ("one", "swap", "chan2", "flat2"):
        n = (5 if deep else 4) if cfg == "swap" else (4 if deep else 3)
        for d in range(1, n + 1):
            muts += [(cfg, s) for s in itertools.product(ops, repeat=d)
                     if d < 4 or s[0][0] in ("evaluate", "keep") or (deep and d == 4)]
    muts += [(cfg, s) for cfg in CATALOGUE for d in (1, 2) for s in itertools.product(ops + [("other", cfg)], repeat=d)]
    muts += [(cfg, s) for cfg in LARGE for s in [(o,) for o in ops] + list(itertools.permutations(ops, 2))[::1 if deep else 9]]
    # long histories: every pair of operations over and over
    muts += [(cfg, (x, y) * 9 + (z,)) for cfg in ("swap", "chan2") for x, y in itertools.permutations(ops, 2) if x[0] not in ("grow", "process") or y[0] in ("keep", "evaluate")
             for z in (ops[9:11] if deep else ops[9:10])]
    fits = [("fit", None, "scipy"), ("fit", None, "iminuit"), ("fit", "two", "scipy"), ("fit", "swap", "iminuit")]
    mixed = [("swap", (f, x, g)) for f in fits for x in ops for g in fits[:2]] + [("two", (x, f, y)) for f in fits for x in ops for y in ops[:6]]
    return [
        Part("declaration orders", orders, run_order, "all linear extensions of three sets of 8-9 declarations, evaluations after every, one or no step"),
        Part("mutations and evaluations", muts, run_mut, "all sequences up to depth 3-4 (4-5) of 12 operations, all pairs nine times over"),
        Part("twins", twins, run_twins, "all pairs (and triples) of models alike but for one of ten things, evaluated in turns"),
        Part("fits in between", mixed, run_mut, "all combinations of fits of this or another model with mutations"),
    ]
