"""C01: (1) every sequence up to the stated depth of declarations, acceptable or not, on a model that starts empty; a
reference state machine says which are to be refused, a refused one must leave everything observable (shapes, vectors,
templates, likelihood values, constraints, data) bitwise as before, an accepted one must agree with the reference model;
(2) every unacceptable operation in each of a set of larger base models, followed by acceptable ones; (3) add_data with
several data sets, every one of them unacceptable in turn, in every order."""
import itertools

import numpy as np

from ..core import Part
from .. import models
from ..models import CATALOGUE, Pair, build, check_all, check_unchanged, contents, make_hist, make_template, nbins, snapshot

LIM = (0.0, 3.0)
REG = [[0.0, 1.0, 2.0, 3.0]]
IRR = [[0.0, 0.5, 2.0, 3.0]]
NEAR = [[0.0, 1.001, 2.0, 3.0]]
SHORT = [[0.0, 1.5, 3.0]]
SHIFT = [[0.0, 1.0, 2.0, 3.5]]
TWO = [[0.0, 1.0, 2.0, 3.0], [0.0, 1.0]]
EDGES = {"reg": REG, "irr": IRR, "near": NEAR, "short": SHORT, "shift": SHIFT, "two": TWO}


def fits(edges, lim):
    """acceptable for a channel of three bins in lim, whatever is in it"""
    return len(edges) == 1 and len(edges[0]) == 4 and (edges[0][0], edges[0][-1]) == lim


def moved(edges, offset, width):
    return [[offset + width * x for x in axis] for axis in edges]


def run_seq(acc, ops):
    p = Pair()
    have_t, have_d = {}, {}    # channel -> edges of its templates / data
    seq = 0
    place = (0.0, 1.0)
    if ops[0][0] == "place":
        place, ops = ops[0][1:], ops[1:]
        acc.op("place", *place)
    grid = {k: moved(e, *place) for k, e in EDGES.items()}
    lim = (grid["reg"][0][0], grid["reg"][0][-1])
    for op in ops:
        acc.op(*op)
        seq += 1
        before = snapshot(p)
        kind = op[0]
        ok = True
        if kind == "process":
            ok = op[1] not in p.r.procs
            fn = lambda: p.process(op[1])
        elif kind == "channel":
            ok = op[1] not in p.r.ch
            fn = lambda: p.channel(op[1], (3,) if op[2] == "reg" else (2, 2), (lim,) if op[2] == "reg" else None)
        elif kind == "template":
            _, ch, pr, e = op
            c = p.r.ch.get(ch)
            ok = (c is not None and pr in p.r.procs and len(p.geo[ch][0]) == 1 and fits(grid[e], lim) and pr not in c.t
                  and have_t.get(ch, e) == e and have_d.get(ch, e) == e)
            cnt, err = contents(seq, nbins([len(a) - 1 for a in grid[e]]))

            def fn():
                if c is None:
                    p.m.add_template(ch, pr, make_template("t", cnt, grid[e], err), 0.5)
                else:
                    p.template(ch, pr, counts=cnt, err2=err, edges=grid[e], eff=0.5)
                have_t[ch] = e
        elif kind == "data":
            _, ch, e = op
            ok = ch in p.r.ch and len(p.geo[ch][0]) == 1 and fits(grid[e], lim) and have_t.get(ch, e) == e
            cnt = [3.0, 0.0, 5.0 + seq] if e not in ("short", "two") else ([3.0, 4.0] if e == "short" else [1.0, 2.0, 3.0])
            h = make_hist(cnt, grid[e])

            def fn():
                p.m.add_data(**{ch: h})
                p.r.ch[ch].data = cnt
                p.data[ch] = h
                have_d[ch] = e
        elif kind == "constraint":
            ok = op[1] in p.r.procs
            fn = lambda: p.constraint(op[1], 10.0 + seq, 2.0)
        elif kind == "set":
            ok = op[1] in p.r.procs
            fn = lambda: p.set_yield(op[1], 20.0 + seq)
        elif kind == "get":
            ok = op[1] in p.r.procs
            fn = lambda: p.m.get_yield(op[1])
        if ok:
            fn()
            acc.outcome("accepted " + kind)
        else:
            acc.refused(fn, f"{op}")
            acc.outcome("refused " + kind)
            check_unchanged(acc, p, before, f"refused {op}")
        check_all(acc, p, (0, 1), f"after {op}: ")


# ---------------------------------------------------------------- larger models
def alike(names):
    """undefined names close to the defined ones"""
    out = ["nope", ""]
    for q in names:
        out += [q[:-1], q[1:], q + "x", "x" + q, q + " ", q.upper(), q.lower(), q + "_yield", " ".join(names)]
    return [u for u in dict.fromkeys(out) if u not in names]


def bad_ops(p):
    """(description, function) of everything this model has to refuse."""
    m, r = p.m, p.r
    out = []

    def add(what, fn):
        out.append((what, fn))

    def tmpl(edges):
        shape = [len(a) - 1 for a in edges]
        cnt, err = contents(9, nbins(shape))
        return make_template("bad", cnt, edges, err)

    def hist(edges):
        return make_hist(contents(9, nbins([len(a) - 1 for a in edges]))[0], edges)

    for q in r.procs:
        add(f"second process {q}", lambda q=q: m.define_process(q))
    for u in alike(r.procs):
        add(f"reading the yield of {u!r}", lambda u=u: m.get_yield(u))
        add(f"setting the yield of {u!r}", lambda u=u: m.set_yield(u, 3.0))
        add(f"constraining {u!r}", lambda u=u: m.add_gaussian_constraint_on_yield(u, 3.0, 1.0))
    for ch, (shape, limits, edges) in p.geo.items():
        lim = limits if len(shape) > 1 else limits[0]
        add(f"second channel {ch}", lambda ch=ch, shape=shape, lim=lim: m.define_channel(ch, shape if len(shape) > 1 else shape[0], lim))
        add(f"second channel {ch}, other bins", lambda ch=ch: m.define_channel(ch, 5, (0.0, 1.0)))
        for u in alike(r.ch):
            add(f"template of unknown channel {u!r}", lambda edges=edges, u=u: m.add_template(u, r.procs[0], tmpl(edges)))
        for u in alike(r.procs):
            add(f"template of unknown process {u!r}", lambda ch=ch, edges=edges, u=u: m.add_template(ch, u, tmpl(edges)))
        for q in r.ch[ch].t:
            add(f"second template {ch}/{q}", lambda ch=ch, q=q, edges=edges: m.add_template(ch, q, tmpl(edges), 0.3))
            add(f"same template again {ch}/{q}", lambda ch=ch, q=q: m.add_template(ch, q, p.tm[ch, q], 0.3))
        wrong = {}
        for k, a in enumerate(edges):
            wrong[f"more bins on axis {k}"] = edges[:k] + [models.ref.linspace(a[0], a[-1], len(a) + 1)] + edges[k + 1:]
            if len(a) > 2:
                wrong[f"fewer bins on axis {k}"] = edges[:k] + [models.ref.linspace(a[0], a[-1], len(a) - 1)] + edges[k + 1:]
                mid = a[0] + 0.6 * (a[1] - a[0])
                if r.ch[ch].t or r.ch[ch].data:
                    wrong[f"other edges on axis {k}"] = edges[:k] + [[a[0], mid] + a[2:]] + edges[k + 1:]
            wrong[f"upper limit on axis {k}"] = edges[:k] + [models.ref.linspace(a[0], a[-1] + 0.5, len(a))] + edges[k + 1:]
            wrong[f"lower limit on axis {k}"] = edges[:k] + [models.ref.linspace(a[0] - 0.25, a[-1], len(a))] + edges[k + 1:]
            w = a[-1] - a[0]
            wrong[f"slightly higher limit on axis {k}"] = edges[:k] + [a[:-1] + [a[-1] + 1e-3 * w]] + edges[k + 1:]
            wrong[f"slightly lower limit on axis {k}"] = edges[:k] + [[a[0] - 1e-3 * w] + a[1:]] + edges[k + 1:]
            wrong[f"shifted on axis {k}"] = edges[:k] + [[x + 1.0 for x in a]] + edges[k + 1:]
        if len(edges) == 2:
            if edges[0] != edges[1]:
                wrong["swapped axes"] = edges[::-1]
            wrong["flattened"] = [models.ref.linspace(0.0, 1.0, nbins(shape) + 1)]
            wrong["first axis only"] = edges[:1]
        else:
            wrong["second axis"] = edges + [[0.0, 1.0]]
            wrong["second axis of the same kind"] = edges + edges
        import templatefitter.templates as tt
        free = [q for q in r.procs if q not in r.ch[ch].t] + ["nope2"]
        for w, e in wrong.items():
            if free[0] != "nope2":
                add(f"template with {w} in {ch}", lambda ch=ch, e=e, q=free[0]: m.add_template(ch, q, tmpl(e)))
            if "other edges" in w and not r.ch[ch].t:
                continue
            add(f"data with {w} in {ch}", lambda ch=ch, e=e: m.add_data(**{ch: hist(e)}))
        if free[0] != "nope2" and r.ch[ch].t:
            # a template of another class with the binning of the channel
            class Other(tt.Template1d if len(edges) == 1 else tt.Template2d):
                pass

            def other(ch=ch, q=free[0], edges=edges, cls=Other):
                h = make_hist(contents(9, nbins([len(a) - 1 for a in edges]))[0], edges)
                m.add_template(ch, q, cls("bad", "v" if len(edges) == 1 else ("v", "w"), h))
            add(f"template of another class in {ch}", other)
    for u in alike(r.ch):
        for n, (_, _, edges) in p.geo.items():
            add(f"data of unknown channel {u!r}", lambda u=u, edges=edges: m.add_data(**{u: hist(edges)}))
    # several data sets at once, one unacceptable
    names = list(r.ch)
    for bad in names:
        shape, limits, edges = p.geo[bad]
        e2 = [models.ref.linspace(a[0], a[-1], len(a) + 1) for a in edges]
        for order in itertools.permutations(names):
            def fn(order=order, bad=bad, e2=e2):
                m.add_data(**{n: hist(e2 if n == bad else p.geo[n][2]) for n in order})
            if len(order) > 1:
                add(f"data for {order} with {bad} unacceptable", fn)
    for order in itertools.permutations(names + ["nope"]):
        def fn(order=order):
            m.add_data(**{n: hist(p.geo[n][2] if n in p.geo else REG) for n in order})
        add(f"data for {order}", fn)
    return out


MORE = {
    "square limits": dict(procs=["a", "b"], chans=[("u", (2, 3), [("a", 1, 1.0, ())]), ("v", (3, 1), [("b", 2, 0.5, ()), ("a", 3, 0.5, ())])],
                          limits={"u": ((0.0, 6.0), (0.0, 6.0)), "v": ((-1.0, 1.0), (-1.0, 1.0))}, data=2),
    "empty channels": dict(procs=["a", "b"], chans=[("u", (2, 3), []), ("v", (3,), []), ("w", (2, 2), []), ("z", (1, 4), [])],
                           limits={"u": ((0.0, 6.0), (0.0, 6.0)), "z": ((0.0, 4.0), (0.0, 4.0))}),
    "no data": dict(procs=["a", "b"], chans=[("u", (2,), [("a", 1, 1.0, ())]), ("v", (2, 2), [("b", 2, 0.5, ())])]),
    "square": dict(procs=["a", "b"], chans=[("u", (2, 2), [("a", 1, 1.0, ())])], limits={"u": ((0.0, 4.0), (0.0, 4.0))}, data=1),
    "one bin": dict(procs=["a", "b"], chans=[("u", (1,), [("b", 1, 1.0, ())]), ("w", (1, 1), [("a", 1, 1.0, ())])], data=1),
}
MODELS = {**CATALOGUE, **MORE}


def extra(cfg, state):
    p = build(MODELS[cfg])
    p.process("free")
    full = all(c.t for c in p.r.ch.values())
    if state == "moved":
        if full:
            p.update(p.point(2))
        p.constraint(p.r.procs[0], 9.0, 1.5)
    if state == "more":
        p.channel("extra", (2, 2))
        p.template("extra", "free", 5, 0.5)
        if MODELS[cfg].get("data"):
            p.auto_data(2)
    if state == "mutated" and p.tm:
        ch, q = next(iter(p.tm))
        p.variation(ch, q, 4)
        p.set_yield(q, 31.0)
    return p


def run_bad(acc, item):
    cfg, state, k = item
    p = extra(cfg, state)
    ops = bad_ops(p)
    before = snapshot(p)
    todo = range(len(ops)) if k is None else (k,)
    for i in todo:
        what, fn = ops[i]
        acc.op(what)
        if what.startswith("template of another class"):
            try:       # may be acceptable, but must not be refused half-way
                fn()
                return
            except Exception:
                pass
        else:
            acc.refused(fn, what)
        check_unchanged(acc, p, before, f"refused {what}")
        acc.outcome(what[:30])
    # life goes on
    p.channel("later", (2,))
    p.template("later", "free", 3, 0.5)
    p.auto_data(5)
    p.set_yield("free", 7.0)
    p.constraint("free", 6.0, 1.0)
    check_all(acc, p, (0, 1, 2), "after refused operations: ")


def parts(tier, seed):
    deep = tier == "thorough"
    a = [("process", "a"), ("process", "b"), ("channel", "u", "reg"), ("channel", "u", "two"),
         ("template", "u", "a", "reg"), ("template", "u", "b", "irr"), ("template", "u", "b", "reg"),
         ("data", "u", "reg"), ("data", "u", "irr"), ("constraint", "a"), ("set", "b")]
    seqs = []
    for d in range(1, (6 if deep else 5)):
        seqs += list(itertools.product(a, repeat=d))
    start = (("process", "a"), ("channel", "u", "reg"))
    more = [("process", "b"), ("template", "u", "a", "reg"), ("template", "u", "a", "irr"), ("template", "u", "b", "irr"),
            ("template", "u", "a", "near"), ("template", "u", "a", "short"), ("template", "u", "a", "shift"),
            ("template", "u", "a", "two"), ("template", "v", "a", "reg"), ("data", "u", "reg"), ("data", "u", "irr"),
            ("data", "u", "near"), ("data", "u", "short"), ("data", "u", "two"), ("data", "v", "reg"),
            ("constraint", "b"), ("get", "b"), ("channel", "v", "reg")]
    for d in range(1, (5 if deep else 4)):
        seqs += [start + s for s in itertools.product(more, repeat=d)]
    # ranges far from zero, narrow, wide and ending at zero
    for place in ((1e9, 1.0), (-1e9, 1.0), (-3.0, 1.0), (5.0, 1e-7), (0.0, 1e12), (-3e-9, 1e-9)):
        for d in range(1, (4 if deep else 3)):
            seqs += [(("place",) + place,) + start + s for s in itertools.product(more, repeat=d)]
    bad = []
    states = ("plain", "moved", "more", "mutated")
    for cfg in MODELS:
        for st in states:
            bad.append((cfg, st, None))
            try:
                n = len(bad_ops(extra(cfg, st)))
            except Exception:    # shows again, and is reported, in the item above
                n = 0
            bad += [(cfg, st, k) for k in range(n)]
    return [Part("declaration sequences", seqs, run_seq, "all sequences up to depth 4 (5 thorough) of 11 declarations; up to depth 3 (4) of 18 more after a process and a channel"),
            Part("unacceptable operations", bad, run_bad, f"every unacceptable operation in {len(MODELS) * len(states)} models, alone and all in a row")]
