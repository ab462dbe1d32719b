"""M02: every model of up to 3 processes in up to 3 channels (every assignment of processes to channels, declaration
orders of processes, channels and templates, mixed 1D and 2D binnings) and the catalogue: layout of names, start vector
and update; each parameter in turn is changed alone, addressed by its name, and everything else must stay; sequences
of updates read back; fitted parameter arrays of both minimizers carry the same names in the same order."""
import itertools

import numpy as np

from ..core import Mismatch, Part
from .. import models
from ..models import CATALOGUE, LARGE, Pair, build, check_templates, check_vectors, nbins

SHAPES = {"u": (2,), "v": (1, 2), "w": (3,), "x": (1,), "y": (1, 1)}


def make(procs, chans, odd=False):
    """chans: [(channel, [process, ...])]; efficiencies of every process add up to one, unless odd"""
    p = Pair()
    for q in procs:
        p.process(q)
    last = {}
    for ch, qs in chans:
        for q in qs:
            last[q] = ch
    used = dict.fromkeys(procs, 0.0)
    for ch, qs in chans:
        p.channel(ch, SHAPES[ch])
        for i, q in enumerate(qs):
            e = 1.0 - used[q] if last[q] == ch else 0.25
            if odd:
                e = (1.5, 0.0, 0.75, 4.0)[(i + ord(ch) + ord(q)) % 4]
            used[q] += e
            p.template(ch, q, 3 * i + len(ch) + ord(ch) % 5 + ord(q) % 7, e)
    for q in procs:      # start values consistent with the efficiencies
        if q in last:
            p.set_yield(q, 30.0 + ord(q) % 11)
    return p


def layout(acc, p, tag):
    n = p.m.create_nll()
    names = list(n.param_names)
    x0 = np.asarray(n.x0)
    acc.eq(names, p.r.names(), tag + "param_names")
    acc.eq(x0, p.r.x0(), tag + "start vector", 1e-12)
    acc.eq(len(names), len(x0), tag + "lengths")
    dup = sorted({a for a in names if names.count(a) > 1})
    return n, names, x0, dup


def roundtrip(acc, p, x, tag, full):
    """the model written with x reads x back, if efficiencies add up to one"""
    p.update(x)
    check_templates(acc, p, tag)
    n = p.m.create_nll()
    back = np.asarray(n.x0)
    k = len(p.r.procs)
    sums = [sum(c.eff.get(q, 0.0) for c in p.r.ch.values()) for q in p.r.procs]
    acc.eq(back[k:], x[k:], tag + "nuisance parameters read back", 0, 0)
    for i, q in enumerate(p.r.procs):
        present = any(q in c.t for c in p.r.ch.values())
        if not present:
            continue
        if abs(sums[i] - 1) < 1e-9:
            acc.eq(back[i], x[i], f"{tag}yield of {q} read back", 1e-12)
        else:
            acc.eq(back[i], x[i] * sums[i], f"{tag}yield of {q} read back", 1e-12)
    acc.state(p.r.key())


def by_name(acc, p, tag):
    """changing the parameter with a name changes exactly what the name says"""
    base = p.point(1)
    names = p.r.names()
    for i, name in enumerate(names):
        p.update(base)
        ref_vals = {k: (t.yield_param, np.array(t.nui_params)) for k, t in p.tm.items()}
        x = list(base)
        x[i] = base[i] + 3.25
        acc.op("change", name)
        p.m.update_parameters(np.array(x))
        p.r.update(x)
        hit = 0
        for (ch, q), t in p.tm.items():
            y0, n0 = ref_vals[ch, q]
            if name == f"{q}_yield":
                acc.eq(t.yield_param, x[i] * p.r.ch[ch].eff[q], f"{tag}{name}: yield of {ch}/{q}", 1e-12)
                hit += 1
            else:
                acc.eq(t.yield_param, y0, f"{tag}{name}: yield of {ch}/{q} changed", 0, 0)
            want = list(n0)
            for b in range(len(n0)):
                if name == f"{ch}_{q}_bin_{b}":
                    want[b] = x[i]
                    hit += 1
            acc.eq(t.nui_params, want, f"{tag}{name}: nuisance parameters of {ch}/{q}", 0, 0)
        if not name.endswith("_yield"):
            acc.eq(hit, 1, f"{tag}{name}: parameters addressed")
    p.update(base)


def run(acc, item):
    procs, chans, odd = item
    acc.op("model", item)
    p = make(procs, chans, odd)
    n, names, x0, dup = layout(acc, p, "")
    acc.true(not dup, f"duplicate names {dup}")
    if not odd:
        acc.eq(float(np.sum(x0[:len(procs)])), sum(30.0 + ord(q) % 11 for q in procs if any(q in c.t for c in p.r.ch.values())), "start yields", 1e-12)
    p.auto_data(1)
    by_name(acc, p, "")
    for s in (2, 0, 3):
        roundtrip(acc, p, p.point(s), f"point {s}: ", True)
    check_vectors(acc, p)
    x = p.point(1)
    keep = np.array(x)
    p.m.update_parameters(keep)
    acc.eq(keep, x, "vector passed in modified", 0, 0)
    keep[:] = -9.0
    p.r.update(x)
    check_templates(acc, p, "after the caller's vector changed: ")
    # the start vector is a copy
    s0 = n.x0
    s0[:] = 1234.5
    check_templates(acc, p, "after the start vector was overwritten: ")
    acc.eq(n.x0, p.r.x0(), "start vector after it was overwritten", 1e-12)
    # the model's likelihood uses the same layout
    for s in range(4):
        models.check_nll(acc, p, (s,), n)
    # likelihood at x and at the written model agree
    acc.outcome(len(names))


def run_cat(acc, item):
    cfg, seq = item
    p = build({**CATALOGUE, **LARGE}[cfg])
    layout(acc, p, "")
    for s in seq:
        acc.op("update", s)
        roundtrip(acc, p, p.point(s), f"{cfg} point {s}: ", False)
        layout(acc, p, "after update: ")
    if len(seq) == 1:
        by_name(acc, p, "")


def run_names(acc, item):
    procs, chans = item
    acc.op("names", item)
    p = Pair()
    for q in procs:
        p.process(q)
    for ch in chans:
        p.channel(ch, (2,))
        for i, q in enumerate(procs):
            p.template(ch, q, i, 1.0 / len(chans))
    _, names, _, dup = layout(acc, p, "")
    if dup:
        acc.finding("ambiguous-names", f"channels {chans}, processes {procs}: duplicate parameter names {dup}")
    acc.outcome(bool(dup))
    acc.state(tuple(names))


def run_fit(acc, item):
    from templatefitter import TemplateFitter
    cfg, minimizer = item
    p = build(CATALOGUE[cfg])
    acc.op("fit", cfg, minimizer)
    k = len(p.r.procs)
    fitter = TemplateFitter(p.m, minimizer)
    res = fitter.do_fit(update_templates=True, get_hesse=True, verbose=0)
    acc.eq(list(res.params.names), p.r.names(), "names of fitted parameters")
    acc.eq(len(res.params.values), p.r.npar(), "number of fitted values")
    acc.eq(len(res.params.errors), p.r.npar(), "number of fitted errors")
    acc.eq(np.shape(res.params.covariance), [p.r.npar()] * 2, "shape of covariance")
    v = np.asarray(res.params.values).tolist()
    p.r.update(v)
    check_templates(acc, p, "after the fit: ")
    for i, name in enumerate(p.r.names()):
        acc.eq(res.params[name][0], v[i], f"value of {name}", 0, 0)
    # the fitted vector is at the minimum in its own layout: swapping it breaks it
    acc.eq(res.fcn_min_val, p.r.nll(v), "likelihood at the fitted vector", 1e-7, 1e-7)
    acc.state(p.r.key())


def run_many(acc, item):
    procs, shape = item
    acc.op("model", item)
    p = Pair()
    for q in procs:
        p.process(q)
    p.channel("u", (2,))
    p.channel("big", shape)
    for i, q in enumerate(procs):
        p.template("big", q, i, 0.75)
        p.template("u", q, i + 3, 0.25)
    _, names, _, dup = layout(acc, p, "")
    acc.true(not dup, f"duplicate names {dup}")
    p.auto_data(1)
    by_name(acc, p, "")
    for s in (2, 0):
        roundtrip(acc, p, p.point(s), f"point {s}: ", True)


def run_length(acc, item):
    """a vector of any other length is refused, by the model and by the likelihood, and nothing is changed"""
    procs, chans, kind = item
    p = make(procs, chans)
    p.auto_data(1)
    n = p.m.create_nll()
    x0 = np.array(p.r.x0())
    want = float(n(x0))
    for k in range(0, 2 * len(x0) + 2):
        x = np.resize(x0, k) * 1.25 + 0.5
        v = {"array": x, "readonly": x.copy()}[kind]
        if kind == "readonly":
            v.flags.writeable = False
        acc.op("length", k - len(x0))
        if k == len(x0):
            continue
        acc.refused(lambda: p.m.update_parameters(v), f"{k} values for {len(x0)} parameters were written")
        acc.refused(lambda: n(v), f"the likelihood was evaluated with {k} values for {len(x0)} parameters")
        check_templates(acc, p, f"{k} values: ")
        acc.eq(np.asarray(n.x0), x0, f"{k} values: start vector", 1e-12)
        acc.eq(float(n(x0)), want, f"{k} values: likelihood", 1e-12)
    acc.state(item)


def parts(tier, seed):
    deep = tier == "thorough"
    items = []
    for procs in itertools.chain(*(itertools.permutations("abc", r) for r in (1, 2, 3))):
        n = len(procs)
        subsets = [s for r in range(1, n + 1) for s in itertools.permutations(procs, r)]
        for c in ("u", "v", "x", "y"):
            items += [(procs, ((c, s),)) for s in subsets]
        for names in (("u", "v"), ("w", "u"), ("x", "w"), ("y", "x")):
            items += [(procs, tuple(zip(names, ss))) for ss in itertools.product(subsets, repeat=2)
                      if deep or n < 3 or len(ss[0]) + len(ss[1]) < 6 or procs == ("b", "c", "a")]
        if deep or n < 3:
            items += [(procs, tuple(zip(("v", "w", "u"), ss))) for ss in itertools.product(subsets, repeat=3)
                      if n < 3 or sum(map(len, ss)) <= 5]
    cat = [(cfg, s) for cfg in CATALOGUE for d in range(1, 5 if deep else 4) for s in itertools.product(range(4), repeat=d)]
    cat += [(cfg, s) for cfg in LARGE for s in ((1,), (2, 0), (1, 3, 2))]
    pool_p = ["a", "b", "a_b", "c", "b_c", "a_yield", "bin"]
    pool_c = ["a", "a_b", "u", "c", "b"]
    items = [(a, b, odd) for k, (a, b) in enumerate(items) for odd in (False, True) if deep or not odd or k % 3 == 0]
    names = [(ps, cs) for ps in itertools.permutations(pool_p, 2) for cs in
             [(c,) for c in pool_c] + list(itertools.permutations(pool_c, 2))]
    fits = [(cfg, m) for cfg in ("two", "swap", "same", "flat2", "chan2", "three") for m in ("scipy", "iminuit")
            if (cfg, m) not in (("chan2", "scipy"), ("three", "scipy"))]
    # names of many bins are not in alphabetical order
    many = [(procs, sh) for procs in (("a",), ("b", "a")) for sh in ((11,), (12,), (4, 3), (25,), (101,), (10, 11))]
    wrong = [(a, b, k) for a, b, odd in items[::1 if deep else 7] if not odd for k in ("array", "readonly")]
    return [
        Part("all small models", items, run, "all assignments of up to 3 processes to up to 2 (3) channels in every order, every parameter"),
        Part("many bins", many, run_many, "up to 110 bins"),
        Part("wrong lengths", wrong, run_length, "all lengths up to twice the number of parameters"),
        Part("sequences of updates", cat, run_cat, f"all sequences of up to {4 if deep else 3} of 4 vectors"),
        Part("names", names, run_names, "all pairs of process names with one or two channel names"),
        Part("fitted arrays", fits, run_fit, "both minimizers"),
    ]
