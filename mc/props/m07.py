"""M07: pairs of models related by a symmetry, for every transformation of a finite group: flattening, transposing,
every permutation of bins, of processes, templates and channels (with all renamings), zero-yield processes at every
position, every partition of the channels into separate models; templates carry variations, covariances, empty bins and
constraints; likelihood values of the two are compared directly (real code against real code) and with the reference at
all points of a list."""
import itertools

import numpy as np

from ..core import Part
from ..models import Pair, contents, covariance, nbins, variation

ASSUMPTIONS = ["covariance matrices are added to one-dimensional templates only (two-dimensional ones have no such interface)"]


class Spec:
    """channels: {name: (shape, {process: (counts, err2, eff, [ (up, down) ], [cov])}, data)}; everything flat."""

    def __init__(self, procs, chans, constr=()):
        self.procs, self.chans, self.constr = list(procs), chans, dict(constr)

    def build(self):
        p = Pair()
        for q in self.procs:
            p.process(q)
        for ch, (shape, ts, data) in self.chans.items():
            p.channel(ch, shape)
            for q, (c, e, eff, var, cov) in ts.items():
                p.template(ch, q, counts=c, err2=e, eff=eff)
                from ..models import centres
                pts = [np.array(x) for x in centres(p.geo[ch][2])]
                for up, down in var:
                    p.tm[ch, q].add_variation(pts[0] if len(pts) == 1 else tuple(pts), np.array(up), np.array(down))
                    p.r.ch[ch].t[q].add_variation(up, down)
                for m in cov:
                    p.tm[ch, q].add_cov_mat(np.array(m))
                    p.r.ch[ch].t[q].add_cov(m)
        for q, (v, e) in self.constr.items():
            p.constraint(q, v, e)
        p.add_data(**{ch: d for ch, (_, _, d) in self.chans.items()})
        return p


def base(which):
    def tm(seed, n, eff, vars_=(), zeros=(), covs=()):
        c, e = contents(seed, n, zeros)
        return (c, e, eff, [variation(k, c) for k in vars_], [covariance(k, c) for k in covs])
    if which == "2d":
        return Spec("ab", {"u": ((2, 3), {"a": tm(1, 6, 0.5, (1,)), "b": tm(2, 6, 1.0, (), (1,))}, [4.0, 0.0, 9.0, 3.0, 5.0, 1.0])},
                    {"a": (20.0, 3.0)})
    if which == "2d line":
        return Spec("ab", {"u": ((1, 4), {"b": tm(3, 4, 0.5, (0, 2)), "a": tm(2, 4, 1.0, (1,), (3,))}, [4.0, 2.0, 0.0, 3.0])})
    if which == "square":
        return Spec("a", {"u": ((2, 2), {"a": tm(4, 4, 0.7, (3,))}, [4.0, 7.0, 1.0, 3.0])})
    if which == "1d":
        return Spec("ab", {"u": ((4,), {"a": tm(1, 4, 0.5, (1, 2)), "b": tm(5, 4, 0.8, (), (2,), ())}, [4.0, 0.0, 9.0, 3.0])}, {"b": (11.0, 2.0)})
    if which == "1d cov":
        return Spec("ab", {"u": ((3,), {"b": tm(1, 3, 0.5, (), (), (1,)), "a": tm(5, 3, 0.8, (2,), (), (2,))}, [4.0, 2.0, 9.0])})
    if which == "channels":
        return Spec("abc", {"u": ((2,), {"a": tm(1, 2, 0.5), "b": tm(2, 2, 0.4, (1,))}, [5.0, 3.0]),
                            "v": ((1, 3), {"c": tm(3, 3, 0.9, (0,)), "a": tm(6, 3, 0.3)}, [2.0, 8.0, 0.0]),
                            "w": ((1,), {"b": tm(7, 1, 0.6)}, [4.0])}, {"c": (9.0, 2.0)})
    if which == "twins":        # two processes that differ in nothing but their names
        return Spec("ab", {"u": ((3,), {"a": tm(1, 3, 0.5, (1,)), "b": tm(1, 3, 0.5, (1,))}, [4.0, 0.0, 9.0])}, {"a": (9.0, 2.0), "b": (9.0, 2.0)})
    raise KeyError(which)


def named(spec, k):
    """parameter values by meaning: ('y', process) and ('n', channel, process, bin)"""
    y = {q: 8.0 + 5.5 * i + 3.0 * k for i, q in enumerate(spec.procs)}
    n = {}
    for ch, (shape, ts, _) in spec.chans.items():
        for q in ts:
            for b in range(nbins(shape)):
                n[ch, q, b] = 0.0 if k == 0 else (((b + 1) * (k + 2) * ord(ch[0]) + 5 * ord(q[0])) % 13 - 6) / 7.0
    return y, n


def evaluate(acc, p, spec, y, n):
    x = [y[q] for q in spec.procs]
    for ch, (shape, ts, _) in spec.chans.items():
        for q in ts:
            x += [n[ch, q, b] for b in range(nbins(shape))]
    got = float(p.m.create_nll()(np.array(x)))
    acc.step()
    acc.eq(got, p.r.nll(x), "likelihood against the sum formula", 1e-9, 1e-8)
    return got


POINTS = range(6)


def compare(acc, s1, s2, y_of, n_of, what):
    """s2 is s1 transformed; y_of/n_of give the parameters of s2 from those of s1."""
    p1, p2 = s1.build(), s2.build()
    for k in POINTS:
        y, n = named(s1, k)
        a = evaluate(acc, p1, s1, y, n)
        b = evaluate(acc, p2, s2, y_of(y), n_of(n))
        acc.eq(b, a, f"{what}, point {k}", 1e-9, 1e-8)
        acc.outcome(round(a, 6))
    acc.state(p2.r.key())


def permuted(spec, ch, perm, shape):
    """channel ch with flat bin i holding the old bin perm[i]"""
    def pv(v):
        return [v[i] for i in perm]

    def pm(m):
        return [[m[i][j] for j in perm] for i in perm]
    chans = {}
    for c, (s, ts, d) in spec.chans.items():
        if c == ch:
            ts = {q: (pv(k), pv(e), eff, [(pv(u), pv(w)) for u, w in var], [pm(m) for m in cov])
                  for q, (k, e, eff, var, cov) in ts.items()}
            s, d = shape, pv(d)
        chans[c] = (s, ts, d)
    return Spec(spec.procs, chans, spec.constr)


def run_bins(acc, item):
    which, ch, perm, shape = item
    s1 = base(which)
    s2 = permuted(s1, ch, perm, shape)
    acc.op("bins", item)

    def n_of(n):
        return {(c, q, b): n[c, q, perm[b] if c == ch else b] for (c, q, b) in n}
    compare(acc, s1, s2, lambda y: y, n_of, f"{which}: bins of {ch} rearranged as {perm} in {shape}")


def run_names(acc, item):
    which, procs, chans, tsel, rename = item
    s1 = base(which)
    names = {q: (f"p{i}x" if rename else q) for i, q in enumerate("cab")}
    cname = {c: (f"k{i}" if rename else c) for i, c in enumerate("wuv")}
    acc.op("names", item)
    out = {}
    for c in chans:
        s, ts, d = s1.chans[c]
        order = list(itertools.permutations(ts))[tsel % len(list(itertools.permutations(ts)))]
        out[cname[c]] = (s, {names[q]: ts[q] for q in order}, d)
    con = list(s1.constr.items())
    s2 = Spec([names[q] for q in procs], out, {names[q]: v for q, v in reversed(con)})
    compare(acc, s1, s2, lambda y: {names[q]: v for q, v in y.items()},
            lambda n: {(cname[c], names[q], b): v for (c, q, b), v in n.items()}, f"{which} {item[1:]}")


def run_zero(acc, item):
    which, pos, ch, tpos, zeros, var = item
    s1 = base(which)
    procs = s1.procs[:pos] + ["z"] + s1.procs[pos:]
    chans = {}
    acc.op("zero yield", item)
    for c, (s, ts, d) in s1.chans.items():
        if c in ch:
            cnt, err = contents(8, nbins(s), zeros)
            new = (cnt, err, 0.6, [variation(2, cnt)] if var else [], [])
            it = list(ts.items())
            ts = dict(it[:tpos] + [("z", new)] + it[tpos:])
        chans[c] = (s, ts, d)
    s2 = Spec(procs, chans, s1.constr)

    def n_of(n):
        out = dict(n)
        for c in ch:
            for b in range(nbins(s1.chans[c][0])):
                out[c, "z", b] = 0.0
        return out
    compare(acc, s1, s2, lambda y: dict(y, z=0.0), n_of, f"{which} with zero-yield process at {pos}, {tpos}")


def run_split(acc, item):
    parts_ = item
    s1 = base("channels")
    acc.op("split", item)
    subs = []
    for i, part in enumerate(parts_):
        used = [q for q in s1.procs if any(q in s1.chans[c][1] for c in part)]
        con = {q: v for q, v in s1.constr.items() if i == 0 and q in used} if i == 0 else {}
        if i == 0 and "c" not in used:
            used = used + ["c"]
            con = dict(s1.constr)
        subs.append(Spec(used, {c: s1.chans[c] for c in part}, con))
    p1, ps = s1.build(), [s.build() for s in subs]
    for k in POINTS:
        y, n = named(s1, k)
        a = evaluate(acc, p1, s1, y, n)
        b = sum(evaluate(acc, p, s, y, n) for p, s in zip(ps, subs))
        acc.eq(b, a, f"sum over {parts_}, point {k}", 1e-9, 1e-8)
    acc.state(parts_)


def run_copies(acc, item):
    """a channel repeated under other names counts as often as it is there"""
    which, multi, rename = item
    s1 = base(which)
    acc.op("copies", item)
    chans = {}
    for i, c in enumerate(multi):
        chans[f"{'uvw'[i % 3] if rename else c}{i}"] = s1.chans[c]
    s2 = Spec(s1.procs, chans, s1.constr)
    used = list(dict.fromkeys(multi))
    singles = {c: Spec(s1.procs, {c: s1.chans[c]}) for c in used}
    p2, ps = s2.build(), {c: s.build() for c, s in singles.items()}
    for k in POINTS:
        y, n = named(s1, k)
        n2 = {(nc, q, b): n[c, q, b] for nc, c in zip(chans, multi) for (cc, q, b) in n if cc == c}
        total = evaluate(acc, p2, s2, y, n2)
        once = sum(evaluate(acc, ps[c], singles[c], y, n) for c in multi)
        once += sum(0.5 * ((y[q] - v) / e) ** 2 for q, (v, e) in s1.constr.items())
        acc.eq(total, once, f"{which} {multi}: sum over copies, point {k}", 1e-9, 1e-8)
    acc.state(item)


LAYOUTS = ("C", "F", "transposed view", "strided", "reversed view", "readonly", "f4 F")


def layout(kind, a):
    """the same two-dimensional values in another memory layout"""
    a = np.array(a, dtype=float)
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "transposed view":
        return np.array(a.T).T
    if kind == "strided":
        b = np.zeros([2 * s for s in a.shape])
        b[::2, ::2] = a
        return b[::2, ::2]
    if kind == "reversed view":
        return np.array(a[::-1, ::-1])[::-1, ::-1]
    if kind == "readonly":
        a = np.asfortranarray(a)
        a.flags.writeable = False
        return a
    if kind == "f4 F":
        return np.asfortranarray(a.astype("f4"))
    return a


def run_layout(acc, item):
    """contents, errors and data given in every memory layout: a matter of storage only"""
    from templatefitter.histograms import Hist2d
    from templatefitter.templates import MultiChannelTemplate, Template2d
    shape, kinds, how = item
    n = nbins(shape)
    edges = [np.linspace(0.0, 1.0 + k, s + 1) for k, s in enumerate(shape)]
    cnt = [[1.0 + ((3 * i + k) % 7) * 0.5 for i in range(n)] for k in (0, 1)]
    err = [[0.25 * (1 + (i * (k + 2)) % 5) for i in range(n)] for k in (0, 1)]
    data = [float((5 * i + 2) % 9) for i in range(n)]

    def model(ks):
        m = MultiChannelTemplate()
        m.define_channel("u", shape, tuple((e[0], e[-1]) for e in edges))
        for k, q in enumerate("ab"):
            m.define_process(q)
            h = Hist2d.from_binned_data(layout(ks[0], np.reshape(cnt[k], shape)), edges, layout(ks[1], np.reshape(err[k], shape)))
            if how == "filled":
                x, y = [np.array([0.5 * edges[a][0] + 0.5 * edges[a][1]]) for a in (0, 1)]
                h.fill((x, y), np.array([2.0]))
            t = Template2d(q, ("x", "y"), h)
            if how == "varied":
                g = np.array([(0.5 * (edges[0][i] + edges[0][i + 1]), 0.5 * (edges[1][j] + edges[1][j + 1]))
                              for i in range(shape[0]) for j in range(shape[1])])
                up, down = variation(k, cnt[k])
                t.add_variation((g[:, 0], g[:, 1]), np.array(up), np.array(down))
            m.add_template("u", q, t, 0.5 + k)
        m.add_data(u=Hist2d.from_binned_data(layout(ks[2], np.reshape(data, shape)), edges))
        return m
    m1, m2 = model(("C", "C", "C")), model(kinds)
    acc.op("layouts", item)
    f1, f2 = m1.create_nll(), m2.create_nll()
    acc.eq(f2.x0, f1.x0, f"{item}: start vector", 0, 1e-12)
    for k in POINTS:
        x = np.array([9.0 + k, 6.5] + [0.0 if k == 0 else (((b + 1) * (k + 2)) % 13 - 6) / 9.0 for b in range(2 * n)])
        acc.eq(float(f2(x)), float(f1(x)), f"{item}: point {k}", 1e-12, 1e-10)
        acc.step()
    for q in "ab":
        a, b = m1.channels["u"][q], m2.channels["u"][q]
        for w in ("values", "errors", "cov_mat", "inv_corr_mat"):
            acc.eq(getattr(b, w), getattr(a, w), f"{item}: {w} of {q}", 1e-12, 1e-12)
    for integer in (False, True):
        acc.eq(m2.generate_asimov_dataset(integer)["u"].bin_counts, m1.generate_asimov_dataset(integer)["u"].bin_counts, f"{item}: Asimov data", 1e-12, 1e-12)
    acc.state(item)


def parts(tier, seed):
    deep = tier == "thorough"
    bins = []
    for which, ch in (("2d", "u"), ("2d line", "u"), ("square", "u"), ("1d", "u"), ("1d cov", "u"), ("twins", "u"), ("channels", "v")):
        s = base(which)
        shape = s.chans[ch][0]
        n = nbins(shape)
        ident = tuple(range(n))
        shapes = [shape]
        if not any(cov for _, _, _, _, cov in s.chans[ch][1].values()):
            shapes = sorted({(n,), (1, n), (n, 1)} | {(a, n // a) for a in range(1, n + 1) if n % a == 0})
        bins += [(which, ch, ident, sh) for sh in shapes]
        if len(shape) == 2:
            tr = tuple(i * shape[1] + j for j in range(shape[1]) for i in range(shape[0]))
            bins.append((which, ch, tr, (shape[1], shape[0])))
        perms = list(itertools.permutations(range(n)))
        for pm in perms:
            bins.append((which, ch, pm, shape))
            if deep:
                bins += [(which, ch, pm, sh) for sh in shapes if sh != shape]
    names = [(w, pr, ch, t, r) for w in ("2d", "2d line", "1d", "twins", "channels")
             for pr in itertools.permutations(base(w).procs) for ch in itertools.permutations(base(w).chans)
             for t in (0, 1) for r in (False, True)]
    zero = []
    for w in ("2d", "2d line", "1d", "1d cov", "channels", "square"):
        s = base(w)
        subsets = [c for r in range(1, len(s.chans) + 1) for c in itertools.combinations(s.chans, r)]
        zero += [(w, pos, c, t, z, v) for pos in range(len(s.procs) + 1) for c in subsets
                 for t in range(max(len(ts) for _, ts, _ in s.chans.values()) + 1) for z in ((), (0,)) for v in (False, True)]
    split = []
    for perm in itertools.permutations("uvw"):
        split += [(perm,), (perm[:1], perm[1:]), (perm[:2], perm[2:]), (perm[:1], perm[1:2], perm[2:])]
    copies = [(w, m, r) for w, k in (("channels", 3), ("1d", 4), ("2d", 3), ("1d cov", 3), ("twins", 3), ("square", 2))
              for n in range(2, k + 1 + deep) for m in itertools.product(base(w).chans, repeat=n) for r in (False, True)]
    return [Part("bins", bins, run_bins, "all permutations of the bins of seven models, all shapes"),
            Part("names and orders", names, run_names, "all permutations of processes, channels and templates, renamed or not"),
            Part("zero-yield process", zero, run_zero, "all positions and subsets of channels"),
            Part("memory layouts", [(s, k, how) for s in ((2, 2), (2, 3), (3, 2), (1, 3), (3, 1), (4, 4)) for k in itertools.product(LAYOUTS, repeat=3)
                                    for how in ("plain", "filled", "varied")], run_layout, "all combinations of 7 layouts of contents, errors and data"),
            Part("splitting", split, run_split, "all ordered partitions of three channels"),
            Part("copies", copies, run_copies, "all sequences of up to 3 channels, repeated ones among them")]
