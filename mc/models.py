"""Real models built through the public interface next to their reference models."""
import math

import numpy as np

from . import ref
from .core import Mismatch


def contents(seed, n, zeros=()):
    """Irregular positive bin contents and squared errors."""
    c = [((7 * seed + 3 * i * i + 5 * i + seed * i) % 11) * 0.75 + 1.25 + 0.5 * (i % 3) for i in range(n)]
    e = [v * (0.8 + 0.1 * ((i + seed) % 4)) + 0.05 for i, v in enumerate(c)]
    for z in zeros:
        c[z % n], e[z % n] = 0.0, 0.0
    return c, e


SCALES = {"plain": [1.0], "tiny": [1e-6], "small": [1e-3, 2e-3, 5e-4], "big": [1e7], "mixed": [1e-3, 1.0, 1e4], "negative": [-1.0, 1.0, 2.0]}


def scaled(counts, err2, kind):
    """Contents and squared errors over other magnitudes (and signs)."""
    f = SCALES[kind]
    return ([c * f[i % len(f)] for i, c in enumerate(counts)], [e * f[i % len(f)] ** 2 for i, e in enumerate(err2)])


def nbins(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def make_edges(shape, limits):
    return [ref.linspace(lo, hi, n + 1) for n, (lo, hi) in zip(shape, limits)]


def warp(edges):
    """Bins of different widths with the same limits."""
    out = list(edges)
    for i in range(1, len(edges) - 1):
        out[i] += (0.3, -0.2, 0.1)[i % 3] * (edges[i + 1] - edges[i])
    return out


def make_hist(counts, edges, err2=None):
    """A histogram with given flat contents on the given edges (list of edge lists); two-dimensional contents come in
    either memory layout."""
    from templatefitter.histograms import Hist1d, Hist2d
    shape = tuple(len(e) - 1 for e in edges)
    c = np.array(counts, dtype=float).reshape(shape)
    e = None if err2 is None else np.sqrt(np.array(err2, dtype=float)).reshape(shape)
    if int(4 * abs(float(np.sum(c)))) % 2:
        c = np.asfortranarray(c)
        e = e if e is None or shape[0] % 2 else np.asfortranarray(e)
    if len(edges) == 1:
        return Hist1d.from_binned_data(c, np.array(edges[0], dtype=float), e)
    return Hist2d.from_binned_data(c, [np.array(x, dtype=float) for x in edges], e)


def make_template(name, counts, edges, err2=None, **kw):
    from templatefitter.templates import Template1d, Template2d
    h = make_hist(counts, edges, err2)
    if len(edges) == 1:
        return Template1d(name, "var", h, **kw)
    return Template2d(name, ("vx", "vy"), h, **kw)


def centres(edges):
    """One point per bin in flat order, per axis."""
    mids = [[(a + b) / 2 for a, b in zip(e[:-1], e[1:])] for e in edges]
    pts = [()]
    for m in mids:
        pts = [p + (x,) for p in pts for x in m]
    return [list(x) for x in zip(*pts)]


def variation(seed, counts):
    """Varied contents (up, down): every relation between up, down and nominal occurs."""
    pat = [(0.2, -0.1), (-0.15, 0.1), (0.1, 0.25), (-0.3, -0.1), (0.05, 0.05)]
    up, down = [], []
    for i, c in enumerate(counts):
        u, d = pat[(i * (seed + 1) + seed) % len(pat)]
        base = c if c != 0 else 0.5
        up.append(c + u * base)
        down.append(c + d * base)
    return up, down


def covariance(seed, counts):
    """A positive definite matrix that is not diagonal."""
    n = len(counts)
    v = [0.3 + 0.1 * ((i * 3 + seed) % 5) for i in range(n)]
    s = [1 if (i + seed) % 3 else -1 for i in range(n)]
    m = ref.outer([a * b for a, b in zip(v, s)], [a * b for a, b in zip(v, s)])
    return ref.madd(m, ref.diag([0.2 + 0.05 * i for i in range(n)]))


class Pair:
    """A MultiChannelTemplate and the reference model, driven by the same operations."""

    def __init__(self):
        from templatefitter.templates import MultiChannelTemplate
        self.m = MultiChannelTemplate()
        self.r = ref.RModel()
        self.geo = {}      # channel -> (shape, limits, edges)
        self.tm = {}       # (channel, process) -> real template
        self.data = {}     # channel -> real histogram

    # -- declarations
    def channel(self, name, shape, limits=None):
        shape = tuple(shape)
        k = len(self.geo)
        edges = None
        if limits is None:
            # the second channel has irregular bins, the third one tiny ones
            scale = 1e-9 if k % 3 == 2 else 1.0
            limits = tuple(((-1.0 + 0.5 * i) * scale, (2.0 + i) * scale) for i in range(len(shape)))
            if k % 2:
                edges = [warp(e) for e in make_edges(shape, limits)]
        given = limits if (k + len(name)) % 2 else [list(x) for x in limits]      # as tuples and as lists
        if len(shape) == 1:
            self.m.define_channel(name, shape[0], given[0])
        else:
            self.m.define_channel(name, shape, given)
        self.r.ch[name] = ref.RChannel(name)
        self.geo[name] = (shape, limits, edges or make_edges(shape, limits))

    def process(self, name):
        self.m.define_process(name)
        self.r.procs.append(name)

    def template(self, ch, proc, seed=None, eff=1.0, zeros=(), counts=None, err2=None, name=None, edges=None, rough=1, **kw):
        shape, _, own = self.geo[ch]
        if counts is None:
            counts, err2 = contents(seed, nbins(shape), zeros)
            err2 = [e * rough for e in err2]
        if err2 is None:
            err2 = [abs(c) for c in counts]
        t = make_template(name or f"t_{ch}_{proc}", counts, edges or own, err2, **kw)
        self.m.add_template(ch, proc, t, eff)
        self.r.ch[ch].t[proc] = ref.RTemplate(counts, err2, shape)
        self.r.ch[ch].eff[proc] = eff
        self.tm[ch, proc] = t
        return t

    def variation(self, ch, proc, seed):
        rt = self.r.ch[ch].t[proc]
        up, down = variation(seed, rt.counts)
        pts = [np.array(x) for x in centres(self.geo[ch][2])]
        self.tm[ch, proc].add_variation(pts[0] if len(pts) == 1 else tuple(pts), np.array(up), np.array(down))
        rt.add_variation(up, down)

    def cov(self, ch, proc, seed):
        rt = self.r.ch[ch].t[proc]
        c = covariance(seed, rt.counts)
        self.tm[ch, proc].add_cov_mat(np.array(c))
        rt.add_cov(c)

    def data_hist(self, ch, counts, edges=None):
        return make_hist(counts, edges or self.geo[ch][2])

    def add_data(self, **counts):
        hs = {c: self.data_hist(c, v) for c, v in counts.items()}
        self.m.add_data(**hs)
        for c, v in counts.items():
            self.r.ch[c].data = [float(x) for x in v]
            self.data[c] = hs[c]

    def auto_data(self, seed=1, zeros=()):
        d = {}
        for k, (name, c) in enumerate(self.r.ch.items()):
            n = nbins(self.geo[name][0])
            d[name] = [float(round(v * 1.3 + 2 + (i + seed) % 3)) for i, v in enumerate(contents(seed + k, n)[0])]
            for z in zeros:
                d[name][z % n] = 0.0
        self.add_data(**d)

    def constraint(self, p, v, e):
        self.m.add_gaussian_constraint_on_yield(p, v, e)
        self.r.constr[p] = (v, e)

    # -- parameters
    def set_yield(self, p, v):
        self.m.set_yield(p, v)
        self.r.set_yield(p, v)

    def update(self, x):
        self.m.update_parameters(np.array(x, dtype=float))
        self.r.update(list(x))

    def reset(self):
        self.m.reset_parameters()
        self.r.reset()

    def t_yield(self, ch, p, v):
        self.tm[ch, p].yield_param = v
        self.r.ch[ch].t[p].y = v

    def t_nui(self, ch, p, v):
        self.tm[ch, p].nui_params = np.array(v, dtype=float)
        self.r.ch[ch].t[p].nui = list(v)

    def point(self, seed):
        """A parameter vector with positive expectations: yields and nuisances all different."""
        r = self.r
        y = [9.0 + 4.0 * ((i * 5 + seed * 3) % 7) + 0.25 * seed for i in range(len(r.procs))]
        nn = r.npar() - len(y)
        nui = [0.0] * nn if seed == 0 else [
            0.9 * math.sin(1.7 * k + seed) + 0.05 * ((k * seed) % 4) for k in range(nn)]
        return y + nui


def build(cfg):
    """cfg: dict(procs=[..], chans=[(name, shape, [(proc, seed, eff, zeros)])], var=[..], constr=[..], data=seed)."""
    p = Pair()
    for c in cfg["procs"]:
        p.process(c)
    for name, shape, tmpl in cfg["chans"]:
        p.channel(name, shape, cfg.get("limits", {}).get(name))
        for proc, seed, eff, zeros in tmpl:
            p.template(name, proc, seed, eff, zeros)
    for ch, proc, seed in cfg.get("var", ()):
        p.variation(ch, proc, seed)
    for ch, proc, seed in cfg.get("cov", ()):
        p.cov(ch, proc, seed)
    for proc, v, e in cfg.get("constr", ()):
        p.constraint(proc, v, e)
    if cfg.get("data") is not None:
        p.auto_data(cfg["data"], cfg.get("data_zeros", ()))
    return p


def check_templates(acc, p, tag=""):
    for (ch, proc), t in p.tm.items():
        rt = p.r.ch[ch].t[proc]
        w = f"{tag}template {ch}/{proc} "
        acc.eq(t.yield_param, rt.y, w + "yield_param", 1e-12)
        acc.eq(t.nui_params, rt.nui, w + "nui_params", 1e-12)
        acc.eq(t.params, [rt.y] + rt.nui, w + "params", 1e-12)
        acc.eq(t.values, ref.nest(rt.values(), rt.shape), w + "values", 1e-9, 1e-9)
        acc.eq(t.errors, ref.nest(rt.errors(), rt.shape), w + "errors", 1e-9, 1e-9)
        acc.eq(t.cov_mat, rt.cov, w + "cov_mat", 1e-9, 1e-12)
        acc.true(p.m.channels[ch][proc] is t, w + "is the one stored in the model")


def check_shape(acc, p, tag=""):
    m, r = p.m, p.r
    acc.eq(list(m.processes), r.procs, tag + "processes")
    acc.eq(m.num_processes, len(r.procs), tag + "num_processes")
    acc.eq(list(m.channels), list(r.ch), tag + "channels")
    acc.eq(m.num_channels, len(r.ch), tag + "num_channels")
    for name, c in r.ch.items():
        rc = m.channels[name]
        shape, limits, edges = p.geo[name]
        acc.eq(rc.name, name, tag + "channel name")
        acc.eq(list(rc.processes), list(c.t), f"{tag}{name} processes")
        acc.eq(list(rc.templates), list(c.t), f"{tag}{name} templates")
        acc.eq(dict(rc.efficiencies), dict(c.eff), f"{tag}{name} efficiencies")
        acc.eq(rc.num_templates, len(c.t), f"{tag}{name} num_templates")
        acc.eq(rc.num_bins, nbins(shape), f"{tag}{name} num_bins")
        acc.eq(list(rc.bins), list(shape), f"{tag}{name} bins")
        acc.eq(rc.num_nui_params, nbins(shape) * len(c.t), f"{tag}{name} num_nui_params")
        acc.eq(bool(rc.has_data), c.data is not None, f"{tag}{name} has_data")
        if c.data is not None:
            acc.eq(rc.data_bin_counts, ref.nest(c.data, shape), f"{tag}{name} data_bin_counts")
    acc.eq(list(m.constrained_yields), [q for q in r.constr], tag + "constrained_yields")
    for q, (v, e) in r.constr.items():
        acc.eq(m.constrained_yield_values[q], v, f"{tag}constraint value of {q}")
        acc.eq(m.constrained_yield_errors[q], e, f"{tag}constraint error of {q}")


def check_vectors(acc, p, tag=""):
    m, r = p.m, p.r
    if r.procs:
        acc.eq(m.process_yields, r.yields(), tag + "process_yields", 1e-12)
        for q in r.procs:
            acc.eq(m.get_yield(q), r.yields()[r.procs.index(q)], f"{tag}get_yield({q})", 1e-12)
        acc.eq(m.process_yield_errors, r.yield_errors(), tag + "process_yield_errors", 1e-9, 1e-12)
    acc.eq(m.num_nui_params, len(r.nuis()), tag + "num_nui_params")
    if p.tm:
        acc.eq(m.nui_params, r.nuis(), tag + "nui_params", 1e-12)
        n = m.create_nll()
        acc.eq(list(n.param_names), r.names(), tag + "param_names")
        acc.eq(n.x0, r.x0(), tag + "x0", 1e-12)


def can_evaluate(p):
    return bool(p.r.ch) and bool(p.r.procs) and all(c.data is not None and c.t for c in p.r.ch.values())


def check_nll(acc, p, seeds=(0, 1), nll=None, tag=""):
    n = nll if nll is not None else p.m.create_nll()
    for s in seeds:
        x = p.point(s)
        acc.eq(float(n(np.array(x))), p.r.nll(x), f"{tag}likelihood at point {s}", 1e-9, 1e-9 * p.r.scale())
        k = len(p.r.procs)
        for f in (0.01, 1000.0):      # few and many events
            y = [v * f for v in x[:k]] + x[k:]
            acc.eq(float(n(np.array(y))), p.r.nll(y), f"{tag}likelihood at point {s} with yields times {f}", 1e-9, 1e-9 * (1000 if f > 1 else 1) * p.r.scale())


def check_asimov(acc, p, tag=""):
    if not p.r.ch or not all(c.t for c in p.r.ch.values()):
        return
    ds = p.m.generate_asimov_dataset()
    acc.eq(list(ds), list(p.r.ch), tag + "asimov channels")
    for name, c in p.r.ch.items():
        acc.eq(ds[name].bin_counts, ref.nest(c.total(), p.geo[name][0]), f"{tag}asimov {name}", 1e-9, 1e-9)


def check_all(acc, p, seeds=(0, 1), tag="", nll=None):
    check_shape(acc, p, tag)
    check_vectors(acc, p, tag)
    check_templates(acc, p, tag)
    check_asimov(acc, p, tag)
    if can_evaluate(p):
        check_nll(acc, p, seeds, nll, tag)
    acc.state(p.r.key())


def snapshot(p):
    """Everything observable of the real model, as plain data."""
    from .core import plain
    m = p.m
    s = {"processes": list(m.processes), "channels": list(m.channels)}
    for name, c in m.channels.items():
        s["c." + name] = [list(c.processes), dict(c.efficiencies), c.num_bins, c.num_nui_params, bool(c.has_data),
                          plain(c.data_bin_counts) if c.has_data else None]
        for q, t in c.templates.items():
            s[f"t.{name}.{q}"] = [plain(t.params), plain(t.values), plain(t.errors), plain(t.cov_mat), plain(t.corr),
                                  plain(t.inv_corr_mat)]
    s["yields"] = plain(m.process_yields)
    s["constraints"] = [list(m.constrained_yields), dict(m.constrained_yield_values), dict(m.constrained_yield_errors)]
    if p.tm:
        n = m.create_nll()
        s["names"] = list(n.param_names)
        s["x0"] = plain(n.x0)
        if can_evaluate(p):
            s["nll"] = [float(n(np.array(p.point(k)))) for k in (0, 1, 2)]
    return s


def check_unchanged(acc, p, before, what):
    now = snapshot(p)
    for k in before:
        if k not in now:
            raise Mismatch(f"{what} changed the model: {k} is gone")
        acc.eq(now[k], before[k], f"{what} changed the model: {k}", 0, 0)
    acc.eq(sorted(now), sorted(before), f"{what} changed the model")


# ---------------------------------------------------------------- a catalogue of small models (names contain one another)
CATALOGUE = {
    "one": dict(procs=["a"], chans=[("u", (2,), [("a", 1, 1.0, ())])], data=1),
    "two": dict(procs=["a", "ab"], chans=[("u", (3,), [("a", 1, 1.0, ()), ("ab", 2, 1.0, ())])], data=2),
    "swap": dict(procs=["a", "ab"], chans=[("u", (3,), [("ab", 2, 1.0, ()), ("a", 1, 1.0, ())])], data=2,
                 var=[("u", "a", 1)]),
    "chan2": dict(procs=["a", "ab"], chans=[("u", (3,), [("a", 1, 0.6, ()), ("ab", 2, 0.3, (1,))]),
                                           ("uv", (2,), [("ab", 4, 0.7, ()), ("a", 3, 0.4, ())])], data=3,
                  var=[("u", "ab", 2), ("uv", "a", 0)], data_zeros=(1,)),
    "mixed": dict(procs=["bab", "a", "ab"], chans=[("u", (2, 3), [("a", 1, 0.25, ()), ("bab", 5, 1.0, (0, 4))]),
                                                ("vu", (4,), [("ab", 2, 1.0, ()), ("a", 6, 0.75, (2,))])], data=1,
                  var=[("u", "a", 1), ("vu", "ab", 3), ("vu", "ab", 1)], cov=[("vu", "a", 1)],
                  constr=[("a", 20.0, 3.0)]),
    "single": dict(procs=["a", "ab"], chans=[("u", (1,), [("ab", 2, 0.7, ()), ("a", 1, 0.3, ())]),
                                            ("ua", (1, 1), [("a", 4, 0.7, ()), ("ab", 3, 0.3, ())])], data=2,
                   cov=[("u", "a", 1)]),
    "three": dict(procs=["s", "sy", "y"], chans=[("k", (2,), [("sy", 3, 0.5, ()), ("s", 1, 0.2, ()), ("y", 2, 0.9, ())]),
                                                ("kl", (3,), [("s", 7, 0.3, (0,))]),
                                                ("m", (2, 2), [("y", 8, 0.1, ()), ("sy", 4, 0.5, ()), ("s", 5, 0.5, ())])],
                  data=2, var=[("k", "s", 0), ("kl", "s", 2), ("m", "sy", 4)],
                  constr=[("y", 11.0, 2.0), ("s", 15.0, 1.5)], data_zeros=(0,)),
    "flat2": dict(procs=["ab", "a"], chans=[("u", (2, 2), [("a", 1, 1.0, ()), ("ab", 3, 1.0, ())])], data=4,
                  var=[("u", "a", 3)]),
    "same": dict(procs=["a", "ab"], chans=[("u", (2,), [("a", 1, 0.5, ()), ("ab", 2, 0.5, ())]),
                                          ("uv", (2,), [("a", 3, 0.5, ()), ("ab", 4, 0.5, ())])], data=3,
                 constr=[("ab", 12.0, 2.5)]),
    # four processes in four channels, none of them in the registered order
    "four": dict(procs=["d", "b", "da", "bab"],
                 chans=[("z", (5,), [("bab", 2, 0.3, ()), ("d", 1, 0.4, ()), ("b", 4, 0.2, (1,)), ("da", 3, 0.6, ())]),
                        ("y", (2,), [("b", 5, 0.5, ()), ("d", 6, 0.3, ())]),
                        ("zy", (2, 2), [("da", 7, 0.3, ()), ("bab", 8, 0.6, (2,)), ("d", 9, 0.25, ())]),
                        ("x", (3,), [("bab", 10, 0.1, ()), ("b", 11, 0.3, ())])], data=3,
                 var=[("z", "b", 2), ("zy", "d", 1), ("x", "b", 0)], constr=[("da", 20.0, 3.0)]),
    # four processes, efficiencies of zero and above one, as many bins in x as in y
    "odd": dict(procs=["d", "bab", "ab", "a"], chans=[("q", (2, 2), [("ab", 6, 1.5, ()), ("d", 2, 0.5, (3,)), ("a", 8, 2.0, ())]),
                                                   ("u", (2,), [("bab", 5, 1.0, ()), ("a", 3, 0.0, ())])], data=2,
                var=[("q", "d", 1), ("u", "bab", 2)], constr=[("d", 14.0, 2.0)]),
}
# models with many processes, channels, bins or variations
_P = [f"p{(5 * i) % 13}" for i in range(13)]
LARGE = {
    "processes": dict(procs=_P, chans=[("u", (3,), [(q, i, 0.1 + 0.05 * i, ()) for i, q in enumerate(_P[::-1])]),
                                       ("v", (2, 2), [(q, i + 3, 0.3, ()) for i, q in enumerate(sorted(_P)) if i % 3])], data=1,
                      var=[("u", q, i) for i, q in enumerate(_P) if i % 2] + [("v", q, 1) for q in sorted(_P)[7:] if sorted(_P).index(q) % 3],
                      constr=[(q, 15.0 + i, 2.0) for i, q in enumerate(_P) if i % 4 != 1]),
    "channels": dict(procs=["b", "a", "ba"], chans=[(f"c{(7 * k) % 17}", ((k % 4 + 1,), (2, 2), (k % 3 + 2,))[k % 3],
                                                    [(q, k + j, 0.05 * (j + 1) + 0.01 * k, ()) for j, q in enumerate((["a", "b"], ["ba", "a", "b"], ["b"])[k % 3])])
                                                   for k in range(17)], data=2,
                     var=[(f"c{(7 * k) % 17}", "b", k) for k in range(0, 17, 2)]),
    "bins": dict(procs=["a", "b"], chans=[("u", (67,), [("b", 1, 0.7, ()), ("a", 2, 0.4, (64,))]), ("v", (41,), [("a", 3, 0.6, ()), ("b", 4, 0.3, (40,))])], data=3,
                 var=[("u", "b", 2), ("v", "a", 1), ("v", "b", 3)], cov=[("u", "b", 1)], data_zeros=(66, 3)),
    "grid": dict(procs=["a", "b"], chans=[("u", (12, 11), [("a", 1, 0.7, ()), ("b", 2, 0.4, (100,))]), ("v", (3, 35), [("b", 3, 0.6, ())])], data=1,
                 var=[("u", "a", 2), ("v", "b", 1)]),
    "variations": dict(procs=["a", "b"], chans=[("u", (3,), [("b", 1, 1.0, ()), ("a", 2, 1.0, ())]), ("v", (2, 2), [("a", 3, 0.5, ())])], data=1,
                       var=[("u", "b", i % 7) for i in range(40)] + [("v", "a", i % 5) for i in range(19)], cov=[("u", "a", i % 6) for i in range(23)]),
}
# models small enough (or well-behaved enough) to be fitted many times
FITTABLE = [k for k in CATALOGUE if k != "odd"]
