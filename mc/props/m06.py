"""M06: the random source is an environment whose choices are enumerated: the Poisson draws of scipy and numpy are
replaced by a scripted source that records the mean of every requested draw; for every assignment of counts to bins (all
combinations of a count set) the toy data must show exactly these counts in the right bins, and the requested means must
be the expectations, one draw per bin.  With the real source, for every seed of a list: reproducibility from numpy's
global seed, differences between bins, channels and calls, whole numbers, exact means for huge expectations, spread of
the draws, empty bins for zero expectation, acceptance as data, and that nothing in the model changes."""
import contextlib
import itertools
import math

import numpy as np
import scipy.stats

from ..core import Part
from .. import models
from ..models import CATALOGUE, LARGE, build, check_unchanged, snapshot
from .m05 import MODELS as PLAIN, apply, put

MODELS = dict(PLAIN)
# channels with the same templates and processes with the same contents
MODELS["twins"] = dict(procs=["a", "b"], chans=[("u", (2,), [("a", 1, 1.0, ()), ("b", 2, 1.0, ())]), ("v", (2,), [("a", 1, 1.0, ()), ("b", 2, 1.0, ())])])
MODELS["triplets"] = dict(procs=["a"], chans=[(c, (2, 2), [("a", 4, 1.0, ())]) for c in "uvw"])

ASSUMPTIONS = ["draws made through interfaces other than scipy.stats.poisson and numpy.random.poisson are only covered by the real-source parts"]


class Scripted:
    """Counts by expectation; records the means requested."""

    def __init__(self, counts):
        self.counts, self.means = counts, []

    def draw(self, lam):
        out = []
        for v in np.asarray(lam, dtype=float).ravel():
            self.means.append(float(v))
            best = min(self.counts, key=lambda c: abs(c[0] - v))
            out.append(best[1])
        return np.array(out, dtype=int).reshape(np.shape(lam))

    @contextlib.contextmanager
    def installed(self):
        script = self

        def rvs(self, mu, size=None, random_state=None):
            return script.draw(np.broadcast_to(mu, size) if size not in (None, ()) else mu)

        def poisson(lam=1.0, size=None):
            return script.draw(np.broadcast_to(lam, size) if size is not None else lam)
        cls = type(scipy.stats.poisson)
        old, oldnp = cls._rvs, np.random.poisson
        cls._rvs, np.random.poisson = rvs, poisson
        try:
            yield self
        finally:
            cls._rvs, np.random.poisson = old, oldnp


def binned(p, ds):
    return {n: np.asarray(ds[n].bin_counts).ravel().tolist() for n in p.r.ch}


def basics(acc, p, ds, what):
    acc.eq(list(ds), list(p.r.ch), what + "channels")
    for name, c in p.r.ch.items():
        shape, _, edges = p.geo[name]
        h = ds[name]
        got = np.asarray(h.bin_counts, dtype=float)
        acc.eq(list(got.shape), list(shape), f"{what}{name} shape")
        acc.true(bool(np.all(got == np.round(got)) and np.all(got >= 0)), f"{what}{name}: contents are no counts", got)
        acc.eq(np.asarray(h.bin_errors_sq), got, f"{what}{name} squared errors", 1e-9, 1e-12)
        e = h.bin_edges
        acc.eq(e if len(shape) > 1 else [np.asarray(e).tolist()], edges, f"{what}{name} edges", 1e-12, 1e-12)
        acc.true(type(h).__name__ == f"Hist{len(shape)}d", f"{what}{name} type")
        for g, w in zip(got.ravel().tolist(), c.total()):
            if w == 0:
                acc.eq(g, 0.0, f"{what}{name}: bin with zero expectation", 0, 0)


def run_script(acc, item):
    cfg, ops, base, stride = item
    p = build({**MODELS, **LARGE}[cfg])
    for op in ops:
        apply(p, op)
    lam = [(v, n, i) for n, c in p.r.ch.items() for i, v in enumerate(c.total())]
    # counts by position, so that every bin gets every count over the items
    script = [(v, (base // (3 ** ((k * stride) % 6))) % 3 * 2 + (k % 2)) for k, (v, n, i) in enumerate(lam)]
    script = [(v, c if v > 0 else 0) for v, c in script]
    before = snapshot(p)
    s = Scripted(script)
    acc.op("toy", cfg, ops, [c for _, c in script])
    with s.installed():
        ds = p.m.generate_toy_dataset()
    what = f"{cfg} {ops} scripted {base}: "
    basics(acc, p, ds, what)
    check_unchanged(acc, p, before, "drawing a toy")
    acc.state((cfg, ops, tuple(c for _, c in script)))
    vals = [v for v, _ in script]
    if not s.means:
        acc.outcome("draws not made through the scripted interfaces")
        return
    pos = sorted(v for v in vals if v > 0)
    acc.eq(sorted(v for v in s.means if v > 0), pos, what + "means of the draws", 1e-9)
    if len(set(vals)) == len(vals) or all(a == 0 for a in vals if vals.count(a) > 1):
        got = [g for n, gs in binned(p, ds).items() for g in gs]
        acc.eq(got, [float(c) for _, c in script], what + "drawn counts", 0, 0)
        acc.outcome(got)


def run_seed(acc, item):
    cfg, ops, seed = item
    p = build(MODELS[cfg])
    for op in ops:
        apply(p, op)
    what = f"{cfg} {ops} seed {seed}: "
    before = snapshot(p)
    draws = []
    for rep in range(2):
        np.random.seed(seed)
        draws.append([binned(p, p.m.generate_toy_dataset()) for _ in range(3)])
        acc.step(3)
    acc.eq(draws[0], draws[1], what + "not reproducible from numpy's seed", 0, 0)
    np.random.seed(seed)
    ds = p.m.generate_toy_dataset()
    basics(acc, p, ds, what)
    check_unchanged(acc, p, before, "drawing a toy")
    other = p.m.generate_toy_dataset()
    for n in ds:
        acc.true(ds[n] is not other[n], what + "same histogram twice")
    first = binned(p, ds)
    put(acc, p, ds, "toy")
    models.check_shape(acc, p, what + "as data: ")
    models.check_nll(acc, p, (0, 1), None, what + "as data: ")
    p.m.generate_toy_dataset()
    p.set_yield(p.r.procs[0], 55.0)
    acc.eq(binned(p, ds), first, what + "toy changed later", 0, 0)
    acc.state((cfg, ops, seed, repr(first)))
    acc.outcome(repr(first))


def run_large(acc, item):
    """Huge expectations: the relative spread is tiny, so the mean of every bin shows in a single draw."""
    cfg, ops, seed = item
    p = build(MODELS[cfg])
    for op in ops:
        apply(p, op)
    x = p.r.x0()
    k = len(p.r.procs)
    p.update([v * 1e13 for v in p.point(1)[:k]] + x[k:])
    np.random.seed(seed)
    sets = [binned(p, p.m.generate_toy_dataset()) for _ in range(4)]
    acc.step(4)
    seen, pulls = [], []
    for s in sets:
        for n, c in p.r.ch.items():
            for i, (g, w) in enumerate(zip(s[n], c.total())):
                if w == 0:
                    acc.eq(g, 0.0, "bin with zero expectation", 0, 0)
                    continue
                z = (g - w) / math.sqrt(w)
                acc.true(abs(z) < 9, f"{cfg} {ops} {n} bin {i}: {g} drawn around {w} ({z:.1f} standard deviations)", g)
                seen.append(z)
    # no draw is shared between bins, channels or calls
    acc.true(len(seen) - len(set(seen)) <= 1, f"{cfg} {ops} seed {seed}: draws shared between bins, channels or calls", seen)
    acc.true(any(abs(z) > 0.05 for z in seen), "draws do not fluctuate")
    acc.state((cfg, ops, seed))


def flat_model(shape, procs):
    p = models.Pair()
    for q in procs:
        p.process(q)
    for ch in ("u", "v"):
        p.channel(ch, shape)
        for q in procs:
            p.template(ch, q, counts=[20.0] * models.nbins(shape), err2=[2.0] * models.nbins(shape))
    return p


def run_spread(acc, item):
    """Spread of the draws and their independence, for a fixed seed, with margins of more than six standard deviations."""
    cfg, seed, n = item
    if isinstance(cfg, tuple):
        p = flat_model(*cfg)
    else:
        p = build(MODELS[cfg])
        p.update(p.point(2))
    np.random.seed(seed)
    flat = [(v, n_, i) for n_, c in p.r.ch.items() for i, v in enumerate(c.total())]
    rows = []
    for _ in range(n):
        s = binned(p, p.m.generate_toy_dataset())
        rows.append([s[n_][i] for _, n_, i in flat])
    acc.step(n)
    a = np.array(rows)
    for k, (lam, n_, i) in enumerate(flat):
        if lam == 0:
            continue
        acc.true(abs(a[:, k].mean() - lam) < 6.5 * math.sqrt(lam / n), f"{cfg}: mean of {n_} bin {i} is {a[:, k].mean()}, expected {lam}")
        # variance of the sample variance of a Poisson: (lam + 2 lam^2) / n
        acc.true(abs(((a[:, k] - lam) ** 2).mean() - lam) < 7 * math.sqrt((lam + 2 * lam * lam) / n),
                 f"{cfg}: variance of {n_} bin {i} is {((a[:, k] - lam) ** 2).mean()}, expected {lam}")
    for j, k in itertools.combinations(range(len(flat)), 2):
        lj, lk = flat[j][0], flat[k][0]
        if lj == 0 or lk == 0:
            continue
        r = ((a[:, j] - lj) * (a[:, k] - lk)).mean() / math.sqrt(lj * lk)
        acc.true(abs(r) < 6.5 / math.sqrt(n), f"{cfg}: bins {j} and {k} are correlated by {r}")
    acc.state((cfg, seed))


def parts(tier, seed):
    deep = tier == "thorough"
    ops = [(), (("vector", 1),), (("vector", 3), ("vary", 0, 1)), (("set", 0, 0.0),), (("set", 1, 7.5),), (("one", 1, 60.25),),
           (("vector", 2), ("reset",)), (("set", 0, 0.03), ("set", 1, 0.002)), (("set", 0, 1e-6), ("set", 1, 1e-9))]
    script = [(cfg, o, b, st) for cfg in MODELS for o in ops for st in (1, 5) for b in range(0, 729, 1 if deep else (7 if len(o) > 1 else 5))]
    script += [(cfg, o, b, st) for cfg in LARGE for o in ops[:2] for st in (1, 5) for b in (5, 100, 333, 700)]
    seeds = range(seed, seed + (40 if deep else 8))
    real = [(cfg, o, s) for cfg in MODELS for o in ops for s in seeds]
    large = [(cfg, o, s) for cfg in MODELS for o in ops for s in seeds]
    flat = [((sh, q), s, 1500) for sh in ((3,), (2, 3), (3, 2), (1, 4), (7,)) for q in ("a", "ab") for s in list(seeds)[:4 if deep else 1]]
    spread = flat + [(cfg, s, 4000) for cfg in MODELS for s in list(seeds)[:8 if deep else 2]]
    return [
        Part("scripted draws", script, run_script, "all count patterns over 3 counts in up to 6 bins (thorough: all 729, quick: every fifth or seventh)"),
        Part("real draws", real, run_seed, f"seeds {seeds[0]}..{seeds[-1]}"),
        Part("huge expectations", large, run_large, "every bin within nine standard deviations, no draw shared"),
        Part("spread", spread, run_spread, "mean, variance and correlations of all bins within 6.5 standard deviations"),
    ]
