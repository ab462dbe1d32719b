"""L01: the legacy stacked model next to the reference model: every sequence up to the stated depth of parameter updates,
single writes, added covariances, resets and changes of the caller's arrays, with every reading of stack and templates and
the likelihood of data (empty bins included) compared after each operation; every stack of up to three templates in every
order; every small data set; every pair of compatible or incompatible templates; data generation with a scripted Poisson
source; drawn shapes."""
import itertools
import math

import numpy as np
import pandas as pd

from ..core import Part
from .. import ref
from ..models import contents, covariance
from .m06 import Scripted
from .p01 import Canvas, check_drawn

LIMITS = (-1.0, 2.0)


def frame(counts, err2, limits=LIMITS, var="mbc", weight="weight"):
    """Events whose weighted histogram has these contents and squared errors, and some outside the range."""
    n = len(counts)
    edges = ref.linspace(*limits, n + 1)
    x, w = [limits[1] + 1.0, limits[0] - 0.5], [3.0, 2.0]
    for k, (c, e) in enumerate(zip(counts, err2)):
        lo, hi = edges[k], edges[k + 1]
        if c == 0 and e == 0:
            continue
        # two weights a + b = c, a^2 + b^2 = e (if possible), else one entry
        disc = 2 * e - c * c
        if disc >= 0:
            s = math.sqrt(disc)
            x += [lo + 0.25 * (hi - lo), lo + 0.75 * (hi - lo)]
            w += [(c + s) / 2, (c - s) / 2]
        else:
            # m equal weights: e = c^2 / m
            m = max(2, math.ceil(c * c / e))
            x += [lo + (i + 0.5) / m * (hi - lo) for i in range(m)]
            w += [c / m] * m
    return pd.DataFrame({var: x, weight: w, "other": [0.1] * len(x)}, index=[3 * i + 1 for i in range(len(x))])


def hist_of(df, n, limits=LIMITS, var="mbc", weight="weight"):
    r = ref.RHist([ref.linspace(*limits, n + 1)])
    r.fill([(v,) for v in df[var]], list(df[weight]))
    return r.counts(), r.err2()


class Stack:
    def __init__(self, n, limits=LIMITS):
        from templatefitter.templates_legacy import StackedTemplate
        self.n, self.limits = n, limits
        self.s = StackedTemplate("stack", "mbc", n, limits)
        self.r, self.t, self.name = {}, {}, {}
        self.edges = ref.linspace(*limits, n + 1)
        self.err = {}

    def add(self, tid, counts, err2, how="create", name=None):
        """a template added under an identifier may have another name"""
        from templatefitter.templates_legacy import Template
        df = frame(counts, err2, self.limits, weight="w" if how == "weight" else "weight")
        if how == "weight":
            self.s.create_template(tid, df, weight="w")
        elif how == "create":
            self.s.create_template(tid, df)
        else:
            self.s.add_template(tid, Template(name or tid, "mbc", self.n, self.limits, df))
        c, e = hist_of(df, self.n, self.limits, weight="w" if how == "weight" else "weight")
        self.r[tid] = ref.RTemplate(c, e)
        self.t[tid] = self.s[tid]
        self.err[tid] = [math.sqrt(math.fsum(e)), [1.0] * self.n]
        self.name[tid] = name or tid
        return self

    def names(self):
        n = [self.name.get(t, t) for t in self.r]
        return [f"{t}_yield" for t in n] + [f"{t}_nui_{i}" for t in n for i in range(self.n)]

    def x0(self):
        return [t.y for t in self.r.values()] + [v for t in self.r.values() for v in t.nui]

    def errs(self):
        return [self.err[t][0] for t in self.r] + [v for t in self.r for v in self.err[t][1]]

    def update(self, x, e):
        m = len(self.r)
        self.s.update_parameters(np.array(x), np.array(e))
        self.note(x, e)

    def note(self, x, e):
        m = len(self.r)
        for k, (n, t) in enumerate(self.r.items()):
            t.y = x[k]
            t.nui = list(x[m + k * self.n:m + (k + 1) * self.n])
            self.err[n] = [e[k], list(e[m + k * self.n:m + (k + 1) * self.n])]

    def reset(self, tid=None):
        (self.s if tid is None else self.t[tid]).reset_parameters()
        for n, t in self.r.items():
            if tid in (None, n):
                t.reset()
                self.err[n] = [math.sqrt(math.fsum(t.err2)), [1.0] * self.n]

    def fractions(self, x):
        m = len(self.r)
        return [t.fractions(x[m + k * self.n:m + (k + 1) * self.n]) for k, t in enumerate(self.r.values())]

    def expected(self, x):
        f = self.fractions(x)
        return [math.fsum(x[k] * f[k][i] for k in range(len(f))) for i in range(self.n)]

    def nll(self, x, data):
        ex = self.expected(x)
        m = len(self.r)
        terms = [ref.poisson_term(d, v) for d, v in zip(data, ex)]
        for k, t in enumerate(self.r.values()):
            th, ic = x[m + k * self.n:m + (k + 1) * self.n], t.inv_corr()
            terms.append(0.5 * math.fsum(th[i] * ic[i][j] * th[j] for i in range(self.n) for j in range(self.n)))
        return math.inf if math.inf in terms else math.fsum(terms)

    def values(self):
        return [math.fsum(v) for v in zip(*(t.values() for t in self.r.values()))]

    def errors(self):
        return [math.sqrt(math.fsum(e * e for e in v)) for v in zip(*(t.errors() for t in self.r.values()))]

    def point(self, seed):
        m = len(self.r)
        return [9.0 + 4.0 * ((i * 5 + seed * 3) % 7) + 0.25 * seed for i in range(m)] + [
            0.0 if seed == 0 else 0.9 * math.sin(1.7 * k + seed) + 0.05 * ((k * seed) % 4) for k in range(m * self.n)]


def dataset(st, counts):
    from templatefitter.histogram_legacy import Hist1d
    return Hist1d.from_binned_data(np.array(st.edges), np.array(counts, dtype=float))


def check(acc, st, what="", data=None, seeds=(0, 1, 2)):
    s, n, m = st.s, st.n, len(st.r)
    acc.eq(s.num_templates, m, what + "num_templates")
    acc.eq(s.num_bins, n, what + "num_bins")
    acc.eq(list(s.template_names), [st.name.get(t, t) for t in st.r], what + "names")
    acc.eq(s.bin_edges, st.edges, what + "edges", 1e-12)
    acc.eq(s.bin_mids, [(a + b) / 2 for a, b in zip(st.edges[:-1], st.edges[1:])], what + "bin mids", 1e-12)
    acc.eq(s.bin_width, st.edges[1] - st.edges[0], what + "bin width", 1e-9)
    for k, (tid, r) in enumerate(st.r.items()):
        t, w = st.t[tid], f"{what}{tid} "
        acc.true(s[tid] is t, w + "is the template of the stack")
        acc.eq(t.values(), r.values(), w + "values", 1e-9, 1e-9)
        acc.eq(t.errors(), r.errors(), w + "errors", 1e-9, 1e-9)
        acc.eq(t.fractions(np.array(r.nui)), r.fractions(), w + "fractions", 1e-9, 1e-12)
        acc.eq(t.yield_param_values, r.y, w + "yield", 1e-12)
        acc.eq(t.nui_param_values, r.nui, w + "nuisances", 1e-12)
        acc.eq(t.yield_param.value, r.y, w + "yield parameter", 1e-12)
        acc.eq(t.nui_params.value, r.nui, w + "nuisance parameters", 1e-12)
        acc.eq(t.yield_param_errors, st.err[tid][0], w + "yield error", 1e-9)
        acc.eq(t.nui_params_errors, st.err[tid][1], w + "nuisance errors", 1e-12)
        acc.eq(t.cov_mat, r.cov, w + "covariance", 1e-9, 1e-12)
        acc.eq(t.corr_mat, r.corr(), w + "correlation", 1e-9, 1e-12)
        acc.eq(t.inv_corr_mat, r.inv_corr(), w + "inverse correlation", 1e-7, 1e-9)
        acc.eq(s.inv_corr_mats[k], r.inv_corr(), w + "inverse correlation of the stack", 1e-7, 1e-9)
    if not m:
        return
    acc.eq(s.values(), st.values(), what + "stacked values", 1e-9, 1e-9)
    acc.eq(s.errors(), st.errors(), what + "stacked errors", 1e-9, 1e-9)
    acc.eq(s.yield_param_values, [r.y for r in st.r.values()], what + "yields", 1e-12)
    acc.eq(s.yield_param_errors, [st.err[t][0] for t in st.r], what + "yield errors", 1e-9)
    acc.eq(s.nui_param_values, [r.nui for r in st.r.values()], what + "nuisances", 1e-12)
    acc.eq(s.nui_param_errors, [st.err[t][1] for t in st.r], what + "nuisance errors", 1e-12)
    if data is None:
        data = [float((3 * i + 2) % 5) for i in range(n)]
        # a likelihood made early follows the templates
        if not hasattr(st, "early"):
            st.early = s.create_nll(dataset(st, data))
        for sd in seeds:
            x = st.point(sd)
            acc.eq(float(st.early(np.array(x))), st.nll(x, data), f"{what}likelihood made before, at point {sd}", 1e-9, 1e-9)
    nll = s.create_nll(dataset(st, data))
    acc.eq(list(nll.param_names), st.names(), what + "parameter names")
    acc.eq(nll.x0, st.x0(), what + "start vector", 1e-12)
    for sd in seeds:
        x = st.point(sd)
        acc.eq(s.fractions(np.array(x[m:])), st.fractions(x), f"{what}fractions at point {sd}", 1e-9, 1e-12)
        acc.eq(float(nll(np.array(x))), st.nll(x, data), f"{what}likelihood at point {sd}", 1e-9, 1e-9)
        for f in (0.01, 1000.0):
            y = [v * f for v in x[:m]] + x[m:]
            acc.eq(float(nll(np.array(y))), st.nll(y, data), f"{what}likelihood at point {sd} with yields times {f}", 1e-9, 1e-8)
    x = st.x0()
    if all(v > 0 for v in st.values()):
        acc.eq(float(nll(np.array(x))), st.nll(x, data), f"{what}likelihood at the start", 1e-9, 1e-9)
    a = s.generate_asimov_dataset()
    acc.eq(a.bin_counts, st.values(), what + "Asimov data", 1e-9, 1e-9)
    acc.eq(a.bin_edges, st.edges, what + "edges of Asimov data", 1e-12)
    acc.state((tuple(r.key() for r in st.r.values()), tuple(st.errs())))


SHAPES = {"negative": ([9.0, -3.0, 4.0], [41.0, 5.0, 9.0]), "all negative": ([-2.0, -5.0], [3.0, 14.0]), "tiny": ([1e-9, 3e-9], [1e-18, 5e-18]),
          "huge": ([2e9, 5e8, 1e10], [3e18, 1e18, 6e19]), "tiny and huge": ([1e-8, 1e8], [1e-16, 6e15]), "empty": ([0.0, 0.0], [0.0, 0.0]),
          "one empty": ([0.0, 6.0, 2.0], [0.0, 20.0, 3.0]), "cancelled": ([0.0, 7.0], [8.0, 30.0]), "unit": ([1.0, 1.0, 1.0, 1.0], [1.0, 1.0, 1.0, 1.0])}


def run_shapes(acc, item):
    """templates of unusual contents at unusual yields"""
    shape, yields, nui, cov = item
    c, e = SHAPES[shape]
    st = Stack(len(c))
    st.add("sig", c, e)
    st.add("bkg", *contents(2, len(c)))
    acc.op(item)
    if cov:
        m = [[abs(v) * 0.3 * (k == j) + 0.25 for j in range(len(c))] for k, v in enumerate(c)]
        st.t["sig"].add_covariance_matrix(np.array(m))
        st.r["sig"].add_cov(m)
    y = yields
    v = [nui * (-0.7) ** k for k in range(len(c))]
    st.t["sig"].yield_param_values = y
    st.t["sig"].nui_param_values = np.array(v)
    st.r["sig"].y, st.r["sig"].nui = y, v
    t, r = st.t["sig"], st.r["sig"]
    for what, got, want in (("fractions", t.fractions(np.array(v)), r.fractions()), ("values", t.values(), r.values()), ("errors", t.errors(), r.errors()),
                            ("stacked values", st.s.values(), st.values()), ("stacked errors", st.s.errors(), st.errors()),
                            ("covariance", t.cov_mat, r.cov)):
        big = max(1e-30, np.max(np.abs(np.asarray(want, dtype=float))))
        acc.eq(got, want, f"{item}: {what}", 1e-9, 1e-12 * big)
    for src, want in ((t, r.values()), (st.s, st.values())):
        if min(want) < 0:
            continue
        acc.eq(src.generate_asimov_dataset().bin_counts, want, f"{item}: Asimov data", 1e-9, 1e-12)
        got = np.asarray(src.generate_asimov_dataset(integer_values=True).bin_counts, dtype=float)
        acc.true(all(abs(g - w) <= 0.5 + 1e-9 * abs(w) and g == round(g) for g, w in zip(got.tolist(), want)), f"{item}: rounded Asimov data {got} of {want}")
    acc.state(item)


# ---------------------------------------------------------------- histories
def start(n=3):
    st = Stack(n)
    c, e = contents(1, n)
    st.add("sig", c, e)
    c, e = contents(4, n, (1,))
    st.add("bkg", c, e, "add")
    return st


def apply(acc, st, op, k):
    acc.op(op)
    m = len(st.r)
    if op == "update":
        x = st.point(k + 1)
        st.update(x, [0.5 + 0.1 * i + k for i in range(len(x))])
    elif op == "update-then-change":
        x = np.array(st.point(k + 4))
        e = np.array([2.5 - 0.01 * i + k for i in range(len(x))])
        st.s.update_parameters(x, e)
        st.note(x.tolist(), e.tolist())
        x[:] = 77.0
        e[:] = 78.0
    elif op == "errors":
        # the yields and nuisance parameters of the start with errors of another fit
        x = [12.5 + i for i in range(m)] + [0.0] * (m * st.n)
        st.update(x, [0.25 + 0.125 * i for i in range(len(x))])
    elif op == "yield":
        st.t["sig"].yield_param_values = 40.5 + k
        st.r["sig"].y = 40.5 + k
    elif op == "nui":
        v = [0.3 * (-1) ** i + 0.05 * k for i in range(st.n)]
        st.t["bkg"].nui_param_values = np.array(v)
        st.r["bkg"].nui = v
    elif op == "stack-yields":
        v = [11.0 + k + 3.5 * i for i in range(m)]
        st.s.yield_param_values = np.array(v)
        for t, y in zip(st.r.values(), v):
            t.y = y
    elif op == "stack-nuis":
        v = [0.2 * math.cos(i + k) for i in range(m * st.n)]
        st.s.nui_param_values = np.array(v)
        for i, t in enumerate(st.r.values()):
            t.nui = v[i * st.n:(i + 1) * st.n]
    elif op == "cov":
        c = covariance(k, st.r["bkg"].counts)
        a = np.array(c)
        st.t["bkg"].add_covariance_matrix(a)
        st.r["bkg"].add_cov(c)
        acc.eq(a, c, "added covariance modified", 0, 0)
        a[:] = 0
    elif op == "cov-sig":
        c = covariance(k + 2, st.r["sig"].counts)
        st.s["sig"].add_covariance_matrix(np.array(c))
        st.r["sig"].add_cov(c)
    elif op == "reset":
        st.reset()
    elif op == "arrays-reset":
        # arrays handed out overwritten: a reset brings back the original values and errors
        for t in st.t.values():
            for a in (t.nui_params.value, t.nui_params.error, t.nui_param_values, t.nui_params_errors):
                a *= 1.5
                a += 0.25
        st.reset()
    elif op == "reset-one":
        st.reset("sig")
    elif op == "read":
        # readings handed out are not connected to the model
        for a in (st.s.values(), st.s.errors(), st.s.yield_param_values, st.s.nui_param_values, st.t["sig"].values(),
                  st.s.generate_asimov_dataset().bin_counts, st.s.generate_toy_dataset().bin_counts,
                  st.s.fractions(np.zeros(m * st.n))):
            a[...] = 55.0
    elif op == "third":
        if "oth" not in st.r:
            c, e = contents(7, st.n)
            st.add("oth", c, e, "weight")


OPS = ["update", "errors", "update-then-change", "yield", "nui", "stack-yields", "stack-nuis", "cov", "cov-sig", "reset", "arrays-reset", "reset-one", "read", "third"]


def run_hist(acc, item):
    st = start()
    for k, op in enumerate(item):
        apply(acc, st, op, k)
        check(acc, st, f"after {'+'.join(item[:k + 1])}: ", seeds=(1,) if k + 1 < len(item) else (0, 1, 2))


def run_small(acc, item):
    tids, n, zeros, hows, limits = item
    acc.op(item)
    st = Stack(n, limits)
    check(acc, st, "empty stack: ")
    for i, (t, how) in enumerate(zip(tids, hows)):
        c, e = contents(ord(t), n, [(z + i) % n for z in zeros] if n > len(zeros) else zeros)
        st.add(t, c, e, how)
    check(acc, st, f"{item}: ")
    x = st.point(1)
    st.update(x, [0.5 + 0.1 * i for i in range(len(x))])
    check(acc, st, f"{item} after update: ")
    st.t[tids[-1]].add_covariance_matrix(np.array(covariance(1, st.r[tids[-1]].counts)))
    st.r[tids[-1]].add_cov(covariance(1, st.r[tids[-1]].counts))
    check(acc, st, f"{item} after covariance: ", data=[0.0] * n)
    st.reset()
    check(acc, st, f"{item} after reset: ", data=[7.0] * n)
    for k in (0, 2):
        for t in (tids[0], tids[-1]):
            c = [[0.05 * v for v in row] for row in covariance(k, st.r[t].counts)]
            st.t[t].add_covariance_matrix(np.array(c))
            st.r[t].add_cov(c)
    check(acc, st, f"{item} after more covariances: ", data=[7.0] * n)


def run_data(acc, item):
    n, sd, counts, cov = item
    st = start(n)
    acc.op(item)
    if cov:
        c = covariance(2, st.r["sig"].counts)
        st.t["sig"].add_covariance_matrix(np.array(c))
        st.r["sig"].add_cov(c)
    nll = st.s.create_nll(dataset(st, counts))
    for seed in sd:
        x = st.point(seed)
        v = float(nll(np.array(x)))
        acc.step()
        acc.eq(v, st.nll(x, counts), f"likelihood of {counts} at point {seed}", 1e-9, 1e-9)
        acc.true(math.isfinite(v), f"likelihood of {counts} is {v}")
        acc.eq(float(nll(np.array(x))), v, "second evaluation", 0, 0)
        acc.state((item, seed))


def run_asimov(acc, item):
    """the likelihood of Asimov data vanishes at the parameters it was made with and is larger everywhere else"""
    n, seed, cov = item
    st = start(n)
    acc.op(item)
    if cov:
        c = covariance(cov, st.r["bkg"].counts)
        st.t["bkg"].add_covariance_matrix(np.array(c))
        st.r["bkg"].add_cov(c)
    x = st.point(0)
    x[:2] = [14.5 + seed, 30.25]
    st.update(x, [1.0] * len(x))
    for source in (st.s, st.t["sig"]):
        want = st.values() if source is st.s else st.r["sig"].values()
        a = source.generate_asimov_dataset()
        acc.eq(a.bin_counts, want, "Asimov data", 1e-12, 1e-12)
        acc.eq(a.bin_errors_sq, want, "squared errors of Asimov data", 1e-9, 1e-12)
        i = source.generate_asimov_dataset(integer_values=True)
        acc.true(all(abs(g - w) <= 0.5 + 1e-9 and g == round(g) for g, w in zip(np.asarray(i.bin_counts).tolist(), want)),
                 f"rounded Asimov data {i.bin_counts} of {want}")
    nll = st.s.create_nll(st.s.generate_asimov_dataset())
    acc.true(abs(float(nll(np.array(x)))) < 1e-9, f"likelihood {float(nll(np.array(x)))} of Asimov data at the truth")
    for k in range(len(x)):
        for d in (-0.5, -0.01, 0.01, 0.5):
            y = list(x)
            y[k] += d
            acc.step()
            v = float(nll(np.array(y)))
            acc.true(v > 0, f"likelihood of Asimov data is {v} at {st.names()[k]} + {d}")
            acc.eq(v, st.nll(y, st.values()), f"likelihood at {st.names()[k]} + {d}", 1e-7, 1e-10)
    acc.state(item)


def run_ids(acc, item):
    """templates are found under the identifiers they were added with, whatever their names"""
    n, names, hows = item
    acc.op(item)
    st = Stack(n)
    for i, (tid, nm, how) in enumerate(zip("abc", names, hows)):
        c, e = contents(3 * i + 1, n)
        st.add(tid, c, e, how, nm if how == "add" else None)
    check(acc, st, f"{item}: ")
    x = st.point(1)
    st.update(x, [0.5 + 0.1 * i for i in range(len(x))])
    st.t["a"].add_covariance_matrix(np.array(covariance(1, st.r["a"].counts)))
    st.r["a"].add_cov(covariance(1, st.r["a"].counts))
    check(acc, st, f"{item} after changes: ")
    st.reset("b") if len(names) > 1 else st.reset()
    check(acc, st, f"{item} after reset: ")


def run_compat(acc, item):
    from templatefitter.templates_legacy import StackedTemplate, Template
    var, n, limits, first = item
    acc.op(item)
    st = start() if first else Stack(3)
    c, e = contents(3, n)
    df = frame(c, e, limits, var)
    t = Template("new", var, n, limits, df)
    ok = var == "mbc" and n == 3 and tuple(limits) == LIMITS
    if ok:
        st.s.add_template("new", t)
        st.r["new"], st.t["new"], st.err["new"] = ref.RTemplate(*hist_of(df, n, limits, var)), t, [math.sqrt(math.fsum(e)), [1.0] * n]
        st.err["new"][0] = math.sqrt(math.fsum(st.r["new"].err2))
    else:
        acc.refused(lambda: st.s.add_template("new", t), f"template of {item}", (ValueError,))
    check(acc, st, f"{item}: ")
    acc.outcome("accepted" if ok else "refused")


def run_toy(acc, item):
    n, counts, which = item
    st = start(n)
    acc.op(item)
    x = st.point(1)
    st.update(x, [1.0] * len(x))
    src, vals = (st.s, st.values()) if which == "stack" else (st.t[which], st.r[which].values())
    s = Scripted(list(zip(vals, [c if v > 0 else 0 for c, v in zip(counts, vals)])))
    with s.installed():
        h = src.generate_toy_dataset()
    got = np.asarray(h.bin_counts, dtype=float)
    acc.eq(list(got.shape), [n], f"{item}: shape of toy data")
    if s.means:
        acc.eq(sorted(v for v in s.means if v > 0), sorted(v for v in vals if v > 0), f"{item}: means of the draws", 1e-9)
        acc.eq(got, [float(c) if v > 0 else 0.0 for c, v in zip(counts, vals)], f"{item}: drawn counts", 0, 0)
    acc.eq(h.bin_errors_sq, got, f"{item}: squared errors", 1e-9)
    acc.eq(h.bin_edges, st.edges, f"{item}: edges", 1e-12)
    nll = st.s.create_nll(h)
    acc.eq(float(nll(np.array(x))), st.nll(x, got.tolist()), f"{item}: likelihood of toy data", 1e-9, 1e-9)
    # the real source
    np.random.seed(7)
    a = np.asarray(src.generate_toy_dataset().bin_counts, dtype=float)
    acc.true(a.shape == (n,) and bool(np.all(a == np.round(a)) and np.all(a >= 0)), f"{item}: toy data are no counts", a)
    check(acc, st, f"{item} after toy: ", seeds=(1,))


def run_plot(acc, item):
    n, ops, colours = item
    st = start(n)
    for k, op in enumerate(ops):
        apply(acc, st, op, k)
    palette = ["#ff0000", "#00ff00", "#0000ff"][:len(st.r)]
    with Canvas() as (fig, ax):
        acc.step()
        if colours:
            st.s.plot_on(ax, color=palette)
        else:
            st.s.plot_on(ax)
        check_drawn(acc, ax, st.edges, [(t, r.values(), palette[i] if colours else None) for i, (t, r) in enumerate(st.r.items())],
                    st.errors(), None, f"{item}: stack")
    for tid, r in st.r.items():
        with Canvas() as (fig, ax):
            acc.step()
            st.t[tid].plot_on(ax, label=tid)
            check_drawn(acc, ax, st.edges, [(tid, r.values(), None)], r.errors(), None, f"{item}: template {tid}")
    check(acc, st, f"{item} after plotting: ", seeds=(1,))


def run_fit(acc, item):
    """the legacy likelihood with the minimizers: Asimov data give back their parameters"""
    from templatefitter.minimizer import minimizer_factory
    minimizer, n, seed = item
    st = start(n)
    acc.op("fit", item)
    x = st.point(0)
    x[:2] = [60.0 + 10 * seed, 45.0]
    st.update(x, [1.0] * len(x))
    nll = st.s.create_nll(st.s.generate_asimov_dataset())
    st.reset()
    m = minimizer_factory(minimizer, nll, nll.param_names)
    res = m.minimize(nll.x0, get_hesse=True, verbose=False) if minimizer == "scipy" else m.minimize(nll.x0, verbose=False)
    acc.true(bool(res.success if hasattr(res, "success") else res.succes), f"{item}: fit failed")
    acc.true(abs(float(res.fcn_min_val)) < 1e-3, f"{item}: minimum {res.fcn_min_val}")
    for k in (0, 1):
        acc.true(abs(float(res.params.values[k]) - x[k]) < 0.1 * float(res.params.errors[k]),
                 f"{item}: {st.names()[k]} is {res.params.values[k]} +- {res.params.errors[k]} instead of {x[k]}")
    st.update(np.asarray(res.params.values).tolist(), np.asarray(res.params.errors).tolist())
    check(acc, st, f"{item} after fit: ", seeds=(1,))
    acc.outcome(minimizer)


def parts(tier, seed):
    deep = tier == "thorough"
    hist = [s for d in range(1, 4) for s in itertools.product(OPS, repeat=d)]
    few = ["update", "errors", "cov", "reset", "nui", "third"] if not deep else ["update", "update-then-change", "cov", "reset", "nui", "third", "stack-yields"]
    hist += [s for s in itertools.product(few, repeat=4)]
    if deep:
        hist += [s for s in itertools.product(few[:1] + few[2:5], repeat=5)]
    small = []
    for r in (1, 2, 3):
        for tids in itertools.permutations("abc", r):
            for n in (1, 2, 3, 4):
                for zeros in ((), (0,)) if not deep else ((), (0,), (1,), (0, 1)):
                    if n == 1 and len(zeros) > 1:
                        continue
                    for hows in itertools.product(("create", "add", "weight"), repeat=r):
                        if deep or r < 3 or hows in (("create",) * 3, ("add", "create", "weight")):
                            for lim in (LIMITS, (0, 4)):
                                if deep or lim == LIMITS or n == 2:
                                    small.append((tids, n, zeros, hows, lim))
    small += [(t, n, (0,), ("create", "add", "weight", "create", "add")[:len(t)], LIMITS) for n in (1, 2, 3)
              for t in list(itertools.permutations("abcd"))[::1 if deep else 5] + [tuple("ecabd")]]
    # many templates, many bins
    for tids in ("mblkajcidhegf", "abcdefghijklmnopqrst", "zyxwvutsrqponm"):
        small += [(tuple(tids), n, (0,), tuple(("create", "add", "weight")[(i + n) % 3] for i in range(len(tids))), lim) for n in (1, 3) for lim in (LIMITS, (0, 4))]
    small += [(tuple(tids), n, z, ("create", "add", "weight")[:len(tids)], LIMITS) for tids in ("a", "ba", "cab") for n in (11, 24, 41, 64, 65) for z in ((), (n - 1,))]
    al = [0.0, 1.0, 2.5, 40.0]
    data = [(n, (0, 1, 2, 3), c, cov) for n in (1, 2, 3) for c in itertools.product(al, repeat=n) for cov in (False, True)]
    if deep:
        data += [(4, (0, 1, 2, 5), c, cov) for c in itertools.product(al, repeat=4) for cov in (False, True)]
    asimov = [(n, s, c) for n in (2, 3, 4) for s in range(5 if deep else 3) for c in (0, 1, 2)]
    compat = [(v, n, l, f) for v in ("mbc", "deltae") for n in (1, 2, 3, 4, 6) for l in (LIMITS, (-1, 2), (-1.0, 2.5), (0.0, 2.0), (-1.0, 2.0 + 1e-6), (-2.0, 1.0))
              for f in (False, True)]
    ids = [(n, nm, how) for n in (1, 3) for r in (1, 2, 3) for nm in itertools.permutations("abcx", r)
           for how in itertools.product(("add", "create"), repeat=r) if "add" in how
           and len({m if h == "add" else t for t, m, h in zip("abc", nm, how)}) == r]
    toy = [(n, c, w) for n in (1, 2, 3) for c in itertools.product((0, 1, 5), repeat=n) for w in ("stack", "sig", "bkg")]
    plots = [(n, ops, col) for n in (1, 2, 3) for d in (0, 1, 2) for ops in itertools.product(["update", "cov", "nui", "reset"], repeat=d)
             for col in (False, True)]
    plots += [(3, ("third", "update"), c) for c in (False, True)]
    fits = [(m, n, s) for m in ("scipy", "iminuit") for n in (3, 4, 5) for s in range(4 if deep else 2)]
    return [Part("histories", hist, run_hist, "all operations to depth 3, the main ones to depth 4 (5)"),
            Part("small stacks", small, run_small, "up to 3 templates in every order, 1 to 4 bins, every way of adding; up to 20 templates, up to 65 bins"),
            Part("unusual templates", [(k, y, v, c) for k in SHAPES for y in (-5.0, 0.0, 1e-6, 0.3, 7.0, 2e5, 1e9, 3e12) for v in (0.0, 0.5, -0.8)
                                       for c in (False, True)], run_shapes, "nine shapes, eight yields, three nuisance shifts"),
            Part("data sets", data, run_data, "all data over 4 values in up to 3 (4) bins at four points"),
            Part("Asimov data", asimov, run_asimov, "likelihood at and around the truth"),
            Part("identifiers", ids, run_ids, "all assignments of four names to up to 3 identifiers"),
            Part("compatibility", compat, run_compat, "all relations of variable, bins and limits"),
            Part("toy data", toy, run_toy, "all counts of a set in up to 3 bins with a scripted source"),
            Part("plots", plots, run_plot, "after up to 2 operations"),
            Part("fits", fits, run_fit, "both minimizers")]
