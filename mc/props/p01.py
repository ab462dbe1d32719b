"""P01: every sequence up to the stated depth of parameter changes, variations, covariances and data, with everything that
can be drawn drawn after each of them on real matplotlib axes; small models in all stacking orders; post-fit plots with
synthetic and real fit results.  The oracle is geometric: the vertical extent of every drawn shape in every bin, and the
error bars, whichever matplotlib call made them."""
import itertools
import math

import numpy as np

from ..core import Mismatch, Part
from .. import models, ref
from ..models import FITTABLE, CATALOGUE, LARGE, Pair, build
from .e01 import covs, jacobian, synthetic

UNEVEN = [0.0, 0.5, 0.75, 2.0, 2.5, 5.0]
COLORS = ["#ff0000", "#00ff00", "#0000ff", "#888800", "#008888"]


def crossings(verts, x):
    ys = []
    for (x0, y0), (x1, y1) in zip(verts[:-1], verts[1:]):
        if x0 == x1 or not min(x0, x1) <= x <= max(x0, x1):
            continue
        ys.append(y0 + (y1 - y0) * (x - x0) / (x1 - x0))
    return ys


class Shape:
    """Something filled or hatched that was drawn: label, colour, whether it is a band, and its vertical extent at x."""

    def __init__(self, polys, label, color, hatched):
        self.polys, self.label, self.color, self.hatched = polys, label, color, hatched

    def at(self, x):
        ys = [y for p in self.polys for y in crossings(p, x)]
        return (min(ys), max(ys)) if ys else None

    def range(self):
        xs = [v[0] for p in self.polys for v in p]
        return min(xs), max(xs)


def closed(v):
    v = [tuple(map(float, p)) for p in v]
    return v + [v[0]]


def polys_of(patch):
    path = patch.get_path().transformed(patch.get_patch_transform())
    return [closed(p) for p in path.to_polygons(closed_only=False)] or [closed(path.vertices)]


def drawn(ax):
    """All shapes of the axes, and the error bars as (x, y, low, high)."""
    from matplotlib.colors import to_hex
    shapes, grouped, bars = [], set(), []
    for c in ax.containers:
        if hasattr(c, "patches"):
            ps = list(c.patches)
            grouped |= {id(p) for p in ps}
            if ps:
                shapes.append(Shape([q for p in ps for q in raw(p)], c.get_label(), to_hex(ps[0].get_facecolor()),
                                    bool(ps[0].get_hatch()) or not ps[0].get_fill()))
        elif hasattr(c, "has_yerr"):
            bars.append(c)
    for p in ax.patches:
        if id(p) not in grouped:
            shapes.append(Shape(raw(p), p.get_label(), to_hex(p.get_facecolor()), bool(p.get_hatch()) or not p.get_fill()))
    points = []
    for b in bars:
        line, _, cols = b.lines
        segs = [s for col in cols for s in col.get_segments()]
        px = [float(v) for v in line.get_xdata()]
        for x, y in zip(px, line.get_ydata()):
            gap = min([abs(v - x) for v in px if v != x] or [1.0])
            ys = [float(p[1]) for s in segs for p in s if abs(p[0] - x) <= 1e-3 * gap]
            points.append((float(x), float(y), min(ys) if ys else None, max(ys) if ys else None))
    from matplotlib.collections import PolyCollection
    for c in ax.collections:
        if isinstance(c, PolyCollection):
            fc = c.get_facecolor()
            shapes.append(Shape([closed(p.vertices) for p in c.get_paths()], c.get_label(),
                                to_hex(fc[0]) if len(fc) else "", bool(c.get_hatch()) or not len(fc)))
    return shapes, points


def raw(patch):
    """The outline in data coordinates without losing zero-height rectangles."""
    from matplotlib.patches import Rectangle
    if isinstance(patch, Rectangle):
        x, y, w, h = patch.get_x(), patch.get_y(), patch.get_width(), patch.get_height()
        return [closed([(x, y), (x + w, y), (x + w, y + h), (x, y + h)])]
    path = patch.get_path()
    return [closed(patch.get_patch_transform().transform(path.vertices))]


def xs_of(edges, k):
    lo, hi = edges[k], edges[k + 1]
    return [lo + f * (hi - lo) for f in (0.07, 0.5, 0.93)]


def near(acc, got, want, what, scale):
    acc.true(got is not None and abs(got - want) <= 1e-9 * (abs(want) + scale) + 1e-12, f"{what} is {got!r} instead of {want!r}")


def at_x(acc, got, want, edges, what):
    acc.true(abs(got - want) <= 1e-9 * (edges[-1] - edges[0]) + 1e-12 * abs(want), f"{what} is {got!r} instead of {want!r}")


def check_drawn(acc, ax, edges, layers, band, data, what):
    """layers: [(label, values)] bottom up; band: total uncertainty; data: (contents, errors) or None"""
    shapes, points = drawn(ax)
    n = len(edges) - 1
    band = [abs(v) for v in band]
    filled = [s for s in shapes if not s.hatched]
    bands = [s for s in shapes if s.hatched]
    acc.eq(len(filled), len(layers), f"{what}: number of filled layers")
    acc.eq(len(bands), 1, f"{what}: number of uncertainty bands")
    base = [0.0] * n
    scale = max([1.0] + [abs(v) for _, vals, _ in layers for v in vals])
    total = [math.fsum(vals[k] for _, vals, _ in layers) for k in range(n)]
    for j, (label, vals, color) in enumerate(layers):
        # the layer of this template is the one with its label
        mine = [s for s in filled if s.label == label]
        acc.eq(len(mine), 1, f"{what}: layers labelled {label!r}")
        s = mine[0]
        if color is not None:
            acc.eq(s.color, color, f"{what}: colour of {label!r}")
        for k in range(n):
            for x in xs_of(edges, k):
                acc.step()
                e = s.at(x)
                top = base[k] + vals[k]
                # stacked shapes either span from the layer below or are drawn from zero behind it
                if vals[k] >= 0 and base[k] >= 0:
                    near(acc, None if e is None else e[1], top, f"{what}: top of {label!r} in bin {k}", scale)
                    acc.true(e[0] <= base[k] + 1e-9 * scale, f"{what}: bottom of {label!r} in bin {k} is {e[0]!r} above {base[k]!r}")
                else:
                    # negative contents: one of the ends is the sum up to this layer
                    g = None if e is None else min(e, key=lambda v: abs(v - top))
                    near(acc, g, top, f"{what}: end of {label!r} in bin {k}", scale)
        a, b = s.range()
        at_x(acc, a, edges[0], edges, f"{what}: left end of {label!r}")
        at_x(acc, b, edges[-1], edges, f"{what}: right end of {label!r}")
        base = [b_ + v for b_, v in zip(base, vals)]
    for k in range(n):
        for x in xs_of(edges, k):
            e = bands[0].at(x)
            near(acc, None if e is None else e[0], total[k] - band[k], f"{what}: lower end of the band in bin {k}", scale)
            near(acc, None if e is None else e[1], total[k] + band[k], f"{what}: upper end of the band in bin {k}", scale)
    a, b = bands[0].range()
    at_x(acc, a, edges[0], edges, f"{what}: left end of the band")
    at_x(acc, b, edges[-1], edges, f"{what}: right end of the band")
    if data is None:
        acc.eq(len(points), 0, f"{what}: data points without data")
    else:
        acc.eq(len(points), n, f"{what}: number of data points")
        for k, (x, y, lo, hi) in enumerate(points):
            at_x(acc, x, (edges[k] + edges[k + 1]) / 2, edges, f"{what}: position of data point {k}")
            near(acc, y, data[0][k], f"{what}: data point {k}", 1)
            near(acc, lo, data[0][k] - data[1][k], f"{what}: lower error of data point {k}", scale)
            near(acc, hi, data[0][k] + data[1][k], f"{what}: upper error of data point {k}", scale)


class Canvas:
    def __enter__(self):
        import matplotlib.pyplot as plt
        self.fig, self.ax = plt.subplots()
        return self.fig, self.ax

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        plt.close(self.fig)


def label(t):
    return t.pretty_label if t.pretty_label is not None else t.name


def axis_name(t, axis):
    """the name of the variable: the one given for drawing, or else the plain one (see models.make_template)"""
    if hasattr(t, "pretty_variable"):
        return t.pretty_variable if t.pretty_variable is not None else "var"
    pretty = (t.x_pretty_var, t.y_pretty_var)[axis]
    return pretty if pretty is not None else ("vx", "vy")[axis]


def color(t):
    """None: the template has no colour of its own and any will do"""
    from matplotlib.colors import to_hex
    return None if t.color is None else to_hex(t.color)


def draw_template(acc, p, ch, q, what):
    t, rt = p.tm[ch, q], p.r.ch[ch].t[q]
    edges = p.geo[ch][2]
    vals, errs = rt.values(), rt.errors()
    if len(edges) == 1:
        with Canvas() as (fig, ax):
            acc.step()
            t.plot_on(ax)
            check_drawn(acc, ax, edges[0], [(label(t), vals, color(t))], errs, None, f"{what}template {ch}/{q}")
            acc.eq(ax.get_xlabel(), axis_name(t, 0), f"{what}axis of template {ch}/{q}")
        return
    nx, ny = rt.shape
    with Canvas() as (fig, ax):
        acc.step()
        t.plot_on(fig, ax)
        acc.eq([ax.get_xlabel(), ax.get_ylabel()], [axis_name(t, 0), axis_name(t, 1)], f"{what}axes of template {ch}/{q}")
        meshes = [c for c in ax.collections if hasattr(c, "get_coordinates")]
        acc.eq(len(meshes), 1, f"{what}meshes")
        co = np.asarray(meshes[0].get_coordinates())
        arr = np.ma.filled(np.ma.asarray(meshes[0].get_array()), 0.0).reshape(co.shape[0] - 1, co.shape[1] - 1)
        acc.eq(arr.size, nx * ny, f"{what}cells of {ch}/{q}")
        seen = set()
        for r in range(arr.shape[0]):
            for c in range(arr.shape[1]):
                x = float(co[r:r + 2, c:c + 2, 0].mean())
                y = float(co[r:r + 2, c:c + 2, 1].mean())
                i = [k for k in range(nx) if edges[0][k] < x < edges[0][k + 1]]
                j = [k for k in range(ny) if edges[1][k] < y < edges[1][k + 1]]
                acc.true(len(i) == 1 and len(j) == 1, f"{what}cell at {x}, {y}")
                at_x(acc, float(co[r, c, 0]), edges[0][i[0]], edges[0], f"{what}cell edge x")
                at_x(acc, float(co[r, c, 1]), edges[1][j[0]], edges[1], f"{what}cell edge y")
                near(acc, float(arr[r, c]), vals[i[0] * ny + j[0]], f"{what}cell {i[0]}, {j[0]} of {ch}/{q}", 1)
                seen.add((i[0], j[0]))
        acc.eq(len(seen), nx * ny, f"{what}different cells of {ch}/{q}")
    for axis in (0, 1):
        n = rt.shape[axis]
        v = [math.fsum(vals[i * ny + j] for i in range(nx) for j in range(ny) if (i, j)[axis] == k) for k in range(n)]
        e = [math.sqrt(math.fsum(errs[i * ny + j] ** 2 for i in range(nx) for j in range(ny) if (i, j)[axis] == k)) for k in range(n)]
        with Canvas() as (fig, ax):
            acc.step()
            (t.plot_y_projection_on if axis else t.plot_x_projection_on)(ax)
            check_drawn(acc, ax, edges[axis], [(label(t), v, color(t))], e, None, f"{what}{'yx'[1 - axis]} projection of {ch}/{q}")
            acc.eq(ax.get_xlabel(), axis_name(t, axis), f"{what}axis of the {'xy'[axis]} projection of {ch}/{q}")


def layers_of(p, ch):
    return [(label(p.tm[ch, q]), rt.values(), color(p.tm[ch, q])) for q, rt in p.r.ch[ch].t.items()]


def data_of(p, ch):
    c = p.r.ch[ch]
    if c.data is None:
        return None
    return c.data, [math.sqrt(e) for e in getattr(p, "data_err2", {}).get(ch, [abs(v) for v in c.data])]


def draw_channel(acc, p, ch, what):
    c, rc = p.m.channels[ch], p.r.ch[ch]
    edges = p.geo[ch][2]
    if len(edges) > 1:
        with Canvas() as (fig, ax):
            acc.refused(lambda: c.plot_stacked_on(ax), f"{what}stacked plot of a two-dimensional channel", (NotImplementedError,))
        return
    n = rc.nb()
    errs = [t.errors() for t in rc.t.values()]
    band = [math.sqrt(math.fsum(e[k] ** 2 for e in errs)) for k in range(n)]
    with Canvas() as (fig, ax):
        acc.step()
        c.plot_stacked_on(ax)
        check_drawn(acc, ax, edges[0], layers_of(p, ch), band, data_of(p, ch), f"{what}channel {ch}")


def draw_postfit(acc, p, ch, params, x, cov, mode, what):
    c, rc = p.m.channels[ch], p.r.ch[ch]
    edges = p.geo[ch][2]
    n = rc.nb()
    with Canvas() as (fig, ax):
        if len(edges) > 1:
            acc.refused(lambda: c.plot_post_fit_stacked_on(ax, params, post_fit_uncertainties=mode),
                        f"{what}post-fit plot of a two-dimensional channel", (NotImplementedError,))
            return
        if mode == "propagate":
            j = jacobian(p.r, ch, x)
            m = ref.mmul(ref.mmul(j, cov), ref.transpose(j))
            band = [math.sqrt(max(m[k][k], 0.0)) for k in range(n)]
            tol = 1e-6
        else:
            names = p.r.names()
            band = [math.sqrt(math.fsum(cov[names.index(f"{ch}_{q}_bin_{k}")][names.index(f"{ch}_{q}_bin_{k}")] * t.errors()[k] ** 2
                                        for q, t in rc.t.items())) for k in range(n)]
            tol = 1e-9
        acc.step()
        if mode == "propagate" and len(what) % 2:
            c.plot_post_fit_stacked_on(ax, params)
        else:
            c.plot_post_fit_stacked_on(ax, params, post_fit_uncertainties=mode)
        # numerical derivatives: compare the band separately with its own accuracy
        shapes, _ = drawn(ax)
        b = [s for s in shapes if s.hatched]
        acc.eq(len(b), 1, f"{what}bands")
        got = []
        for k in range(n):
            e = b[0].at(xs_of(edges[0], k)[1])
            acc.true(e is not None, f"{what}band in bin {k}")
            got.append((e[1] - e[0]) / 2)
        top = max(band + [1e-3])
        for k in range(n):
            acc.true(abs(got[k] - band[k]) <= tol * band[k] + 3e-5 * top,
                     f"{what}{mode} band of {ch} in bin {k} extends by {got[k]!r} instead of {band[k]!r}")
        check_drawn(acc, ax, edges[0], layers_of(p, ch), got, data_of(p, ch), f"{what}post-fit channel {ch}")


def draw_all(acc, p, what=""):
    for ch, q in p.tm:
        draw_template(acc, p, ch, q, what)
    for ch, c in p.r.ch.items():
        if c.t:
            draw_channel(acc, p, ch, what)


# ---------------------------------------------------------------- histories
def start(cfg):
    p = Pair()
    for q in "ab":
        p.process(q)
    if cfg == "1d":
        p.channel("u", (3,), ((UNEVEN[0], UNEVEN[3]),))
        uneven = [UNEVEN[:4]]
        p.geo["u"] = ((3,), p.geo["u"][1], uneven)
        p.template("u", "b", 2, color=COLORS[0], edges=uneven)
        p.template("u", "a", 1, 0.5, zeros=(1,), color=COLORS[1], pretty_label="$A$", edges=uneven)
    else:
        p.channel("u", (2, 3), ((0.0, 0.75), (-1.0, 4.0)))
        e = [UNEVEN[:3], [-1.0, 0.0, 0.25, 4.0]]
        p.geo["u"] = ((2, 3), p.geo["u"][1], e)
        p.template("u", "a", 1, color=COLORS[0], edges=e)
        p.template("u", "b", 4, 0.5, color=COLORS[1], edges=e, pretty_label="$B$")
    return p


def apply(acc, p, op, k):
    acc.op(op)
    if op == "yield":
        p.set_yield("a", 31.5 + k)
    elif op == "update":
        p.update(p.point(k + 1))
    elif op == "nui":
        n = len(p.r.ch["u"].t["b"].counts)
        p.t_nui("u", "b", [0.4 * (-1) ** i + 0.1 * k for i in range(n)])
    elif op == "ty":
        p.t_yield("u", "a", 12.25 + 3 * k)
    elif op == "var":
        p.variation("u", "a", k + 1)
    elif op == "cov":
        p.cov("u", "b", k)
    elif op == "reset":
        p.reset()
    elif op == "data":
        n = p.r.ch["u"].nb()
        c = [float((3 * i + 5 * k) % 7) for i in range(n)]
        e2 = [0.5 + i + k for i in range(n)]
        p.m.add_data(u=models.make_hist(c, p.geo["u"][2], e2))
        p.r.ch["u"].data = c
        p.data_err2 = {"u": e2}


def run_hist(acc, item):
    cfg, ops = item
    p = start(cfg)
    for k, op in enumerate(ops):
        if k:
            draw_all(acc, p, f"after {'+'.join(ops[:k])}: ")
        apply(acc, p, op, k)
    before = models.snapshot(p)
    draw_all(acc, p, f"after {'+'.join(ops)}: ")
    draw_all(acc, p, f"again after {'+'.join(ops)}: ")
    models.check_unchanged(acc, p, before, "plotting")
    acc.state(p.r.key())


def run_small(acc, item):
    procs, shape, uneven, zeros, data, seed, rough = item[:7]
    same = len(item) > 7      # templates with the same contents
    p = Pair()
    for q in sorted(procs):
        p.process(q)
    edges = [[v + 0.5 * d for v in UNEVEN[:s + 1]] for d, s in enumerate(shape)]
    p.channel("u", shape, tuple((e[0], e[-1]) for e in edges) if uneven else None)
    if uneven:
        p.geo["u"] = (shape, p.geo["u"][1], edges)
    edges = p.geo["u"][2]
    acc.op(item)
    for i, q in enumerate(procs):
        n = models.nbins(shape)
        p.template("u", q, seed + (0 if same else i), 1.0 if same else 1.0 if i else 0.7, rough=rough, zeros=[z + i for z in zeros] if n > len(zeros) + 1 else (), color=COLORS[i] if (i + seed) % 3 else None,
                   edges=edges, **({"pretty_label": f"P {q}"} if i % 2 else {}),
                   **({"pretty_variable": "$V$"} if len(shape) == 1 and (i + seed) % 2 else {}),
                   **({"x_pretty_var": "$X$"} if len(shape) == 2 and (i + seed) % 4 in (1, 2) else {}),
                   **({"y_pretty_var": "$Y$"} if len(shape) == 2 and (i + seed) % 4 in (1, 3) else {}))
    if data:
        p.add_data(u=[float((2 * i + seed) % 5) for i in range(models.nbins(shape))]) if not uneven else p.add_data(
            u=[float((2 * i + seed) % 5) for i in range(models.nbins(shape))])
    draw_all(acc, p, f"{item}: ")
    p.update(p.point(seed))
    before = models.snapshot(p)
    draw_all(acc, p, f"{item} after update: ")
    models.check_unchanged(acc, p, before, "plotting")
    acc.state(p.r.key())


def run_post(acc, item):
    cfg, seed, kind, mode = item
    p = build({**CATALOGUE, **LARGE}[cfg])
    for i, t in enumerate(p.tm.values()):
        t.color = COLORS[i % 5] if seed % 2 else None
    acc.op(item)
    x = p.point(seed)
    cov = covs(len(x), kind)
    params = synthetic(p, x, cov)
    p.update(x)
    before = models.snapshot(p)
    for ch in p.r.ch:
        draw_postfit(acc, p, ch, params, x, cov, mode, f"{item}: ")
        draw_channel(acc, p, ch, f"{item}: ")
    models.check_unchanged(acc, p, before, "plotting")
    acc.eq(params.values, x, "values of the result modified", 0, 0)
    acc.eq(params.covariance, cov, "covariance of the result modified", 0, 0)
    # the template predictions drawn are the current ones, the band that of the result
    p.update(p.point(seed + 1))
    for ch in p.r.ch:
        draw_postfit(acc, p, ch, params, x, cov, mode, f"{item} after another update: ")
    acc.state(item)


def run_fit(acc, item):
    from templatefitter import TemplateFitter
    cfg, minimizer, fix = item
    p = build(CATALOGUE[cfg])
    acc.op("fit", item)
    try:
        res = TemplateFitter(p.m, minimizer).do_fit(verbose=0, fix_nui_params=fix)
    except RuntimeError:
        acc.outcome("fit did not converge")
        return
    x = np.asarray(res.params.values).tolist()
    cov = np.asarray(res.params.covariance).tolist()
    err = np.asarray(res.params.errors).tolist()
    p.r.update(x)
    for ch in p.r.ch:
        draw_postfit(acc, p, ch, res.params, x, cov, "propagate", f"{item}: ")
        d = ref.diag([e * e for e in err])
        draw_postfit(acc, p, ch, res.params, x, d, "scale", f"{item}: ")
        draw_channel(acc, p, ch, f"{item}: ")
    for ch, q in p.tm:
        draw_template(acc, p, ch, q, f"{item}: ")
    acc.outcome("fit")
    acc.state(item)


def parts(tier, seed):
    deep = tier == "thorough"
    ops = ["yield", "update", "nui", "ty", "var", "cov", "reset", "data"]
    hist = []
    for cfg in ("1d", "2d"):
        o = [k for k in ops if cfg == "1d" or k != "cov"]
        for d in range(1, (4 if deep else 3) + (cfg == "1d") * 0):
            hist += [(cfg, s) for s in itertools.product(o, repeat=d)]
        if not deep:
            hist += [(cfg, s) for s in itertools.product(["update", "nui", "var", "reset"] if cfg == "1d" else ["update", "var", "reset"], repeat=3)]
    small = []
    for r in (1, 2, 3):
        for procs in itertools.permutations("abc", r):
            for shape in ((1,), (2,), (4,), (1, 1), (1, 3), (2, 2), (3, 2)):
                for uneven in (False, True):
                    for zeros in ((), (0,)) if not deep else ((), (0,), (1,), (0, 2)):
                        for data in (False, True):
                            if deep or r < 3 or (not zeros) == data:
                                small.append((procs, shape, uneven, zeros, data, r + len(zeros), 1))
                            if not zeros and not (data and uneven) or deep:
                                small.append((procs, shape, uneven, zeros, data, r + len(zeros), 25))
    small += [(procs, shape, uneven, (), True, 2, ro, "same") for procs in ("ab", "ba", "abc") for shape in ((1,), (3,), (2, 2)) for uneven in (False, True) for ro in (1, 25)]
    post = [(cfg, s, k, m) for cfg in CATALOGUE for s in range(4 if deep else 2) for k in ("full", "diag", "fixed", "one", "zero")
            for m in ("propagate", "scale") if deep or k in ("full", "fixed", "zero")]
    post += [(cfg, s, k, m) for cfg in LARGE for s, k, m in ((0, "full", "propagate"), (1, "diag", "scale"))]
    fits = [(cfg, mi, fix) for cfg in FITTABLE for mi in ("scipy", "iminuit") for fix in (False, True)]
    return [Part("histories", hist, run_hist, "everything drawn after each of up to 3 (quick: 2, some 3) operations, one and two dimensions"),
            Part("small models", small, run_small, "up to 3 processes in every order, 1 to 6 bins, even and uneven, with and without data, uncertainties below and above the contents"),
            Part("post-fit", post, run_post, "catalogue x points x covariances x both kinds of post-fit uncertainty"),
            Part("real fits", fits, run_fit, "both minimizers, nuisance parameters free or fixed")]
