"""T03: every sequence up to the stated depth of writes (whole array, yield, nuisances; every number type), changes of
the arrays that were passed in, refused writes and resets on two templates made from one histogram; all readings of
both templates are compared after every operation."""
import itertools

import numpy as np

from ..core import Part
from .. import ref
from ..models import contents, make_edges, make_hist, nbins

LIM = ((0.0, 2.0), (0.0, 3.0))


def pair(shape):
    from templatefitter.templates import Template1d, Template2d
    counts, err2 = contents(2, nbins(shape))
    h = make_hist(counts, make_edges(shape, LIM), err2)
    mk = (lambda n: Template1d(n, "v", h)) if len(shape) == 1 else (lambda n: Template2d(n, ("v", "w"), h))
    return [mk("a"), mk("b")], [ref.RTemplate(counts, err2, shape) for _ in "ab"]


def typed(kind, vals):
    if kind == "readonly":
        a = np.array(vals, dtype=float)
        a.flags.writeable = False
        return a
    if kind == "strided":
        b = np.zeros(2 * len(vals))
        b[::2] = vals
        return b[::2]
    return np.array(vals).astype(kind)


def bad_values(n):
    return {
        ("params", "short"): np.zeros(n), ("params", "long"): np.zeros(n + 2), ("params", "one"): np.zeros(1),
        ("params", "column"): np.zeros((n + 1, 1)), ("params", "row"): np.zeros((1, n + 1)), ("params", "none"): None,
        ("params", "number"): 3.0, ("params", "text"): "abc", ("params", "scalar array"): np.array(1.0),
        ("nui_params", "short"): np.zeros(n - 1), ("nui_params", "long"): np.zeros(n + 1), ("nui_params", "one"): np.zeros(1),
        ("nui_params", "column"): np.zeros((n, 1)), ("nui_params", "row"): np.zeros((1, n)), ("nui_params", "none"): None,
        ("nui_params", "number"): 3.0, ("nui_params", "text"): "abc", ("nui_params", "scalar array"): np.array(1.0),
        ("nui_params", "empty"): np.zeros(0),
        ("yield_param", "text"): "5", ("yield_param", "none"): None, ("yield_param", "complex"): 1j,
        ("yield_param", "list"): [1.0], ("yield_param", "two"): np.array([1.0, 2.0]), ("yield_param", "dict"): {},
        ("yield_param", "tuple"): (1.0,),
        ("yield_param", "text array"): np.array(["a"]),
    }


def check(acc, ts, rs, what=""):
    for k, (t, r) in enumerate(zip(ts, rs)):
        w = f"{what}template {'ab'[k]} "
        acc.eq(t.params, [r.y] + r.nui, w + "params", 0, 0)
        acc.eq(t.yield_param, r.y, w + "yield", 0, 0)
        acc.eq(t.nui_params, r.nui, w + "nuisances", 0, 0)
        acc.eq(np.asarray(t.params).shape, (r.n + 1,), w + "shape of params")
        if not all(abs(v) < 1e200 for v in [r.y] + r.nui):
            continue
        acc.eq(t.values, ref.nest(r.values(), r.shape), w + "values", 1e-9, 1e-12)
    acc.state(tuple((r.y, tuple(r.nui)) for r in rs))


SPECIAL = {"zeros": lambda v: [0.0] * len(v), "ones": lambda v: [1.0] * len(v), "first": lambda v: [v[0]] + [0.0] * (len(v) - 1),
           "last": lambda v: [0.0] * (len(v) - 1) + [v[-1]], "equal": lambda v: [v[0]] * len(v),
           "large": lambda v: [1e6 * x for x in v], "minus": lambda v: [-x for x in v],
           "infinite": lambda v: [float("inf"), float("-inf")] + v[2:] if len(v) > 1 else [float("inf")],
           "minute": lambda v: [1e-30 * x for x in v]}
VALS = [0.1, -0.7, 1.3, 0.35, 0.9, -0.2, 0.6] + [round(0.05 * ((7 * i) % 41) - 1.0, 2) for i in range(1, 80)]


def run(acc, item):
    shape, ops = item
    ts, rs = pair(shape)
    n = rs[0].n
    last = None
    check(acc, ts, rs, "new: ")
    for op in ops:
        acc.op(*op)
        what, k = op[0], op[1]
        t, r = ts[k], rs[k]
        if what == "params":
            ints = op[2] in ("i8", "i4", "u1")
            v = [float(3 * i + 2) for i in range(n + 1)] if ints else [31.37] + VALS[:n]
            v = SPECIAL[op[2]](v) if op[2] in SPECIAL else v
            a = typed("f8" if op[2] in SPECIAL else op[2], v)
            v = a.astype(float).tolist()
            t.params = a
            r.y, r.nui = v[0], v[1:]
            last = a
        elif what == "nui":
            ints = op[2] in ("i8", "i4", "u1")
            v = [float(i + 1) for i in range(n)] if ints else [x / 3 for x in VALS[1:n + 1]]
            v = SPECIAL[op[2]](v) if op[2] in SPECIAL else v
            a = typed("f8" if op[2] in SPECIAL else op[2], v)
            v = a.astype(float).tolist()
            t.nui_params = a
            r.nui = v
            last = a
        elif what == "yield":
            v = {"float": 7.3, "int": 12, "f8": np.float64(5.55), "array": np.array([9.1]), "iarray": np.array([4]),
                 "negative": -2.5, "zero": 0, "tiny": 1e-9, "big": 3e9}[op[2]]
            t.yield_param = v
            r.y = float(v[0]) if isinstance(v, np.ndarray) else float(v)
            if isinstance(v, np.ndarray):
                last = v
        elif what == "try":
            v = {"i8": np.int64(6), "f4": np.float32(2.5), "u1": np.uint8(200), "bool": True, "0d": np.array(3.5)}[op[2]]
            try:
                t.yield_param = v
                r.y = float(v)
            except Exception:
                acc.true(op[2] in ("bool", "0d"), f"a yield of type {op[2]} was refused")
                acc.outcome("refused " + op[2])
        elif what == "mutate":
            if last is not None and last.flags.writeable:
                last[...] = 77
        elif what == "reset":
            t.reset()
            r.reset()
        elif what == "copy":
            # one template's arrays given to the other one
            ts[1 - k].params = t.params
            rs[1 - k].y, rs[1 - k].nui = r.y, list(r.nui)
        elif what == "copynui":
            ts[1 - k].nui_params = t.nui_params
            rs[1 - k].nui = list(r.nui)
        elif what == "bad":
            v = bad_values(n)[op[2], op[3]]
            acc.refused(lambda: setattr(t, op[2], v), f"{op[2]} set to a wrong value ({op[3]})")
        check(acc, ts, rs, f"after {op}: ")


def parts(tier, seed):
    deep = tier == "thorough"
    core = [("params", 0, "f8"), ("params", 0, "i8"), ("nui", 0, "f8"), ("nui", 0, "i8"), ("yield", 0, "float"),
            ("yield", 0, "array"), ("mutate", 0), ("reset", 0), ("copy", 0), ("copynui", 0), ("params", 1, "f8"),
            ("yield", 1, "float"), ("reset", 1), ("nui", 1, "f8")]
    types = [("params", 0, k) for k in ("f8", "f4", "i8", "i4", "u1", "readonly", "strided", "f2")]
    types += [("nui", 0, k) for k in ("f8", "f4", "i8", "i4", "u1", "readonly", "strided", "f2")]
    types += [("yield", 0, k) for k in ("float", "int", "f8", "array", "iarray", "negative", "zero", "tiny", "big")]
    types += [("try", 0, k) for k in ("i8", "f4", "u1", "bool", "0d")]
    special = [(k, 0, s) for k in ("params", "nui") for s in SPECIAL]
    special += [("yield", 0, k) for k in ("zero", "negative", "big")] + [("reset", 0), ("params", 0, "f8"), ("copy", 0)]
    items = []
    for shape in ((3,), (1,), (2, 2)):
        items += [(shape, seq) for d in range(0, (6 if deep else 5) if shape == (3,) else 4)
                  for seq in itertools.product(core, repeat=d)]
        items += [(shape, seq) for seq in itertools.product(types, repeat=2)]
        n = nbins(shape)
        items += [(shape, seq) for d in (1, 2, 3) for seq in itertools.product(special, repeat=d)]
        bad = [("bad", 0) + k for k in bad_values(n)]
        if n == 1:
            bad = [b for b in bad if (b[2], b[3]) not in (("params", "number"), ("nui_params", "one"))]
        items += [(shape, seq) for b in bad for c in core for seq in ((b,), (c, b), (b, c), (c, b, ("reset", 0)))]
    for shape in ((17,), (40,), (70,), (5, 4), (12, 5)):
        items += [(shape, seq) for d in (1, 2) for seq in itertools.product(core, repeat=d)]
        items += [(shape, (a,)) for a in types + special]
        items += [(shape, (c, ("bad", 0) + k)) for c in core[:3] for k in bad_values(nbins(shape))]
    return [Part("parameter sequences", items, run, f"all sequences up to depth {5 if deep else 4}")]
