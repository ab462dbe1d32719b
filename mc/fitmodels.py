"""Small, well-conditioned models for fits, built as pairs of real and reference model."""
from .models import Pair

SPEC = {
    # (names begin and end with one another)
    # processes, channels {name: (shape, {process: (counts, err2, eff)})}, data, constraints, variations
    "f1": (["s"], {"u": ((2,), {"s": ([6.0, 4.0], [1.0, 0.5], 1.0)})}, {"u": [31.0, 16.0]}, {}, []),
    "f2": (["s", "sb"], {"u": ((2,), {"s": ([9.0, 2.0], [0.9, 0.1], 1.0), "sb": ([2.0, 7.0], [0.2, 0.6], 1.0)})},
           {"u": [44.0, 71.0]}, {}, []),
    # templates in another order than processes, process in one channel only, constraint
    "f3": (["sb", "s"], {"u": ((2,), {"s": ([9.0, 2.0], [0.9, 0.1], 0.6), "sb": ([2.0, 7.0], [0.2, 0.6], 0.5)}),
                        "uv": ((1,), {"sb": ([5.0], [0.8], 0.4)})}, {"u": [52.0, 60.0], "uv": [30.0]}, {"sb": (80.0, 9.0)}, []),
    # no signal in the data
    "f0": (["sb", "s"], {"u": ((3,), {"sb": ([5.0, 6.0, 5.0], [0.1, 0.1, 0.1], 1.0), "s": ([1.0, 8.0, 1.0], [0.1, 0.3, 0.1], 1.0)})},
           {"u": [40.0, 36.0, 41.0]}, {}, []),
    # three processes, correlated nuisance parameters, two dimensions
    "f4": (["csb", "s", "sb"], {"u": ((2, 2), {"s": ([9.0, 1.0, 1.0, 2.0], [0.3, 0.1, 0.1, 0.1], 0.7),
                                            "sb": ([1.0, 8.0, 2.0, 1.0], [0.1, 0.4, 0.1, 0.1], 1.0)}),
                             "uv": ((2,), {"csb": ([6.0, 1.0], [0.4, 0.1], 1.0), "s": ([1.0, 5.0], [0.1, 0.4], 0.3)})},
           {"u": [60.0, 70.0, 25.0, 22.0], "uv": [38.0, 31.0]}, {}, [("u", "s", 1)]),
    # many free parameters
    "f5": (["sb", "s"], {"u": ((12,), {"s": ([9.0 - 0.6 * i for i in range(12)], [0.3 - 0.02 * i for i in range(12)], 1.0),
                                       "sb": ([3.0 + 0.4 * i for i in range(12)], [0.1 + 0.01 * i for i in range(12)], 0.8)})},
           {"u": [40.0 + (7 * i) % 11 for i in range(12)]}, {}, [("u", "s", 2)]),
}


def make(name, data=None):
    procs, chans, d, constr, var = SPEC[name]
    p = Pair()
    for q in procs:
        p.process(q)
    for ch, (shape, ts) in chans.items():
        p.channel(ch, shape)
        for q, (c, e, eff) in ts.items():
            p.template(ch, q, counts=c, err2=e, eff=eff)
    for ch, q, s in var:
        p.variation(ch, q, s)
    for q, (v, e) in constr.items():
        p.constraint(q, v, e)
    p.add_data(**(data or d))
    return p


def near(name, k=0):
    """a parameter vector with positive expectations, not the minimum"""
    p = make(name)
    n, y = p.r.npar(), len(p.r.procs)
    tot = sum(sum(c.data) for c in p.r.ch.values())
    x = [tot / y * (0.7 + 0.13 * ((i + k) % 4)) for i in range(y)]
    return x + [0.3 * ((i * 7 + k * 3) % 5 - 2) / 2 for i in range(n - y)]
