"""P33 (data-matrix helpers of swprocess.stats) against spec/Matrix.tla."""
from fractions import Fraction
import numpy as np
from swprocess.stats import Statistics as S
from common import Adapter, outcome, q, BAD, NAN

K = 50


def arr(m, w):
    return np.array([[np.nan if x == NAN else float(x) for x in r] for r in m]).reshape(len(m), w)


def back(a, unit=1):
    a = np.asarray(a)
    if a.ndim != 2:
        return [[BAD]]
    return [[q(x, unit, 1e-4) for x in r] for r in a]


def thr(t):
    return t[0] / t[1]


def sort(m):
    out, v = outcome(S._sort, arr(m, len(m[0])))
    return out, back(v) if out == "ok" else []


def regions(m, th):
    # sometimes, nine in ten is left to be the default
    kw = {} if th == [9, 10] and len(m) % 2 else dict(density_threshold=thr(th))
    out, v = outcome(S._identify_regions, arr(m, len(m[0])), **kw)
    return out, [[int(a) + 1, int(b) + 1, int(c), int(d)] for (a, b), (c, d) in v] if out == "ok" else []


def drop(xx, m, po, ps, cs):
    a, x = arr(m, len(xx)), np.array(xx, float)
    a0, x0 = a.copy(), x.copy()
    kw = dict(drop_observation_if_fewer_percent=thr(po), drop_sample_if_fewer_percent=thr(ps), drop_sample_if_fewer_count=cs)
    for k, d in dict(drop_observation_if_fewer_percent=.8, drop_sample_if_fewer_percent=.4, drop_sample_if_fewer_count=3).items():
        if kw[k] == d and len(m) % 2:                   # sometimes, what is the default is not given
            del kw[k]
    out, v = outcome(S._drop, x, a, **kw)
    kept = np.array_equal(a, a0, equal_nan=True) and np.array_equal(x, x0)
    return out, dict(xx=[q(t) for t in v[0]], m=back(v[1])) if out == "ok" else {}, kept


def first(row):
    return next((c + 1 for c, x in enumerate(row) if x != NAN), len(row) + 1)


class MatrixAdapter(Adapter):
    def init(self, s):
        return None

    def project(self, w):
        return {}

    def apply(self, w, op):
        if op["name"] == "sort":
            out, g = sort(op["m"])
            return dict(starts=[first(r) for r in g] if out == "ok" else out, same=sorted(g) == sorted(op["m"]))
        if op["name"] == "regions":
            out, g = regions(op["m"], op["th"])
            return dict(regions=g if out == "ok" else out)
        out, g, _ = drop(op["xx"], op["m"], op["po"], op["ps"], op["cs"])
        return dict(left=g if out == "ok" else out)


CFG = """SPECIFICATION Spec
CONSTANTS R = %d
 C = %d
ACTION_CONSTRAINT Emit
INVARIANTS InvRegions InvDrop InvNothingToDrop
CHECK_DEADLOCK FALSE
"""


def rand_matrix(rng, rows, cols, shape):
    m = []
    for r in range(rows):
        if shape == "runs":
            a, b = sorted((rng.randint(0, cols), rng.randint(0, cols)))
            row = [NAN if not a <= c < b or rng.random() < .1 else rng.randint(1, 20) for c in range(cols)]
        else:
            p = rng.choice([.1, .3, .6])
            row = [NAN if rng.random() < p else rng.randint(1, 20) for c in range(cols)]
        m.append(row)
    return m


class Dice:
    """A random generator that notes what it was asked for."""

    def __init__(self):
        self.draws = []

    def normal(self, loc=0., scale=1., size=None):
        assert size is None
        self.draws.append((loc, scale))
        return -float(len(self.draws))


def p33(ctx):
    rng, ev = ctx.rng, []
    edges = ctx.graph("MC_Matrix", CFG % ((3, 3) if ctx.thorough else (3, 2)))
    rng.shuffle(edges)
    ctx.replay_graph(edges, MatrixAdapter(), walks=0, edge_cap=ctx.n(6000, 60000))
    pct = lambda: rng.choice([[0, 1], [1, 2], [4, 5], [2, 5], [1, 3], [9, 10], [1, 1], [1, 4]])
    for _ in range(ctx.n(1500, 15000)):
        kind = rng.choice(["sort", "regions", "drop", "density", "stat" if hasattr(S, "_calc_stat") else "sort", "fill", "hold"])
        rows, cols = rng.randint(1, 7), rng.randint(1, 7) if rng.random() < .85 else rng.randint(8, 40)
        m = rand_matrix(rng, rows, cols, rng.choice(["runs", "any"]))
        e = dict(m=m)
        if kind == "sort":
            out, e["got"] = sort(m)
        elif kind == "regions":
            if rng.random() < .1:                               # a staircase: region after region
                n = rng.randint(8, 30)
                rows, cols, m = n, n, [[rng.randint(1, 20) if 0 <= c - r < w else NAN for c in range(n)] for w in [rng.choice([1, 1, 2, 3])] for r in range(n)]
            m = [r for r in m if any(x != NAN for x in r)] or [[1] * cols]
            m.sort(key=first)
            keep = [c for c in range(cols) if any(r[c] != NAN for r in m)]
            m = e["m"] = [[r[c] for c in keep] for r in m]
            th = e["th"] = pct()
            out, e["got"] = regions(m, th)
        elif kind == "drop":
            xx = sorted(rng.sample(range(1, 90), cols))
            e.update(xx=xx, po=pct(), ps=pct(), cs=rng.randint(0, 4))
            out, g, e["kept"] = drop(xx, m, e["po"], e["ps"], e["cs"])
            e.update(xxgot=g.get("xx", []), got=g.get("m", []))
        elif kind == "density":
            r, c = sorted(rng.choices(range(rows), k=2)), sorted(rng.choices(range(cols), k=2))
            e["c"] = [r[0] + 1, c[0] + 1, r[1] + 1, c[1] + 1]
            out, v = outcome(S._calc_density, arr(m, cols), tl_corner=(r[0], c[0]), br_corner=(r[1], c[1]))
            f = Fraction(float(v)).limit_denominator(500) if out == "ok" else Fraction(-1)
            e["got"] = [f.numerator, f.denominator] if out == "ok" and abs(float(f) - float(v)) < 1e-9 else [-1, 1]
        elif kind == "hold":
            n = cols
            given = [[rng.randint(-9, 9) for _ in range(n)] for _ in range(3)] + [[rng.randint(-9, 9) for _ in range(n)] for _ in range(n)]
            xx, mean, std, corr = (np.array(given[0], float), list(given[1]), tuple(given[2]), np.array(given[3:], float))
            out, v = outcome(S, xx, mean, std, corr)
            if out == "ok":
                xx[0], corr[0, 0], mean[0] = 99, 99, 99
                e.update(want=given, got=back([v.xx]) + back([v.mean]) + back([v.stddev]) + back(v.corr))
        elif kind == "stat":
            a = arr(m, cols)
            a0 = a.copy()
            out, v = outcome(S._calc_stat, a)
            e.update(mean=[q(x, 1 / K, 1) for x in v[0]] if out == "ok" else [], std=[q(x, 1 / K, 1) for x in v[1]] if out == "ok" else [], K=K, kept=np.array_equal(a, a0, equal_nan=True))
        else:
            given = rng.random() < .5
            dice, kw = Dice(), {}
            if given:
                kw = dict(means=[100. + c for c in range(1, cols + 1)], stddevs=[50. + c for c in range(1, cols + 1)])
            out, v = outcome(S._fill_data, arr(m, cols), rng=dice, **kw)
            u = 1 if given else 1 / K
            e.update(given=given, K=K, got=back(v) if out == "ok" else [], draws=[[q(a, u, 1), q(b, u, 1)] for a, b in dice.draws])
        ev.append(dict(op=dict(name=kind, out=out), **e))
    ctx.validate("Trace_Matrix", ev)
