"""P32 (array resolution limits) against spec/Limits.tla."""
import math
import warnings
from fractions import Fraction
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from swprocess import PeaksSuite
from common import Adapter, outcome, BAD

TYPES = ["frequency", "wavelength", "velocity", "slowness", "wavenumber"]


def fl(x, kind):
    return x[0] / x[1] * (2 * math.pi if kind == "wavenumber" else 1)


def fr(v, kind):
    try:
        v = float(v) / (2 * math.pi if kind == "wavenumber" else 1)
        f = Fraction(v).limit_denominator(20000)
        if f > 0 and abs(float(f) - v) <= 1e-7 * abs(v) and f.numerator < 20000:
            return [f.numerator, f.denominator]
    except (TypeError, ValueError, OverflowError):
        pass
    return [BAD, 1]


def curve(xy, xt, yt):
    xs, ys = np.atleast_1d(xy[0]), np.atleast_1d(xy[1])
    return [[fr(x, xt), fr(y, yt)] for x, y in zip(xs, ys)] if len(xs) == len(ys) else [[[BAD, 1], [BAD, 1]]]


def limits(op):
    xs, ys = np.array([fl(x, op["xt"]) for x in op["xs"]]), np.array([fl(y, op["yt"]) for y in op["ys"]])
    lims = tuple(fl(v, op["at"]) for v in op["lims"])
    x0, y0 = xs.copy(), ys.copy()
    out, v = outcome(PeaksSuite.calc_resolution_limits, op["xt"], op["at"], op["yt"], lims, xs, ys)
    kept = np.array_equal(xs, x0) and np.array_equal(ys, y0)
    return out, [curve(c, op["xt"], op["yt"]) for c in v] if out == "ok" else [], kept


class LimitsAdapter(Adapter):
    def init(self, s):
        return None

    def apply(self, w, op):
        out, cs, _ = limits(op)
        return dict(out=out, curves=cs)

    def out_same(self, f, a, b):
        return f == "curves" and len(a) == len(b) and all(len(x) == len(y) and all(Fraction(*p[i]) == Fraction(*q[i]) for p, q in zip(x, y) for i in (0, 1)) for x, y in zip(a, b))

    def project(self, w):
        return {}


CFG = """SPECIFICATION Spec
CONSTANTS N = %d
ACTION_CONSTRAINT Emit
INVARIANTS InvOnce CurvesOnLimit
CHECK_DEADLOCK FALSE
"""


def p32(ctx):
    rng, ev = ctx.rng, []
    edges = ctx.graph("MC_Limits", CFG % ctx.n(2, 4))
    ctx.replay_graph(edges, LimitsAdapter(), walks=0, edge_cap=ctx.n(6000, 60000))
    num = lambda: [rng.randint(1, 40), rng.choice([1, 1, 2, 3, 4])]
    for _ in range(ctx.n(1500, 20000)):
        xt, at, yt = rng.choice(["frequency", "wavelength"] * 3 + TYPES), rng.choice(["wavelength", "wavenumber"] * 3 + TYPES), rng.choice(["velocity", "slowness", "wavenumber"] * 2 + TYPES)
        n = rng.randint(1, 6)
        op = dict(name="limits", xt=xt, at=at, yt=yt, lims=[num(), num()], xs=[num() for _ in range(n)], ys=[num() for _ in range(n)])
        out, cs, kept = limits(op)
        ev.append(dict(op=dict(name="limits", xt=xt, at=at, yt=yt, lims=op["lims"], out=out), xs=op["xs"], ys=op["ys"], curves=cs, kept=kept))
    for _ in range(ctx.n(60, 600)):
        xt, at, yt = rng.choice(["frequency", "wavelength"]), rng.choice(["wavelength", "wavenumber", "velocity"]), rng.choice(["velocity", "slowness", "wavenumber"])
        fig, ax = plt.subplots()
        log = rng.random() < .4
        lims = [num(), num()]
        span = []
        for which in "xy":
            lo, d = rng.randint(1, 9), rng.choice([1, 2, 3])
            kind = xt if which == "x" else yt
            hi = lo + 49 * d
            if rng.random() < .3 and not log:
                lo, hi = hi, lo
            getattr(ax, f"set_{which}scale")("log" if log else "linear")
            getattr(ax, f"set_{which}lim")(fl([lo, 1], kind), fl([hi, 1], kind))
            span.append([[lo + (hi - lo) * j // 49, 1] for j in range(50)])
        kw = rng.choice([{}, dict(plot_kwargs=dict(color="r"))])
        kw0 = repr(kw)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                PeaksSuite.plot_resolution_limits(ax, xt, yt, at, tuple(fl(v, at) for v in lims), **kw)
                out = "ok"
            except Exception as ex:
                out = type(ex).__name__
        xs, ys = span
        cs = [curve(line.get_data(), xt, yt) if not log else
              (lambda x, y: curve(([x[0], x[-1]], [y[0], y[-1]]), xt, yt))(*line.get_data()) for line in ax.get_lines()]
        ev.append(dict(op=dict(name="plot", xt=xt, at=at, yt=yt, lims=lims, ends=log, out=out), xs=xs, ys=ys, curves=cs, warned=len(ws) > 0, kept=repr(kw) == kw0))
        plt.close(fig)
    ctx.validate("Trace_Limits", ev)
