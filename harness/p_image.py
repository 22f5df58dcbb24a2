"""P17, P18: dispersion images against spec/Image.tla."""
import copy
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from swprocess.wavefieldtransforms import FDBF, FK, PhaseShift, SlantStack, EmptyWavefieldTransform
from common import Adapter, q, sc, BAD, outcome, quiet

KINDS = [PhaseShift, SlantStack, FDBF, FK, EmptyWavefieldTransform]


def disguise(rng, m):
    """A complex number of magnitude m, in exactly representable parts (ties stay ties)."""
    if m % 5 == 0 and rng.random() < .5:
        k = m // 5
        return complex(rng.choice([3, -3]) * k, rng.choice([4, -4]) * k)
    return m * rng.choice([1, -1, 1j, -1j])


def image(rng, m, style, unit=1.):
    m = np.array(m, float)
    if style == 0:
        p = m.copy()
    elif style == 1:
        p = m * np.array([[rng.choice([1, -1]) for _ in r] for r in m])
    else:
        p = np.array([[disguise(rng, int(x)) for x in r] for r in m], dtype=complex)
    nv, nf = m.shape
    return rng.choice(KINDS[:4])(np.arange(1., nf + 1) * 2, 100. + 50 * np.arange(nv), p * unit)


def pick_ids(t):
    pk = t.find_peak_power()
    return [1 + int(np.argmin(np.abs(t.velocities - v))) if np.min(np.abs(t.velocities - v)) == 0 else BAD for v in pk]


def plot(t, by, rng):
    fig, ax = plt.subplots()
    try:
        kw = dict(rasterize=True) if rng.random() < .3 else {}
        with quiet():
            t.plot(fig=fig, ax=ax, normalization=by, **kw)
        line = ax.lines[-1]
        x, y = line.get_data()
        if not np.array_equal(x, t.frequencies):
            return [BAD]
        return [1 + int(np.argmin(np.abs(t.velocities - v))) for v in y]
    finally:
        plt.close(fig)


def unknown(rng):
    return rng.choice(["frequency-maxima", "each", "", "Absolute-Maximum", None, "all", 1])


class NormAdapter(Adapter):
    def __init__(self, rng):
        self.rng, self.c = rng, 0

    def init(self, s):
        self.c += 1
        return dict(t=image(self.rng, s["w"]["m"], self.c % 3), m=s["w"]["m"], mode=s["w"]["mode"])

    def apply(self, w, op):
        if op["name"] == "normalize":
            w["t"].normalize(by=op["by"])
            w["mode"] = op["by"]
            return {}
        if op["name"] == "pick":
            return dict(picks=pick_ids(w["t"]))
        if op["name"] == "unknown":
            return dict(out=outcome(w["t"].normalize, by=unknown(self.rng))[0])
        if self.rng.random() < .03 and np.max(w["m"]) > 0:
            w["mode"] = op["by"]
            return dict(picks=plot(w["t"], op["by"], self.rng))
        w["t"].normalize(by=op["by"])
        w["mode"] = op["by"]
        return dict(picks=pick_ids(w["t"]))

    def project(self, w):
        m = np.array(w["m"], float)
        p = np.asarray(w["t"].power)
        if w["mode"] == "absolute-maximum":
            p = p * max(m.max(), 1)
        elif w["mode"] == "frequency-maximum":
            p = p * np.maximum(m.max(axis=0), 1)
        if w["mode"] == "raw":
            p = np.abs(p)
        elif np.iscomplexobj(p) and np.any(p.imag != 0):
            p = p.real * 0 - 1
        return dict(w=dict(m=[[q(x) for x in r] for r in p], n=w["t"].n, mode=w["mode"]))


class StackAdapter(Adapter):
    def __init__(self, rng):
        self.rng = rng

    def init(self, s):
        mk = lambda a: EmptyWavefieldTransform(np.array(a["fr"], float), np.array(a["ve"], float), np.zeros((2, 2), dtype=complex))
        return {k: mk(s["w"][k]) for k in ("acc", "acc2")}

    def apply(self, w, op):
        if op["name"] == "image":
            t = self.rng.choice(KINDS[:4])(np.array([1., 2.]), np.array([100., 200.]), np.array(op["p"], self.rng.choice([float, complex])))
            t.n = op["n"]
            before = t.power.copy()
            out = outcome(w[op["i"]].stack, t)[0]
            if t.n != op["n"] or not np.array_equal(before, t.power):
                out = "stacked image changed"
        elif op["name"] == "elsewhere":
            t = self.rng.choice(KINDS[:4])(np.array(op["fr"], float), np.array(op["ve"], float), np.full((len(op["ve"]), len(op["fr"])), 4.))
            t.n = 1
            out = outcome(w[op["i"]].stack, t)[0]
        elif op["name"] == "acc":
            n, before = w["acc2"].n, w["acc2"].power.copy()
            out = outcome(w["acc"].stack, w["acc2"])[0]
            if w["acc2"].n != n or not np.array_equal(before, w["acc2"].power):
                out = "stacked accumulator changed"
        else:
            out = outcome(w[op["i"]].stack, self.rng.choice([3, "x", None, np.ones((2, 2)), [1]]))[0]
        return dict(out=out)

    def project(self, w):
        f = lambda t: dict(s=[[q(x.real * t.n) if abs(x.imag) < 1e-9 else BAD for x in r] for r in t.power] if t.n else
                           [[0 if x == 0 else BAD for x in r] for r in t.power], n=t.n,
                           fr=[q(x) for x in t.frequencies], ve=[q(x) for x in t.velocities])
        return dict(w=dict(acc=f(w["acc"]), acc2=f(w["acc2"])))


def mc(ctx, mode, vals, steps, adapter, walks, cap=None):
    cfg = f"""SPECIFICATION Spec
CONSTANTS Mode = "{mode}" Vals = {{{", ".join(map(str, vals))}}} MaxSteps = {steps}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS InvNorm InvStack
CHECK_DEADLOCK FALSE
"""
    ctx.replay_graph(ctx.graph("MC_Image", cfg), adapter, walks=walks, depth=steps, edge_cap=cap)


def p17(ctx):
    mc(ctx, "norm", ctx.n((0, 2, 3), (0, 1, 2, 5)), ctx.n(2, 3), NormAdapter(ctx.rng), ctx.n(150, 1000), ctx.n(6000, 60000))
    rng, ev = ctx.rng, []
    for tid in range(ctx.n(350, 4000)):
        nv, nf = rng.randint(1, 6), rng.randint(1, 6)
        m = [[rng.randint(0, 40) for _ in range(nf)] for _ in range(nv)]
        for f in range(nf):
            m[rng.randrange(nv)][f] = rng.choice([40, 40, 7])
            if rng.random() < .08:      # no power at all at this frequency
                for row in m:
                    row[f] = 0
        unit = rng.choice([1., 1., 2.**-40, 2.**60, 2.**-90])      # what the records were measured in
        t = image(rng, m, rng.randrange(3), unit)
        mode = "raw"
        plotted = False
        for _ in range(rng.randint(1, 6)):
            name = rng.choice(["normalize", "normalize", "normalize", "pick", "plot", "plot", "unknown"])
            if name == "plot" and (plotted or np.max(m) == 0 or nv < 2 or nf < 2 or rng.random() < .6):
                name = "normalize"
            by = rng.choice(["none", "absolute-maximum", "frequency-maximum"])
            pre = dict(m=m, n=1, mode=mode)
            picks = []
            if name == "normalize":
                out = outcome(t.normalize, by)[0] if by != "frequency-maximum" or rng.random() < .5 else outcome(t.normalize)[0]
            elif name == "pick":
                out, picks = outcome(pick_ids, t)
            elif name == "unknown":
                out = outcome(t.normalize, unknown(rng))[0]
            else:
                plotted = True
                out, picks = outcome(plot, t, by, rng)
            if name not in ("pick", "unknown"):
                mode = by
            p = t.power
            if mode == "raw":
                p = np.abs(p)
            elif np.iscomplexobj(p) and np.any(np.imag(p)):
                p = np.real(p) * 0 - 1
            if mode in ("raw", "none"):
                p = p / unit
            ev.append(dict(tid=tid, op=dict(name=name, by=by, out=out), want="KeyError" if name == "unknown" else "ok", pre=pre, raw=False,
                           shown=[[sc(x, 10000) for x in np.real(r)] for r in p], picks=picks or []))
    ctx.validate("Trace_Image", ev)


def elsewhere(rng, axis):
    """Other frequencies or velocities (on a grid of quarters)."""
    how = rng.choice(["last", "first", "scaled", "fewer", "more", "one", "reversed", "inner", "one"])
    if how == "last":
        return np.append(axis[:-1], axis[-1] + .25)
    if how == "first":
        return np.append(axis[0] - .25, axis[1:])
    if how == "inner":
        i = rng.randrange(len(axis))
        return axis + .25 * (np.arange(len(axis)) == i)
    return {"scaled": axis * 2, "fewer": axis[:-1] if len(axis) > 1 else axis * 3, "more": np.append(axis, axis[-1] + axis[0]),
            "one": axis[:1], "reversed": axis[::-1]}[how]


def p18(ctx):
    mc(ctx, "stack", (0,), ctx.n(3, 4), StackAdapter(ctx.rng), ctx.n(300, 2000), ctx.n(8000, 60000))
    rng, ev = ctx.rng, []
    for tid in range(ctx.n(400, 4000)):
        nv, nf = rng.randint(1, 5), rng.randint(1, 5)
        fr, ve = np.arange(1., nf + 1), 100. * np.arange(1, nv + 1)
        acc = EmptyWavefieldTransform(fr, ve, np.zeros((nv, nf), dtype=complex))
        proj = lambda t: dict(s=[[q(x * t.n, 1, 1e-5) for p in (np.real, np.imag) for x in p(r)] for r in t.power], n=t.n,
                              fr=[q(x, .25) for x in t.frequencies], ve=[q(x, .25) for x in t.velocities])
        for _ in range(rng.randint(1, 10)):
            n = rng.choice([1, 1, 1, 2, 7])
            f2, v2 = (elsewhere(rng, fr), ve) if rng.random() < .1 else (fr, elsewhere(rng, ve)) if rng.random() < .1 else (fr, ve)
            cx = rng.choice([0, 0, 1])
            t = rng.choice(KINDS[:4])(f2, v2, np.array([[complex(rng.randint(-50, 50), rng.choice([0, cx]) * rng.randint(-50, 50)) for _ in f2] for _ in v2]))
            if not cx:
                t.power = t.power.real.copy()
            t.n = n
            if rng.random() < .2:
                e2 = EmptyWavefieldTransform(f2, v2, np.zeros((len(v2), len(f2)), complex))
                e2.stack(t)
                e2.stack(t)
                t = e2
            pre, x = proj(acc), proj(t)
            want = "stack"
            if rng.random() < .1:
                want = "AttributeError"
                out = outcome(acc.stack, rng.choice([3, "x", None, np.ones((nv, nf)), [1], object()]))[0]
            else:
                out = outcome(acc.stack, t)[0]
            ev.append(dict(tid=tid, op=dict(name="stack", out=out), want=want, pre=pre, x=x, xafter=proj(t), post=proj(acc)))
    ctx.validate("Trace_Image", ev)
