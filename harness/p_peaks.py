"""P21, P22 (rejection and reported attributes) against spec/Peaks.tla."""
import copy
import json
import os
import tempfile
import numpy as np
from swprocess import Peaks, PeaksSuite
from common import Adapter, outcome, quiet, q, sc, BAD, NAN

STORED = ["frequency", "velocity", "azimuth", "ellipticity", "noise", "power", "quality"]
UNNAMED = ["quality"]       # an attribute of the user's own: kept, but not reported under its name
DERIVED = dict(slowness=1e6, wavelength=1e3, wavenumber=1e5 / (2 * np.pi))


# The value an abstract integer stands for is a quarter of it; or, in a history that only stores and
# compares values, it times an awkward number (one no short decimal or single-precision value equals).
UNIT = {}
AWKWARD = [np.pi, 1 / 3, 1e-9 / 7, 1e-5 * 1.1, 1e11 / 3, 1 + 2**-40]


def flt(x, attr=None):
    return np.nan if x == NAN else x * UNIT[attr] if attr in UNIT else x / 4


def back(x, attr=None):
    x = float(x)
    if x == x and attr in UNIT:
        c = round(x / UNIT[attr]) if abs(x) < 1e8 * UNIT[attr] else BAD
        return c if c * UNIT[attr] == x else BAD
    return NAN if x != x else int(x * 4) if abs(x) < 1e8 and x * 4 == int(x * 4) else BAD


def shaped(m, vals):
    return vals if m["rows"] == 0 else [vals[r * m["cols"]:(r + 1) * m["cols"]] for r in range(m["rows"])]


def make(m, rng=None):
    """The library's peak set for abstract m, with m's rejections in place."""
    kw = {a: shaped(m, [flt(x, a) for x in m["data"][a]]) for a in m["attrs"]}
    if rng is not None and rng.random() < .5:
        kw = {a: np.array(v) for a, v in kw.items()}
        p = Peaks(identifier=m["id"], **kw)
        for v in kw.values():
            v[...] = -1
    elif rng is not None and rng.random() < .3:
        p = Peaks.from_dict(kw, identifier=m["id"])
    else:
        p = Peaks(kw.pop("frequency"), kw.pop("velocity"), identifier=m["id"], **kw)
    return p if m.get("valid") is None else set_valid(p, m)


def set_valid(p, m):
    """Reject peaks until exactly those valid in m remain (only used to start from a given state)."""
    fresh = [0 if v == NAN else 1 for v in m["data"]["velocity"]]
    if fresh == m["valid"]:
        return p
    try:
        p._valid[...] = np.array(shaped(m, m["valid"]), bool)
        if hidden(p, [])[1].ravel().tolist() == [bool(x) for x in m["valid"]]:
            return p
    except AttributeError:
        pass
    kw = {a: shaped(m, [flt(x, a) for x in m["data"][a]]) for a in m["attrs"]}
    return Peaks.from_dict(dict(kw, valid=[[bool(x) for x in np.ravel(r)] if m["rows"] else bool(r) for r in shaped(m, m["valid"])]), identifier=m["id"])


def hidden(p, attrs):
    """Everything a peak set holds, including rejected peaks."""
    try:
        d = {a: np.array(getattr(p, "_" + a), float) for a in attrs}
        return d, np.array(p._valid)
    except AttributeError:
        fd, f = tempfile.mkstemp()
        os.close(fd)
        try:
            p.to_json(f)
            with open(f) as fh:
                d = list(json.load(fh).values())[0]
        finally:
            os.unlink(f)
        return {a: np.array(d[a], float) for a in attrs}, np.array(d["valid"])


def abstract(p):
    attrs = list(p.attrs)
    d, v = hidden(p, attrs)
    shp = d["velocity"].shape
    data = {a: [back(x, a) for x in d[a].ravel()] if d[a].shape == shp else [BAD] for a in attrs}
    rows, cols = (0, shp[0]) if len(shp) == 1 else shp
    ok = v.shape == shp and v.dtype == bool
    return dict(id=p.identifier, attrs=attrs, rows=rows, cols=cols, data=data,
                valid=[int(x) for x in v.ravel()] if ok else [BAD] * len(data["velocity"]))


def report(p):
    """What the public attributes say."""
    r = {}
    for a in p.extended_attrs:
        with quiet():
            o, v = outcome(getattr, p, a)
            if a in UNNAMED and not hasattr(p, a):
                d, ok = hidden(p, [a])
                o, v = "ok", d[a][ok]
        if o != "ok" or np.ndim(v) != 1:
            r[a] = [BAD]
        else:
            v = list(np.array(v, float))
            r[a] = [sc(x, DERIVED[a]) for x in v] if a in DERIVED else [back(x, a) for x in v]
    return r


def lim(attr, r):
    if tuple(r) == (0, 0):
        return None
    if attr in UNIT:
        return flt(r[0], attr)
    return r[0] / r[1] * (2 * np.pi if attr == "wavenumber" else 1)


def do(peaks, suite, op, rng):
    """Carry out a rejection on the member (op m > 0) or the whole suite (m = 0)."""
    t = suite if op["m"] == 0 else peaks[op["m"] - 1]
    if op["name"] == "out":
        lims = [lim(op["attr"], r) for r in op["lims"]]
        lims = rng.choice([tuple, list])(lims)
        return outcome(t.reject_limits_outside, op["attr"], lims)[0]
    xl, yl = [lim(op["xt"], r) for r in op["xl"]], [lim(op["yt"], r) for r in op["yl"]]
    return outcome(t.reject_box_inside, op["xt"], tuple(xl), op["yt"], tuple(yl))[0]


class PeaksAdapter(Adapter):
    def __init__(self, rng):
        self.rng = rng

    def init(self, s):
        ps = [make(m) for m in s["s"]]
        return PeaksSuite.from_peaks(ps)

    def apply(self, w, op):
        return dict(out=do(w.peaks, w, op, self.rng))

    def project(self, w):
        return dict(s=[abstract(p) for p in w.peaks])


CFG = """SPECIFICATION Spec
CONSTANTS MaxSteps = %d
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InvCommute
PROPERTY PropPermanent PropIdempotent
CHECK_DEADLOCK FALSE
"""
FS = [2, 4, 6, 8, 10, 12, 16, 20, 32, 40, 60, 64]
VS = [200, 320, 400, 512, 600, 640, 800, 1000, 1024, 1200, 2000, 4000]


def rand_member(rng, ident, extra=None, rows=None, n=None, nanf=True):
    rows = rng.choice([0, 0, 1, 2, 3]) if rows is None else rows
    cols = n if n is not None else rng.choice([1, 2, 3, 5, 8]) if rows else rng.choice([1, 2, 4, 7, 12])
    k = max(rows, 1) * cols
    extra = [a for a in STORED[2:] if rng.random() < .5] if extra is None else extra
    attrs = ["frequency", "velocity"] + extra
    data = {}
    for a in attrs:
        if a == "frequency":
            vals = [rng.choice(FS) for _ in range(k)]
            if rows and rng.random() < .7:
                vals = vals[:cols] * rows
        elif a == "velocity":
            vals = [rng.choice(VS) if rng.random() < .85 else NAN for _ in range(k)]
        else:
            vals = [rng.choice([0, rng.randint(-40, 40), rng.randint(-40, 40)]) if rng.random() < .9 else NAN for _ in range(k)]
        data[a] = vals
    if nanf and rng.random() < .1:
        data["frequency"][rng.randrange(k)] = NAN
    return dict(id=ident, attrs=attrs, rows=rows, cols=cols, data=data, valid=[0 if v == NAN else 1 for v in data["velocity"]])


def rand_lim(rng, attr, ms):
    """A limit of attr (as a rational), often exactly some peak's value."""
    if attr == "frequency":
        return [rng.choice(FS) + rng.choice([0, 0, 1, -1]), 4]
    if attr == "velocity":
        return [rng.choice(VS) + rng.choice([0, 0, 10, -10]), 4]
    if attr == "slowness":
        return [4, rng.choice(VS) + rng.choice([0, 0, 10, -10])]
    if attr == "wavelength":
        return [rng.choice([int(8 * v / f) for v in VS for f in FS if 8 * v % f == 0]) + rng.choice([0, 0, 1]), 8]
    if attr == "wavenumber":
        while True:
            r = [rng.choice(FS), rng.choice(VS) + rng.choice([3, -3])]
            if all(f * r[1] != r[0] * v for f in FS for v in VS):
                return r
    u = rng.random()
    if u < .3:
        return [0, 4]
    if u < .6:                              # exactly some peak's value
        return [rng.choice([x for m in ms if attr in m["data"] for x in m["data"][attr] if x != NAN] or [0]), 4]
    return [rng.randint(-44, 44), 4]


def rand_op(rng, ms):
    m = rng.choice([0] + list(range(1, len(ms) + 1)))
    attrs = set(ms[m - 1]["attrs"]) if m else set.intersection(*[set(x["attrs"]) for x in ms])
    attrs = sorted(attrs) + list(DERIVED)
    if rng.random() < .55:
        a = rng.choice(attrs)
        lims = [rand_lim(rng, a, ms), rand_lim(rng, a, ms)]
        if rng.random() < .8:
            lims.sort(key=lambda r: r[0] / r[1])
        u = rng.random()
        if u < .25:
            lims[0] = [0, 0]
        elif u < .5:
            lims[1] = [0, 0]
        elif u < .55:
            lims = [[0, 0], [0, 0]]
        return dict(name="out", m=m, attr=a, lims=lims)
    xt, yt = rng.choice(attrs), rng.choice(attrs)
    return dict(name="box", m=m, xt=xt, xl=[rand_lim(rng, xt, ms), rand_lim(rng, xt, ms)],
                yt=yt, yl=[rand_lim(rng, yt, ms), rand_lim(rng, yt, ms)])


def histories(ctx, runs, steps):
    rng, ev = ctx.rng, []
    for tid in range(runs):
        if ctx.left() < 30:
            break
        ms = [rand_member(rng, f"m{j}") for j in range(rng.choice([1, 2, 3]))]
        if rng.random() < .06:                  # many members, or many peaks
            ms = [rand_member(rng, f"m{j}", n=rng.choice([1, 1, 2])) for j in range(12)] if rng.random() < .5 else [rand_member(rng, "m0", n=rng.choice([64, 90, 130]), rows=rng.choice([0, 2]))]
        UNIT.clear()
        if rng.random() < .4:
            UNIT.update({a: rng.choice(AWKWARD) for a in STORED[2:]})
        ps = [make(m, rng) for m in ms]
        suite = PeaksSuite.from_peaks(ps)
        post = [abstract(p) for p in suite.peaks]
        ev.append(dict(tid=tid, seq=1, op=dict(name="create", m=0, out="ok"), pre=ms, post=post, rep=[report(p) for p in suite.peaks]))
        done = []
        for seq in range(2, 2 + steps):
            op = rng.choice(done) if done and rng.random() < .15 else rand_op(rng, ms)
            if rng.random() < .1:
                op = dict(name="nothing", m=0)
            pre = post
            if op["name"] == "nothing":
                for p in suite.peaks:          # a user scribbling on what was reported
                    for a in p.extended_attrs:
                        o, v = outcome(getattr, p, a)
                        if o == "ok" and isinstance(v, np.ndarray) and v.flags.writeable:
                            v[...] = 3
                out = "ok"
            else:
                out = do(suite.peaks, suite, op, rng)
                done.append(op)
            post = [abstract(p) for p in suite.peaks]
            ev.append(dict(tid=tid, seq=seq, op=dict(op, out=out), pre=pre, post=post, rep=[report(p) for p in suite.peaks]))
    UNIT.clear()
    ctx.validate("Trace_Peaks", ev)


def p21(ctx):
    ctx.replay_graph(ctx.graph("MC_Peaks", CFG % ctx.n(2, 3)), PeaksAdapter(ctx.rng), walks=200, depth=3)
    histories(ctx, ctx.n(150, 1500), 12)


class ReportAdapter(PeaksAdapter):
    """Compares what is publicly reported in every state of the model."""

    def project(self, w):
        return dict(s=[dict(abstract(p), rep=report(p)) for p in w.peaks])

    def diff(self, exp, got):
        for m, g in zip(exp["s"], got["s"]):
            idx = [i for i, v in enumerate(m["valid"]) if v == 1]
            for a, r in g["rep"].items():
                if len(r) != len(idx):
                    return f"{a} of {m['id']}: {len(r)} values for {len(idx)} valid peaks"
                f, v = m["data"]["frequency"], m["data"]["velocity"]
                for i, x in zip(idx, r):
                    want = 4e6 / v[i] if a == "slowness" else 1e3 * v[i] / f[i] if a == "wavelength" else \
                        1e5 * f[i] / v[i] if a == "wavenumber" else m["data"][a][i]
                    if abs(x - want) > 1:
                        return f"{a} of {m['id']}: {x} instead of {want}"
            if set(g["rep"]) != set(m["attrs"]) | set(DERIVED):
                return f"attributes {sorted(g['rep'])}"
        return None


def p22(ctx):
    ctx.replay_graph(ctx.graph("MC_Peaks", CFG % ctx.n(1, 2)), ReportAdapter(ctx.rng), walks=300, depth=4)
    histories(ctx, ctx.n(200, 2000), 6)


# ---------------------------------------------------------------------------------- P23
class Script(BaseException):
    """The user has walked away."""


COORD = dict(slowness=3200)     # drawn coordinates are logged in these units, otherwise in quarters


def colour(line):
    import matplotlib.colors
    return matplotlib.colors.to_hex(line.get_color())


class User:
    """Plays a script of clicks and answers; notes what the library had done at every prompt."""

    def __init__(self, steps, suite, axes):
        self.steps, self.suite, self.axes = list(steps), suite, axes
        self.pos, self.obs, self.stopped = 0, [], False
        self.fig, self.plain, self.view = None, None, None

    def look(self, mode):
        """What the library has done by now, and what the figure shows."""
        o = dict(mode=mode, v=[abstract(p)["valid"] for p in self.suite.peaks], drawn=[], marked=[], limits=[], view=True)
        for ax, ty in zip(self.fig.axes if self.fig else [], self.axes):
            pts, old, lims = {}, self.plain, 0
            for line in ax.lines:
                if line.get_linestyle() not in ("None", "", " "):
                    lims += len(np.ravel(line.get_xdata())) > 1 and line.get_linestyle() == "--"
                    continue
                x, y = np.ravel(line.get_xdata()), np.ravel(line.get_ydata())
                at = [[q(a, 1 / COORD.get(ty["xt"], 4)), q(b, 1 / COORD.get(ty["yt"], 4))] for a, b in zip(x, y)]
                pts.setdefault(colour(line), []).extend(at)
            if self.plain is None:
                old = set(pts)
            o["drawn"].append(sum((v for k, v in pts.items() if k in old), []))
            o["marked"].append(sum((v for k, v in pts.items() if k not in old), []))
            o["limits"].append(lims)
        for k, none in (("drawn", []), ("marked", []), ("limits", 0)):
            o[k] += [none] * (len(self.axes) - len(o[k]))
        if self.fig:
            if self.plain is None:      # the first prompt: nothing is marked yet
                self.plain = {colour(line) for ax in self.fig.axes for line in ax.lines if line.get_linestyle() in ("None", "", " ")}
                self.view = [ax.axis() for ax in self.fig.axes]
            o["view"] = bool(np.allclose(self.view, [ax.axis() for ax in self.fig.axes], rtol=1e-6, atol=0))
        self.obs.append(o)

    def next(self, kinds):
        if self.pos >= len(self.steps) or self.steps[self.pos]["name"] not in kinds:
            raise Script()
        self.pos += 1
        return self.steps[self.pos - 1]

    def pixels(self, fig, ax, x, y):
        x0, y0 = ax.transData.transform((x, y))
        b = ax.get_window_extent()
        return min(max(x0, b.x0 + 2), b.x1 - 2), min(max(y0, b.y0 + 2), b.y1 - 2)

    def loop(self, canvas, timeout=0, *a):
        """Stands in for the event loop of a figure window."""
        if timeout and timeout > 0:
            return
        self.fig = canvas.figure
        self.look("draw")
        e = self.next(("box", "split"))
        fig = canvas.figure
        if e["name"] == "box":
            i, ty = e["ax"] - 1, self.axes[e["ax"] - 1]
            pts = [(fig.axes[i], lim(ty["xt"], e["xl"][n]), lim(ty["yt"], e["yl"][n])) for n in (0, 1)]
        else:
            mids = []
            for ax in fig.axes[:2]:
                b = ax.get_window_extent()
                mids.append((ax,) + tuple(ax.transData.inverted().transform(((b.x0 + b.x1) / 2, (b.y0 + b.y1) / 2))))
            pts = mids
        self.stopped = False
        for ax, x, y in pts:
            if e.get("stray"):
                self.click(canvas, 1, 1)
            if not self.stopped:
                self.click(canvas, *self.pixels(fig, ax, x, y))
        if not self.stopped:
            raise Script()

    def click(self, canvas, x, y):
        from matplotlib.backend_bases import MouseEvent
        ev = MouseEvent("button_press_event", canvas, x, y, button=1)
        canvas.callbacks.process("button_press_event", ev)

    def stop(self, canvas):
        self.stopped = True

    def input(self, prompt=""):
        self.look("ask")
        return self.next(("answer",))["a"]


def session(suite, axes, steps, layout=True, **kw):
    import builtins
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.backend_bases import FigureCanvasBase as Base
    u = User(steps, suite, axes)
    from matplotlib.backends.backend_agg import FigureCanvasAgg as Agg
    old = Base.start_event_loop, Base.stop_event_loop, builtins.input
    from matplotlib.figure import Figure
    draw, idle, pick, tight = Agg.draw, Base.draw_idle, Figure.pick, Figure.tight_layout
    Agg.draw = Base.draw_idle = Figure.pick = lambda *a, **k: None        # nobody looks at the pixels
    if not layout:
        Figure.tight_layout = lambda *a, **k: None
    Base.start_event_loop = lambda c, timeout=0: u.loop(c, timeout)
    Base.stop_event_loop = lambda c: u.stop(c)
    builtins.input = u.input
    xt, yt = [a["xt"] for a in axes], [a["yt"] for a in axes]
    if len(axes) == 1 and kw.pop("plain", True):
        xt, yt = xt[0], yt[0]
    try:
        out, _ = outcome(suite.interactive_trimming, xtype=xt, ytype=yt, **kw)
        u.look("done")
    except Script:
        out = "waiting"
    finally:
        Base.start_event_loop, Base.stop_event_loop, builtins.input = old
        Agg.draw, Base.draw_idle, Figure.pick, Figure.tight_layout = draw, idle, pick, tight
        plt.close("all")
    return out, u.obs


def distinct(axes):
    return [sorted({tuple(p) for p in a}) for a in axes]


class TrimAdapter(Adapter):
    """A session cannot be forked: it is replayed from its beginning up to each state."""

    def __init__(self, members, axes):
        self.members, self.axes = members, axes

    def init(self, s):
        return []

    def clone(self, w):
        return list(w)

    def apply(self, w, op):
        w.append(op)
        return {}

    def project(self, w):
        suite = PeaksSuite.from_peaks([make(m) for m in self.members])
        out, obs = session(suite, self.axes, w, layout=False)
        if len(obs) != len(w) + 1 or out not in ("ok", "waiting"):
            return dict(f=dict(o=dict(session=out, prompts=[o["mode"] for o in obs])))
        o = obs[-1]
        return dict(f=dict(o=dict(o, drawn=distinct(o["drawn"]), marked=distinct(o["marked"]), limits=sum(o["limits"]))))

    def diff(self, exp, got):
        o = exp["f"]["o"]
        exp = dict(f=dict(o=dict(o, drawn=distinct(o["drawn"]), marked=distinct(o["marked"]))))
        return None if exp["f"]["o"] == got["f"]["o"] else f"expected {exp['f']['o']} got {got['f']['o']}"


TRIMCFG = """SPECIFICATION Spec
CONSTANTS MaxSteps = %d
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS InvPendingValid InvMarkedShown
PROPERTY PropCommit PropUndo PropQuit PropPermanent
CHECK_DEADLOCK FALSE
"""


def cuts(ms, attr):
    """Places between (and beyond) all values of attr, as rationals."""
    from fractions import Fraction as F
    vals = set()
    for m in ms:
        for i, ok in enumerate(m["valid"]):
            f, v = m["data"]["frequency"][i], m["data"]["velocity"][i]
            if ok and f != NAN:
                vals.add(F(f, 4) if attr == "frequency" else F(v, 4) if attr == "velocity" else F(4, v) if attr == "slowness" else F(v, f))
    vals = sorted(vals)
    c = [vals[0] * F(7, 8)] + [(a + b) / 2 for a, b in zip(vals, vals[1:])] + [vals[-1] * F(9, 8)]
    return [[x.numerator, x.denominator] for x in c]


def p23(ctx):
    one = lambda i, f, v: dict(id=i, attrs=["frequency", "velocity"], rows=0, cols=len(f), data=dict(frequency=f, velocity=v), valid=[1] * len(f))
    ms = [one("a", [8, 16, 32], [1600, 800, 400]), one("b", [16, 32], [1600, 800])]
    axes = [dict(xt="frequency", yt="velocity"), dict(xt="wavelength", yt="velocity")]
    ctx.replay_graph(ctx.graph("MC_Trim", TRIMCFG % ctx.n(4, 8)), TrimAdapter(ms, axes), walks=0, edge_cap=ctx.n(130, 3000))
    rng, ev = ctx.rng, []
    for tid in range(ctx.n(130, 1500)):
        if ctx.left() < 40:
            break
        ms = []
        many = rng.random() < .12                               # a longer suite of small sets
        for j in range(rng.choice([1, 2, 3]) if not many else rng.choice([6, 7, 9])):
            n = rng.choice([2, 4, 6]) if not many else 2
            rows = rng.choice([0, 2]) if not many else 0
            k = max(rows, 1) * n
            m = dict(id=f"s{j}", attrs=["frequency", "velocity"], rows=rows, cols=n, valid=[1] * k,
                     data=dict(frequency=[rng.choice([8, 16, 32, 64]) for _ in range(k)], velocity=[rng.choice([400, 800, 1600, 3200]) for _ in range(k)]))
            ms.append(m)
        axes = rng.choice([[dict(xt="frequency", yt="velocity")], [dict(xt="wavelength", yt="velocity")],
                           [dict(xt="frequency", yt="slowness")], [dict(xt="wavelength", yt="slowness"), dict(xt="frequency", yt="velocity")],
                           [dict(xt="frequency", yt="velocity"), dict(xt="wavelength", yt="velocity")],
                           [dict(xt="frequency", yt="velocity"), dict(xt="wavelength", yt="velocity"), dict(xt="frequency", yt="slowness")]])
        cut = [{a: cuts(ms, ax[a]) for a in ("xt", "yt")} for ax in axes]
        suite = PeaksSuite.from_peaks([make(m) for m in ms])
        pre = [abstract(p) for p in suite.peaks]
        steps = []
        for _ in range(rng.choice([2, 3, 4, 6, 9])):
            u = rng.random()
            if u < .15 and len(axes) > 1:
                steps.append(dict(name="split"))
                continue
            if u < .65:
                a = rng.randrange(len(axes))
                e = dict(name="box", ax=a + 1, xl=rng.sample(cut[a]["xt"], 2) if len(cut[a]["xt"]) > 1 else cut[a]["xt"] * 2,
                         yl=rng.sample(cut[a]["yt"], 2) if len(cut[a]["yt"]) > 1 else cut[a]["yt"] * 2)
                if rng.random() < .2:
                    e["stray"] = 1
                steps.append(e)
                continue
            p, r = rng.choice(cut[0]["xt"]), rng.choice(cut[0]["yt"])
            steps.append(dict(name="box", ax=1, xl=[p, p], yl=[r, r]))
            steps += [dict(name="answer", a=rng.choice(["", "3", "x", "01", "-1"])) for _ in range(rng.choice([0, 0, 1, 2]))]
            steps.append(dict(name="answer", a=rng.choice(["1", "2", "2"])))
        p, r = rng.choice(cut[0]["xt"]), rng.choice(cut[0]["yt"])
        steps += [dict(name="box", ax=1, xl=[p, p], yl=[r, r]), dict(name="answer", a="0")]
        steps = expand(ms, axes, steps)
        kw = {}
        if rng.random() < .3:
            kw["resolution_limits"] = ("wavelength", (10, 200))
        if rng.random() < .3:
            kw["plot_kwargs"] = dict(color="r", label=None)
        out, obs = session(suite, axes, steps, layout=tid % 8 == 0, **kw)
        post = [abstract(p) for p in suite.peaks]
        kept = [dict(p, valid=0) for p in pre] == [dict(p, valid=0) for p in post]
        ev.append(dict(tid=tid, op=dict(name="session", out=out), pre=pre, axes=axes, steps=[{k: v for k, v in s.items() if k != "stray"} for s in steps],
                       limited=2 if "resolution_limits" in kw else 0, obs=obs, kept=kept))
    ctx.validate("Trace_Trim", ev)


def expand(ms, axes, steps):
    """A drawn box that turns out to hold no valid peak is a pause: give it an answer, so that scripts stay in step.

    (The scripts are only stimuli; whether the pause was right is decided by the specification.)
    """
    from fractions import Fraction as F
    live = [[i for i, ok in enumerate(m["valid"]) if ok] for m in ms]
    pend = [set() for _ in ms]

    def val(m, attr, i):
        f, v = m["data"]["frequency"][i], m["data"]["velocity"][i]
        return F(f, 4) if attr == "frequency" else F(v, 4) if attr == "velocity" else F(4, v) if attr == "slowness" else F(v, f)
    out, asked = [], False
    for s in steps:
        if asked and s["name"] != "answer":
            out.append(dict(name="answer", a="2"))
            pend, asked = [set() for _ in ms], False
        if s["name"] == "answer" and not asked:
            continue
        out.append(s)
        if s["name"] == "box":
            ax = axes[s["ax"] - 1]
            xl, yl = sorted(F(*r) for r in s["xl"]), sorted(F(*r) for r in s["yl"])
            hits = [{i for i in lv if xl[0] < val(m, ax["xt"], i) < xl[1] and yl[0] < val(m, ax["yt"], i) < yl[1]} for m, lv in zip(ms, live)]
            asked = not any(hits)
            pend = [p | h for p, h in zip(pend, hits)]
        elif s["name"] == "answer" and s["a"] in ("0", "1", "2"):
            if s["a"] != "2":
                live = [[i for i in lv if i not in p] for lv, p in zip(live, pend)]
            pend, asked = [set() for _ in ms], False
    return out
