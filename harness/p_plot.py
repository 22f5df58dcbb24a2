"""P35 (drawings) against spec/Plot.tla."""
import contextlib
import copy
import re
import warnings
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import matplotlib.colors as mc
from scipy import signal
from swprocess import Peaks, PeaksSuite, Sensor1C, Array1D, Source
from swprocess.wavefieldtransforms import FDBF, PhaseShift, SlantStack
from common import Adapter, outcome, quiet, q, sc, BAD, NAN, key
from p_timeseries import DTS
from p_peaks import hidden
from p_array import U, mk_sensor, project_array

UNIT = dict(frequency=1, velocity=100, wavelength=100 / 12, slowness=1 / 252000, wavenumber=2 * np.pi / 252000)
COLORS = ["b", "r", "g", "k", "c", "m"]


def make(m, rng):
    f = [np.nan if c[0] == NAN else float(c[0]) for c in m["cells"]]
    v = [np.nan if c[1] == NAN else c[1] * 100. for c in m["cells"]]
    if m.get("rows", 0):
        f, v = np.array(f).reshape(m["rows"], -1), np.array(v).reshape(m["rows"], -1)
    p = Peaks(f, v, identifier=m["id"])
    for c, x in zip(m["cells"], m["valid"]):
        if not x and NAN not in c:
            reject(p, c)
    return p


def reject(p, c):
    p.reject_box_inside("frequency", (c[0] - .5, c[0] + .5), "velocity", (c[1] * 100 - 50, c[1] * 100 + 50))


def hexes(c):
    return mc.to_hex(c)


def letter(c):
    h = hexes(c)
    return next((x for x in COLORS if hexes(x) == h), h)


def titled(axes):
    """What the axes say they show: [[x, y], ...] without spaces and capitals."""
    f = lambda t: re.sub(r"\s+", "", t).lower()
    return [[f(a.get_xlabel()), f(a.get_ylabel())] for a in axes]


def shown(ax, kinds):
    handles, labels = ax.get_legend_handles_labels()
    named = {id(h): n for h, n in zip(handles, labels)}
    res = []
    for i, line in enumerate(ax.lines):
        xt, yt = kinds[min(i, len(kinds) - 1)]
        with quiet():
            x, y = np.ravel(line.get_xdata()), np.ravel(line.get_ydata())
        pts = [[q(a, UNIT[xt]), q(b, UNIT[yt])] for a, b in zip(x, y)] if len(x) == len(y) else [[BAD, BAD]]
        ls = line.get_linestyle()
        if ls not in ("None", "", " ") and len(pts) > 1:
            pts = pts + [[BAD, 1]]          # joined by a line: peaks are points
        res.append(dict(pts=sorted(pts), color=letter(line.get_color()), marker=line.get_marker(), name=named.get(id(line), "")))
    return res


def kwargs(sty, n, rng):
    kw = {}
    for f, name in (("color", "color"), ("marker", "marker"), ("name", "label")):
        st = sty[f]
        conv = lambda v: None if f == "name" and v == "" else v
        if st["form"] == "all":
            kw[name] = conv(st["v"][0])
        elif st["form"] == "each":
            kw[name] = rng.choice([list, tuple])(conv(v) for v in st["v"])
    return kw


def masks_of(ms, suite):
    res = []
    for m, x in zip(ms, suite + suite):
        a = np.array(m, bool)
        res.append(a.reshape(x["rows"], -1) if x.get("rows", 0) else a)
    return res


def snapshot(o):
    return key({k: [repr(v.shape), repr(v.tolist())] if isinstance(v, np.ndarray) else repr(v) for k, v in vars(o).items()})


class PW:
    def __init__(self, s, rng):
        self.s = copy.deepcopy(s)
        self.suite = PeaksSuite.from_peaks([make(m, rng) for m in s])
        self.fig, self.axes, self.kinds = None, [], []

    def close(self):
        if self.fig is not None:
            plt.close(self.fig)


def plot(w, op, rng):
    ps, sty = w.suite.peaks, op["sty"]
    kw = {}
    pk = kwargs(sty, len(ps), rng)
    if pk or rng.random() < .5:
        kw["plot_kwargs"] = pk
    if op["masks"]:
        kw["mask"] = masks_of(op["masks"], w.s)
    one = len(op["xts"]) == 1 and len(op["yts"]) == 1
    xt, yt = op["xts"], op["yts"]
    if one and rng.random() < .5:
        xt, yt = xt[0], yt[0]
    elif rng.random() < .5:
        xt, yt = tuple(xt), tuple(yt)
    if not (one and xt in ("frequency", ["frequency"]) and yt in ("velocity", ["velocity"]) and rng.random() < .3):
        kw.update(xtype=xt, ytype=yt)
    if not op["make"]:
        kw["ax"] = w.axes[0] if len(w.axes) == 1 and rng.random() < .5 else rng.choice([list, tuple, np.array])(w.axes)
    before = [snapshot(p) for p in ps]
    seen = lambda: repr({k: v for k, v in kw.items() if k != "ax"})
    kw0 = seen()
    num = plt.get_fignums()
    single = len(ps) == 1 and op["make"] and (not op["masks"] or len(op["masks"]) == 1) and not any(st["form"] == "each" for st in sty.values()) and rng.random() < .4
    if single:
        if "mask" in kw:
            kw["mask"] = kw["mask"][0]
        out, v = outcome(ps[0].plot, **kw)
    else:
        out, v = outcome(w.suite.plot, **kw)
        if seen() != kw0:
            out = "arguments changed"
    if out == "ok":
        if op["make"]:
            w.close()
            w.fig = v[0]
            w.axes = list(np.ravel(v[1]))
        elif v is not None:
            out = "returns something"
        if op["make"]:
            w.kinds = [[] for _ in w.axes]
        for a, had, k in zip(w.axes, w.kinds, zip(op["xts"], op["yts"])):
            had += [k] * max(len(a.lines) - len(had), 1)
    else:
        for f in plt.get_fignums():
            if f not in num:
                plt.close(f)
    return out, [snapshot(p) for p in ps] == before


class PlotAdapter(Adapter):
    def __init__(self, rng):
        self.rng = rng

    def init(self, s):
        return PW(s["s"], self.rng)

    def clone(self, w):
        c = PW(w.s, self.rng)
        c.suite = PeaksSuite.from_peaks([copy.deepcopy(p) for p in w.suite.peaks])
        if w.axes:
            # the same drawing again
            c.fig, axs = plt.subplots(ncols=len(w.axes))
            c.axes, c.kinds = list(np.ravel(axs)), [list(k) for k in w.kinds]
            for a, b in zip(w.axes, c.axes):
                for line in a.lines:
                    b.plot(*line.get_data(), color=line.get_color(), marker=line.get_marker(), linestyle=line.get_linestyle(), label=line.get_label())
        return c

    def dispose(self, w):
        w.close()

    def apply(self, w, op):
        if op["name"] == "reject":
            reject(w.suite.peaks[op["m"] - 1], op["c"])
            return {}
        out, kept = plot(w, op, self.rng)
        return dict(out=out if kept else "the data changed")

    def project(self, w):
        return dict(s=[dict(m, valid=[int(x) for x in hidden(p, [])[1].ravel()]) for m, p in zip(w.s, w.suite.peaks)],
                    axes=[[dict(x, pts=tally(x["pts"])) for x in shown(a, k)] for a, k in zip(w.axes, w.kinds)])

    def diff(self, exp, got):
        exp = dict(exp, axes=[[dict(x, pts=sorted(x["pts"])) for x in a] for a in exp["axes"]])
        return super().diff(exp, got)


def tally(pts):
    return sorted([*p, pts.count(list(p))] for p in {tuple(p) for p in pts})


CFG = """SPECIFICATION Spec
CONSTANTS Depth = %d Members = %d
ACTION_CONSTRAINT Emit
INVARIANT Inv
CHECK_DEADLOCK FALSE
"""


def rand_suite(rng):
    s, n = [], rng.choice([1, 1, 2, 3, 4])
    for i in range(n):
        rows = rng.choice([0, 0, 1, 2, 3])
        cols = rng.randint(1, 5)
        cells = []
        for _ in range(max(rows, 1) * cols):
            r = rng.random()
            cells.append([NAN, NAN] if r < .1 else [rng.choice([1, 2, 3, 4, 6, 12]), NAN] if r < .2 else [rng.choice([1, 2, 3, 4, 6, 12]), rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10])])
        gone = rng.choice(cells)
        s.append(dict(id=rng.choice(["a", "b"]) + str(i), cells=cells, rows=rows, valid=[0 if c[1] == NAN or (c == gone and rng.random() < 1) else 1 for c in cells]))
        if rng.random() < .5:
            s[-1]["valid"] = [0 if c[1] == NAN else 1 for c in cells]
    return s


def suites(ctx, ev):
    rng = ctx.rng
    for i in range(ctx.n(110, 1500)):
        w = PW(rand_suite(rng), rng)
        while i % 3 == 0 and len(w.s) < 2:
            w = PW(rand_suite(rng), rng)
        n = len(w.s)
        try:
            for step in range(rng.randint(1, 4)):
                na = rng.choice([1, 1, 2, 3]) if not w.axes else len(w.axes)
                ks = ["frequency", "wavelength", "velocity", "slowness", "wavenumber"]
                if w.axes and rng.random() < .6:        # axes that already show something beside empty ones
                    k = rng.randint(0, len(w.axes))
                    w.axes, w.kinds = w.axes[:k], w.kinds[:k]
                    for _ in range(rng.randint(1 if k == 0 else 0, 2)):
                        i = rng.randint(0, len(w.axes))
                        w.axes.insert(i, w.fig.add_axes([.1, .1, .5 + .01 * len(w.fig.axes), .5]))
                        w.kinds.insert(i, [])
                if w.axes and (rng.random() < .6 or [] in w.kinds):
                    kinds = [k[0] if k else (rng.choice(ks), rng.choice(ks)) for k in w.kinds]
                    xts, yts, make_ = [k[0] for k in kinds], [k[1] for k in kinds], False
                    if rng.random() < .2:
                        xts, yts = rng.choice([(xts + ["frequency"], yts + ["velocity"]), (xts, yts + ["velocity"])])
                else:
                    xts, yts, make_ = [rng.choice(ks) for _ in range(na)], [rng.choice(ks) for _ in range(na)], True
                    if rng.random() < .1:
                        yts = yts + ["velocity"]
                st = lambda vals: rng.choice([dict(form="default", v=[]), dict(form="all", v=[rng.choice(vals)]), dict(form="each", v=[rng.choice(vals) for _ in range(n)])])
                sty = dict(color=st(COLORS), marker=st(["o", "x", "s", "^"]), name=st(["one", "two", ""]))
                if not make_ and [] in w.kinds:
                    sty["name"] = dict(form="each", v=[rng.choice(["one", "two", "two"]) for _ in range(n)])
                ms = []
                if rng.random() < .5:
                    ms = [[int(rng.random() < .6) for _ in m["cells"]] for m in w.s]
                    if rng.random() < .15:
                        ms = ms[:-1] if rng.random() < .5 and n > 1 else ms + [ms[0]]
                op = dict(name="suite", xts=xts, yts=yts, sty=sty, masks=ms, make=make_)
                before = [] if make_ else [shown(a, k) for a, k in zip(w.axes, w.kinds)]
                st0 = [dict(m, valid=[int(x) for x in hidden(p, [])[1].ravel()]) for m, p in zip(w.s, w.suite.peaks)]
                out, kept = plot(w, op, rng)
                op["out"] = out
                after = [shown(a, k) for a, k in zip(w.axes, w.kinds)] if out == "ok" else before
                ev.append(dict(op=op, s=st0, before=before, after=after, kept=kept, titles=titled(w.axes) if out == "ok" else []))
                if rng.random() < .4:
                    m = rng.randrange(n)
                    good = [c for c in w.s[m]["cells"] if NAN not in c]
                    if good:
                        reject(w.suite.peaks[m], rng.choice(good))
        finally:
            w.close()


def rand_array(rng, even=None):
    dtid = rng.choice(list(DTS))
    n, ns = rng.choice([2, 3, 3, 4, 5]), rng.randint(3, 6)
    if even or (even is None and rng.random() < .5):
        x0, d = rng.randint(-6, 6), rng.randint(1, 4)
        xs = [x0 + d * i for i in range(n)]
    else:
        xs = rng.sample(range(-8, 12), n)
    rng.shuffle(xs)
    t0 = rng.choice([0, 0, -1, -4, -7])
    st = rng.choice([1, 1, 2])
    ss = [dict(x=x, w=[rng.randint(-4, 4) for _ in range(ns)], n=st, t0=t0, dt=dtid) for x in xs]
    src = rng.choice([min(xs) - rng.randint(1, 6), max(xs) + rng.randint(1, 6), min(xs)])
    return dtid, ss, src


def falls(ctx, ev):
    rng = ctx.rng
    for _ in range(ctx.n(150, 3000)):
        dtid, ss, src = rand_array(rng)
        a = Array1D([mk_sensor(s) for s in ss], Source(src * U, 0, 0))
        dt = DTS[dtid]
        pre = project_array(a, dtid)
        op = dict(name="waterfall", time=rng.choice("xy"), detrend=rng.random() < .5, norm=rng.choice(["none", "each", "all"]), scale=rng.choice([[0, 0], [0, 0], [0, 0], [1, 1], [3, 2], [1, 4], [0, 1], [-1, 1]]),
                  shift=rng.random() < .4, color=rng.choice(["b", "r", "k"]))
        w = np.array(pre["r"]["w"], float)
        rows = signal.detrend(w) if op["detrend"] else w
        if np.any(np.max(np.abs(rows), axis=1) < 1e-6):
            continue
        kw = dict(time_ax=op["time"], amplitude_detrend=op["detrend"], amplitude_normalization=op["norm"], position_normalization=op["shift"])
        if rng.random() < .7:       # defaults
            kw = {k: v for k, v in kw.items() if v != dict(time_ax="y", amplitude_detrend=True, amplitude_normalization="each", position_normalization=False)[k]}
        if op["scale"][1]:
            kw["amplitude_scale"] = op["scale"][0] / op["scale"][1] * U
        if op["color"] != "b" or rng.random() < .3:
            kw["plot_kwargs"] = dict(color=op["color"])
        fig = ax = None
        if rng.random() < .5:
            fig, ax = plt.subplots()
            kw["ax"] = ax
        op["out"], v = outcome(a.waterfall, **kw)
        if op["out"] == "ok" and ax is None:
            fig, ax = v
        e = dict(op=op, a=pre, lines=[], tlim=[], plim=[], titles=titled([ax]) if op["out"] == "ok" else [], kept=project_array(a, dtid) == pre)
        if op["out"] == "ok":
            for line in ax.lines:
                x, t = line.get_data() if op["time"] == "y" else line.get_data()[::-1]
                e["lines"].append(dict(x=[sc(v, 200 / U) for v in x], t=[q(v, dt / 4) for v in t], color=letter(line.get_color())))
            lims = (ax.get_xlim(), ax.get_ylim())
            pl, tl = lims if op["time"] == "y" else lims[::-1]
            e["tlim"], e["plim"] = [q(v, dt / 4) for v in tl], [sc(v, 200 / U) for v in pl]
        else:
            e["tlim"], e["plim"] = [BAD, BAD], [BAD, BAD]
        ev.append(e)
        plt.close("all")


def schematics(ctx, ev):
    rng = ctx.rng
    for _ in range(ctx.n(60, 800)):
        dtid, ss, src = rand_array(rng)
        sensors = [mk_sensor(s) for s in ss]
        ys = {}
        flat = rng.random() < .5
        res = []
        for s, o in zip(ss, sensors):
            y = 0 if flat else rng.randint(-3, 3)
            ys[s["x"]] = y
            res.append(Sensor1C.from_activetimeseries(o, o.x, y * U, 0))
        sy = 0 if flat else rng.randint(-3, 3)
        a = Array1D(res, Source(src * U, sy * U, 0))
        pre = project_array(a, dtid)
        kw, fig, ax = {}, None, None
        if rng.random() < .5:
            fig, ax = plt.subplots()
            kw["ax"] = ax
        out, v = outcome(a.plot, **kw)
        if out == "ok" and ax is None:
            fig, ax = v
        e = dict(op=dict(name="schematic", out=out), a=pre, xy=[[x, ys[x]] for x in sorted(ys)], src=[src, sy], lines=[], said=dict(n=BAD, spacing=BAD, src=BAD), kept=project_array(a, dtid) == pre)
        if out == "ok":
            for line in ax.lines:
                x, y = np.atleast_1d(line.get_xdata()), np.atleast_1d(line.get_ydata())
                e["lines"].append(sorted([q(p, U), q(r, U)] for p, r in zip(x, y)))
            txt = "\n".join(t.get_text() for t in ax.texts)
            n, sp, so = re.search(r"[Nn]umber of sensors\D*(\d+)", txt), re.search(r"pacing:\s*([-\d.]+)", txt), re.search(r"ource @\s*([-\d.]+)", txt)
            e["said"] = dict(n=int(n[1]) if n else BAD, spacing=q(float(sp[1]), U) if sp else -1 if "not constant" in txt else BAD, src=q(float(so[1]), U) if so else BAD)
        ev.append(e)
        plt.close("all")


def others(ctx, ev):
    rng = ctx.rng
    for _ in range(ctx.n(40, 500)):
        n = rng.randint(1, 6)
        xs = sorted(rng.sample(range(1, 40), n))
        means, sd = [rng.randint(50, 400) for _ in xs], [rng.randint(0, 30) for _ in xs]
        fig, ax = plt.subplots()
        args = [np.array(v, float) for v in (xs, means, sd)]
        args0 = copy.deepcopy(args)
        out, _ = outcome(PeaksSuite.plot_statistics, ax, *args, **rng.choice([{}, dict(errorbar_kwargs=dict(color="r"))]))
        line, bars = [], []
        if out == "ok" and ax.containers:
            c = ax.containers[0]
            line = [[q(a), q(b)] for a, b in zip(*c.lines[0].get_data())] if c.lines[0] is not None else []
            bars = [sorted([q(s[0][1]), q(s[1][1])]) for coll in c.lines[2] for s in coll.get_segments()]
        ev.append(dict(op=dict(name="statistics", out=out), means=[list(p) for p in zip(xs, means)], sd=sd, line=line, bars=bars, kept=all(np.array_equal(a, b) for a, b in zip(args, args0))))
        plt.close("all")
    for _ in range(ctx.n(40, 500)):
        nf, nv = rng.randint(2, 5), rng.randint(2, 5)
        t = rng.choice([FDBF, PhaseShift, SlantStack])(np.arange(1., nf + 1) * 3, 100. + 50 * np.arange(nv), np.array([[rng.randint(1, 30) + .5 for _ in range(nf)] for _ in range(nv)]))
        has = rng.random() < .8
        m = rng.randint(1, 6)
        want = [[i * 2, rng.randint(0, 50)] for i in range(1, m + 1)]
        if has:
            t.snr_frequencies, t.snr = np.array([p[0] for p in want], float), np.array([p[1] for p in want], float)
        kw, ax = {}, None
        if rng.random() < .5:
            fig, ax = plt.subplots()
            kw["ax"] = ax
        p0 = t.power.copy()
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                v, out = t.plot_snr(**kw), "ok"
            except Exception as ex:
                v, out = None, type(ex).__name__
        if ax is None and v is not None:
            ax = v[1]
        lines = [[[q(a), q(b)] for a, b in zip(*line.get_data())] for line in ax.lines] if ax is not None else []
        ev.append(dict(op=dict(name="snr", out=out), has=has, want=want, lines=lines, titles=titled([ax] if has and ax is not None else []), warned=any(issubclass(w.category, UserWarning) for w in ws), kept=np.array_equal(t.power, p0)))
        plt.close("all")
        dtid, ss, src = rand_array(rng)
        t.array = Array1D([mk_sensor(s) for s in ss], Source(src * U, 0, 0))
        pre = project_array(t.array, dtid)
        offs = sum(abs(src - s["x"]) for s in ss)
        if offs == 0:
            continue
        near = rng.randint(1, 3)
        fig, ax = plt.subplots()
        out, _ = outcome(t.plot, fig=fig, ax=ax, nearfield=near, peaks="none")
        lines = [line for line in ax.lines]
        e = dict(op=dict(name="nearfield", out=out), nf=2 * near * len(ss), acd=offs, line=[], span=[30, 30 * nf], titles=titled([ax]), kept=project_array(t.array, dtid) == pre)
        if len(lines) == 1:
            e["line"] = [[sc(a, 10), sc(b, 10)] for a, b in zip(*lines[0].get_data())]
        ev.append(e)
        plt.close("all")


@contextlib.contextmanager
def fewer_layouts(rng):
    """Laying a figure out is slow and no part of the property: do it now and then only."""
    real = matplotlib.figure.Figure.tight_layout
    matplotlib.figure.Figure.tight_layout = lambda self, **kw: real(self, **kw) if rng.random() < .15 else None
    try:
        yield
    finally:
        matplotlib.figure.Figure.tight_layout = real


def p35(ctx):
    with quiet(), fewer_layouts(ctx.rng):
        edges = ctx.graph("MC_Plot", CFG % (2, ctx.n(2, 3)))
        ctx.rng.shuffle(edges)
        ctx.replay_graph(edges, PlotAdapter(ctx.rng), walks=ctx.n(10, 100), depth=4, edge_cap=ctx.n(350, 8000))
        ev = []
        suites(ctx, ev)
        falls(ctx, ev)
        schematics(ctx, ev)
        others(ctx, ev)
    ctx.validate("Trace_Plot", ev)
