"""P30 (interactive picking) against spec/Pick.tla.

The library's own prompts run for real: the event loop of the figure window is replaced by one that plays a script of
mouse and key events."""
import warnings
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.backend_bases import FigureCanvasBase as Base, KeyEvent, MouseEvent
from matplotlib.backends.backend_agg import FigureCanvasAgg as Agg
from swprocess import Array1D, Sensor1C, Source
from swprocess.interact import ginput_session
from common import Adapter, outcome, q, BAD


class Script(BaseException):
    """The user has walked away."""


class User:
    def __init__(self, steps):
        self.steps, self.pos, self.stopped = list(steps), 0, False

    def loop(self, canvas, timeout=0, *a):
        self.stopped = False
        while not self.stopped:
            if self.pos >= len(self.steps):
                raise Script()
            e = self.steps[self.pos]
            if e["name"] == "wait":
                if not timeout or timeout <= 0:
                    raise Script()
                self.pos += 1
                return
            self.pos += 1
            ax = canvas.figure.axes[0]
            b = ax.get_window_extent()
            mid = (b.x0 + b.x1) / 2, (b.y0 + b.y1) / 2
            if e["name"] in ("key", "accept"):
                k = "enter" if e["name"] == "accept" else " "
                canvas.callbacks.process("key_press_event", KeyEvent("key_press_event", canvas, k, *mid))
            else:
                x, y = ax.transData.transform(e["at"]) if e["name"] == "add" else mid
                canvas.callbacks.process("button_press_event", MouseEvent("button_press_event", canvas, x, y, button=3 if e["name"] == "pop" else 1))


def play(fn, steps):
    """fn() with the user's steps; out, value, how many steps were used."""
    u = User(steps)
    old = Base.start_event_loop, Base.stop_event_loop, Agg.draw, Base.draw_idle

    def stop(canvas):
        u.stopped = True
    Agg.draw = Base.draw_idle = lambda *a, **k: None        # nobody looks at the pixels
    Base.start_event_loop = lambda c, timeout=0: u.loop(c, timeout)
    Base.stop_event_loop = stop
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out, v = outcome(fn)
        if out == "ok" and u.pos < len(u.steps):
            out = "early"
    except Script:
        out, v = "waiting", None
    finally:
        Base.start_event_loop, Base.stop_event_loop, Agg.draw, Base.draw_idle = old
        plt.close("all")
    return out, v


def numbers(v, unit):
    try:
        return [q(x, unit, 1e-4) for x in v]
    except TypeError:
        return [BAD]


def run_session(cfg, steps, rng):
    steps = [dict(s, at=s["p"]) if "p" in s else s for s in steps]

    def go():
        fig, ax = plt.subplots()
        ax.set_xlim(-10, 10), ax.set_ylim(*rng.choice([(-10, 10), (10, -10)]))
        kw = {}
        if not cfg["adj"] or rng.random() < .5:
            kw["initial_adjustment"] = cfg["adj"]
        if not cfg["ask"] or rng.random() < .5:
            kw["ask_to_continue"] = cfg["ask"]
        if cfg["npts"] != 1 or rng.random() < .5:
            kw["npts"] = cfg["npts"] if cfg["npts"] < 99 else np.inf
        if rng.random() < .2:
            kw.update(initial_adjustment_message="a", ask_to_continue_message="b")
        return ginput_session(ax, **kw)
    out, v = play(go, steps)
    return (out, numbers(v[0], 1), numbers(v[1], 1)) if out == "ok" else (out, [BAD], [BAD])


class PickAdapter(Adapter):
    def __init__(self, rng):
        self.rng = rng

    def init(self, s):
        return None

    def apply(self, w, op):
        out, xs, ys = run_session(op["cfg"], op["steps"], self.rng)
        return dict(out=out, xs=xs, ys=ys)

    def project(self, w):
        return {}


CFG = """SPECIFICATION Spec
CONSTANTS MaxSteps = %d
 NP = %d
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS InvNeverMore InvDone
PROPERTIES PropOnlyAppends PropStopsEarlyOnlyOnKey
CHECK_DEADLOCK FALSE
"""


def rand_steps(rng, cfg, point, stop_at=99):
    """A user who finishes: steps of one session."""
    st, n = [], 0
    if cfg["adj"]:
        st += [dict(name="click")] * rng.choice([0, 0, 1, 3]) + [dict(name="key")]
    while True:
        size = 0
        while True:
            a = rng.choice(["add", "add", "add", "pop", "accept"])
            st.append(dict(name=a, p=point()) if a == "add" else dict(name=a))
            size = size + 1 if a == "add" else max(0, size - 1) if a == "pop" else size
            if a == "accept" and size:
                break
        n += 1
        if cfg["ask"]:
            st += [dict(name="click")] * rng.choice([0, 0, 1, 2]) + [dict(name="key")]
        if n >= stop_at:
            return st + [dict(name="key")]
        a = rng.choice(["wait", "wait", "click"]) if n < cfg["npts"] or rng.random() < .7 else "key"
        st.append(dict(name=a))
        if n >= cfg["npts"]:
            return st


def rand_array(rng):
    n = rng.choice([2, 3, 5])
    return Array1D([Sensor1C([rng.randint(-4, 4) + (k == 3) for k in range(9)], 0.5, 4.0 * i + rng.choice([0]), 0, 0, delay=0) for i in range(n)],
                   Source(rng.choice([-8, 40]), 0, 0)), n


def p30(ctx):
    rng, ev = ctx.rng, []
    edges = ctx.graph("MC_Pick", CFG % ((6, 2) if not ctx.thorough else (9, 3)))
    rng.shuffle(edges)
    ctx.replay_graph(edges, PickAdapter(rng), walks=0, edge_cap=ctx.n(500, 8000))
    for tid in range(ctx.n(200, 3000)):
        if ctx.left() < 30:
            break
        kind = rng.choice(["session", "arrivals", "mute"])
        if kind == "session":
            cfg = dict(npts=rng.choice([1, 2, 3, 5, 99]), adj=rng.random() < .5, ask=rng.random() < .5)
            steps = rand_steps(rng, cfg, lambda: [rng.randint(-9, 9), rng.randint(-9, 9)], rng.choice([1, 2, 4]) if cfg["npts"] == 99 or rng.random() < .3 else 99)
            out, xs, ys = run_session(cfg, steps, rng)
            ev.append(dict(op=dict(name=kind, out=out), cfg=cfg, steps=steps, xs=xs, ys=ys))
            continue
        a, n = rand_array(rng)
        ax = rng.choice(["x", "y"])
        # distance in 1 m, time in 1/8 s; both inside the picture
        dist, time = (lambda: rng.randint(-3, 4 * n - 1)), (lambda: rng.randint(1, 31))

        def point():
            d, t = dist(), time()
            return [d, t] if ax == "y" else [t, d]
        at = lambda p: [p[0], p[1] / 8] if ax == "y" else [p[0] / 8, p[1]]
        kw = dict(waterfall_kwargs=dict(time_ax=ax)) if ax != "y" or rng.random() < .5 else {}
        if kind == "arrivals":
            cfg = dict(npts=99, adj=True, ask=True)
            steps = rand_steps(rng, cfg, point, rng.choice([1, 2, 3, 6]))
            out, v = play(lambda: a.manual_pick_first_arrivals(**kw), [dict(s, at=at(s["p"])) if "p" in s else s for s in steps])
            xs, ys = (numbers(v[0], 1), numbers(v[1], 1 / 8)) if out == "ok" else ([BAD], [BAD])
            ev.append(dict(op=dict(name=kind, out=out), cfg=cfg, steps=steps, xs=xs, ys=ys, timeax=ax))
        else:
            cfg = dict(npts=2, adj=False, ask=False)
            where = rng.choice(["before", "after", "both"])
            early = rng.choice([1, 2])
            lines = [rand_steps(rng, cfg, lambda: point()) for _ in range(2 if where == "both" else 1)]
            # the lines must lie within the record, the start line before the end line
            def tidy(ls, lo, hi):
                for s in ls:
                    if "p" in s:
                        s["p"][1 if ax == "y" else 0] = rng.randint(lo, hi)
                        s["p"][0 if ax == "y" else 1] = s["p"][0 if ax == "y" else 1]
            def spread(ls):
                acc, sel = [], []
                for s in ls:
                    if s["name"] == "add":
                        sel.append(s)
                    elif s["name"] == "pop":
                        sel = sel[:-1]
                    elif s["name"] == "accept" and sel:
                        acc.append(sel[-1])
                        sel = []
                for s, d in zip(acc, rng.choice([(0, 4 * n - 4), (4 * n - 4, 0)])):
                    s["p"][0 if ax == "y" else 1] = d
            for ls, (lo, hi) in zip(lines, [(1, 12), (18, 31)] if where != "after" else [(18, 31)]):
                tidy(ls, lo, hi)
                spread(ls)
            steps = sum(lines, [])
            out, v = play(lambda: a.interactive_mute(mute_location=where, **kw), [dict(s, at=at(s["p"])) if "p" in s else s for s in steps])
            line = lambda l: [] if l is None else [[q(p[0], 1, 1e-4), q(p[1], 1 / 8, 1e-4)] for p in l]
            ev.append(dict(op=dict(name=kind, out=out), cfg=cfg, steps=steps, first=len(lines[0]), where=where, timeax=ax,
                           start=line(v[0]) if out == "ok" else [], stop=line(v[1]) if out == "ok" else []))
    ctx.validate("Trace_Pick", ev)
