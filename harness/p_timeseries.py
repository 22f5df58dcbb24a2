"""P01-P05: records (ActiveTimeSeries, Sensor1C, Array1D) against spec/TimeSeries.tla and spec/CrossCorr.tla."""
import itertools
import numpy as np
import obspy
import swprocess
from swprocess import ActiveTimeSeries, Sensor1C, Array1D, Source
from common import Adapter, q, BAD, outcome, quiet, sc, isnum

DTS = {1: 0.125, 2: 0.5, 3: 0.001, 4: 0.002, 5: 0.0005, 6: 0.01, 7: 0.004, 8: 1 / 3000, 9: 2e-5, 10: 1.0}
# what a unit of amplitude stands for: values that no short decimal or single-precision number equals
UNITS = [1.0, 1.0, 1e-9 / 7, 1 / 3, 1e6 * np.pi]


# a unit of position: one that no short decimal equals
PU = 1 + 1.2345e-8


class Rec:
    def __init__(self, kind, obj, dtid, unit=1.0):
        self.kind, self.obj, self.dtid, self.unit = kind, obj, dtid, unit

    @property
    def parts(self):
        return self.obj.sensors if self.kind == "array" else [self.obj]


def place(p):
    """A sensor's position from its code: neighbouring codes differ in one coordinate only."""
    return tuple(PU * v for v in (2.0 * (p // 4), 1.0 + p % 2, 5.0 + p // 2 % 2))


def code(s):
    y, z = q(s.y) - 1, q(s.z) - 5
    return 4 * (q(s.x) // 2) + y + 2 * z if y in (0, 1) and z in (0, 1) and q(s.x) % 2 == 0 else BAD


STYLE = itertools.count()


def record(amp, dt, n, delay):
    """A record, made in one of the ways there are."""
    k = next(STYLE) % 7
    if k >= 4:
        given = [list(amp), np.array(amp), np.repeat(np.array(amp), 2)][k - 4]
        o = ActiveTimeSeries(given[::2] if k == 6 else given, dt, nstacks=n, delay=delay)
        given[:] = [7] * len(given) if k == 4 else 7            # the record keeps its own samples
        return o
    if k == 1:
        return ActiveTimeSeries.from_trace(obspy.Trace(np.array(amp, float), dict(delta=dt)), nstacks=n, delay=delay)
    if k == 2 and n == int(n):
        t = obspy.Trace(np.array(amp, float), dict(delta=dt))
        t.stats.seg2 = obspy.core.AttribDict(STACK=str(int(n)), DELAY=repr(delay))
        return ActiveTimeSeries.from_trace_seg2(t)
    return ActiveTimeSeries(amp, dt, nstacks=n, delay=delay)


def build(r, unit=1.0):
    """Real object for a record in which no operation has been done yet."""
    dt = DTS[r["dt"]]
    amps = [np.array(ch, dtype=float) / r["n"] * unit for ch in r["w"]]
    delay = r["delay"] * dt / 4
    if r["kind"] == "ts":
        o = record(amps[0], dt, r["n"], delay)
    elif r["kind"] == "s1c":
        o = Sensor1C(amps[0], dt, *place(r["pos"][0]), nstacks=r["n"], delay=delay)
    else:
        ss = [Sensor1C(a, dt, PU * p, PU * (3 * p + 1), PU * -p, nstacks=r["n"], delay=delay) for a, p in zip(amps, r["pos"])]
        o = Array1D(ss, Source(-5 * PU, 2 * PU, 3 * PU))
    return Rec(r["kind"], o, r["dt"], unit)


NONE = dict(kind="none", w=[], t0=0, delay=0, n=0, mult=0, dt=0, pos=[])


def same(vals):
    return vals[0] if all(v == vals[0] for v in vals) else BAD


def project_part(p, dt, unit=1.0):
    t = np.atleast_1d(np.array(p.time, dtype=float))
    amp = np.atleast_1d(np.array(p.amplitude, dtype=float))
    tick = dt / 4
    n = p.nstacks if isnum(p.nstacks) else BAD
    t0 = q(t[0], tick, 1e-5)
    if len(t) != len(amp) or p.nsamples != len(amp):
        t0 = BAD
    elif not np.allclose(t, t[0] + np.arange(len(t)) * dt, rtol=0, atol=dt * 1e-5):
        t0 = BAD
    mult = q(p.multiple)
    # The frequency step must belong to the length: df = multiple/(n*dt).
    if abs(p.df * len(amp) * dt - mult) > 1e-9 * max(1, mult):
        mult = BAD
    return dict(w=[q(a * n, unit, 1e-9) for a in amp], t0=t0, delay=q(p.delay, tick, 1e-5), n=q(n), mult=mult,
                dtok=abs(p.dt - dt) < 1e-12)


def project(rec):
    if rec is None:
        return dict(NONE)
    dt = DTS[rec.dtid]
    ps = [project_part(p, dt, rec.unit) for p in rec.parts]
    if rec.kind == "array":
        pos = [q(x) for x in rec.obj.position()]
        if (q(rec.obj.source.x), q(rec.obj.source.y), q(rec.obj.source.z)) != (-5, 2, 3) or \
                any((q(p.y), q(p.z)) != (3 * q(p.x) + 1, -q(p.x)) for p in rec.parts):
            pos = [BAD]
    elif rec.kind == "s1c":
        pos = [code(rec.obj)]
    else:
        pos = []
    return dict(kind=rec.kind, w=[p["w"] for p in ps], t0=same([p["t0"] for p in ps]), delay=same([p["delay"] for p in ps]),
                n=same([p["n"] for p in ps]), mult=same([p["mult"] for p in ps]),
                dt=rec.dtid if all(p["dtok"] for p in ps) else BAD, pos=pos)


def bound(rec, ticks):
    """The time `ticks` quarter steps after time zero, hitting the record's own first/last times exactly."""
    dt = DTS[rec.dtid]
    v = ticks * dt / 4
    t = np.atleast_1d(rec.parts[0].time)
    for x in (t[0], t[-1]):
        if abs(v - x) < 1e-7 * dt:
            return float(x)
    return v


BOGUS = [None, 3, "x", np.arange(4.), [1, 2, 3]]


def do(world, op):
    i, j = op["i"] - 1, op.get("j", 0) - 1
    r = world[i]
    name = op["name"]
    if name == "trim":
        return outcome(r.obj.trim, bound(r, op["a"]), bound(r, op["b"]))[0]
    if name == "pad":
        if op["target"] <= 0:
            df = float(op["target"]) * 0.5
        else:
            df = 1.0 / (op["target"] * DTS[r.dtid]) if not op.get("num") else op["num"] / (op["den"] * DTS[r.dtid])
        return outcome(r.obj.zero_pad, df)[0]
    if name == "stack":
        return outcome(r.obj.stack_append, world[j].obj)[0]
    if name == "bogus":
        from sigpropy import TimeSeries
        bad = BOGUS + [TimeSeries(np.array(r.obj.amplitude), r.obj.dt)]
        if r.kind == "s1c":
            bad.append(ActiveTimeSeries(np.array(r.obj.amplitude), r.obj.dt, nstacks=r.obj.nstacks,
                                        delay=min(0, r.obj.delay)))
        outs = {outcome(r.obj.stack_append, b)[0] for b in bad}
        return outs.pop() if len(outs) == 1 else "mixed"
    if name == "other":
        how = op["how"]
        parts = r.parts
        if how == "write":
            for p in parts:
                p.amplitude[...] = 3.
        elif how == "detrend":
            for p in parts:
                p.detrend()
        elif how == "mute":
            dt = DTS[r.dtid]
            r.obj.mute(signal_start=((0, parts[0].time[0] + 1.5 * dt), (1, parts[0].time[0] + 1.5 * dt)), window_kwargs=dict(alpha=0))
        elif how == "offsets":
            r.obj.trim_offsets(min(r.obj.offsets), 1e9)
        return "ok"
    if name == "copy":
        if r.kind == "ts":
            out, c = outcome(ActiveTimeSeries.from_activetimeseries, r.obj)
        elif r.kind == "s1c":
            if op.get("via") == "ts":
                out, c = outcome(Sensor1C.from_activetimeseries, r.obj, *place(code(r.obj)))
            else:
                out, c = outcome(Sensor1C.from_sensor1c, r.obj)
        else:
            out, c = outcome(Array1D.from_array1d, r.obj)
        if out == "ok":
            world[j] = Rec(r.kind, c, r.dtid, r.unit)
            with quiet():
                eq = (c == r.obj) and (r.obj == c)
            if not eq:
                return "copy-not-equal"
            if r.kind == "array" and not (c.source == r.obj.source and c.source is not r.obj.source):
                return "copy-source-wrong"
        return out
    raise AssertionError(name)


class TSAdapter(Adapter):
    ignore = ("k",)

    def __init__(self, dts=None):
        self.dts = dts

    def init(self, state):
        unit = UNITS[next(STYLE) % len(UNITS)]
        return [build(r, unit) if r["kind"] != "none" else None for r in state["s"]]

    def apply(self, w, op):
        return dict(out=do(w, op))

    def project(self, w):
        return dict(s=[project(r) for r in w])


def mc(ctx, ops, kinds, lens, delays, dts, targets, counts, steps, maxlen, off=True, walks=150):
    st = lambda xs: "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + "}"
    cfg = f"""SPECIFICATION Spec
CONSTANTS Kinds = {st(kinds)} Lens = {st(lens)} Delays = {st(delays)} Dts = {st(dts)} Targets = {st(targets)}
 Counts = {st(counts)} OpNames = {st(ops)} MaxSteps = {steps} MaxLen = {maxlen} Off = {"TRUE" if off else "FALSE"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK InvTrim InvPad InvStack InvFrame
CHECK_DEADLOCK FALSE
"""
    edges = ctx.graph("MC_TimeSeries", cfg)
    ctx.replay_graph(edges, TSAdapter(), walks=walks, depth=steps, edge_cap=ctx.n(18000, 300000))


def rand_rec(rng, kind, dtid, maxlen=30, like=None):
    n = rng.choice([1, 1, 2, 3, 5, 7, 10])
    ln = rng.randint(2, maxlen) if like is None else len(like["w"][0])
    ch = rng.randint(1, 4) if kind == "array" else 1
    d = rng.choice([0, 0, 1, 2, rng.randint(0, ln)])
    delay = -4 * d + rng.choice([0, 0, 0, -1, -2])
    pos = [] if kind == "ts" else sorted(rng.sample(range(-20, 40), ch))
    r = dict(kind=kind, w=[[n * rng.choice([rng.randint(-50, 50), rng.randint(-9, 9), 0]) for _ in range(ln)] for _ in range(ch)],
             t0=delay, delay=delay, n=n, mult=1, dt=dtid, pos=pos)
    if like is not None:
        r.update(t0=like["t0"], delay=like["delay"], pos=like["pos"], dt=like["dt"])
    return r


def histories(ctx, ntraces, length, weights, kinds=("ts", "s1c", "array"), maxlen=30, stackrecs=False):
    """Random histories in the real code, recorded as events for TLC."""
    rng, events = ctx.rng, []
    for tid in range(ntraces):
        if ctx.left() < 10:
            break
        kind = rng.choice(kinds)
        dtid = rng.choice(list(DTS))
        a = rand_rec(rng, kind, dtid, maxlen)
        b = dict(NONE)
        if stackrecs:
            b = rand_rec(rng, kind, dtid, maxlen, like=a)
            u = rng.random()
            if u < 0.10:
                b = rand_rec(rng, kind, dtid, maxlen)
            elif u < 0.2:
                b["dt"] = rng.choice(list(DTS))
            elif u < 0.3:
                b["t0"] = b["delay"] = b["delay"] - rng.choice([1, 4])
            elif u < 0.4:
                b["w"] = [c + [b["n"]] for c in b["w"]]
            elif u < 0.5 and kind == "s1c":
                b["pos"] = [rng.choice([b["pos"][0] ^ 1, b["pos"][0] ^ 2, b["pos"][0] + 4])]
        unit = rng.choice(UNITS)
        world = [build(r, unit) if r["kind"] != "none" else None for r in (a, b)]
        cur = [project(r) for r in world]
        init_bad = [cur[x] != [a, b][x] for x in (0, 1)]
        if any(init_bad):
            ctx.violation("a freshly built record does not report what it was built from", dict(given=[a, b], got=cur))
            continue
        script = []
        if stackrecs and rng.random() < .2 and a["delay"] == b["delay"] and a["dt"] == b["dt"] and len(a["w"][0]) == len(b["w"][0]) > 4:
            # pieces of equal length, that begin (mostly) at different times after the trigger
            N = len(a["w"][0])
            m = rng.randint(1, N - 2)
            s1, s2 = rng.sample(range(N - m), 2)
            if rng.random() < .2:
                s2 = s1
            script = [dict(name="trim", i=x + 1, j=0, a=a["t0"] + 4 * k, b=a["t0"] + 4 * (k + m)) for x, k in ((0, s1), (1, s2))] + \
                     [dict(name="stack", i=x, j=3 - x) for x in rng.choice([(1,), (1, 2), (2, 1)])]
        for seq in range(1, rng.randint(2, length) + 1 + len(script)):
            live = [x for x in (0, 1) if world[x] is not None]
            i = rng.choice(live)
            r, c = world[i], cur[i]
            N = len(c["w"][0])
            name = rng.choices(list(weights), list(weights.values()))[0]
            op = dict(name=name, i=i + 1, j=0)
            if script:
                op = script.pop(0)
            elif name == "trim":
                last = c["t0"] + 4 * (N - 1)

                def pick():
                    u = rng.random()
                    if u < .5:
                        return c["t0"] + 4 * rng.randint(0, N - 1)
                    if u < .7:
                        return rng.choice([c["t0"], last])
                    if u < .9:
                        return c["t0"] + 4 * rng.randint(0, max(0, N - 2)) + rng.choice([1, 3])
                    return rng.choice([c["t0"] - 4, c["t0"] - 1, last + 1, last + 4, last + 40, c["t0"] - 40])
                x, y = pick(), pick()
                if x > y and rng.random() < .8:
                    x, y = y, x
                op.update(a=x, b=y)
                if any((v - c["t0"]) % 4 == 2 for v in (x, y)) or (0 < y - x < 4):
                    continue
            elif name == "pad":
                if rng.random() < .12:
                    op.update(target=rng.choice([0, -1, -3]))
                else:
                    T = rng.choice([N, N + 1, max(1, N - 1), 2 * N, max(1, N // 2), max(1, N // 3), rng.randint(1, 50)])
                    op.update(target=T)
                    if T * ((N + T - 1) // T if N > T else 1) > 120:
                        continue
                    if rng.random() < .25 and T > 2:     # a df for which 1/(df*dt) is not an integer
                        op.update(num=10, den=10 * T + rng.choice([-4, -3, 3, 4]))
            elif name == "stack":
                if len(live) < 2 or kind == "array":
                    continue
                op["j"] = 2 - i if rng.random() < .9 else i + 1
                if max(abs(v) for ch in cur[0]["w"] + cur[1]["w"] for v in ch) > 10 ** 6:
                    continue
            elif name == "bogus":
                if kind == "array":
                    continue
            elif name == "other":
                hows = ["write", "detrend"] + (["mute", "mute", "offsets"] if kind == "array" else [])
                op["how"] = rng.choice(hows)
                if op["how"] == "offsets" and len(c["w"]) < 2 or N < 3 or len(live) < 2:
                    continue
            elif name == "copy":
                op["j"] = 2 - i
                if kind == "s1c" and rng.random() < .4:
                    op["via"] = "ts"
            pre = cur
            op["out"] = do(world, op)
            cur = [project(r) for r in world]
            events.append(dict(tid=tid, seq=seq, op=op, pre=pre, post=cur))
    # a dropped (skipped) draw leaves holes in seq: renumber
    last = None
    for e in events:
        e["seq"] = 1 if e["tid"] != last else prev + 1
        last, prev = e["tid"], e["seq"]
    ctx.validate("Trace_TimeSeries", events)


def p01(ctx):
    mc(ctx, ["trim"], ["ts", "s1c", "array"], [2, 3, 4, 5], [0, 1, 2], [1], [1], [1, 2], 2, 8)
    mc(ctx, ["trim", "copy"], ["ts"], [3, 5], [0, 1], [2], [1], [3], ctx.n(2, 3), 8, off=ctx.thorough)
    histories(ctx, ctx.n(700, 8000), 6, dict(trim=8, pad=1, copy=.5, stack=.5))
    histories(ctx, ctx.n(60, 600), 5, dict(trim=8, pad=1), maxlen=150)


def p02(ctx):
    mc(ctx, ["pad"], ["ts", "s1c", "array"], [2, 3, 4, 5, 6, 7], [0, 1], [1], [0, 1, 2, 3, 4, 5, 6, 8, 9], [1, 2], 2, 18, off=False)
    mc(ctx, ["pad", "trim"], ["ts"], [3, 4], [0, 1], [2], [0, 2, 3, 5], [1], ctx.n(3, 4), 10, off=False)
    histories(ctx, ctx.n(700, 8000), 6, dict(trim=2, pad=8, copy=.5, stack=.5))


def p03(ctx):
    mc(ctx, ["stack", "bogus"], ["ts", "s1c"], [2, 3], [0, 1], [1, 2], [1], [1, 2, 3], 3, 4, off=False)
    mc(ctx, ["stack", "trim", "pad"], ["ts", "s1c"], [3], [0, 1], [1], [4], [1, 3], ctx.n(2, 3), 6, off=False)
    histories(ctx, ctx.n(900, 10000), 7, dict(stack=8, bogus=1, trim=.5, pad=.5, copy=.5),
              kinds=("ts", "s1c"), stackrecs=True)


def p04(ctx):
    mc(ctx, ["copy", "trim", "pad", "stack"], ["ts", "s1c"], [3], [0, 1], [1], [2, 4], [1, 2], ctx.n(2, 3), 6, off=False)
    mc(ctx, ["copy", "trim", "pad"], ["array"], [3, 4], [0, 1], [1], [0, 2, 6], [2], 3, 8, off=False)
    histories(ctx, ctx.n(1000, 10000), 8, dict(copy=4, trim=2, pad=2, stack=2, other=.8))


# ---------------------------------------------------------------- P05 cross-correlation
def cc_build(r):
    dt = DTS[r["dt"]]
    return ActiveTimeSeries(np.array(r["w"], dtype=float), dt, nstacks=r["n"], delay=r["delay"] * dt / 4)


def cc_proj(o, dtid, n=None):
    p = project_part(o, DTS[dtid])
    w = [q(a) for a in np.atleast_1d(o.amplitude)]
    return dict(w=w, n=p["n"], dt=dtid if p["dtok"] else BAD, delay=p["delay"] if p["delay"] == p["t0"] else BAD)


class CCAdapter(Adapter):
    def init(self, s):
        return [cc_build(dict(s["a"], dt=1, delay=0)), cc_build(dict(s["b"], dt=1, delay=0))]

    def apply(self, w, op):
        # crosscorr_shift compares nothing unless told so; the callers exclude length and stack count
        lag, moved = ActiveTimeSeries.crosscorr_shift(w[0], w[1], exclude=("nsamples", "nstacks"))
        so, st = outcome(ActiveTimeSeries.from_cross_stack, w[0], w[1])
        if w[0].nsamples == w[1].nsamples:
            total, n = ([q(x * st.nstacks) for x in np.atleast_1d(st.amplitude)], st.nstacks) if so == "ok" else ([BAD], BAD)
        else:
            total, n = [] if so == "ValueError" else [BAD], w[0].nstacks + w[1].nstacks
        o, c = outcome(ActiveTimeSeries.crosscorr, w[0], w[1])
        return dict(out=dict(corr=[q(x) for x in c] if o == "ok" else [] if o == "ValueError" else [BAD], lag=q(lag), w=[q(x) for x in moved], sum=total, n=n))

    def project(self, w):
        return {k: dict(w=[q(x) for x in np.atleast_1d(o.amplitude)], n=o.nstacks) for k, o in zip("ab", w)}


def p05(ctx):
    cfg = lambda N, NB, n: f"""SPECIFICATION Spec
CONSTANTS N = {N} NB = {NB} Vals <- ValsDef Ns = {n}
ACTION_CONSTRAINT Emit
INVARIANTS InvBest InvSelf InvCorr
CHECK_DEADLOCK FALSE
"""
    for N, NB, n in ((2, 2, "{1, 3}"), (3, 3, "{1, 2}"), (2, 3, "{1, 2}"), (3, 2, "{1, 2}"), (4, 2, "{2}")) + ctx.n((), ((2, 4, "{2}"), (4, 4, "{2}"))):
        edges = ctx.graph("MC_CrossCorrV", cfg(N, NB, n))
        ctx.replay_graph(edges, CCAdapter(), walks=0, edge_cap=ctx.n(6000, 60000))
    rng, events = ctx.rng, []
    for t in range(ctx.n(1500, 15000)):
        N = rng.randint(2, 24) if rng.random() < .97 else rng.randint(40, 100)
        dt = rng.choice(list(DTS))

        def amp():
            u = rng.random()
            if u < .3:
                return [rng.choice([0, 0, 0, 1, -1, 2]) for _ in range(N)]
            if u < .5:     # a pulse
                p, w = rng.randrange(N), [0] * N
                for k, v in enumerate([3, -7, 4]):
                    if p + k < N:
                        w[p + k] = v
                return w
            return [rng.randint(-20, 20) for _ in range(N)]
        a = dict(w=amp(), n=rng.randint(1, 6), dt=dt, delay=-4 * rng.choice([0, 0, 1, 5]))
        b = dict(w=amp(), n=rng.choice([a["n"], rng.randint(1, 6)]), dt=dt, delay=a["delay"])
        if rng.random() < .4:    # b is a moved version of a
            d = rng.randint(-(N - 1), N - 1)
            b["w"] = [a["w"][i - d] if 0 <= i - d < N else 0 for i in range(N)]
        u = rng.random()
        if u < .05:
            b["dt"] = rng.choice([x for x in DTS if x != dt])
        elif u < .1:
            b["delay"] -= rng.choice([1, 4])
        A, B = cc_build(a), cc_build(b)
        name = rng.choice(["shift", "stack", "corr"])
        if (name == "corr" and rng.random() < .4) or (name != "corr" and rng.random() < .15):
            b["w"] = [rng.randint(-20, 20) for _ in range(rng.choice([2, N, max(2, N - 1), N + 1, rng.randint(2, 30)]))]
            B = cc_build(b)
        e = dict(tid=t, seq=1, op=dict(name=name), a=a, b=b, lag=0, w=[], n=0, rdt=a["dt"], rdelay=a["delay"])
        if name == "corr":
            e["op"]["mode"] = rng.choice(["full", "full", "same", "valid"])
            kw = {} if e["op"]["mode"] == "full" and rng.random() < .6 else dict(correlate_kwargs=dict(mode=e["op"]["mode"]))
            e["out"], r = outcome(ActiveTimeSeries.crosscorr, A, B, **kw)
            if e["out"] == "ok":
                e["w"] = [q(x) for x in r]
        elif name == "shift":
            ex = ("nsamples", "nstacks") if rng.random() < .7 or a["n"] != b["n"] else None
            e["op"]["anylen"] = ex is not None
            e["out"], r = outcome(ActiveTimeSeries.crosscorr_shift, A, B, exclude=ex)
            if e["out"] == "ok":
                e["lag"], e["w"] = q(r[0]), [q(x) for x in r[1]]
        else:
            e["out"], r = outcome(ActiveTimeSeries.from_cross_stack, A, B)
            if e["out"] == "ok":
                pr = project_part(r, DTS[a["dt"]])
                e.update(w=pr["w"], n=pr["n"], rdt=a["dt"] if pr["dtok"] else BAD,
                         rdelay=pr["delay"] if pr["delay"] == pr["t0"] else BAD)
        e["a2"], e["b2"] = cc_proj(A, a["dt"]), cc_proj(B, b["dt"])
        e["op"]["out"] = e["out"]
        events.append(e)
    ctx.validate("Trace_CrossCorr", events)
