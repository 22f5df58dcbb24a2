"""P06-P08, P31: Array1D against spec/Array.tla."""
import math
import numpy as np
from swprocess import Sensor1C, Array1D, Source
from common import Adapter, q, sc, BAD, outcome, quiet, isnum
from p_timeseries import DTS, project_part, same, NONE

U = 0.5       # metres per position unit
O = 0.        # where positions are counted from
G = 1.        # what a unit of amplitude stands for
BIG = 1000000
EMPTY = lambda src: dict(r=dict(NONE), src=src)


class AW:
    def __init__(self, src):
        self.src, self.a, self.dtid = src, None, 1


def mk_sensor(s):
    dt = DTS[s["dt"]]
    return Sensor1C(np.array(s["w"], float) / s["n"] * G, dt, s["x"] * U + O, 0, 0, nstacks=s["n"], delay=s["t0"] * dt / 4)


def project_array(a, dtid, src=None):
    dt = DTS[dtid]
    ps = [project_part(p, dt, G) for p in a.sensors]
    return dict(src=q(a.source.x - O, U), r=dict(
        kind="array", w=[p["w"] for p in ps], t0=same([p["t0"] for p in ps]), delay=same([p["delay"] for p in ps]),
        n=same([p["n"] for p in ps]), mult=same([p["mult"] for p in ps]),
        dt=dtid if all(p["dtok"] for p in ps) else BAD, pos=[q(x - O, U) for x in a.position()]))


def views(a):
    n = a.nchannels
    pos = a.position()
    v = dict(norm=[q(x, U) for x in a.position(normalize=True)], offsets=[q(x, U) for x in a.offsets], nch=n,
             offsum=q(a.array_center_distance * n, U))
    if hasattr(a, "_source_inside"):
        v["inside"] = bool(a._source_inside)
    if n >= 2:
        v["mindiff"] = q(math.pi / a.kres, U)
        out, s = outcome(lambda: a.spacing)
        v["spacing"] = (round(s / U) if isnum(s) and abs(s - round(s / U) * U) < .0051 else BAD) if out == "ok" else (-1 if out == "ValueError" else BAD)
    if hasattr(a, "_flipped_tseries_and_offsets"):
        tm, off = a._flipped_tseries_and_offsets()
        v["near"] = [q(x, U) for x in off]
        v["nearw"] = [[q(x * a[0].nstacks, G) for x in row] for row in tm]
    # every view of the rows agrees with every other
    tm = a.timeseriesmatrix()
    ok = tm.shape == (n, a[0].nsamples) and all(np.array_equal(tm[i], np.atleast_1d(a.sensors[i].amplitude)) and
                                                a[i] is a.sensors[i] and a[i].x == pos[i] for i in range(n))
    if not ok or len(pos) != n:
        v["nch"] = BAD
    return v


def line(r_dtid, ln):
    dt = DTS[r_dtid]
    return None if not ln else ((ln[0] * U + O, ln[1] * dt / 4), (ln[2] * U + O, ln[3] * dt / 4))


def do_array(w, op):
    """Returns fields to merge into op / event."""
    name = op["name"]
    if name == "build":
        w.dtid = op["ss"][0]["dt"]
        sensors = [mk_sensor(s) for s in op["ss"]]
        given = list(sensors)
        out, a = outcome(Array1D, sensors, Source(w.src * U + O, 0, 0))
        if out == "ok":
            w.a = a
        if [id(s) for s in given] != [id(s) for s in sensors]:
            out = "caller's list changed"
        return dict(out=out)
    a = w.a
    if name == "offsets":
        hi = math.inf if op["hi"] == BIG else op["hi"] * U
        return dict(out=outcome(a.trim_offsets, op["lo"] * U, hi)[0])
    if name == "mute":
        kw = {}
        al = op.get("alpha", 0)
        if al != "default":
            kw = dict(window_kwargs=dict(alpha=al / 100) if al >= 0 else {"sym": True} if al == -2 else {})     # scipy's own taper: a half
            if op.get("sym") is False:
                kw["window_kwargs"]["sym"] = False
        return dict(out=outcome(a.mute, signal_start=line(w.dtid, op["sl"]), signal_end=line(w.dtid, op["el"]), **kw)[0])
    dt = DTS[w.dtid]
    if name == "trim":
        t = np.atleast_1d(a[0].time)

        def b(v):
            v = v * dt / 4
            for x in (t[0], t[-1]):
                if abs(x - v) < 1e-7 * dt:
                    return float(x)
            return v
        return dict(out=outcome(a.trim, b(op["a"]), b(op["b"]))[0])
    if name == "pad":
        return dict(out=outcome(a.zero_pad, 1 / (op["target"] * dt))[0])
    raise AssertionError(name)


class ArrAdapter(Adapter):
    def init(self, s):
        return AW(s["a"]["src"])

    def apply(self, w, op):
        r = do_array(w, op)
        if op["name"] == "build" and r["out"] == "ok":
            v = views(w.a)
            if op["out"] == "ok" and any(v[f] != op["views"][f] for f in v):
                bad = [f for f in v if v[f] != op["views"][f]]
                r["views"] = {f: v[f] for f in bad}
        return r

    def project(self, w):
        return dict(a=project_array(w.a, w.dtid) if w.a is not None else EMPTY(w.src))


def mc(ctx, positions, sources, lens, delays, sizes, ops, steps, spoil, walks=100, cap=None):
    st = lambda xs: "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + "}"
    m = "Off == 0"
    cfg = f"""SPECIFICATION Spec
CONSTANTS Positions = {st(positions)} Sources <- {sources} Lens = {st(lens)} Delays = {st(delays)} Sizes = {st(sizes)}
 OpNames = {st(ops)} MaxSteps = {steps} Spoil = {"TRUE" if spoil else "FALSE"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS InvSorted InvSelect InvMute
PROPERTIES PropAssoc
CHECK_DEADLOCK FALSE
"""
    edges = ctx.graph("MC_ArrayV", cfg)
    ctx.replay_graph(edges, ArrAdapter(), walks=walks, depth=steps, edge_cap=cap or ctx.n(30000, 300000))


def tukey(L, alpha):
    """Tapered-cosine window by its definition (symmetric)."""
    if L <= 0:
        return []
    if L == 1 or alpha <= 0:
        return [1.0] * L
    if alpha >= 1:
        return [0.5 - 0.5 * math.cos(2 * math.pi * i / (L - 1)) for i in range(L)]
    out = []
    width = int(math.floor(alpha * (L - 1) / 2.0))
    for i in range(L):
        if i <= width:
            v = 0.5 * (1 + math.cos(math.pi * (-1 + 2.0 * i / alpha / (L - 1))))
        elif i < L - width - 1:
            v = 1.0
        else:
            v = 0.5 * (1 + math.cos(math.pi * (-2.0 / alpha + 1 + 2.0 * i / alpha / (L - 1))))
        out.append(v)
    return out


def lidx(t0, ln, x):
    dx0 = ln[2] - ln[0]
    s = -1 if dx0 < 0 else 1
    dx = s * dx0
    num = (ln[1] - t0) * dx + s * (ln[3] - ln[1]) * (x - ln[0])
    return num // (4 * dx), num % (4 * dx) == 0


def rand_build(rng, maxn=8, maxlen=24, minn=1, spoil=True, amp=50, dts=None, detr=False, frac=False, long=False, far=False):
    n = rng.randint(minn, maxn)
    xs = rng.sample(range(-30, 31), n)
    if rng.random() < .4:
        st, x0 = rng.randint(1, 6), rng.randint(-20, 5)
        xs = [x0 + st * i for i in range(n)]
        if far and rng.random() < .4:       # wide spacings which may differ by a single unit
            st = rng.randint(50, 900)
            xs = [x0 + st * i for i in range(n)]
            if rng.random() < .7:
                xs[rng.randrange(n)] += rng.choice([-1, 1])
        if rng.random() < .7:
            rng.shuffle(xs)
    L = rng.randint(2 if not detr else 4, maxlen)
    d = -4 * rng.choice([0, 0, 1, rng.randint(0, L)]) - (rng.choice([0, 0, 1, 2, 3]) if frac else 0)
    ns = rng.choice([1, 1, 3, 10])
    if long:
        L, ns, amp = rng.randint(11, 18), 1, 20
    dt = rng.choice(dts or list(DTS))
    ss = [dict(x=x, w=[ns * rng.randint(-amp, amp) for _ in range(L)], n=ns, t0=d, dt=dt) for x in xs]
    if detr:
        for s in ss:    # quiet start then a pulse, plus a trend
            p, tr = rng.randint(0, L - 1), rng.randint(-2, 2) if not long else rng.randint(-1, 1)
            s["w"] = [ns * (tr * i + (0 if i < p else rng.randint(-amp, amp))) for i in range(L)]
    if spoil and rng.random() < .25 and n > 1:
        k = rng.randrange(n)
        how = rng.choice(["dup", "n", "t0", "dt", "len"])
        if how == "dup":
            ss[k]["x"] = ss[k - 1]["x"]
        elif how == "n":
            ss[k]["n"] += 1
        elif how == "t0":
            ss[k]["t0"] -= rng.choice([1, 4])
        elif how == "dt":
            ss[k]["dt"] = rng.choice([x for x in DTS if x != dt])
        else:
            ss[k]["w"] = ss[k]["w"] + [1]
    u = rng.random()
    src = rng.choice([min(xs) - rng.randint(1, 20), max(xs) + rng.randint(1, 20), rng.randint(min(xs), max(xs)),
                      rng.choice([min(xs), max(xs)])])
    return ss, src


def histories(ctx, ntraces, weights, length=5, detr=False, maxlen=24, dyadic=False):
    global U, O, G
    rng, events = ctx.rng, []
    for tid in range(ntraces):
        if ctx.left() < 10:
            break
        U = rng.choice([.5, .5, .25, 2, 8, 1000, 1 / 64])       # exact in binary; the last is finer than spacings are reported
        G = rng.choice([1., 1., 2.**-40, 2.**50])
        O = rng.choice([0., 0., 621000., -4512345.5])       # a local or a geodetic origin
        dts = [1, 2] if dyadic else None
        long = detr and rng.random() < .35      # more samples than the initial level is taken from
        ss, src = rand_build(rng, maxlen=10 if detr else maxlen, detr=detr, dts=dts, amp=20 if detr else 50, long=long,
                             spoil=not detr and "build" in weights, frac="mute" in weights, far=weights.get("mute", 0) < 1)
        w = AW(src)
        op = dict(name="build", ss=ss, src=src)
        op.update(do_array(w, op))
        seq = 1
        cur = project_array(w.a, w.dtid) if w.a is not None else EMPTY(src)
        events.append(dict(tid=tid, seq=seq, op=op, pre=EMPTY(src), post=cur,
                           views=views(w.a) if op["out"] == "ok" else dict(nch=0)))
        if op["out"] != "ok":
            continue
        for _ in range(rng.randint(1, length)):
            name = rng.choices(list(weights), list(weights.values()))[0]
            r = cur["r"]
            N = len(r["w"][0])
            last = r["t0"] + 4 * (N - 1)
            op, extra = dict(name=name), {}
            if name == "build":
                continue
            if name == "offsets":
                offs = sorted(abs(src - x) for x in r["pos"])
                c = offs + [offs[0] - 1, offs[-1] + 1, 0, 3]
                lo, hi = rng.choice(c + [-1]), rng.choice(c + [BIG])
                if lo > hi and rng.random() < .8:
                    lo, hi = hi, lo
                op.update(lo=lo, hi=hi)
            elif name == "trim":
                if N < 4:
                    continue
                i, j = sorted(rng.sample(range(N), 2))
                op.update(a=r["t0"] + 4 * i, b=r["t0"] + 4 * j)
                if rng.random() < .15:
                    op.update(b=last + 4)
            elif name == "pad":
                op.update(target=rng.choice([N, N + 3, max(2, N // 2), rng.randint(2, 30)]))
            elif name == "mute":
                def ln(lo, hi):
                    for _ in range(30):
                        x1, x2 = rng.sample(range(-20, 21), 2)
                        if w.dtid in (1, 2):
                            dx = rng.choice([1, 2, 4, 8, 16, -2, -8])
                            x2 = x1 + dx
                        sl = rng.choice([0, 0, rng.randint(-8, 8)])
                        t1 = r["t0"] + rng.randint(4 * lo, 4 * hi)
                        L = [x1, t1, x2, t1 + sl]
                        ids = [lidx(r["t0"], L, x) for x in r["pos"]]
                        if w.dtid not in (1, 2) and any(e for _, e in ids):
                            continue
                        if all(lo <= i <= hi and (i >= 0 or e) for i, e in ids):
                            return L, [i for i, _ in ids]
                    return None, None
                wide = rng.choice([0, 0, 0, 2, N])      # lines may leave the record
                sl, si = ([], None) if rng.random() < .25 else ln(-wide, N + wide)
                el, ei = ([], None) if rng.random() < .25 else ln(-wide, N + wide)
                if sl is None or el is None:
                    continue
                si = si or [0] * len(r["pos"])
                ei = ei or [N - 1] * len(r["pos"])
                if any(a > b for a, b in zip(si, ei)):
                    if not sl or not el:
                        continue
                    sl, el, si, ei = el, sl, ei, si
                    if any(a > b for a, b in zip(si, ei)):
                        continue
                al = rng.choice([0, 0, 0, "default", 20, 50, 100, 37, -1, -2])
                op.update(sl=sl, el=el, alpha=al)
                if al not in (0, "default", -2) and rng.random() < .3:
                    op["sym"] = False
            elif name == "matrix":
                op.update(detrend=rng.random() < .6, norm=rng.choice(["none", "each", "all"]))
                if r["n"] * max(abs(x) for c in r["w"] for x in c) > 500 or N > 10:
                    continue
            elif name == "pick":
                if N > 20:
                    continue
                op.update(th=rng.choice([1, 5, 5, 10, 20, 40]))
            pre = cur
            if name == "matrix":
                from scipy import signal as _s
                o, m = outcome(w.a.timeseriesmatrix, detrend=op["detrend"], normalize=op["norm"])
                op["out"] = o
                # a trace that is identically zero after detrending has no maximum to divide by
                if o == "ok" and not np.all(np.isfinite(m)):
                    continue
                if o == "ok" and op["norm"] == "none":
                    m = m / G
                if op["detrend"]:
                    # exact zero after detrending is only zero up to rounding: skip degenerate rows
                    d = np.atleast_2d(_s.detrend(np.array(r["w"], float)))
                    if np.any(np.max(np.abs(d), axis=1) < 1e-6):
                        continue
                extra["m"] = [[sc(x, 1000) for x in row] for row in m] if o == "ok" else []
            elif name == "pick":
                from scipy import signal as _s
                d = np.atleast_2d(_s.detrend(np.array(r["w"], float)))
                if np.any(np.max(np.abs(d), axis=1) < 1e-6):
                    continue
                kw = {} if op["th"] == 5 and rng.random() < .5 else dict(threshold=op["th"] / 100)
                o, p = outcome(w.a.auto_pick_first_arrivals, **kw)
                op["out"] = o
                extra["pickpos"] = [q(x - O, U) for x in p[0]] if o == "ok" else []
                extra["picks"] = [q(x, DTS[w.dtid] / 4, 1e-5) for x in p[1]] if o == "ok" else []
            else:
                op.update(do_array(w, op))
            try:
                cur = project_array(w.a, w.dtid)
                if name in ("offsets",):
                    extra["views"] = views(w.a)
            except Exception as ex:
                ctx.violation(f"array unreadable after {op}: {ex!r}", dict(pre=pre, op=op))
                break
            if name == "mute" and op["alpha"] != 0:
                al = 0.2 if op["alpha"] == "default" else 0.5 if op["alpha"] < 0 else op["alpha"] / 100
                op["alpha"] = 1
                odd = op.pop("sym", True) is False      # a periodic window: one longer, without its last value
                extra["win"] = [[sc(x, 20000) for x in (tukey(L + 1, al)[:L] if odd and L > 1 else tukey(L, al))] for L in range(3 * N + 5)]
                m = w.a.timeseriesmatrix() * r["n"] / G
                extra["m"] = [[sc(x, 20000) for x in row] for row in m]
                cur = project_array(w.a, w.dtid)
                seq += 1
                events.append(dict(tid=tid, seq=seq, op=op, pre=pre, post=cur, **extra))
                break       # amplitudes are off the integer grid from here on
            seq += 1
            events.append(dict(tid=tid, seq=seq, op=op, pre=pre, post=cur, **extra))
    for e in events:
        if e["op"]["name"] == "mute":
            e["op"].setdefault("alpha", 0)
    U, O, G = .5, 0., 1.
    ctx.validate("Trace_Array", events)


def p06(ctx):
    mc(ctx, [0, 1, 3, 4], "SrcAll", [2], [0, 4], [1, 2, 3], [], 1, True)
    mc(ctx, [0, 2, 3, 5] + ([7] if ctx.thorough else []), "SrcOut", [2], [0], [4], [], 1, False, walks=0)
    histories(ctx, ctx.n(1500, 15000), dict(build=1, offsets=1), length=2)


def p07(ctx):
    mc(ctx, [0, 1, 3, 4], "SrcAll", [2], [0], [1, 2, 3], ["offsets"], 3, False, cap=ctx.n(12000, 200000))
    histories(ctx, ctx.n(1000, 10000), dict(offsets=6, trim=.5, pad=.5), length=4)


def p08(ctx):
    mc(ctx, [0, 1, 3], "SrcOne", [4], [0, 3, 4], [1, 2], ["mute"], 2, False, cap=ctx.n(20000, 200000))
    mc(ctx, [0, 2], "SrcOne", [5, 6], [0, 8], [2], ["trim", "mute"], 3, False, cap=ctx.n(12000, 200000), walks=300)
    histories(ctx, ctx.n(900, 9000), dict(mute=6, trim=2, offsets=.5, pad=.3), length=4, dyadic=True)
    histories(ctx, ctx.n(500, 5000), dict(mute=6, trim=2, offsets=.5, pad=.3), length=4, maxlen=40)


def p31(ctx):
    histories(ctx, ctx.n(1500, 15000), dict(matrix=4, pick=4, trim=1, offsets=1, mute=.2), length=5, detr=True)
    mc(ctx, [0, 1, 3], "SrcOne", [3], [0, 1], [1, 2], [], 1, False, walks=0)
