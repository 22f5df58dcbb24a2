"""P16, P19, P20: wavefield transforms against spec/Transform.tla."""
import copy
import math
import numpy as np
from scipy import special
from swprocess import Sensor1C, Array1D, Source
from swprocess.register import WavefieldTransformRegistry
import swprocess.wavefieldtransforms  # noqa (fills the registry)
from common import Adapter, q, sc, BAD, outcome, quiet

RNAMES = ["fdbf", "fk", "phaseshift", "slantstack"]
LIN = [[12, 6, 4, 3], [6, 3, 2], [2, 1], [3, 1], [5, 2], [4, 3], [7, 5], [3, 2]]
LOG = [[4, 2, 1], [8, 4, 2, 1], [9, 3, 1], [16, 4, 1], [2, 1], [5, 3]]


def settings(fmin, fmax, vmin, vmax, nvel, vspace="linear", weighting="none", steering="plane"):
    return {"transform": "x", "fmin": fmin, "fmax": fmax, "vmin": vmin, "vmax": vmax, "nvel": nvel, "vspace": vspace,
            "fdbf-specific": {"weighting": weighting, "steering": steering}}


def make_array(rows, off, U, dt, side, x0, target=None, order=None):
    """Array whose receivers lie at the offsets off (position units) from the source, on the given side."""
    xs = [x0 + side * o for o in off]
    ss = [Sensor1C(np.array(r, float), dt, x * U, 0, 0) for r, x in zip(rows, xs)]
    if order:
        ss = [ss[i] for i in order]
    a = Array1D(ss, Source(x0 * U, 0, 0))
    if target:
        a.zero_pad(1 / (target * dt))
    return a


def snapshot(a, st):
    return (a.timeseriesmatrix().tobytes(), tuple(a.position()), a.source.x, [(s.dt, s.delay, s.nstacks, s.multiple) for s in a.sensors],
            repr(st))


def run(name, a, st):
    def go():
        T = WavefieldTransformRegistry.create_class(name)
        return T.from_array(a, st)
    return outcome(go)


def pick_M(N, ks):
    for M in (4, 8, 12, 24):
        if all((k * M) % N == 0 for k in ks):
            return M
    return None


def kept(N, f0, f1, mult):
    near = lambda x: min(max((x + 1) // 4, 0), N - 1)
    return list(range(near(f0), near(f1) + 1, mult))


def rand_job(rng, name, impulse, lenient=False):
    T = rng.choice([4, 6, 8, 8, 12, 24])
    mult = rng.choice([1, 1, 2, 3])
    N = T * mult
    if N > 24:
        mult, N = 1, T
    n = rng.randint(2, 4)
    off = sorted(rng.sample(range(1, 9), n))
    vspace = rng.choice(["linear", "log"])
    s = rng.choice(LIN if vspace == "linear" else LOG)
    L = rng.randint(max(2, N - T + 1), N) if mult > 1 else rng.randint(2, T)
    f0 = rng.choice([x for x in range(-1, 4 * N - 3) if x % 4 != 2])
    if name == "phaseshift" or impulse or rng.random() < .4:
        f0 = rng.choice([0, 1, 3, 4, 4 * mult])
    f1 = rng.choice([x for x in range(f0, 4 * N) if x % 4 != 2])
    ks = kept(N, f0, f1, mult)
    M = pick_M(N, ks)
    if M is None or not ks or len(ks) * len(s) > 24:
        return None
    rows = []
    for _ in range(n):
        if impulse:
            r = [0] * L
            r[rng.randrange(L)] = rng.choice([-3, -1, 1, 2, 5])
        else:
            r = [rng.randint(-3, 3) for _ in range(L)]
        rows.append(r)
    return dict(rows=rows, off=off, N=N, mult=mult, f0=f0, f1=f1, M=M, s=s, L=L, T=T, vspace=vspace, ks=ks)


def job_run(rng, j, name, weighting, steering, exact=False):
    U, dt = rng.choice([(1.0, 0.125), (0.5, 0.25), (2.0, 0.001), (1.5, 0.004), (1.0, 0.01), (1 / 3, 0.004), (0.0625 / 7, 0.0005)][:2 if exact else 7])
    side = rng.choice([1, -1])
    order = list(range(len(j["off"])))
    rng.shuffle(order)
    G = 2.0 ** (rng.randint(-45, 45) if rng.random() < .4 else 0)       # counts, volts or metres per second
    a = make_array([[G * x for x in r] for r in j["rows"]], j["off"], U, dt, side, rng.randint(-20, 20), j["T"] if j["N"] != j["L"] or j["mult"] > 1 else None, order)
    assert a[0].nsamples == j["N"] and a[0].multiple == j["mult"]
    df = 1 / (j["N"] * dt)
    vel = [j["M"] * U / (j["N"] * dt * x) for x in j["s"]]
    st = settings(j["f0"] / 4 * df, j["f1"] / 4 * df, vel[0], vel[-1], len(vel), j["vspace"], weighting, steering)
    if weighting == "none" and steering == "plane" and rng.random() < .2 and name != "fk":
        del st["fdbf-specific"]
    st0 = copy.deepcopy(st)
    before = snapshot(a, st)
    out, t = run(name, a, st)
    deg = 0 if name == "phaseshift" or (name == "fdbf" and weighting == "invamp") else 1 if name == "slantstack" else 2
    if out == "ok":
        t.power = np.asarray(t.power) / G ** deg
    return dict(U=U, dt=dt, vel=vel, out=out, t=t, untouched=snapshot(a, st) == before and st == st0, a=a)


def ids(t, N, dt):
    return [q(f, 1 / (N * dt), 1e-6) for f in t.frequencies]


def jobj(j, weighting):
    rows = [r + [0] * (j["N"] - len(r)) for r in j["rows"]]
    return dict(rows=rows, off=j["off"], N=j["N"], mult=j["mult"], f0=j["f0"], f1=j["f1"], M=j["M"], s=j["s"], weighting=weighting)


def power_event(rng, name, tid, weighting=None):
    weighting = weighting or (rng.choice(["none", "sqrt", "invamp"]) if name in ("fdbf", "fk") else "none")
    eff = weighting if name == "fdbf" else "none"
    exact = False
    impulse = name == "phaseshift" or eff == "invamp"
    j = rand_job(rng, name, impulse)
    if j is None:
        return None
    tot = sum(sum(abs(x) for x in r) * (o if eff == "sqrt" else 1) for r, o in zip(j["rows"], j["off"]))
    if name == "slantstack":
        lag = max(j["s"]) * (j["off"][-1] - j["off"][0]) * j["N"] // j["M"]
        if j["N"] - lag - 1 < 1:
            return None
        if (max(j["s"]) * (j["off"][-1] - j["off"][0]) * j["N"]) % j["M"] == 0:
            # the longest delay is a whole number of samples: only where floats are exact
            if j["N"] != j["M"] or j["N"] & (j["N"] - 1) or max(j["s"]) & (max(j["s"]) - 1):
                return None
            exact = True
        l1 = 2 * j["M"] * (j["off"][-1] - j["off"][0]) * sum(sum(abs(x) for x in r) for r in j["rows"])
    elif name == "phaseshift":
        l1 = (2 * (j["off"][-1] - j["off"][0])) ** 2
    elif eff == "invamp":
        l1 = len(j["off"]) ** 2
    else:
        l1 = tot ** 2
    S = next((x for x in (10000, 1000, 100, 10) if l1 * x < 1.9e9), None)
    if S is None:
        return None
    steering = "plane" if name != "fk" else rng.choice(["plane", "cylindrical"])
    r = job_run(rng, j, name, weighting, steering, exact)
    op = dict(kind="power", name=name, out=r["out"])
    e = dict(tid=tid, op=op, job=jobj(j, eff), untouched=r["untouched"], sc=S, ks=[], power=[], imag=[], shape=[0, 0])
    if r["out"] == "ok":
        t = r["t"]
        p = np.asarray(t.power)
        e["ks"] = ids(t, j["N"], r["dt"])
        e["shape"] = list(p.shape)
        U = r["U"]
        if name in ("fdbf", "fk"):
            p = p / (U * U if eff == "sqrt" else 1)
            tol = 1e-6 * (1 + np.abs(p).max())
            e["power"] = [[sc(x, S) for x in row] for row in p.real]
            e["imag"] = [[int(abs(x) > tol) for x in row] for row in np.imag(p)]
        elif name == "phaseshift":
            e["power"] = [[sc((2 * x / U) ** 2, S) for x in row] for row in p]
        else:
            p = p * 2 * j["M"] / U
            e["power"] = [[sc(x, S) for x in row] for row in p.real]
            e["imag"] = [[sc(x, S) for x in row] for row in p.imag]
        if not np.all(np.isfinite(p)):
            e["op"]["out"] = "not finite"
    return e


def tabled_event(rng, tid, name=None):
    name = name or rng.choice(["fdbf", "fdbf", "fdbf", "phaseshift"])
    weighting = rng.choice(["none", "sqrt", "invamp"])
    steering = rng.choice(["plane", "cylindrical", "cylindrical"]) if name == "fdbf" else "plane"
    unit = name == "phaseshift" or weighting == "invamp"
    j = rand_job(rng, name, False)
    if j is None or 0 in j["ks"]:
        return None
    F = np.fft.fft(np.array([r + [0] * (j["N"] - len(r)) for r in j["rows"]], float), axis=1)[:, j["ks"]]
    wt = np.array(j["off"]) if (weighting == "sqrt" and name == "fdbf") else np.ones(len(j["off"]))
    if unit and np.abs(F).min() < 2:
        return None
    big = (np.abs(F) * wt[:, None]).sum(axis=0).max()
    if not unit and big > 300:
        return None
    r = job_run(rng, j, name, weighting, steering)
    U, dt, N = r["U"], r["dt"], j["N"]
    # any velocity will do here: the phases are supplied
    steer = []
    for v in r["vel"]:
        row = []
        for k in j["ks"]:
            cell = []
            for o in j["off"]:
                kx = 2 * math.pi * k / (N * dt) * o * U / v
                if steering == "cylindrical" and name == "fdbf":
                    h = complex(special.j0(kx), special.y0(kx))
                    z = h.conjugate() / abs(h)
                else:
                    z = complex(math.cos(kx), -math.sin(kx))
                cell.append([sc(z.real, 1000), sc(z.imag, 1000)])
            row.append(cell)
        steer.append(row)
    op = dict(kind="tabled", name=name, out=r["out"])
    e = dict(tid=tid, op=op, job=jobj(j, weighting if name == "fdbf" else "none"), untouched=r["untouched"], unit=unit,
             steer=steer, ks=[], power=[], steering=steering)
    span = (j["off"][-1] - j["off"][0]) if name == "phaseshift" else len(j["off"])
    e["tol"] = int(12 * span + 10) if unit else int(0.004 * 100 * big + 2 * sum(wt) + 6)
    if r["out"] == "ok":
        t = r["t"]
        p = np.abs(np.asarray(t.power))
        e["ks"] = ids(t, N, dt)
        if p.shape != (len(j["s"]), len(e["ks"])):
            e["op"]["out"] = "shape"
        p = p / U if name == "phaseshift" else np.sqrt(p) / (U if (weighting == "sqrt") else 1)
        e["power"] = [[sc(x, 1000 if unit else 100) for x in row] for row in p]
    return e


def axes_event(rng, tid):
    name = rng.choice(RNAMES + ["empty"])
    dt = rng.choice([0.125, 0.001, 0.002, 0.004])
    T = rng.randint(8, 400)
    L = rng.choice([T, rng.randint(4, T), rng.randint(T, 3 * T)])
    pad = L != T or rng.random() < .3
    N = L if not pad else (T if L <= T else T * math.ceil(L / T))
    mult = N // T if pad else 1
    if mult == 1 and not pad:
        T = N
    a = make_array([[rng.randint(-9, 9) + (i == 3) * 30 for i in range(L)] for _ in range(2)], [1, 2], 0.01, dt, rng.choice([1, -1]), 3,
                   T if pad else None)
    f0 = rng.choice([x for x in range(-1, 4 * N - 3) if x % 4 != 2])
    f1 = rng.choice([x for x in range(f0, min(4 * N + 9, f0 + 4 * 20 * mult)) if x % 4 != 2])
    df = 1 / (N * dt)
    nvel = rng.choice([2, 3, 5, 11, 30])
    vmin = rng.choice([10, 37.5, 100, 250])
    ratio = rng.choice([1.5, 3, 10])
    vspace = rng.choice(["linear", "log", "lin", "logarithmic"])
    st = settings(f0 / 4 * df, f1 / 4 * df, vmin, vmin * ratio, nvel, vspace)
    out, t = run(name, a, st)
    e = dict(tid=tid, op=dict(kind="axes", name=name, out=out), job=dict(N=N, f0=f0, f1=f1, mult=mult), nvel=nvel, vmin=1000,
             vmax=int(1000 * ratio), vspace="linear" if vspace.startswith("lin") else "log", ks=[], vels=[], shape=[0, 0])
    if out == "ok":
        e["ks"] = ids(t, N, dt)
        e["vels"] = [sc(v, 1000 / vmin) for v in t.velocities]
        e["shape"] = list(np.asarray(t.power).shape)
        if name == "empty" and np.any(np.asarray(t.power) != 0):
            e["op"]["out"] = "not empty"
    return e


def same_event(rng, tid):
    name = rng.choice(RNAMES)
    weighting = rng.choice(["none", "sqrt", "invamp"])
    steering = rng.choice(["plane", "cylindrical"])
    n, N, dt = rng.randint(2, 6), rng.randint(16, 60), rng.choice([0.002, 0.001, 0.004])
    off = sorted(rng.sample(range(3, 60), n))
    rows = [[rng.gauss(0, 1) + 5 * (t == rng.randrange(N)) for t in range(N)] for _ in range(n)]
    U = 0.37
    span = (off[-1] - off[0]) * U
    vmin = span / (0.6131 * N * dt) * rng.uniform(1.0, 3.0)
    lagmax = span / vmin / dt
    if abs(lagmax - round(lagmax)) < .02:
        return None
    st = settings(1 / (N * dt) * rng.choice([1, 2, 3]), .5 / dt * rng.uniform(.4, 1), vmin, vmin * rng.uniform(2, 8), rng.randint(2, 9),
                  rng.choice(["linear", "log"]), weighting, steering)
    side, x0 = rng.choice([1, -1]), rng.randint(-30, 30)
    how = rng.choice(["moved", "mirrored", "permuted", "scaled", "rescaled"])
    a = make_array(rows, off, U, dt, side, x0)
    c, order, rows2, ten = 1, None, rows, 0
    if how == "moved":
        x0 += rng.choice([1, -40, 100, 1000])
    elif how == "mirrored":
        side = -side
    elif how == "permuted":
        order = list(range(n))
        rng.shuffle(order)
    elif how == "rescaled":
        ten = rng.choice([-12, -9, -6, -4, -2, 3, 6, 9])
        rows2 = [[10.0 ** ten * x for x in r] for r in rows]
    else:
        c = rng.choice([2, 3, -1, -2, 5])
        rows2 = [[c * x for x in r] for r in rows]
    b = make_array(rows2, off, U, dt, side, x0, None, order)
    o1, t1 = run(name, a, copy.deepcopy(st))
    o2, t2 = run(name, b, copy.deepcopy(st))
    e = dict(tid=tid, op=dict(kind="same", name=name, how=how, out=o1 if o1 != "ok" else o2), c=c, weighting=weighting, p0=[], p1=[], pick1=[], m1=0, ten=ten, ml=0)
    if e["op"]["out"] == "ok":
        p0, p1 = np.abs(np.asarray(t1.power)), np.abs(np.asarray(t2.power))
        m0, m1 = p0.max(), p1.max()
        e["p0"] = [[sc(x / m0, 10000) for x in r] for r in p0]
        e["p1"] = [[sc(x / m1, 10000) for x in r] for r in p1]
        e["m1"] = sc(m1 / m0, 1000) if how != "rescaled" else 0
        e["ml"] = sc(math.log10(m1 / m0), 1000)
        e["pick1"] = [1 + int(np.argmin(np.abs(t2.velocities - v))) for v in t2.find_peak_power()]
    return e


def wave(rng, off, M, s, s0, U, dt, side, x0, name, steering="plane", vspace="linear"):
    """A pulse crossing the array at the velocity of slowness number s0, as (outcome, transform, ks)."""
    K = rng.choice([2, 3])
    P = [rng.choice([-2, -1, 1, 2, 3]) for _ in range(K)]
    dmax = off[-1] * max(s)
    # the record length is a multiple of M, so that frequency f*m of the record is index f of the job
    m = (3 * dmax + K + 2) // M + 1
    N = m * M
    rows = []
    for o in off:
        r = [0] * N
        for i, x in enumerate(P):
            r[dmax + i + o * s0] += x
        rows.append(r)
    a = make_array(rows, off, U, dt, side, x0)
    spec = np.abs(np.fft.fft(P, n=M))
    df = 1 / (M * dt)
    vel = [U / (dt * x) for x in s]
    st = settings(1 * df, (M - 1) * df, vel[0], vel[-1], len(s), vspace, "none", steering)
    out, t = run(name, a, st)
    return out, t, vel, spec, N, dt


def wave_picks(t, vel, spec, M, dt):
    ks, picks = [], []
    pk = t.find_peak_power()
    for f, v in zip(t.frequencies, pk):
        k = f * M * dt
        if abs(k - round(k)) < 1e-6 and 1 <= round(k) < M and spec[int(round(k))] > .2:
            ks.append(int(round(k)))
            picks.append(1 + int(np.argmin(np.abs(np.array(vel) - v))))
    return ks, picks


def wave_event(rng, tid):
    M = rng.choice([8, 12, 24])
    vspace = rng.choice(["linear", "log"])
    s = rng.choice(LIN if vspace == "linear" else LOG)
    n = rng.randint(2, 4)
    off = sorted(rng.sample(range(1, 7), n))
    s0 = rng.choice(s)
    name = rng.choice(RNAMES)
    out, t, vel, spec, N, dt = wave(rng, off, M, s, s0, 0.5, rng.choice([0.125, 0.001, 0.004]), rng.choice([1, -1]), rng.randint(-9, 9), name,
                                    "plane", vspace)
    e = dict(tid=tid, op=dict(kind="wave", name=name, out=out), job=dict(off=off, s=s, M=M), s0=s0, ks=[], picks=[])
    if out == "ok":
        e["ks"], e["picks"] = wave_picks(t, vel, spec, M, dt)
    return e


def collect(ctx, n, make):
    ev, tries = [], 0
    while len(ev) < n and tries < 40 * n and ctx.left() > 20:
        tries += 1
        e = make(ctx.rng, len(ev))
        if e:
            ev.append(e)
    ctx.validate("Trace_Transform", ev)


class JobAdapter(Adapter):
    def __init__(self, rng):
        self.rng, self.i = rng, 0

    def init(self, s):
        return dict(job=0)

    def apply(self, w, op):
        self.i += 1
        w["job"] = {k: op[k] for k in op if k not in ("name", "ks", "good")}
        if op["name"] == "kept":
            N, mult, dt = op["N"], op["mult"], 0.25
            T = N // mult
            L = self.rng.randint(N - T + 1, N) if mult > 1 else self.rng.randint(2, T)
            a = make_array([[self.rng.randint(1, 5) for _ in range(L)] for _ in range(2)], [1, 2], 1e-3, dt, 1, 0, T)
            st = settings(op["f0"] / 4 / (N * dt), op["f1"] / 4 / (N * dt), 100, 200, 2)
            # one transform's frequencies and the power columns' positions
            name = ["empty", "fdbf", "phaseshift", "slantstack"][self.i % 4]
            out, t = run(name, a, st)
            if out != "ok":
                return dict(ks=out)
            if np.asarray(t.power).shape != (2, len(op["ks"])):
                return dict(ks="shape")
            return dict(ks=ids(t, N, dt))
        name = RNAMES[self.i % 4]
        out, t, vel, spec, N, dt = wave(self.rng, op["off"], op["M"], op["s"], op["s0"], 1.0, 0.125, self.rng.choice([1, -1]), 2, name)
        if out != "ok":
            return dict(good=out)
        ks, picks = wave_picks(t, vel, spec, op["M"], dt)
        for k, p in zip(ks, picks):
            if p not in op["good"][k - 1]:
                return dict(good=f"{name}: frequency {k}: velocity {p} picked, must be one of {op['good'][k - 1]}")
        return {}

    def project(self, w):
        return dict(job=w["job"])

    def clone(self, w):
        return dict(w)


def mc(ctx, mode, targets=(2,), mults=(1,), ms=(4,), maxoff=1, maxs=2, cap=None):
    st = lambda xs: "{" + ", ".join(map(str, xs)) + "}"
    cfg = f"""SPECIFICATION Spec
CONSTANTS Mode = "{mode}" Targets = {st(targets)} Mults = {st(mults)} Ms = {st(ms)} MaxOff = {maxoff} MaxS = {maxs}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS InvKept InvWave
CHECK_DEADLOCK FALSE
"""
    edges = ctx.graph("MC_Transform", cfg)
    ctx.replay_graph(edges, JobAdapter(ctx.rng), walks=0, edge_cap=cap)


def p16(ctx):
    mc(ctx, "kept", ctx.n((3, 4, 5), (3, 4, 5, 8, 9)), (1, 2, 3))
    collect(ctx, ctx.n(1000, 10000), axes_event)
    collect(ctx, ctx.n(80, 1500), lambda r, t: power_event(r, r.choice(["fdbf", "slantstack", "phaseshift"]), t))


def p19(ctx):
    collect(ctx, ctx.n(260, 4000), lambda r, t: power_event(r, r.choice(["fdbf", "fdbf", "fk"]), t))
    collect(ctx, ctx.n(160, 2500), lambda r, t: power_event(r, "phaseshift", t))
    collect(ctx, ctx.n(160, 2500), lambda r, t: power_event(r, "slantstack", t))
    collect(ctx, ctx.n(260, 4000), tabled_event)


def p20(ctx):
    mc(ctx, "wave", ms=ctx.n((8,), (8, 12)), maxoff=ctx.n(5, 6), maxs=ctx.n(4, 6), cap=ctx.n(2500, 40000))
    collect(ctx, ctx.n(500, 6000), wave_event)
    collect(ctx, ctx.n(600, 8000), same_event)
