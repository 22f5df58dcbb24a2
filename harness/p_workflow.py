"""P12, P13, P14 and the cross-correlation workflow (P37) against spec/Workflow.tla."""
import contextlib
import copy
import json
import os
import warnings
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from scipy.signal.windows import tukey
from swprocess import Array1D, Sensor1C, Source, Masw
from swprocess.masw import MaswXcorr
from swprocess.snr import SignaltoNoiseRatio
from swprocess.register import WavefieldTransformRegistry
from common import Adapter, q, sc, BAD, outcome, quiet, scratch, isnum
from p_files import U, write_file, mapper, strip, rand_file
from p_timeseries import NONE, same
from p_array import lidx

ID = dict(a=1, b=0)


def den(n):
    from math import gcd
    u = sum((2 * i - n - 1) ** 2 for i in range(1, n + 1))
    return n * u // gcd(n, u)


@contextlib.contextmanager
def clicks(points):
    """The user clicks `points`, one per prompt, and never asks to stop."""
    todo = list(points)
    old = plt.ginput, plt.waitforbuttonpress
    plt.ginput = lambda *a, **k: [todo.pop(0)]
    plt.waitforbuttonpress = lambda timeout=-1, *a, **k: True if timeout is None or timeout < 0 else None
    try:
        yield todo
    finally:
        plt.ginput, plt.waitforbuttonpress = old
        plt.close("all")


def project(a, dt_us, scale):
    """The delivered array; samples times stack count times scale."""
    step = dt_us * 1e-6 / 4
    ps = []
    for p in a.sensors:
        n = p.nstacks if isnum(p.nstacks) else BAD
        t = np.atleast_1d(np.array(p.time, float))
        amp = np.atleast_1d(np.array(p.amplitude, float))
        t0 = q(t[0], step, 1e-4)
        if len(t) != len(amp) or p.nsamples != len(amp) or \
                not np.allclose(t, t[0] + np.arange(len(t)) * p.dt, rtol=0, atol=p.dt * 1e-4):
            t0 = BAD
        ps.append(dict(w=[sc(x * n, scale) for x in amp], n=q(n), t0=t0, delay=q(p.delay, step, 1e-4),
                       dt=q(p.dt, 1e-6, 1e-4), mult=q(p.multiple)))
    return dict(r=dict(kind="array", w=[p["w"] for p in ps], t0=same([p["t0"] for p in ps]), delay=same([p["delay"] for p in ps]),
                       n=same([p["n"] for p in ps]), mult=same([p["mult"] for p in ps]), dt=same([p["dt"] for p in ps]),
                       pos=[q(x, U, 1e-4) for x in a.position()]),
                src=q(a.source.x, U, 1e-4), sy=q(a.source.y, U, 1e-4) if a.source.z == 0 else BAD,
                ys=[q(s.y, U, 1e-4) if s.z == 0 else BAD for s in a.sensors])


def settings(cfg, dt, extra):
    """The user's settings dictionary for cfg (dt in seconds)."""
    tq = dt / 4
    fast = 2000 if extra["tf"] == "slantstack" else 1       # a slant stack needs delays shorter than the record
    kw = dict(workflow=cfg["wf"], trim=cfg["trim"]["on"], trim_begin=cfg["trim"]["a"] * tq, trim_end=cfg["trim"]["b"] * tq,
              mute=cfg["mute"]["on"], method="interactive" if cfg["mute"]["ok"] else "predefined",
              pad=cfg["pad"]["on"], df=1 / (cfg["pad"]["n"] * dt),
              transform=extra["tf"] if cfg["tf"] else "wigner", fmin=cfg["g0"] / 1000 / dt, fmax=cfg["g1"] / 1000 / dt,
              vmin=cfg.get("vmin", 60 * fast), vmax=cfg.get("vmax", 200 * fast), nvel=cfg["nvel"], vspace=extra.get("vspace", "linear"),
              weighting=extra.get("weighting", "none"), steering=extra.get("steering", "plane"), snr=cfg["snr"]["on"],
              noise_begin=cfg["snr"]["na"] * tq, noise_end=cfg["snr"]["nb"] * tq,
              signal_begin=cfg["snr"]["sa"] * tq, signal_end=cfg["snr"]["sb"] * tq,
              pad_snr=cfg["snr"]["pad"], df_snr=1 / (cfg["snr"]["n"] * dt),
              min_offset=cfg["lo"] * U, max_offset=cfg["hi"] * U)
    if extra.get("window") is not None:
        kw["window_kwargs"] = extra["window"]
    s = Masw.create_settings_dict(**kw)
    if extra.get("json"):
        s = json.loads(json.dumps(s))
    return s


def lines_to_clicks(cfg, dt):
    pts = []
    for ln in (cfg["mute"]["sl"], cfg["mute"]["el"]):
        pts += [(ln[0] * U, ln[1] * dt / 4), (ln[2] * U, ln[3] * dt / 4)]
    return pts


def execute(d, cfg, extra, files=None, wf=None):
    """Run Masw.run; return (outcome, transform, untouched)."""
    files = files if files is not None else cfg["files"]
    dt = files[0]["tr"][0]["dt"] * 1e-6
    # a file that occurs twice is the same file
    names = [write_file(d, f"f{files.index(f)}.dat", f) for f in files]
    arg = names
    if len(names) == 1 and extra.get("str"):
        arg = names[0]
    elif extra.get("tuple"):
        arg = tuple(names)
    cfg2 = dict(cfg, wf=wf) if wf else cfg
    st = settings(cfg2, dt, extra)
    before, barg = copy.deepcopy(st), copy.deepcopy(arg)
    contents = [open(n, "rb").read() for n in names]
    kw = dict(map_x=mapper(cfg["mx"]), map_y=mapper(cfg["my"])) if cfg["mx"] != ID or cfg["my"] != ID else {}
    with clicks(lines_to_clicks(cfg, dt)):
        if cfg2["wf"] == "time-domain-xcorr" and "sfiles" in extra:
            sn = [write_file(d, f"s{i}.dat", f) for i, f in enumerate(extra["sfiles"])]
            out, t = outcome(MaswXcorr.run, arg, sn, extra["ch"], st, **kw)
        else:
            out, t = outcome(Masw.run, arg, st, **kw)
    untouched = st == before and arg == barg and [open(n, "rb").read() for n in names] == contents
    return out, t, untouched


def own_image(t, cfg, extra, dt):
    """The image of the delivered array, made directly."""
    st = settings(cfg, dt, extra)["processing"]
    with quiet():
        return WavefieldTransformRegistry.create_class(extra["tf"]).from_array(array=t.array, settings=st)


def ints(power, images):
    """The image and those it is made of on one integer grid (real and imaginary parts).

    Pixels that are undefined in a contributing image (zero spectrum) are left out.
    """
    flat = lambda p: np.concatenate([np.real(p).ravel(), np.imag(p).ravel()])
    images = [flat(np.asarray(p)) for p in images]
    ok = np.all(np.isfinite(images), axis=0)
    half = len(ok) // 2
    ok = np.tile(ok[:half] & ok[half:], 2)
    top = max([1e-300] + [np.max(np.abs(p[ok])) for p in images if np.any(ok)])
    return [[sc(x / top, 1e6) for x in p[ok]] for p in [flat(np.asarray(power))] + images]


def last_len(cfg):
    """Samples in the file whose array is delivered."""
    return len(cfg["files"][-1 if cfg["wf"] == "frequency-domain" else 0]["tr"][0]["w"])


def observe(d, cfg, extra, rng):
    """One run, as an event for Trace_Workflow."""
    dtus = cfg["files"][0]["tr"][0]["dt"]
    dt = dtus * 1e-6
    out, t, un = execute(d, cfg, extra)
    ev = dict(cfg=cfg, op=dict(name="run", out=out, wf=cfg["wf"]), untouched=un, post=0, ks=[], nvel=0, n=0, power=[], images=[], snr=[], sk=[])
    if out != "ok":
        return ev
    L = last_len(cfg)
    if cfg["wf"] == "time-domain-xcorr":
        L = extra["L"]
    scale = den(L) * (1000 if cfg["mute"]["on"] and cfg["mute"]["win"] else 1) * extra.get("nf", 1)
    N = t.array[0].nsamples
    ks = lambda f, n: [q(x * n * dt, 1, 1e-7) for x in f]
    ev.update(post=project(t.array, dtus, scale), ks=ks(t.frequencies, N), nvel=len(t.velocities), n=q(t.n))
    if cfg["wf"] == "frequency-domain":
        images = []
        for f in cfg["files"]:
            o, ti, _ = execute(d, dict(cfg, snr=dict(cfg["snr"], on=False)), dict(extra, str=False), files=[f], wf="time-domain")
            if o != "ok":
                ev["op"]["out"] = "single file: " + o
                return ev
            images.append(ti.power)
    else:
        images = [own_image(t, cfg, extra, dt).power]
    if any(np.shape(i) != np.shape(t.power) for i in images) or np.shape(t.power) != (len(t.velocities), len(t.frequencies)):
        ev["op"]["out"] = f"image of shape {np.shape(t.power)}"
        return ev
    with quiet():
        p = ints(t.power, images)
    ev.update(power=p[0], images=p[1:])
    if getattr(t, "snr", None) is not None:
        ns = N_snr(cfg)
        ev.update(sk=ks(t.snr_frequencies, ns), snr=[min(sc(x, 100), 10**6) if np.isfinite(x) else 10**6 for x in t.snr])
        if len(ev["snr"]) != len(ev["sk"]):
            ev["sk"] = [BAD]
    return ev


def win_len(dt4, a, b):
    """Samples from the one nearest a to the one nearest b, both in quarter steps from the start."""
    return (b + 1) // 4 - (a + 1) // 4 + 1


def padded(n, target):
    return target if n <= target else n + (-n) % target


def N_snr(cfg):
    s = cfg["snr"]
    t0 = 4 * 1000 * cfg["files"][0]["tr"][0]["delay"] // cfg["files"][0]["tr"][0]["dt"]
    n = win_len(None, s["na"] - t0, s["nb"] - t0)
    return padded(n, s["n"]) if s["pad"] else n


class FlowAdapter(Adapter):
    def __init__(self, d, rng):
        self.d, self.rng = d, rng

    def is_init(self, s):
        return s["k"] == 0

    def init(self, s):
        return dict(ev=None)

    def clone(self, w):
        return dict(ev=None)

    def apply(self, w, op):
        cfg = dict(op["cfg"], g0=20, g1=480, nvel=4)
        extra = dict(tf=self.rng.choice(["fdbf", "fk", "phaseshift", "slantstack"]), window=dict(alpha=0), json=self.rng.random() < .2)
        out, t, un = execute(self.d, cfg, extra)
        if not un:
            return dict(out="settings, names or files changed")
        w["t"], w["cfg"], w["out"] = t, cfg, out
        return dict(outs=op["outs"] if out in op["outs"] else [out])

    def project(self, w):
        if "t" not in w:
            return dict(k=0)
        if w["t"] is None:
            return dict(k=1, x=None, out=w["out"])
        return dict(k=1, x=project(w["t"].array, 15625, den(last_len(w["cfg"]))))

    def diff(self, exp, got):
        if exp["k"] == 0:
            return None
        if got["x"] is None:
            return None if exp["x"]["out"] != "ok" else f"raised {got['out']}"
        e = exp["x"]["a"]
        e = dict(r=e["r"], src=e["src"], sy=e["sy"])
        return Adapter.diff(self, e, got["x"])


def mc(ctx, wfs, snrs, cap):
    cfg = f"""SPECIFICATION Spec
CONSTANTS Wfs = {{{", ".join('"%s"' % w for w in wfs)}}} Snrs = {{{", ".join(snrs)}}}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS InvRun InvProps InvDetrend
PROPERTIES PropFrame
CHECK_DEADLOCK FALSE
"""
    edges = ctx.graph("MC_Workflow", cfg)
    ctx.rng.shuffle(edges)
    with scratch() as d:
        ctx.replay_graph(edges[:cap], FlowAdapter(d, ctx.rng), walks=0)


def trimmed(t0, n, a, b):
    """(t0, n) after a valid trim, all in quarter steps."""
    return a, win_len(None, a - t0, b - t0)


def rand_cfg(rng, wfs, snr_p, dtus=None):
    dtus = dtus or rng.choice([15625, 15625, 1000, 2000])
    dy = dtus == 15625
    L = rng.choice([4, 5, 7, 8, 8, 9, 10, 12] if snr_p < 1 else [7, 8, 9, 10, 12])
    if wfs == ["time-domain-xcorr"]:
        L = rng.choice([7, 8, 9, 10, 12, 16, 18])
    n = rng.randint(2, 5)
    wf = rng.choice(wfs)
    xs = rng.sample(range(1, 40), n) if rng.random() < .6 else [3 + 2 * i for i in range(n)]
    rng.shuffle(xs)
    side = rng.choice(["before", "after", "inside" if rng.random() < .2 else "before"])
    src = {"before": min(xs) - rng.randint(1, 9), "after": max(xs) + rng.randint(1, 9), "inside": min(xs) + 1}[side]
    if n > 3 and rng.random() < .12:
        src = rng.choice([min(xs), max(xs)])        # at a receiver is not inside
    k = rng.choice([0, 8]) if dy and (wf != "time-domain-xcorr" or L > 12) else 0 if dy else rng.choice([0, 4, 2])
    delay = -(k * dtus) // 1000
    fmt = rng.choice(["SU", "SU", "SEGY"])
    aside = rng.random() < .5       # receivers and source off the line
    f0 = rand_file(rng, xs, fmt, 1, rng.choice([1, 1, 2]), delay, dtus, L, src, rng.randint(-9, 9) if aside else 0, aside)
    for t in f0["tr"]:
        tr = rng.randint(-2, 2)
        t["w"] = [rng.randint(-4, 4) + tr * i for i in range(L)]
    files = [f0]
    for _ in range(rng.choice([0, 0, 1, 2])):
        perm = rng.sample(range(n), n)
        f = dict(f0, tr=[dict(f0["tr"][i], w=[rng.randint(-4, 4) for _ in range(L)]) for i in perm])
        s2 = rng.choice([1, 2])
        for t in f["tr"]:
            t["st"] = s2
        files.append(f)
    if rng.random() < .15:
        files.insert(rng.randrange(len(files) + 1), copy.deepcopy(rng.choice(files)))
    if len(files) > 1 and rng.random() < .12:
        if rng.random() < .5:
            u = rng.random()
            files[-1]["sx"] += 1 if u < .5 else 0
            if .5 <= u < .8:
                files[-1]["sx"] = -f0["sx"] or 1        # on the other side
            elif u >= .8:
                files[-1]["sy"] = -f0["sy"] or 3
        else:
            files[-1]["tr"] = files[-1]["tr"][:-1]
    mx = rng.choice([ID, ID, dict(a=-1, b=20000), dict(a=2, b=0)])
    my = rng.choice([ID, dict(a=-1, b=300), dict(a=2, b=0)]) if aside else ID
    px = sorted(mx["a"] * 10000 * x + mx["b"] for x in xs)
    ps = mx["a"] * 10000 * src + mx["b"]
    offs = sorted(abs(p - ps) for p in px)
    lo, hi = 0, rng.choice([10 ** 9, offs[-1] + 5000])
    u = rng.random()
    if u < .25 and n > 3:
        lo = offs[0] + rng.choice([0, 5000])
    elif u < .45 and n > 3:
        hi = offs[-1] - rng.choice([0, 5000])
    elif u < .5:
        lo = offs[-1]
    t0, N = -4 * k, L
    if wf == "time-domain-xcorr":
        t0, N = 0, L - k
    pick = lambda t0, N: sorted(rng.sample(range(N), 2))

    def span(t0, N, minlen=2):
        for _ in range(50):
            i, j = pick(t0, N)
            if j - i + 1 >= minlen:
                break
        else:
            i, j = 0, N - 1
        if rng.random() < .3:       # from the very start
            i = 0
        if rng.random() < .2:       # to the very end
            j = N - 1
        a, b = t0 + 4 * i, t0 + 4 * j
        if not dy:      # off the grid, so that rounding of times decides nothing
            a += rng.choice([1, 1, -1]) if i > 0 else 1
            b -= 1
        elif rng.random() < .3:
            a += rng.choice([1, -1]) if i > 0 else 1
        return a, b

    trim = dict(on=rng.random() < .5, a=0, b=4)
    a, b = span(t0, N, 4 if N > 4 else 3)
    if dy and rng.random() < .25:           # just the end
        a = t0
    trim.update(a=a, b=b)
    if trim["on"] and rng.random() < .08:
        trim.update(b=t0 + 4 * N + 3)
    valid = t0 <= trim["a"] < trim["b"] <= t0 + 4 * (N - 1)
    t1, N1 = trimmed(t0, N, trim["a"], trim["b"]) if trim["on"] and valid else (t0, N)
    mute = dict(on=rng.random() < .5 and n > 2, ok=rng.random() < .95, sl=[0, 0, 10000, 0], el=[0, 4, 10000, 4], win=[])
    extra = dict(tf=rng.choice(["fdbf", "fk", "phaseshift", "slantstack"]), weighting=rng.choice(["none", "sqrt"]),
                 vspace=rng.choice(["linear", "log"]), json=rng.random() < .2, str=rng.random() < .5, tuple=rng.random() < .2)
    if mute["on"]:
        def line(lo_, hi_):
            for _ in range(200):
                x1, x2 = rng.sample(range(0, 64), 2)
                if dy:
                    x2 = x1 + rng.choice([1, 2, 4, 8, 16, -2, -8])
                ta = t1 + rng.randint(0, 4 * N1)
                ln = [10000 * x1, ta, 10000 * x2, ta + rng.choice([0, rng.randint(-4, 4)])]
                ids = [lidx(t1, ln, p) for p in px]
                if any(e for _, e in ids) and not (dy and ln[1] == ln[3]):
                    continue
                if all(lo_ <= i <= hi_ for i, _ in ids):
                    return ln, [i for i, _ in ids]
            return None, None
        for _ in range(20):
            sl, si = line(0, N1)
            el, ei = line(0, N1)
            if sl and el and all(x <= y for x, y in zip(si, ei)):
                mute.update(sl=sl, el=el)
                break
        else:
            mute["on"] = False
        al = rng.choice([0, 0, "default", 0.5, 1.0, 0.3])
        extra["window"] = None if al == "default" else dict(alpha=al)
        if al == "default" and rng.random() < .5:
            extra["window"] = {}
        if al:
            al = 0.2 if al == "default" else al
            mute["win"] = [[sc(x, 1000) for x in tukey(m, al)] for m in range(N + 1)]
    pad = dict(on=rng.random() < .5, n=rng.choice([N1, N1 + 2, max(2, N1 // 2), rng.randint(2, 16)]))
    snr = dict(on=rng.random() < snr_p, na=0, nb=4, sa=0, sb=4, pad=rng.random() < .6, n=rng.choice([2, 3, 4, 4, 6, 8, 8, 12]))
    na, nb = span(t0, N)
    for _ in range(30):
        sa, sb = span(t1, N1) if N1 >= 2 else (t1, t1 + 4)
        if rng.random() < .2 or win_len(None, na - t0, nb - t0) == win_len(None, sa - t1, sb - t1) or snr["pad"]:
            break
    snr.update(na=na, nb=nb, sa=sa, sb=sb)
    g = sorted(rng.sample(range(0, 560), 2))
    cfg = dict(wf=wf, files=files, mx=mx, my=my, lo=lo, hi=hi, trim=trim, mute=mute, pad=pad, snr=snr, tf=rng.random() < .97,
               g0=g[0], g1=g[1], nvel=rng.randint(2, 5))
    return cfg, extra


def xcorr_runs(ctx, n):
    """The cross-correlation workflow."""
    rng, ev = ctx.rng, []
    with scratch() as d:
        tid = 0
        for _ in range(60 * n):
            if ctx.left() < 20 or tid >= n:
                break
            cfg, extra = rand_cfg(rng, ["time-domain-xcorr"], .3)
            if extra["tf"] == "slantstack" or not usable(cfg):
                continue
            dt = cfg["files"][0]["tr"][0]["dt"]
            M, nf, nch = rng.randint(2, 8), rng.choice([1, 1, 2, 3]), rng.randint(1, 3)
            sf = [dict(fmt=rng.choice(["SU", "SEG2"]), scal=-1, units=1, sx=0, sy=0, code=4,
                       tr=[dict(x=i, y=0, st=1, delay=0, dt=dt, w=[rng.randint(-9, 9) for _ in range(M)]) for i in range(nch)])
                  for _ in range(nf)]
            ch = rng.randrange(nch)
            vmin, vmax = rng.randint(20, 400), rng.randint(401, 1800)
            mx = cfg["mx"]
            src = mx["a"] * 10000 * cfg["files"][0]["sx"] + mx["b"]
            offs = [abs(mx["a"] * 10000 * t["x"] + mx["b"] - src) for t in cfg["files"][0]["tr"]]
            offs = [o for o in offs if cfg["lo"] < o < cfg["hi"]]
            if not offs or (min(offs) * 100 - 500000 * vmax) % (vmax * dt) == 0 or (max(offs) * 100) % (vmin * dt) == 0:
                continue
            last = int(max(offs) * 100 / (vmin * dt))
            first = max(M + int((min(offs) * 100 - 500000 * vmax) / (vmax * dt)), 0)
            if M + last - first < 3:
                continue
            k = -cfg["files"][0]["tr"][0]["delay"] * 1000 // dt
            cfg.update(vmin=vmin, vmax=vmax, sigw=[sum(f["tr"][ch]["w"][i] for f in sf) for i in range(M)])
            cfg["mute"]["win"] = []
            extra.update(sfiles=sf, ch=ch, nf=nf, L=len(cfg["files"][0]["tr"][0]["w"]) - k, window=dict(alpha=0), str=False)
            e = observe(d, cfg, extra, rng)
            e["cfg"] = dict(cfg, files=strip(cfg["files"]))
            ev.append(dict(e, tid=tid))
            tid += 1
    ctx.validate("Trace_Workflow", ev)


def tie(cfg, n):
    """A frequency limit (almost) half-way between two indices."""
    return any(abs((2 * g * n) % 2000 - 1000) < 2 for g in (cfg["g0"], cfg["g1"]))


def usable(cfg):
    if any(tie(dict(g0=s * cfg["g0"], g1=s * cfg["g1"]), n) for n in range(1, 60) for s in (1, 2)):
        return False
    return True


def misfit(rng, cfg):
    """A later file of a frequency-domain run is not like the first."""
    fs = cfg["files"]
    while len(fs) < 2:
        fs.append(copy.deepcopy(fs[0]))
    f = fs[-1] = copy.deepcopy(fs[-1])
    how = rng.choice(["mirror", "mirror", "far", "near", "aside", "fewer", "long", "long", "dt", "dt"])
    if how == "mirror":
        f["sx"] = -fs[0]["sx"] or 1
    elif how == "aside":
        f["sy"] = -fs[0]["sy"] or 3
    elif how == "fewer" and len(f["tr"]) > 1:
        f["tr"] = f["tr"][:-1]
    elif how == "long":
        m = rng.choice([-1, 1, 1, 2, 3, len(f["tr"][0]["w"])])
        for t in f["tr"]:
            t["w"] = t["w"][:m] if m < 0 else t["w"] + [rng.randint(-4, 4) for _ in range(m)]
    elif how == "dt":
        for t in f["tr"]:
            t["dt"] *= 2
        cfg.update(g0=rng.randint(0, 100), g1=rng.randint(300, 550))       # more than one frequency, so that these differ
        cfg["trim"]["on"] = cfg["mute"]["on"] = cfg["snr"]["on"] = cfg["pad"]["on"] = False
    else:
        f["sx"] += 1 if how == "near" else -50
    for k in ("trim", "mute", "snr"):
        if rng.random() < .7 or how == "long" and k == "mute":       # (TLC's integers cannot hold tapered samples of longer records)
            cfg[k]["on"] = False
    if how == "long" and rng.random() < .6:
        cfg["pad"].update(on=True, n=rng.choice([8, 16, 24]))
    cfg["mute"]["ok"] = cfg["tf"] = True
    cfg["lo"], cfg["hi"] = 0, 10 ** 9


def histories(ctx, n, wfs, snr_p, odd=0):
    rng, ev = ctx.rng, []
    with scratch() as d:
        for tid in range(n + odd):
            if ctx.left() < 20:
                break
            for _ in range(200):
                cfg, extra = rand_cfg(rng, wfs, snr_p)
                if tid >= n:
                    misfit(rng, cfg)
                if usable(cfg):
                    break
            e = observe(d, cfg, extra, rng)
            e["cfg"] = dict(cfg, files=strip(cfg["files"]))
            ev.append(dict(e, tid=tid))
    ctx.validate("Trace_Workflow", ev)


def p12(ctx):
    mc(ctx, ["single", "time-domain"], ["FALSE"], ctx.n(330, 5000))
    histories(ctx, ctx.n(350, 5000), ["single", "time-domain", "time-domain"], .3)


def p13(ctx):
    mc(ctx, ["frequency-domain"], ["FALSE"], ctx.n(150, 5000))
    histories(ctx, ctx.n(170, 4000), ["frequency-domain"], .2, ctx.n(40, 600))


def windows(ctx, n):
    """Signal and noise windows handed over directly."""
    rng, ev = ctx.rng, []
    for tid in range(n):
        nc = rng.randint(1, 4)
        dt = 1 / 64
        N = rng.choice([2, 3, 4, 6, 8, 12])
        M = N if rng.random() < .7 else rng.choice([2, 3, 4, 6, 8])
        rows = lambda m: [[rng.randint(-9, 9) for _ in range(m)] for _ in range(nc)]
        unit = rng.choice([1., 1., 2.**-40, 2.**50])
        mk = lambda w: Array1D([Sensor1C(np.array(r, float) * unit, dt, 2 * i, 0, 0) for i, r in enumerate(w)], Source(-3, 0, 0))
        noise, sig = rows(N), rows(M)
        pad = rng.choice([0, 2, 3, 4, 6, 8, 12])
        if rng.random() < .8 and any(24 % x for x in ((padded(N, pad), padded(M, pad)) if pad else (N, M))):
            continue
        g = sorted(rng.sample(range(0, 560), 2))
        if any(tie(dict(g0=g[0], g1=g[1]), k) for k in range(1, 40)):
            continue
        an, as_ = mk(noise), mk(sig)
        kw = dict(fmin=g[0] / 1000 / dt, fmax=g[1] / 1000 / dt)
        if pad:
            kw.update(pad_snr=True, df_snr=1 / (pad * dt))
        out, r = outcome(SignaltoNoiseRatio.from_array1ds, as_, an, **kw)
        rec = lambda w, m: dict(kind="array", w=w, t0=0, delay=0, n=1, mult=1, dt=1, pos=list(range(nc)))
        e = dict(tid=tid, op=dict(name="snr", out=out), cfg=dict(files=[], mx=ID, my=ID, wf="none"), pad=pad, g0=g[0], g1=g[1],
                 noise=rec(noise, N), sig=rec(sig, M), sk=[], snr=[])
        if out == "ok":
            n2 = padded(N, pad) if pad else N
            e.update(sk=[q(x * n2 * dt, 1, 1e-7) for x in r.frequencies],
                     snr=[min(sc(x, 100), 10**6) if np.isfinite(x) else 10**6 for x in r.snr])
            if len(e["snr"]) != len(e["sk"]):
                e["sk"] = [BAD]
        ev.append(e)
    ctx.validate("Trace_Workflow", ev)


def p14(ctx):
    mc(ctx, ctx.n(["time-domain"], ["time-domain", "frequency-domain"]), ["TRUE"], ctx.n(150, 5000))
    windows(ctx, ctx.n(400, 6000))
    histories(ctx, ctx.n(200, 4000), ["single", "time-domain", "frequency-domain"], 1)
