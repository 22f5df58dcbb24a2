"""P26 (reduction, resampling) and P27 (suite statistics) against spec/Reduce.tla."""
import copy
import numpy as np
from swprocess import Peaks, PeaksSuite
from common import Adapter, outcome, quiet, q, sc, BAD, NAN
from p_peaks import make, abstract, do, rand_member, rand_op, DERIVED, back, STORED, UNIT, AWKWARD

XU = dict(frequency=4, wavelength=1, velocity=4, slowness=1e6, azimuth=4, ellipticity=4, noise=4, quality=4)      # integer units of an axis


def reduced(p):
    r = {}
    for a in p.extended_attrs:
        o, v = outcome(p.simplify_mpeaks, a)
        if o != "ok" or np.ndim(v) != 1:
            r[a] = [BAD]
        else:
            r[a] = [sc(x, DERIVED[a]) if a in DERIVED else back(x, a) for x in np.array(v, float)]
    return r


def matrix(suite, xt, yt, xx, K=10, seq=list, fine=1, eps=()):
    u = XU[xt] * fine
    o, v = outcome(suite.to_array, xt, yt, seq([x / u * (1 + 1e-9 * e) for x, e in zip(xx, list(eps) or [0] * len(xx))]))
    if o != "ok":
        return o, [], []
    return o, [q(x, 1 / u) for x in v[0]], [[sc(y, K * XU[yt]) for y in row] for row in v[1]]


class ReduceAdapter(Adapter):
    def __init__(self, rng):
        self.rng = rng

    def is_init(self, s):
        return s["k"] == 0

    def init(self, s):
        return PeaksSuite(make(s["m"]))

    def apply(self, w, op):
        if op["name"] == "out":
            return dict(out=do(w.peaks, w, dict(op, m=0), self.rng))
        if op["name"] == "reduce":
            o, v = outcome(w[0].simplify_mpeaks, op["attr"])
            unit = dict(slowness=1e6, wavelength=1).get(op["attr"], 4)
            return dict(vals=[NAN if np.isnan(x) else q(x, 1 / unit) for x in v] if o == "ok" else [BAD])
        o, xx, rows = matrix(w, op["xt"], op["yt"], op["xx"], 1)
        return dict(vals=rows[0] if o == "ok" and xx == op["xx"] and len(rows) == 1 else [BAD])

    def out_same(self, f, a, b):
        if f != "vals" or len(a) != len(b):
            return False
        if a and isinstance(a[0], list):
            return all(y == NAN if x == [0, 0] else y != NAN and abs(y * x[1] - x[0]) <= x[1] for x, y in zip(a, b))
        return a == b

    def project(self, w):
        return dict(m=abstract(w[0]))

    def diff(self, exp, got):
        return None if exp["m"] == got["m"] else f"expected {exp['m']} got {got['m']}"


CFG = """SPECIFICATION Spec
CONSTANTS WithPower = %s
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InvStrongest InvOnePerSample
CHECK_DEADLOCK FALSE
"""


def line_member(rng, ident, xt, yt):
    """A member whose reduced points have distinct x and whole values on both axes."""
    n = rng.choice([0, 1, 2, 3, 4, 6])
    if xt == "frequency":
        x = rng.sample([2, 4, 6, 8, 10, 16, 20, 32, 40, 64], n)
        v = [rng.choice([100, 125, 160, 200, 250, 400, 500, 800, 1000]) * 4 for _ in x]
        f = x
    else:
        lam = rng.sample([2, 4, 5, 8, 10, 16, 20, 25, 40], n)
        f = [4 * rng.choice([1, 2, 4, 5, 8, 10]) for _ in lam]
        v = [a * b for a, b in zip(lam, f)]
        if yt == "slowness":
            keep = [i for i in range(n) if 4000000 % v[i] == 0]
            f, v, n = [f[i] for i in keep], [v[i] for i in keep], len(keep)
    rows = rng.choice([0, 0, 1, 2, 3])
    if rows == 0:
        # some peaks without a velocity, which are not there at all
        for _ in range(rng.choice([0, 0, 1])):
            i = rng.randint(0, n)
            f.insert(i, rng.choice([4, 12, 28]))
            v.insert(i, NAN)
        n = len(f)
        return dict(id=ident, attrs=["frequency", "velocity"], rows=0, cols=n, data=dict(frequency=f, velocity=v), valid=[0 if y == NAN else 1 for y in v])
    n = len(f)
    best = [rng.randrange(rows) for _ in range(n)]
    F, V, P = [], [], []
    for r in range(rows):
        for c in range(n):
            top = r == best[c]
            k = rng.choice([4, 8])                      # a weaker peak of the same sample
            F.append(f[c] if top or xt == "frequency" else k)
            V.append(v[c] if top else rng.choice([NAN, 400, 800] if xt == "frequency" else [NAN, v[c] // f[c] * k]))
            P.append(40 if top else 40 if r > best[c] and rng.random() < .3 else rng.randint(-20, 39))
    return dict(id=ident, attrs=["frequency", "velocity", "power"], rows=rows, cols=n, data=dict(frequency=F, velocity=V, power=P),
                valid=[0 if y == NAN else 1 for y in V])


def p26(ctx):
    for wp in ("TRUE", "FALSE"):
        ctx.replay_graph(ctx.graph("MC_Reduce", CFG % wp), ReduceAdapter(ctx.rng), walks=50, depth=3, edge_cap=ctx.n(2500, 10 ** 6))
    rng, ev = ctx.rng, []
    for tid in range(ctx.n(500, 6000)):
        if ctx.left() < 30:
            break
        m = rand_member(rng, "m", rows=rng.choice([0, 1, 2, 3, 4]), nanf=False)
        if "power" in m["attrs"]:
            top = rng.choice([2, 40])
            m["data"]["power"] = [rng.randint(-top, top) for _ in m["valid"]]     # often ties
        UNIT.clear()
        if rng.random() < .4:
            UNIT.update({a: rng.choice(AWKWARD) for a in STORED[2:]})
        s = PeaksSuite(make(m, rng))
        for _ in range(rng.choice([0, 1, 2])):
            do(s.peaks, s, rand_op(rng, [m]), rng)
        pre = abstract(s[0])
        vals = reduced(s[0])
        ev.append(dict(op=dict(name="reduce", out="ok"), m=pre, vals=vals, kept=abstract(s[0]) == pre))
    UNIT.clear()
    for tid in range(ctx.n(400, 5000)):
        if ctx.left() < 30:
            break
        xt, yt = rng.choice(["frequency", "wavelength"]), rng.choice(["velocity", "slowness"])
        ms = [line_member(rng, f"m{j}", xt, yt) for j in range(rng.choice([1, 2, 4]))]
        extra = rng.choice(["azimuth", "ellipticity", "noise", "quality"]) if rng.random() < .3 else None
        if extra:                                       # a further attribute, now and then missing
            gone = rng.choice([0, 0, .1])
            for m in ms:
                m["attrs"].append(extra)
                m["data"][extra] = [NAN if rng.random() < gone else rng.randint(-300, 300) for _ in m["valid"]]
        if rng.random() < .06 and len(ms[0]["valid"]):
            i = rng.randrange(len(ms[0]["valid"]))
            ms[0]["data"]["frequency"][i] = NAN
            if extra and rng.random() < .6:
                ms[0]["data"][extra][i] = NAN
        ps = [make(m, rng) for m in ms]
        s = PeaksSuite.from_peaks(ps)
        if rng.random() < .4:
            s.reject_limits_outside("velocity", (None, rng.choice([150, 330, 640])))
        if extra:
            yt = extra
        pre = [abstract(p) for p in s]
        xx = [rng.choice([rng.randint(1, 70), rng.choice([2, 4, 5, 8, 10, 16, 20, 25, 32, 40, 64])]) for _ in range(rng.choice([0, 1, 5, 12]))]
        fine = 1 if xt == "wavelength" and yt == "slowness" else 100
        xx = [max(1, x * fine + (rng.choice([0, 0, -1, 1, rng.randint(-99, 99)]) if fine > 1 else 0)) for x in xx]
        eps = [rng.choice([0, 0, 0, 1, -1]) for _ in xx]
        out, gx, rows = matrix(s, xt, yt, xx, seq=rng.choice([list, tuple, np.array]), fine=fine, eps=eps)
        ev.append(dict(op=dict(name="array", out=out), ms=pre, xt=xt, yt=yt, xx=xx, eps=eps, fine=fine, gotxx=gx, rows=rows, kept=[abstract(p) for p in s] == pre))
    ctx.validate("Trace_Reduce", ev)


def stat_member(rng, ident, xt, yt, base):
    """Points with whole x, whole y close to `base`, whole slopes; and the peak set holding them (with rejected decoys)."""
    x, pts = rng.randint(1, 5), []
    y = base + rng.randint(0, 3)
    for _ in range(rng.choice([0, 1, 3, 5, 6])):
        pts.append([x, y])
        gap = rng.choice([1, 1, 1, 2, 3])
        x += gap
        y2 = base + rng.randint(0, 3)
        y = y2 if (y2 - y) % gap == 0 else y
    val = lambda y: float(y) if yt == "velocity" else 1e6 / y
    fx = lambda x, v: float(x) if xt == "frequency" else v / x
    pts = [p for p in pts if xt == "frequency" or val(p[1]) / fx(p[0], val(p[1])) == p[0]]
    pts = [p for i, p in enumerate(pts) if i == 0 or (p[1] - pts[i - 1][1]) % (p[0] - pts[i - 1][0]) == 0 or True]
    ok = all((b[1] - a[1]) % (b[0] - a[0]) == 0 for a, b in zip(pts, pts[1:]))
    if not ok:
        pts = pts[:1]
    pts2 = list(pts)
    rng.shuffle(pts2)
    v = [val(y) for _, y in pts2]
    f = [fx(x, w) for (x, _), w in zip(pts2, v)]
    if rng.random() < .4 and pts2:
        n = len(f)
        p = Peaks([f, f], [[w * 3 for w in v], v], ident, power=[[1] * n, [2] * n])
    elif rng.random() < .5:
        k = rng.randint(0, len(f))
        p = Peaks(f[:k] + [3.5] + f[k:], v[:k] + [base * 50.] + v[k:], ident)
        p.reject_limits_outside("velocity", (None, base * 20.) if yt == "velocity" else (None, 10000.))
        if yt == "slowness":
            p = Peaks(f, v, ident)
    else:
        p = Peaks(f, v, ident)
    return pts, p


def long_member(rng, ident, xt, yt, base):
    """Few points far apart, level in between; or a single one, or none."""
    x, pts = rng.randint(1, 20), []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        y = base + rng.randint(0, 3)
        pts.append([x, y])
        if rng.random() < .7:
            x += rng.choice([1, 2, 40, 150])
            pts.append([x, y])
        x += 1
    val = lambda y: float(y) if yt == "velocity" else 1e6 / y
    fx = lambda x, v: float(x) if xt == "frequency" else v / x
    pts = [p for p in pts if xt == "frequency" or val(p[1]) / fx(p[0], val(p[1])) == p[0]]
    pts = [p for i, p in enumerate(pts) if i == 0 or (p[1] - pts[i - 1][1]) % (p[0] - pts[i - 1][0]) == 0]
    if any((b[1] - a[1]) % (b[0] - a[0]) for a, b in zip(pts, pts[1:])):
        pts = pts[:1]
    v = [val(y) for _, y in pts]
    return pts, Peaks([fx(x, w) for (x, _), w in zip(pts, v)], v, ident)


class StatsAdapter(Adapter):
    def init(self, s):
        return dict(ms=[])

    def clone(self, w):
        return dict(ms=list(w["ms"]))

    def apply(self, w, op):
        w["ms"] = None            # the members are those of the state reached
        self.op = op
        return {}

    def project(self, w):
        return w

    def diff(self, exp, got):
        got["ms"] = exp["ms"]
        if not exp["ms"]:
            return None
        op = self.op
        s = PeaksSuite.from_peaks([Peaks([float(x) for x, _ in pts], [float(y) for _, y in pts], str(i)) for i, pts in enumerate(exp["ms"])])
        out, r = outcome(s.statistics, "frequency", "velocity", [1, 2], drop_sample_if_fewer_count=op["need"])
        if out != op["out"]:
            return f"{op}: outcome {out}"
        if out != "ok":
            return None
        if [q(x) for x in r[0]] != op["gotxx"]:
            return f"{op}: locations {r[0]}"
        if len(r[1]) != len(op["means"]) or any(abs(m * b - a) > 1e-6 for m, (a, b) in zip(r[1], op["means"])):
            return f"{op}: means {r[1]}"
        return None


STATS = """SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY PropExactly
CHECK_DEADLOCK FALSE
"""


def p27(ctx):
    edges = [e for e in ctx.graph("MC_Stats", STATS)]
    full = [e for e in edges if len(e["q"]["ms"]) == 3]
    few = [e for e in edges if len(e["q"]["ms"]) < 3]
    ctx.replay_graph(few + ctx.rng.sample(full, min(len(full), ctx.n(1200, 10 ** 6))), StatsAdapter(), walks=0)
    rng, ev = ctx.rng, []
    for tid in range(ctx.n(1500, 15000)):
        if ctx.left() < 30:
            break
        xt, yt = rng.choice([("frequency", "velocity")] * 3 + [("wavelength", "velocity"), ("frequency", "slowness")])
        base = rng.randint(100, 120) if yt == "velocity" else rng.randint(2000, 2020)
        nm = rng.choice([1, 2, 3, 3, 4, 4])
        big = rng.choice(["members", "locations"]) if rng.random() < .04 else ""
        if big == "members":
            nm = rng.choice([99, 100, 101, 120])
        made = [stat_member(rng, f"m{j}", xt, yt, base) for j in range(nm)] if big != "locations" else \
            [long_member(rng, f"m{j}", xt, yt, base) for j in range(rng.choice([3, 4, 5]))]
        s = PeaksSuite.from_peaks([p for _, p in made])
        before = [copy.deepcopy(p.__dict__) for p in s]
        xx = [rng.randint(1, 14) for _ in range(rng.choice([0, 1, 4, 8]))] if rng.random() < .5 else list(range(1, 12))
        if big == "members":
            xx = rng.sample(range(1, 24), 4)
        elif big:
            xx = rng.sample(range(1, 300), rng.choice([99, 100, 101, 130, 201]))
        need = rng.choice([None, 0, 1, 2, 3, 4])
        filled, ignore = rng.random() < .4, rng.random() < .4 or big != ""
        kw = {}
        if need is not None:
            kw["drop_sample_if_fewer_count"] = need
        if not ignore or rng.random() < .5:
            kw["ignore_corr"] = ignore
        if filled or rng.random() < .5:
            kw["mean_substitution"] = filled
        arg = rng.choice([list, tuple, np.array])([float(x) for x in xx])
        out, r = outcome(s.statistics, xt, yt, arg, **kw)
        e = dict(op=dict(name="stats", out=out), ms=[pts for pts, _ in made], xx=xx, need=3 if need is None else need, filled=filled, ignore=ignore,
                 gotxx=[], mean=[], std=[], corr=[])
        if out == "ok":
            u = 1 if yt == "velocity" else 1e6
            e["gotxx"] = [q(x) for x in r[0]]
            e["mean"] = [sc(x, u * 100) for x in r[1]]
            e["std"] = [sc(x, u * (5 if len(made) > 20 else 100)) for x in r[2]]
            if r[3] is not None:
                c = np.atleast_2d(r[3])
                e["corr"] = [[sc(x, 20) for x in row] for row in c] if c.size else []
        e["kept"] = list(arg) == [float(x) for x in xx] and len(before) == len(s) and \
            all(set(b) == set(p.__dict__) and all(np.array_equal(b[k], p.__dict__[k], equal_nan=isinstance(b[k], np.ndarray) and b[k].dtype == float) for k in b)
                for b, p in zip(before, s))
        ev.append(e)
    ctx.validate("Trace_Reduce", ev)
