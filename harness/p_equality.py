"""P38: equality of records, sensors, sources, arrays, peak sets and suites, against spec/Equality.tla."""
import copy
import numpy as np
from sigpropy import TimeSeries
from swprocess import ActiveTimeSeries, Sensor1C, Array1D, Source, Peaks, PeaksSuite
from common import Adapter, outcome, quiet, BAD, NAN
from p_peaks import hidden
from p_timeseries import DTS as STEPS

DTS = {**STEPS, 11: 0.002 + 2 ** -36, 12: 2e-5 + 2 ** -40}       # steps hardly apart from 4 and 9
NEAR = {4: 11, 11: 4, 9: 12, 12: 9}


def peaks(s, rng, unit=1):
    """A peak set: rejections through boxes around single peaks where they can be told apart, otherwise in the marks."""
    num = lambda v: [np.nan if x == NAN else float(x) for x in v]
    d = {a: np.array(num(s["data"][a])) * (unit if a in EXTRA else 1) for a in s["attrs"]}
    p = Peaks(identifier=s["id"], **d)
    cells = list(zip(s["data"]["frequency"], s["data"]["velocity"]))
    for c, keep in zip(cells, s["valid"]):
        if not keep:
            assert cells.count(c) == 1
            p.reject_box_inside("frequency", (c[0] - .25, c[0] + .25), "velocity", (c[1] - .25, c[1] + .25))
    return p


def build(o, rng, grow=False):
    """The object; records of more than one stack are (if grow) made by stacking."""
    if o["kind"] == "other":
        return [None, 3, "a", TimeSeries([2., 0., -3.], DTS[1]), np.array([2., 0., -3.])][o["n"]]
    unit = 1e-9 if o["nano"] else 1
    if o["kind"] == "source":
        return Source(*[c * unit for c in o["src"]])
    if o["kind"] == "peaks":
        return peaks(o["sets"][0], rng, unit)
    if o["kind"] == "suite":
        ps = [peaks(s, rng, unit) for s in o["sets"]]
        if grow:
            x = PeaksSuite(ps[0])
            for p in ps[1:]:
                x.append(p)
            return x
        return PeaksSuite.from_peaks(ps)
    dt, d = DTS[o["dt"]], o["t0"] * DTS[o["dt"]] / 4
    amps = [np.array(w, float) * unit / (1 if o["nano"] else o["n"]) for w in o["w"]]

    def one(j):
        def rec(amp, n):
            if o["kind"] == "ts":
                return ActiveTimeSeries(amp, dt, nstacks=n, delay=d)
            return Sensor1C(amp, dt, *[c * unit for c in o["pos"][j]], nstacks=n, delay=d)
        if not grow or o["n"] < 2 or o["nano"]:
            return rec(amps[j], o["n"])
        r = rec(amps[j] + (o["n"] - 1), 1)
        r.stack_append(rec(amps[j] - 1, o["n"] - 1))
        return r
    if o["kind"] != "array":
        return one(0)
    ss = [one(j) for j in range(len(amps))]
    rng.shuffle(ss)
    return Array1D(ss, Source(*[c * unit for c in o["src"]]))


def look(x):
    if isinstance(x, Array1D):
        return [look(s) for s in x.sensors], look(x.source)
    if isinstance(x, Source):
        return x.x, x.y, x.z
    if isinstance(x, ActiveTimeSeries):
        return np.array(x.amplitude).tolist(), x.dt, x.delay, x.nstacks, [getattr(x, c, None) for c in "xyz"]
    if isinstance(x, PeaksSuite):
        return list(x.ids), [look(p) for p in x.peaks]
    if isinstance(x, Peaks):
        return x.identifier, list(x.attrs), repr([(a, v.tolist()) for a, v in hidden(x, list(x.attrs))[0].items()]), hidden(x, [])[1].tolist()
    return repr(x)


def ask(a, b, rng):
    x, y = build(a, rng, rng.random() < .3), build(b, rng, rng.random() < .3)
    if a == b and rng.random() < .2:
        y = x
    before = look(x), look(y)

    def tidy(o, v):
        return bool(v) if o == "ok" and isinstance(v, (bool, np.bool_)) else o if o != "ok" else BAD
    with quiet():
        eq = tidy(*outcome(lambda: x == y))
        qe = tidy(*outcome(lambda: y == x))
        ne = tidy(*outcome(lambda: x != y))
    return dict(eq=eq, qe=qe, ne=ne, kept=(look(x), look(y)) == before)


class EqAdapter(Adapter):
    def __init__(self, rng):
        self.rng = rng

    def init(self, s):
        return None

    def apply(self, w, op):
        r = ask(op["a"], op["b"], self.rng)
        first = op["b"]["kind"] != "other"      # how others compare themselves is their affair
        good = r["kept"] and r["ne"] == (not r["eq"]) and (r["qe"] == r["eq"] or not first)
        return dict(eq=r["eq"] if good else BAD)

    def project(self, w):
        return {}


BLANK = dict(nano=0, w=[], n=0, t0=0, dt=0, pos=[], src=[], sets=[])
EXTRA = ["azimuth", "ellipticity", "noise", "power", "quality"]


def rand_set(rng, i):
    n = rng.randint(1, 6)
    cells = rng.sample([(f, v) for f in range(1, 7) for v in range(1, 7)], n)
    attrs = ["frequency", "velocity"] + rng.sample(EXTRA, rng.choice([0, 0, 1, 2, 4]))
    if rng.random() < .3:
        rng.shuffle(attrs)
    data = {a: [rng.choice([NAN, 0, rng.randint(-50, 50)]) if rng.random() < .5 else rng.randint(1, 300) for _ in cells] for a in attrs}
    data.update(frequency=[c[0] for c in cells], velocity=[c[1] for c in cells])
    return dict(id=i, attrs=attrs, data=data, valid=[int(rng.random() < .8) for _ in cells])


def vary_set(rng, s):
    j = rng.randrange(len(s["valid"]))
    u = rng.choice(["same", "value", "value", "gone", "hidden", "id", "attr", "swap", "cut", "undefined", "order"])
    a = rng.choice(s["attrs"])
    if u == "value" or u == "hidden":
        v = s["data"][a]
        if u == "hidden":
            s["valid"][j] = 0
        v[j] = 11 if v[j] == NAN else v[j] + rng.choice([7, 20])
    elif u == "gone":
        s["valid"][j] = 1 - s["valid"][j]
    elif u == "id":
        s["id"] += "1"
    elif u == "attr" and len(s["attrs"]) > 2:
        x = [b for b in s["attrs"] if b in EXTRA][0]
        s["attrs"].remove(x)
        vals = s["data"].pop(x)
        free = [b for b in EXTRA if b not in s["attrs"] + [x]]
        if free and rng.random() < .6:
            s["attrs"].append(free[0])
            s["data"][free[0]] = vals
    elif u == "swap" and len(s["valid"]) > 1:
        for v in list(s["data"].values()) + [s["valid"]]:
            v[0], v[-1] = v[-1], v[0]
    elif u == "cut" and len(s["valid"]) > 1:
        for v in list(s["data"].values()) + [s["valid"]]:
            v.pop()
    elif u == "undefined" and a in EXTRA:
        s["data"][a][j] = NAN
    elif u == "order":
        rng.shuffle(s["attrs"])


def rand_obj(rng):
    kind = rng.choice(["ts", "s1c", "s1c", "array", "array", "source", "peaks", "peaks", "suite"])
    if kind in ("peaks", "suite"):
        return dict(BLANK, kind=kind, sets=[rand_set(rng, i) for i in rng.sample("abcdef", 1 if kind == "peaks" else rng.randint(1, 4))])
    if kind == "source":
        return dict(BLANK, kind=kind, src=[rng.randint(-9, 9) for _ in range(3)])
    ch = rng.randint(1, 5) if kind == "array" else 1
    N, n = rng.randint(2, 12), rng.choice([1, 1, 2, 3, 7])
    xs = sorted(rng.sample(range(-9, 30), ch))
    return dict(BLANK, kind=kind, w=[[n * rng.randint(-20, 20) for _ in range(N)] for _ in range(ch)], n=n, t0=-4 * rng.choice([0, 0, 1, 3]), dt=rng.choice(list(DTS)),
                pos=[] if kind == "ts" else [[x, rng.randint(-3, 3), rng.randint(-3, 3)] for x in xs], src=[-20, 0, rng.randint(0, 2)] if kind == "array" else [], sets=[])


def vary(rng, o):
    """Another object: the same, or different in one respect."""
    o = copy.deepcopy(o)
    if o["kind"] == "source" or o["kind"] == "array" and rng.random() < .15:
        if rng.random() < .75:
            o["src"][rng.randrange(3)] += rng.choice([-1, 1])
        return o
    if o["kind"] in ("peaks", "suite"):
        ss = o["sets"]
        if o["kind"] == "suite" and rng.random() < .5:
            u = rng.choice(["drop", "add", "order"])
            if u == "drop" and len(ss) > 1:
                ss.pop(rng.choice([0, -1]))
            elif u == "add":
                ss.append(rand_set(rng, "z"))
            elif u == "order":
                rng.shuffle(ss)
        else:
            vary_set(rng, rng.choice(ss))
        return o
    u = rng.choice(["same", "same", "sample", "sample", "n", "t0", "dt", "pos", "cut", "drop", "kind"])
    j = rng.randrange(len(o["w"]))
    if u == "sample":
        o["w"][j][rng.choice([0, -1, rng.randrange(len(o["w"][j]))])] += o["n"] * rng.choice([-1, 1, 5])
    elif u == "n":
        n = o["n"] + rng.choice([1, 2])
        o["w"] = [[x // o["n"] * n for x in w] for w in o["w"]]       # the same samples
        o["n"] = n
    elif u == "t0":
        o["t0"] -= rng.choice([1, 4, 8])
    elif u == "dt":
        o["dt"] = NEAR[o["dt"]] if o["dt"] in NEAR and rng.random() < .5 else rng.choice([d for d in DTS if d != o["dt"]])
    elif u == "pos" and o["pos"]:
        o["pos"][j][rng.choice([1, 2] if o["kind"] == "array" else [0, 1, 2])] += rng.choice([-1, 1])
    elif u == "cut" and len(o["w"][0]) > 2:
        o["w"] = [w[:-1] for w in o["w"]]
    elif u == "drop" and len(o["w"]) > 1:
        j = rng.choice([0, len(o["w"]) - 1])
        del o["w"][j], o["pos"][j]
    elif u == "kind" and o["kind"] == "s1c":
        o.update(kind="ts", pos=[])
    return o


def fine(rng, a, b):
    """Two objects, alike so far, of small and large values that differ a little."""
    a, b = copy.deepcopy(a), copy.deepcopy(b)
    a["nano"] = b["nano"] = 1
    va, vb = ([[s["data"][x] for s in o["sets"] for x in s["attrs"] if x in EXTRA] if o["sets"] else o["w"] for o in (a, b)])
    for v, w in zip(va, vb):
        for i in range(min(len(v), len(w))):
            if NAN in (v[i], w[i]):
                continue
            v[i] = w[i] = rng.choice([0, 0, 3, 40, 1000, 10 ** 6, 10 ** 8, 10 ** 9, 2 * 10 ** 9]) * rng.choice([1, -1])
            if rng.random() < .5:
                w[i] += int((10 + abs(v[i]) // 10 ** 5) * rng.choice([.3, .7, -.7, .7, -.3, .5] + [1.5, -3, 40] * (rng.random() < .15)))
    return a, b


CFG = """SPECIFICATION Spec
ACTION_CONSTRAINT Emit
INVARIANTS InvSymmetric InvReflexive InvOnlySame InvVisible
CHECK_DEADLOCK FALSE
"""


def p38(ctx):
    rng = ctx.rng
    edges = ctx.graph("MC_Equality", CFG)
    rng.shuffle(edges)
    ctx.replay_graph(edges, EqAdapter(rng), walks=0, edge_cap=ctx.n(8000, 10 ** 6))
    ev = []
    for _ in range(ctx.n(1500, 15000)):
        if ctx.left() < 20:
            break
        a = rand_obj(rng)
        b = vary(rng, a) if rng.random() < .9 else rand_obj(rng)
        if rng.random() < .3 and (a["w"] or a["sets"]):
            a, b = fine(rng, a, vary(rng, a) if rng.random() < .2 else a)
        elif rng.random() < .3 and a["kind"] == b["kind"] == "source":
            a["nano"] = b["nano"] = 1               # positions have no tolerance
        if rng.random() < .5:
            a, b = b, a
        ev.append(dict(op=dict(name="equal", out="ok"), a=a, b=b, **ask(a, b, rng)))
    ctx.validate("Trace_Equality", ev)
