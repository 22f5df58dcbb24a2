"""P28 (.max files) against spec/MaxFile.tla."""
import os
import pathlib
import numpy as np
from swprocess import Peaks, PeaksSuite
from common import Adapter, outcome, q, BAD, NAN, scratch

INF = 888888888
ATTRS = ["frequency", "velocity", "azimuth", "ellipticity", "noise", "power"]
HEAD = """# MAX FORMAT RELEASE 1.1
#
# BEGIN COMMAND LINE ARGUMENTS
#
geopsy-fk -db ../geopsy_db/{words}.gpy -param rtbf_c50_n=1.param -group-path 3c -o out
#
# BEGIN SOFTWARE VERSION
#
  Qt                  5.12.3
  QGpCoreTools        2.2.0 from geopsypack-{version}
      (built on 20191001095018 commit 9a9aca6fa9a4afe876dea557f2abdfcf2a347b70)
  ArrayCore           3.2.0 from geopsypack-{version}
# BEGIN STATION LIST
UT_STN11 9.31 47.18 0.00
UT_STN12 24.42 31.87 0.00
# END STATION LIST
PROCESS_TYPE={proc}
MINIMUM_FREQUENCY=1
N_MAXIMA={nmax}
RELATIVE_THRESHOLD (%)=90
# END PARAMETERS
# abs_time frequency polarization slowness azimuth ellipticity noise power valid
"""


def number(x, rng):
    """A decimal spelling of x quarters."""
    if x == NAN:
        return "nan"
    if abs(x) == INF:
        return "-inf" if x < 0 else "inf"
    v = x / 4
    u = rng.random()
    if u < .5:
        return repr(v)
    if u < .7 and v == int(v):
        return str(int(v))
    if u < .85:
        return "%.12g" % v
    return "%.10e" % v


def text(line, rng):
    f, vel, azi, ell, noi, pwr = line["v"]
    slow = 4 / vel
    return " ".join([line["t"], line["f"], line["w"], rng.choice([repr(slow), "%.15g" % slow, "%.14e" % slow]), number(azi, rng), number(ell, rng),
                     number(noi, rng), number(pwr, rng), "1" if line["ok"] else "0"])


def write(path, f, rng):
    proc = rng.choice([f["proc"], f["proc"].upper()])
    s = HEAD.format(words=rng.choice(["nz_wghs", "site_info", "nan_1_inf", "x 1", "Rayleigh_1"]), version="3.2.0" if f["ok"] else rng.choice(["3.2.1", "2.10.1", "13.2.0", "3.20.0"]),
                    proc=proc, nmax=f["nmax"])
    s += "".join(text(x, rng) + "\n" for x in f["lines"])
    if rng.random() < .2:
        s = s.rstrip("\n")
    with open(path, "w") as fh:
        fh.write(s)


def back(x):
    x = float(x)
    return NAN if x != x else INF * (1 if x > 0 else -1) if abs(x) == np.inf else q(x, .25)


def abstract(p):
    """Identifier and peaks as reported."""
    cols = []
    for a in ATTRS:
        o, v = outcome(getattr, p, a)
        if o != "ok":
            return dict(id=[BAD], peaks=[[BAD]])
        cols.append([back(x) for x in v])
    t, _, pr = p.identifier.rpartition("-")
    return dict(id=[t, pr], peaks=sorted((list(x) for x in zip(*cols)), key=lambda x: x[0]) if len({len(c) for c in cols}) == 1 else [[BAD]])


def one_frequency_per_sample(p):
    f = [float(x) for x in p.simplify_mpeaks("frequency")]
    return len(set(f)) == len(f) and set(f) == set(p.frequency)


def read(paths, wave, suite, rng):
    kw = {} if wave == "rayleigh" and rng.random() < .5 else dict(wavetype=wave)
    if suite:
        arg = paths[0] if len(paths) == 1 and rng.random() < .5 else pathlib.Path(paths[0]) if len(paths) == 1 and rng.random() < .3 else list(paths)
        return outcome(PeaksSuite.from_max, arg, **kw)
    o, p = outcome(Peaks.from_max, paths[0], **kw)
    return o, [p] if o == "ok" else None


class MaxAdapter(Adapter):
    def __init__(self, rng, base):
        self.rng, self.path = rng, os.path.join(base, "f.max")

    def init(self, s):
        return []

    def clone(self, w):
        return list(w)

    def apply(self, w, op):
        if op["name"] == "line":
            w.append(op["l"])
            return {}
        write(self.path, dict(nmax=3, ok=True, proc="rtbf", lines=w), self.rng)
        out, s = read([self.path], op["wave"], op["suite"], self.rng)
        return dict(out=out, sets=[abstract(p) for p in s] if out == "ok" else [])

    def out_same(self, f, a, b):
        return f == "out" and a == "error" and b != "ok"

    def project(self, w):
        return dict(lns=w)


CFG = """SPECIFICATION Spec
CONSTANTS MaxLines = %d
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InvReadOnce
CHECK_DEADLOCK FALSE
"""


def rand_max(rng):
    waves = rng.choice([["Rayleigh"], ["Rayleigh", "Love"], ["Vertical"], ["Vertical", "Radial", "Transverse"], ["Love", "Rayleigh"]])
    times = rng.sample(["7201", "201", "17201", "7201.5", "72015", "1", "20201021184000.000000", "20201021184030.000000", "7.2015", "0", "720145", "7.20145"], rng.choice([1, 2, 3]))
    if rng.random() < .15:                                      # the point of one, a digit of the other
        times = rng.choice([["7201.5", "720145"], ["720145", "7201.5", "1"], ["1.5", "105"], ["105", "1.5"]])
    freqs = rng.sample([("1.5", 6), ("105", 420), ("15", 60), ("1.50000000000000000000", 6), ("2", 8), ("20.25", 81), ("0.25", 1), ("2e+01", 80), ("25", 100),
                        ("10.5", 42), ("1025", 4100), ("0.5", 2)], rng.choice([1, 2, 4]))
    if len({v for _, v in freqs}) < len(freqs):
        freqs = freqs[:1]
    nmax = rng.choice([1, 1, 2, 3, 5])
    full = rng.random() < .06      # as many as there may be
    if full:
        nmax, times, freqs = rng.choice([12, 40, 70, 99, 100, 100]), times[:2], freqs[:1]
    lines = []
    for t in times:
        for f, fv in freqs:
            for w in waves:
                for _ in range(rng.choice([0, 1, nmax, rng.randint(0, nmax)] if not full else [nmax, nmax, rng.randint(0, nmax)])):
                    vel = rng.choice([400, 800, 1600, 2000, 3200, 1204, 1372])
                    e = lambda: rng.choice([0, 4, 6, 40, 44, 4000, -4, -41, rng.randint(-500, 500)])
                    noi = rng.choice([NAN, INF, -INF]) if rng.random() < .1 else e()
                    lines.append(dict(t=t, f=f, w=w, v=[fv, vel, e(), e(), noi, e()], ok=rng.random() < (.97 if full else .85)))
    if rng.random() < .2:
        rng.shuffle(lines)
    if lines:
        lines[0]["ok"] = lines[0]["ok"] or "Vertical" in waves
    return dict(nmax=nmax, ok=rng.random() < .93, proc=rng.choice(["rtbf", "rtbf", "capon", "fk"]), lines=lines)


def p28(ctx):
    rng, ev = ctx.rng, []
    with scratch() as base:
        ctx.replay_graph(ctx.graph("MC_Max", CFG % ctx.n(3, 4)), MaxAdapter(rng, base), walks=50, depth=4, edge_cap=ctx.n(2500, 30000))
        for tid in range(ctx.n(500, 6000)):
            if ctx.left() < 30:
                break
            files, many = [], rng.choice([1, 1, 2, 3])
            while len(files) < many:
                f = rand_max(rng)
                if f["lines"] and (any(x["ok"] for x in f["lines"]) or many == 1):
                    files.append(f)
            suite = rng.random() < .7
            if not suite:
                files = files[:1]
            paths = [os.path.join(base, f"{'ab c.d1'[j]}_{j}.max") for j in range(len(files))]
            for p, f in zip(paths, files):
                write(p, f, rng)
            raw = [open(p, "rb").read() for p in paths]
            wave = rng.choice(["rayleigh"] * 4 + ["love", "vertical", "radial", "transverse", "Rayleigh", "p"])
            out, s = read(paths, wave, suite, rng)
            ev.append(dict(op=dict(name="read", wave=wave, suite=suite, out=out), files=files, sets=[abstract(p) for p in s] if out == "ok" else [],
                           onefreq=out != "ok" or all(one_frequency_per_sample(p) for p in s if len(p.frequency)), kept=raw == [open(p, "rb").read() for p in paths]))
    ctx.validate("Trace_Max", ev)
