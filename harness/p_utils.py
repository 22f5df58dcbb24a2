"""P29 (extraction of blocks of continuous records) against spec/Extract.tla."""
import datetime
import hashlib
import os
import pathlib
import shutil
import tempfile
import numpy as np
import obspy
from swprocess import utils
from common import Adapter, outcome, BAD, scratch

BASES = [datetime.datetime(*x) for x in [(2020, 2, 28, 22), (2019, 2, 28, 22), (2020, 12, 31, 21), (2021, 12, 31, 23), (2000, 2, 29, 0), (2022, 4, 30, 22), (2023, 6, 15, 7),
                                         (2024, 9, 9, 9), (2020, 1, 1, 0), (2021, 10, 31, 22)]]


def base_hour(rng):
    """The first hour of the records: often shortly before a midnight, at times at the end of a month or year."""
    if rng.random() < .4:
        return rng.choice(BASES)
    day = datetime.datetime(2000, 1, 1) + datetime.timedelta(days=rng.randrange(12000))
    return day.replace(hour=rng.choice([21, 22, 22, 23, 23, 23, rng.randrange(24)]))


HEAD = ["folder name", "array name", "station number", "start year", "start month", "start date", "start hour", "start minute", "start second",
        "end year", "end month", "end date", "end hour", "end minute", "end second", "notes"]


class Source:
    """Hourly files: H samples an hour for some hours, stations and channels."""

    def __init__(self, base_dir, base, hours, H, net, stations, chans, ext, gaps=None, over=0, kind=np.int32):
        """gaps: of each station and channel, ranges of samples that are missing; over: samples of
        the next hour which a file repeats; kind: of number."""
        self.dir = tempfile.mkdtemp(dir=base_dir)
        self.base, self.hours, self.H, self.net, self.stations, self.chans, self.ext = base, hours, H, net, stations, chans, ext
        self.dt = 3600 / H
        self.kind, self.part = kind, 0 if np.issubdtype(kind, np.integer) else .5
        self.gaps = gaps or [[[] for _ in chans] for _ in stations]
        for st in stations:
            for h in range(hours):
                t = base + datetime.timedelta(hours=h)
                s = obspy.Stream()
                for c, ch in enumerate(chans):
                    x = np.arange(h * H, min(h * H + H + over, hours * H))
                    for a, b in self.gaps[stations.index(st)][c]:
                        x = x[(x < a) | (x > b)]
                    for piece in np.split(x, np.flatnonzero(np.diff(x) != 1) + 1):
                        s += obspy.Trace((piece + self.shift(st, c) + self.part).astype(kind),
                                         dict(network=net[:2], station=f"S{st}"[:5], channel=ch, delta=self.dt,
                                              starttime=obspy.UTCDateTime(t) + (int(piece[0]) - h * H) * self.dt))
                s.write(os.path.join(self.dir, f"{net}.STN{st:02d}_{t:%Y%m%d_%H}0000.{ext}"), format="mseed")
        self.sum = self.digest()

    def shift(self, st, c):
        return 1000000 * (c + 10 * self.stations.index(st))

    def digest(self):
        return [(f, hashlib.md5(open(os.path.join(self.dir, f), "rb").read()).hexdigest()) for f in sorted(os.listdir(self.dir))]

    def when(self, k):
        return self.base + datetime.timedelta(seconds=k * self.dt)

    def table(self, path, rows, rng):
        extra = rng.random() < .3
        with open(path, "w") as f:
            f.write(",".join(HEAD) + "\n")
            for r in rows:
                folder, arr, st = r["key"]
                a, b = self.when(r["s"]), self.when(r["e"])
                v = [folder, arr, st] + [x for t in (a, b) for x in (t.year, t.month, t.day, t.hour, t.minute, t.second)] + [rng.choice(["", "note", "a b"]) if extra else "n"]
                f.write(",".join(map(str, v)) + "\n")

    def name(self, key):
        return f"{key[0]}/{self.net}.STN{key[2]:02d}.{key[1]}.{self.ext}"

    def read(self, out, key):
        """What the file of a key holds; None if there is none."""
        p = os.path.join(out, self.name(key))
        if not os.path.exists(p):
            return None
        chans = []
        for tr in obspy.read(p):
            c = self.chans.index(tr.stats.channel) if tr.stats.channel in self.chans else 0
            x = np.asarray(tr.data).astype(float) - self.shift(key[2], c) - self.part
            start = (tr.stats.starttime - obspy.UTCDateTime(self.base)) / self.dt
            start = int(round(start)) if abs(start - round(start)) < 1e-6 else BAD
            w = np.flatnonzero(x != np.arange(start, start + len(x)))
            wrong = [[int(p[0]) + start, int(p[-1]) + start] for p in np.split(w, np.flatnonzero(np.diff(w) != 1) + 1) if len(p)]
            chans.append(dict(ch=tr.stats.channel, n=len(x), wrong=wrong[:20], start=start, step=abs(tr.stats.delta - self.dt) < 1e-9))
        return chans

    def run(self, out, rows, rng):
        t = os.path.join(out, "..", f"t{rng.random()}.csv")
        self.table(t, rows, rng)
        p = rng.choice([str, pathlib.Path])
        kw = dict(extension=self.ext) if self.ext != "mseed" or rng.random() < .5 else {}
        o, _ = outcome(utils.extract_mseed, p(t), self.net, data_dir=p(self.dir), output_dir=p(out), **kw)
        os.remove(t)
        return o


def listing(out):
    return sorted(os.path.relpath(os.path.join(d, f), out) for d, _, fs in os.walk(out) for f in fs)


class ExtractAdapter(Adapter):
    KEY = dict(a=("fa", "x1", 1), b=("fb", "x1", 1))

    def __init__(self, rng, base, src):
        self.rng, self.base, self.src = rng, base, src

    def init(self, s):
        return tempfile.mkdtemp(dir=self.base)

    def clone(self, w):
        v = tempfile.mkdtemp(dir=self.base)
        shutil.copytree(w, v, dirs_exist_ok=True)
        return v

    def apply(self, w, op):
        return dict(out=self.src.run(w, [dict(r, key=self.KEY[r["file"]]) for r in op["rows"]], self.rng))

    def project(self, w):
        files = {}
        for n, key in self.KEY.items():
            c = self.src.read(w, key)
            files[n] = [] if c is None else [c[0]["start"], c[0]["start"] + c[0]["n"] - 1] if len(c) == 1 and not c[0]["wrong"] and c[0]["step"] else [BAD]
        return dict(files=files)


CFG = """SPECIFICATION Spec
CONSTANTS H = %d
 Hours = %d
 MaxSteps = %d
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS InvJoin InvGaps InvFiles
CHECK_DEADLOCK FALSE
"""


NEAR = [0, 0, 0, -1, -1, 1, 1, 2, -2, 59, 60, 61, -60]


def rand_gaps(rng, hours, H, per, nchans):
    """Missing samples: the same of every channel, or different ones; never a whole hour."""
    def one():
        g, n, at = [], H * hours, 0
        for _ in range(rng.choice([0, 1, 1, 2])):
            a = rng.randrange(at, n) if rng.random() < .6 else min(n - 1, max(at, H * rng.randrange(hours) + per * rng.choice(NEAR)))
            b = min(n - 1, a + rng.choice([0, 1, 2, H // 2 - 2, H // 3]))
            if a < at or any(sum(max(0, min(y, h * H + H - 1) - max(x, h * H) + 1) for x, y in g + [[a, b]]) >= H for h in range(hours)):
                break
            g.append([a, b])
            at = b + 2
            if at >= n:
                break
        return g
    if rng.random() < .5:
        return [one()] * nchans
    return [one() for _ in range(nchans)]


def p29(ctx):
    rng, ev = ctx.rng, []
    with scratch() as base:
        src = Source(base, BASES[2], 3, 2, "NW", [1], ["HHZ"], "mseed")
        ctx.replay_graph(ctx.graph("MC_Extract", CFG % (2, 3, 2)), ExtractAdapter(rng, base, src), walks=ctx.n(10, 60), depth=2, edge_cap=ctx.n(350, 4000))
        for tid in range(ctx.n(75, 600)):
            if ctx.left() < 40:
                break
            H = rng.choice([1, 2, 4, 60, 60, 120, 240, 360, 3600, 3600, 3600, 18000])
            per = max(1, H // 3600)                             # samples a second: limits are whole seconds
            hours = (rng.choice([1, 2, 3, 4, 6]) if rng.random() < .9 or H > 60 else rng.choice([25, 26, 30, 49])) if H < 3600 else rng.choice([2, 3])
            net, ext = rng.choice(["NW", "XX", "N1"]), rng.choice(["mseed", "mseed", "miniseed"])
            stations = rng.sample([1, 2, 9, 10, 11, 45, 101], rng.choice([1, 1, 2]))
            chans, gaps = rng.choice([["HHZ"], ["HHZ", "HHN", "HHE"]]), None
            if rng.random() < .35 and H >= 4:
                gaps = [rand_gaps(rng, hours, H, per, len(chans)) for _ in stations]
            src = Source(base, base_hour(rng), hours, H, net, stations, chans, ext, gaps, over=rng.choice([0, 0, 0, 1, 2, H - 1]),
                         kind=rng.choice([np.int32, np.int32, np.float64] + ([np.float32] if len(stations) == 1 else [])))
            for _ in range(4):
                out = os.path.join(tempfile.mkdtemp(dir=base), "out")
                os.mkdir(out)
                if rng.random() < .3:
                    os.mkdir(os.path.join(out, "block_1"))
                rows, n = [], H * hours
                for _ in range(rng.choice([1, 1, 2, 3, 4])):
                    a, b = rng.randrange(n), rng.randrange(n)
                    if rng.random() < .35:                      # whole hours, and the samples next to them
                        a = min(n - 1, max(0, H * rng.randrange(hours) + per * rng.choice(NEAR)))
                    if rng.random() < .5:
                        b = min(n - 1, max(0, H * rng.randrange(hours) + per * rng.choice(NEAR)))
                    if H >= 3600 and rng.random() < .25:        # into an hour by a few seconds, or from its last ones
                        k = H * rng.randrange(1, hours)
                        a, b = rng.choice([a % k, k - per * rng.randint(1, 60)]), min(n - 1, k + per * rng.choice([0, 1, 1, 2, 59, rng.randint(0, 60)]))
                    a, b = a // per * per, b // per * per
                    if rng.random() < .1:
                        b = a
                    if a > b and rng.random() < .85:
                        a, b = b, a
                    st = rng.choice(stations)
                    if any(x <= a and b <= y for g in src.gaps[stations.index(st)] for x, y in g):
                        continue                                # nothing to extract
                    key = (rng.choice(["block_1", "block 2", "ex_3"]), rng.choice(["array_0", "array_1"]), st)
                    rows.append(dict(key=key, s=a, e=b, file="/".join(map(str, key)), st=stations.index(st) + 1))
                if not rows:
                    continue
                o = src.run(out, rows, rng)
                keys = {r["file"]: r["key"] for r in rows}
                files = [dict(file=f, chans=c) for f, c in ((f, src.read(out, k)) for f, k in keys.items()) if c is not None]
                files += [dict(file="stray", chans=[]) for f in listing(out) if f not in {src.name(k) for k in keys.values()}]
                ev.append(dict(op=dict(name="extract", rows=[dict(s=r["s"], e=r["e"], file=r["file"], st=r["st"]) for r in rows], chans=src.chans, gaps=src.gaps, H=H, out=o),
                               files=files, kept=src.digest() == src.sum))
                shutil.rmtree(os.path.dirname(out))
    ctx.validate("Trace_Extract", ev)
