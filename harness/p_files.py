"""P09-P11, P37: files on disk against spec/Files.tla."""
import os
import struct
import tempfile
import numpy as np
import obspy
from obspy.core import AttribDict
from obspy.io.segy.segy import SEGYTraceHeader, SEGYBinaryFileHeader
from swprocess import ActiveTimeSeries, Array1D, Sensor1C, Source
from swprocess.array1d import Array1DwSource
from common import Adapter, q, BAD, outcome, quiet, scratch, isnum
from p_timeseries import NONE, same

U, T = 1e-4, 1e-6
NOARRAY = dict(r=dict(NONE), src=0, sy=0, ys=[])


def _strings(kv):
    b = b""
    for k, v in kv:
        s = f"{k} {v}".encode() + b"\x00"
        b += struct.pack("<H", len(s) + 2) + s
    b += struct.pack("<H", 0)
    return b + b"\x00" * ((-len(b)) % 4)


def dec(v):
    """A multiple of 1/10000 as a decimal string."""
    return f"{'-' if v < 0 else ''}{abs(v) // 10000}.{abs(v) % 10000:04d}"


def write_seg2(path, f, code=4):
    head = _strings([("ACQUISITION_DATE", "18/12/2020"), ("ACQUISITION_TIME", "10:00:00")])
    blocks = []
    for t in f["tr"]:
        kv = [("SAMPLE_INTERVAL", f"{t['dt'] // 1000000}.{t['dt'] % 1000000:06d}"), ("SOURCE_LOCATION", dec(f["sx"]))]
        omit = f.get("omit", ())
        if not (t["x"] == 0 and "x" in omit):
            kv.append(("RECEIVER_LOCATION", dec(t["x"])))
        if not (t["st"] == 1 and "st" in omit):
            kv.append(("STACK", str(t["st"])))
        if not (t["delay"] == 0 and "delay" in omit):
            kv.append(("DELAY", f"{'-' if t['delay'] < 0 else ''}{abs(t['delay']) // 1000000}.{abs(t['delay']) % 1000000:06d}"))
        free = _strings(kv)
        data = np.array(t["w"], {1: "<i2", 2: "<i4", 4: "<f4", 5: "<f8"}[code]).tobytes()
        size = 32 + len(free)
        blocks.append(struct.pack("<HHLLB", 0x4422, size, len(data), len(t["w"]), code).ljust(32, b"\x00") + free + data)
    n = len(blocks)
    off = 32 + 4 * n + len(head)
    ptr = []
    for b in blocks:
        ptr.append(off)
        off += len(b)
    fd = struct.pack("<HHHH", 0x3a55, 1, 4 * n, n) + struct.pack("<BccBcc", 1, b"\x00", b"\x00", 1, b"\n", b"\x00")
    with open(path, "wb") as fh:
        fh.write(fd.ljust(32, b"\x00") + struct.pack(f"<{n}L", *ptr) + head + b"".join(blocks))


def write_segy(path, f):
    su = f["fmt"] == "SU"
    st = obspy.Stream()
    for t in f["tr"]:
        tr = obspy.Trace(np.array(t["w"], dtype=np.float32))
        tr.stats.delta = t["dt"] / 1e6
        tr.stats.starttime = obspy.UTCDateTime(2020, 12, 18, 10, 0, 0)
        h = SEGYTraceHeader()
        h.scalar_to_be_applied_to_all_coordinates = f["scal"]
        h.coordinate_units = f["units"]
        h.source_coordinate_x, h.source_coordinate_y = f["sx"], f["sy"]
        h.group_coordinate_x, h.group_coordinate_y = t["x"], t["y"]
        h.delay_recording_time = t["delay"]
        h.number_of_horizontally_stacked_traces_yielding_this_trace = t["st"]
        # neighbouring fields that must not be confused with the above
        h.number_of_vertically_summed_traces_yielding_this_trace = 7
        h.scalar_to_be_applied_to_all_elevations_and_depths = -100
        h.receiver_group_elevation = 17
        h.distance_from_center_of_the_source_point_to_the_center_of_the_receiver_group = 31
        tr.stats.su = AttribDict(dict(trace_header=h))
        tr.stats.segy = AttribDict(dict(trace_header=h))
        st.append(tr)
    with quiet():
        if su:
            st.write(path, format="SU", byteorder=f.get("order", ">"))
        else:
            st.stats = AttribDict(textual_file_header=b" " * 3200, binary_file_header=SEGYBinaryFileHeader())
            st.write(path, format="SEGY", data_encoding=5, byteorder=f.get("order", ">"))


def write_file(d, name, f):
    p = os.path.join(d, name)
    if f["fmt"] == "SEG2":
        write_seg2(p, f, f.get("code", 4))
    else:
        write_segy(p, f)
    return p


def project(a, nf=1, G=1):
    if a is None:
        return dict(NOARRAY, r=dict(NONE))
    ps = []
    for p in a.sensors:
        n = p.nstacks if isnum(p.nstacks) else BAD
        t = np.atleast_1d(np.array(p.time, float))
        amp = np.atleast_1d(np.array(p.amplitude, float))
        t0 = q(t[0], T, 1e-4) if len(t) else BAD
        if not len(t) or len(t) != len(amp) or p.nsamples != len(amp) or \
                not np.allclose(t, t[0] + np.arange(len(t)) * p.dt, rtol=0, atol=p.dt * 1e-4):
            t0 = BAD
        ps.append(dict(w=[q(x / G * n * nf, 1, 1e-5) for x in amp], n=q(n), t0=t0, delay=q(p.delay, T, 1e-4), dt=q(p.dt, T, 1e-4)))
    return dict(r=dict(kind="array", w=[p["w"] for p in ps], t0=same([p["t0"] for p in ps]), delay=same([p["delay"] for p in ps]),
                       n=same([p["n"] for p in ps]), mult=1, dt=same([p["dt"] for p in ps]),
                       pos=[q(x, U, 1e-4) for x in a.position()]),
                src=q(a.source.x, U, 1e-4), sy=q(a.source.y, U, 1e-4) if a.source.z == 0 else BAD,
                ys=[q(s.y, U, 1e-4) if s.z == 0 else BAD for s in a.sensors])


def mapper(m):
    return lambda c: m["a"] * c + m["b"] * U


def read(d, op, style=0):
    """Write op's files and read them back through the library."""
    names, known = [], {}
    for i, f in enumerate(op["files"]):             # the very same file may be listed more than once
        again = known.get(id(f)) if style % 2 else None
        names.append(again or write_file(d, f"f{i}.dat", f))
        known[id(f)] = names[-1]
    kw = {}
    if op["mx"] != dict(a=1, b=0) or style % 2:
        kw["map_x"] = mapper(op["mx"])
    if op["my"] != dict(a=1, b=0) or style % 3:
        kw["map_y"] = mapper(op["my"])
    if style % 5 == 1:
        kw["obspy_read_kwargs"] = dict(format=op["files"][0]["fmt"])
    arg = names
    if len(names) == 1 and style % 4 == 1:
        arg = names[0]
    elif len(names) == 1 and style % 4 == 2:
        import pathlib
        arg = pathlib.Path(names[0])
    elif style % 4 == 3:
        arg = tuple(names)
    before = list(names)
    contents = [open(n, "rb").read() for n in names]
    out, a = outcome(Array1D.from_files, arg, **kw)
    if names != before or [open(n, "rb").read() for n in names] != contents:
        out = "input changed"
    return out, a


class W:
    def __init__(self):
        self.a = None


class FileAdapter(Adapter):
    def __init__(self, d):
        self.d, self.c = d, 0

    def init(self, s):
        return W()

    def apply(self, w, op):
        self.c += 1
        if op["name"] == "read":
            out, w.a = read(self.d, op, self.c)
            return dict(out=out)
        if op["name"] == "roundtrip":
            p = os.path.join(self.d, "rt.su")
            before = project(w.a)
            with quiet():
                w.a.to_file(p)
            if project(w.a) != before:
                return dict(out="array changed by writing")
            out, w.a = outcome(Array1D.from_files, p)
            return dict(out=out)

    def project(self, w):
        return dict(a=project(w.a))


def mc(ctx, mode, walks=0, cap=None):
    cfg = f"""SPECIFICATION Spec
CONSTANTS Mode = "{mode}" NFiles = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS InvRound
PROPERTIES PropRead PropRound
CHECK_DEADLOCK FALSE
"""
    edges = ctx.graph("MC_Files", cfg)
    with scratch() as d:
        ctx.replay_graph(edges, FileAdapter(d), walks=walks, depth=2, edge_cap=cap)


def rand_file(rng, xs, fmt, scal, st, delay, dt, L, sx, sy, ydim=True):
    return dict(fmt=fmt, scal=scal, units=rng.choice([0, 1, 1]), sx=sx, sy=sy,
                tr=[dict(x=x, y=rng.randint(-50, 50) if fmt != "SEG2" and ydim else 0, st=st, delay=delay, dt=dt,
                         w=[rng.randint(-300, 300) for _ in range(L)]) for x in xs])


MAPS = [dict(a=1, b=0)] * 3 + [dict(a=-1, b=123450), dict(a=2, b=-500), dict(a=1, b=77), dict(a=-3, b=0)]


def rand_files(rng, nmax=4, bad=.3):
    fmt = rng.choice(["SU", "SU", "SEGY", "SEG2"])
    n = rng.randint(1, 6)
    scal = rng.choice([-10000, -1000, -1000, -100, -10, -1, 0, 1, 10]) if fmt != "SEG2" else 1
    lim = 30000 if scal < 0 or fmt == "SEG2" else 1000
    xs = rng.sample(range(-lim, lim), n)
    if rng.random() < .5:
        xs = [5 * i - 3 for i in range(n)]
        rng.shuffle(xs)
    sx, sy = rng.randint(-lim, lim), rng.randint(-50, 50) if fmt != "SEG2" else 0
    delay = rng.choice([0, 0, -rng.randint(1, 500), -rng.randint(1, 30000)]) if fmt != "SEG2" else rng.choice([0, 0, -rng.randint(1, 500000)])
    if rng.random() < .04:
        delay = 5
    dt = rng.choice([1000, 500, 250, 125, 2000, 290, 4000])
    L = rng.randint(2, 10)
    st = rng.choice([1, 1, 2, 5, 10, rng.choice([128, 255, 256, 1000, 32766])])
    f0 = rand_file(rng, xs, fmt, scal, st, delay, dt, L, sx, sy)
    if fmt != "SEG2":
        f0["order"] = rng.choice("><")
        if rng.random() < .1:
            f0["units"] = rng.choice([2, 3])
        if rng.random() < .15:
            for t in f0["tr"]:
                t["st"] = 0
    else:
        f0["code"] = rng.choice([4, 4, 2, 1, 5])
        f0["omit"] = rng.choice([[], ["x", "st", "delay"]])
    files = [f0]
    for _ in range(rng.choice([0, 0, 1, 1, 2, nmax - 1])):
        xs2 = list(range(n))
        rng.shuffle(xs2)
        f = dict(f0, tr=[dict(f0["tr"][i], w=[rng.randint(-300, 300) for _ in range(L)]) for i in xs2])
        s2 = rng.choice([1, st, 3])
        for t in f["tr"]:
            t["st"] = s2
        files.append(f)
    if len(files) > 1 and rng.random() < bad:
        f = files[rng.randrange(len(files))]
        how = rng.choice(["src", "mirror", "sy", "count", "pos", "dup", "delay", "dt", "len", "y", "stmix", "units"])
        t = f["tr"][rng.randrange(n)]
        if how == "src":
            f["sx"] += 1
        elif how == "mirror":
            f["sx"] = -f["sx"] or 1
        elif how == "sy" and fmt != "SEG2":
            f["sy"] += 1
        elif how == "count" and n > 1:
            f["tr"] = f["tr"][:-1]
        elif how == "pos":
            t["x"] += 40001 if fmt == "SEG2" else 31
        elif how == "dup" and n > 1:
            f["tr"][0] = dict(f["tr"][0], x=f["tr"][1]["x"])
        elif how == "delay":
            for t in f["tr"]:
                t["delay"] = t["delay"] - 7 if t["delay"] <= 0 else t["delay"]
        elif how == "dt":
            for t in f["tr"]:
                t["dt"] *= 2
        elif how == "len":
            for t in f["tr"]:
                t["w"] = t["w"] + [3]
        elif how == "y" and fmt != "SEG2":
            t["y"] += 1
        elif how == "stmix" and n > 1:
            t["st"] += 1
        elif how == "units" and fmt != "SEG2":
            f["units"] = 2
    if rng.random() < .2:
        files.insert(rng.randint(0, len(files)), rng.choice(files))
    return files


def strip(files):
    return [{k: v for k, v in f.items() if k not in ("order", "code", "omit")} for f in files]


def limited(f, mx, my):
    """Coordinates stay in the range TLC's integers can hold."""
    m = max([abs(f["sx"]), abs(f["sy"])] + [max(abs(t["x"]), abs(t["y"])) for t in f["tr"]])
    s = 10000 * max(1, f["scal"])
    return m * s * 3 < 1.5e9


HARD = [k for k in range(32768) if int(k / 1000 * 1000) != k]      # milliseconds that no float holds exactly


def histories(ctx, n, kinds):
    rng, events = ctx.rng, []
    with scratch() as d:
        for tid in range(n):
            if ctx.left() < 15:
                break
            files = rand_files(rng)
            if "roundtrip" in kinds:
                files = files[:2]
            mx, my = rng.choice(MAPS), rng.choice(MAPS)
            if not all(limited(f, mx, my) for f in files):
                continue
            op = dict(name="read", files=files, mx=mx, my=my)
            out, a = read(d, op, rng.randrange(60))
            cur = project(a)
            events.append(dict(tid=tid, op=dict(op, files=strip(files), out=out), post=cur))
            if a is None or "roundtrip" not in kinds:
                continue
            # whole millimetres / milliseconds / samples
            ok = all(p % 10 == 0 for p in cur["r"]["pos"] + cur["ys"] + [cur["src"], cur["sy"]])
            if not ok:
                mm = [round(s.x, 3) for s in a.sensors]
                if len(set(mm)) < len(mm):
                    continue
            ns = rng.choice([1, 2, 3, 17, 100, 1001, 10000, 32767])
            dl = -rng.choice([0, 0, 1, 37, 250, 5000, 32767, rng.randint(1, 32767), rng.choice(HARD)]) / 1000
            G = 2.0 ** rng.choice([0, 0, 0, rng.randint(-60, 60)])
            ss = []
            for s in a.sensors:
                amp = G * np.array([rng.randint(-2000, 2000) for _ in range(s.nsamples)], float)
                x, y, z = (s.x, s.y, s.z) if ok else (round(s.x, 3), round(s.y, 3), 0)
                ss.append(Sensor1C(amp, s.dt, x, y, z, nstacks=ns, delay=dl))
            a = Array1D(ss, a.source if ok else Source(round(a.source.x, 3), round(a.source.y, 3), 0))
            pre = project(a, G=G)
            p = os.path.join(d, "x.su")
            if rng.random() < .1:
                o = outcome(a.to_file, p + "2", ftype=rng.choice(["segy", "SEG2", "", "txt"]))[0]
                events.append(dict(tid=tid, op=dict(name="badtype", out=o), pre=pre, post=project(a, G=G)))
            with quiet():
                o, _ = outcome(a.to_file, p)
            back = None
            if o == "ok":
                o, back = outcome(Array1D.from_files, p)
            events.append(dict(tid=tid, op=dict(name="roundtrip", out=o), pre=pre, post=project(a, G=G), back=project(back, G=G)))
    ctx.validate("Trace_Files", events)


NOSENSOR = dict(x=0, y=0, z=0, n=0, t0=0, dt=0, w=[])


def one(s, sensor):
    if s is None:
        return dict(NOSENSOR)
    n = s.nstacks if isnum(s.nstacks) else BAD
    t = np.atleast_1d(np.array(s.time, float))
    amp = np.atleast_1d(np.array(s.amplitude, float))
    ok = len(t) and len(t) == len(amp) == s.nsamples and np.allclose(t, t[0] + np.arange(len(t)) * s.dt, rtol=0, atol=s.dt * 1e-4) and \
        abs(t[0] - s.delay) < 1e-9
    r = dict(n=q(n), t0=q(t[0], T, 1e-4) if ok else BAD, dt=q(s.dt, T, 1e-4), w=[q(x * n, 1, 1e-5) for x in amp])
    return dict(r, **{c: q(getattr(s, c), U, 1e-4) if sensor else 0 for c in "xyz"})


def traces(ctx, n):
    """Single traces, of which the caller or the trace itself tells the format."""
    rng, ev = ctx.rng, []
    with scratch() as d:
        for tid in range(n):
            if ctx.left() < 15:
                break
            f = rand_files(rng, bad=0)[0]
            f["tr"] = f["tr"][:1]
            mx, my = rng.choice(MAPS), rng.choice(MAPS)
            if f["tr"][0]["x"] == 0 or not limited(f, mx, my):
                continue
            with quiet():
                tr = obspy.read(write_file(d, "one.dat", f))[0]
            marked = rng.choice([f["fmt"], f["fmt"], "", "MSEED"])
            said = rng.choice(["", f["fmt"], f["fmt"], rng.choice(["MSEED", "GSE2"])])
            tr.stats._format = marked
            if not marked:
                del tr.stats["_format"]
            g = dict(x=rng.randint(-99999, 99999), y=rng.randint(-99, 99), z=rng.randint(-9, 9), st=rng.choice([1, 2, 9]), delay=-rng.choice([0, 250, 3000]))
            header, sensor = rng.random() < .75, True
            kw = dict(map_x=mapper(mx), map_y=mapper(my)) if rng.random() < .8 or (mx, my) != (MAPS[0], MAPS[0]) else {}
            if said:
                kw["format"] = rng.choice([str, str.lower, str.title])(said)
            if not header or rng.random() < .3:
                kw.update(read_header=header, x=g["x"] * U, y=g["y"] * U, z=g["z"] * U, nstacks=g["st"], delay=g["delay"] * T)
            before = (tr.data.copy(), tr.stats.delta, tr.stats.get("_format"))
            if rng.random() < .15:                      # a plain record knows nothing of positions
                sensor, g = False, dict(g, x=0, y=0)
                if f["fmt"] == "SEG2" and marked == "SEG2" and said in ("", "SEG2") and not f["omit"]:
                    header, f = True, dict(f, sx=0, tr=[dict(f["tr"][0], x=0, y=0)])
                    mx = my = MAPS[0]
                    out, s = outcome(ActiveTimeSeries.from_trace_seg2, tr)
                else:
                    header, marked = False, f["fmt"]
                    out, s = outcome(ActiveTimeSeries.from_trace, tr, nstacks=g["st"], delay=g["delay"] * T)
            else:
                out, s = outcome(Sensor1C.from_trace, tr, **kw)
            kept = np.array_equal(before[0], tr.data) and before[1:] == (tr.stats.delta, tr.stats.get("_format"))
            ev.append(dict(tid=tid, op=dict(name="trace", file=strip([f])[0], mx=mx, my=my, said=said, marked=marked, header=header, given=g, sensor=sensor, out=out),
                           post=one(s, sensor), kept=kept))
    ctx.validate("Trace_Files", ev)


def p09(ctx):
    mc(ctx, "headers")
    histories(ctx, ctx.n(400, 6000), [])
    traces(ctx, ctx.n(500, 6000))


def p10(ctx):
    histories(ctx, ctx.n(900, 8000), ["roundtrip"])
    mc(ctx, "stack")


def p11(ctx):
    mc(ctx, "stack")
    histories(ctx, ctx.n(800, 8000), [])


def p37(ctx):
    rng, events = ctx.rng, []
    with scratch() as d:
        for tid in range(ctx.n(700, 7000)):
            if ctx.left() < 15:
                break
            n, L, M = rng.randint(1, 5), rng.randint(2, 12), rng.randint(2, 10)
            dt = rng.choice([1000, 500, 2000, 4000, 20000, 10000, 32000])
            if dt == 32000:
                M = rng.randint(14, 24)     # a source record longer than half a second: the window starts later
            xs = rng.sample(range(1, 60), n)
            src = rng.choice([-rng.randint(1, 20), 60 + rng.randint(1, 20), 30])
            f0 = rand_file(rng, xs, "SU", -1, rng.choice([1, 3]), rng.choice([0, 0, -2]), dt, L, src, 0, False)
            files = [f0]
            if rng.random() < .4:
                files.append(dict(f0, tr=[dict(t, w=[rng.randint(-300, 300) for _ in range(L)]) for t in reversed(f0["tr"])]))
            for f in files:
                for t in f["tr"]:
                    t["w"] = [x // 10 for x in t["w"]]
            nf = rng.choice([1, 1, 2, 3, 4])
            nch = rng.randint(1, 3)
            sfmt = rng.choice(["SU", "SEG2", "SEG2"])
            code = rng.choice([4, 2, 1, 1, 5])
            peak = rng.choice([20, 20, 32767])     # as large as short integers get
            sf = [dict(fmt=sfmt, scal=-1, units=1, sx=0, sy=0, code=code,
                       tr=[dict(x=i, y=0, st=1, delay=0, dt=dt, w=[rng.randint(-peak, peak) for _ in range(M)]) for i in range(nch)])
                  for _ in range(nf)]
            ch = rng.randrange(nch)
            mx = rng.choice([dict(a=1, b=0), dict(a=-1, b=5000), dict(a=2, b=0)])
            op = dict(name="xsource", files=strip(files), mx=mx, my=dict(a=1, b=0), sfiles=strip(sf), ch=ch + 1)
            rec = [write_file(d, f"r{i}", f) for i, f in enumerate(files)]
            sn = [write_file(d, f"s{i}", f) for i, f in enumerate(sf)]
            if rng.random() < .2:
                again = rng.randrange(nf)               # the same file twice
                sn, sf = sn + [sn[again]], sf + [sf[again]]
                op["sfiles"], nf = strip(sf), nf + 1
            out, a = outcome(Array1DwSource.from_files, rec, sn, ch, map_x=mapper(mx))
            op["out"] = out
            if out != "ok":
                events.append(dict(tid=tid, op=op, post=project(None), sig=[], sdt=0))
                continue
            cur = project(a)
            sig = [q(x * nf, 1, 1e-5) for x in np.atleast_1d(a.source.amplitude)]
            sdt = q(a.source.dt, T, 1e-4)
            events.append(dict(tid=tid, op=op, post=cur, sig=sig, sdt=sdt))
            # cross-correlate with limits whose window does not start or end exactly between two samples
            offs = [abs(cur["src"] - p) for p in cur["r"]["pos"]]
            for _ in range(20):
                vmin, vmax = rng.choice([(None, None), (50, 3000), (None, rng.randint(60, 1500)), (rng.randint(5, 200), None)]
                                        + [(rng.randint(5, 200), rng.randint(201, 1500))] * 3 + [(rng.randint(5, 40), rng.randint(41, 120))] * 2)
                a0, a1 = vmin or 50, vmax or 3000
                n0, d0 = min(offs) * 100 - 500000 * a1, a1 * dt
                n1, d1 = max(offs) * 100, a0 * dt
                first, last = max(len(sig) + int(n0 / d0), 0), min(len(sig) + int(n1 / d1), len(sig) + len(cur["r"]["w"][0]) - 1)
                if (n0 % d0 and n1 % d1) and max(offs) * 100 < 2e9 and d0 < 2e9 and d1 < 2e9 and first < last:
                    break
            else:
                continue
            kw = {k: v for k, v in [("vmin", vmin), ("vmax", vmax)] if v is not None or rng.random() < .3}
            o = outcome(a.xcorrelate, **kw)[0]
            post = project(a, nf)
            events.append(dict(tid=tid, op=dict(name="xcorr", vmin=a0, vmax=a1, out=o), pre=cur, post=post, sig=sig, sdt=sdt))
    ctx.validate("Trace_Files", events)
    import p_workflow
    p_workflow.xcorr_runs(ctx, ctx.n(150, 2500))
