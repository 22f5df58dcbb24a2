"""P15 (settings) and P36 (registries)."""
import copy
import math
import numpy as np
from swprocess import Masw
from swprocess.register import WavefieldTransformRegistry, MaswWorkflowRegistry
import swprocess.wavefieldtransforms as wt
import swprocess.maswworkflows as mw
from common import Adapter, outcome, BAD

STR = dict(workflow=["time-domain", "single", "frequency-domain", "x", "Single"], method=["interactive", "predefined", "m", "Interactive", " m"],
           transform=["fdbf", "phaseshift", "slantstack", "fk", "FK"], vspace=["linear", "log", "z", "lin", "LOG"],
           weighting=["sqrt", "none", "invamp", "None", "InvAmp"], steering=["cylindrical", "plane", "p", "Plane", ""])
BOOL = ["trim", "mute", "pad", "snr", "pad_snr"]


class Text(str):
    pass


def python(o, v, rng):
    """The python value with which option o is given value v."""
    if o in STR:
        return STR[o][v] if rng.random() < .8 else Text(STR[o][v])
    if o in BOOL:
        return rng.choice([bool(v), int(v), np.bool_(v)])
    if o == "nvel":
        return rng.choice([v, float(v), np.int64(v), str(v)])
    if o == "window_kwargs":
        return None if v == 0 and rng.random() < .5 else {} if v == 0 else dict(alpha=v / 4)
    if v == 10 ** 9:
        return rng.choice([np.inf, float("inf")])
    x = v / 4
    return rng.choice([x, np.float64(x), str(x)] + ([int(x)] if x == int(x) else []))


def abstract(o_at, path, x):
    """The type and value found in the dictionary."""
    t = type(x)
    if t is dict:
        if not x:
            return dict(type="dict", v=0)
        if list(x) == ["alpha"] and x["alpha"] * 4 == int(x["alpha"] * 4):
            return dict(type="dict", v=int(x["alpha"] * 4))
        return dict(type="dict", v=BAD)
    if t is bool:
        return dict(type="bool", v=int(x))
    if t is int:
        return dict(type="int", v=x)
    if t is float:
        if math.isinf(x) and x > 0:
            return dict(type="float", v=10 ** 9)
        return dict(type="float", v=int(x * 4) if x * 4 == int(x * 4) else BAD)
    if isinstance(x, str):
        o = path.split("/")[-1]
        return dict(type="str", v=STR[o].index(str(x)) if o in STR and x in STR[o] else BAD)
    return dict(type=t.__name__, v=BAD)


def flatten(d, prefix=""):
    r = {}
    for k, v in d.items():
        p = prefix + k
        if isinstance(v, dict) and k != "window_kwargs":
            r.update(flatten(v, p + "/"))
        else:
            r[p] = abstract(None, p, v)
    return r


def scramble(d):
    for k, v in list(d.items()):
        if isinstance(v, dict):
            scramble(v)
        d[k] = "scrambled"
    d["extra"] = 1


def call(given, rng):
    kw = {o: python(o, v, rng) for o, v in given.items()}
    items = list(kw.items())
    rng.shuffle(items)
    return outcome(Masw.create_settings_dict, **dict(items))


class SettingsAdapter(Adapter):
    def __init__(self, rng):
        self.rng = rng

    def init(self, s):
        return dict(g={})

    def apply(self, w, op):
        w["g"][op["o"]] = op["v"]
        return {}

    def project(self, w):
        out, d = call(w["g"], self.rng)
        return dict(d=flatten(d) if out == "ok" else out)
    ignore = ("k", "g")


def p15(ctx):
    cfg = """SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InvPlaces
PROPERTY PropIndependent
CHECK_DEADLOCK FALSE
"""
    ctx.replay_graph(ctx.graph("MC_Settings", cfg), SettingsAdapter(ctx.rng), walks=200, depth=2)
    rng, ev = ctx.rng, []
    import inspect
    names = list(inspect.signature(Masw.create_settings_dict).parameters)
    for tid in range(ctx.n(1500, 15000)):
        given = {}
        for o in names:
            if rng.random() < .4:
                given[o] = rng.randrange(len(STR[o])) if o in STR else rng.randint(0, 1) if o in BOOL else \
                    rng.randint(1, 500) if o == "nvel" else rng.randint(0, 4) if o == "window_kwargs" else rng.randint(-4000, 4000)
                if o not in STR and o not in BOOL and o not in ("nvel", "window_kwargs") and rng.random() < .15:
                    given[o] = 0
        if rng.random() < .1:
            given["max_offset"] = 10 ** 9
        kw = {o: python(o, v, rng) for o, v in given.items()}
        kept = copy.deepcopy(kw)
        out, d = outcome(Masw.create_settings_dict, **kw)
        out2, d2 = outcome(Masw.create_settings_dict, **kw)
        flat = flatten(d) if out == "ok" else {}
        equal = out == out2 and (out != "ok" or d == d2)
        indep = True
        if out == "ok" and out2 == "ok":
            scramble(d)
            indep = flatten(d2) == flat and kw == kept and outcome(Masw.create_settings_dict, **kw)[1] == d2
        ev.append(dict(tid=tid, op=dict(name="settings", out=out), given=dict(given), dict=flat, equal=equal, independent=indep))
    ctx.validate("Trace_Settings", [dict(e, given=e["given"] or dict(trim=0)) for e in ev])


REG = dict(transform=WavefieldTransformRegistry, workflow=MaswWorkflowRegistry)


def new_class(i):
    class Made:
        ident = i

        def __init__(self, *args, **kwargs):
            self.args, self.kwargs = args, kwargs
    return Made


class Registries:
    """The two registries under fresh names, so that the library's own entries stay."""
    counter = 0

    def __init__(self, names):
        Registries.counter += 1
        self.form = ["vf%d-{}", "{}-vf%d", "v{}f%d"][Registries.counter % 3] % Registries.counter
        self.names = names
        self.cls = {}

    def real(self, n):
        return self.form.format(n)

    def do(self, op, rng):
        r = REG[op["r"]]
        if op["name"] == "register":
            c = self.cls.setdefault(op["c"], new_class(op["c"]))
            out, got = outcome(r.register(self.real(op["n"])), c)
            return dict(out=out if got is c else "class not returned", got=op["c"])
        if op["name"] == "class":
            out, got = outcome(r.create_class, self.real(op["n"]))
            return dict(out=out, got=getattr(got, "ident", 0))
        a, k = (rng.randint(0, 9), "x"), dict(z=rng.random())
        out, got = outcome(r.create_instance, self.real(op["n"]), *a, **k)
        self.argsok = out != "ok" or (got.args == a and got.kwargs == k and isinstance(got, self.cls[got.ident]))
        return dict(out=out, got=getattr(got, "ident", 0))

    def state(self):
        w = {}
        for rn, r in REG.items():
            w[rn] = {}
            for n in self.names:
                o, c = outcome(r.create_class, self.real(n))
                w[rn][n] = c.ident if o == "ok" else 0 if o == "KeyError" else BAD
        return w


class RegAdapter(Adapter):
    """Registrations cannot be undone, so each path starts under fresh names."""

    def __init__(self, rng, names):
        self.rng, self.names = rng, names

    def init(self, s):
        return dict(r=Registries(self.names), log=[])

    def clone(self, w):
        v = dict(r=Registries(self.names), log=[])
        for op in w["log"]:
            self.apply(v, op)
        return v

    def apply(self, w, op):
        w["log"].append(op)
        d = w["r"].do(op, self.rng)
        if op["name"] == "instance" and not w["r"].argsok:
            d["out"] = "arguments not passed on"
        return d

    def project(self, w):
        return dict(w=w["r"].state())


BUILTIN = dict(transform=dict(fdbf="FDBF", fk="FK", phaseshift="PhaseShift", slantstack="SlantStack", empty="EmptyWavefieldTransform"),
               workflow={"single": "SingleMaswWorkflow", "time-domain": "TimeDomainMaswWorkflow",
                         "frequency-domain": "FrequencyDomainMaswWorkflow", "time-domain-xcorr": "TimeDomainXcorrMaswWorkflow"})


NOT_THERE = ["FDBF", "Fk", " fdbf", "fdbf ", "fdb", "phase-shift", "slant", "Single", "time_domain", "frequency-domain ", "", "none"]


def p36(ctx):
    names = ["a", "b"]
    cfg = f"""SPECIFICATION Spec
CONSTANTS Names = {{"a", "b"}} Classes = {{1, 2}} MaxSteps = {ctx.n(4, 5)}
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY PropFrame
CHECK_DEADLOCK FALSE
"""
    ctx.replay_graph(ctx.graph("MC_Registry", cfg), RegAdapter(ctx.rng, names), walks=300, depth=4, edge_cap=ctx.n(6000, 100000))
    rng, ev = ctx.rng, []
    names = ["fdbf", "FDBF", "fdbf ", "a b", "a-b", "single", "Ä", "ä", "", "x", "xx"]
    for tid in range(ctx.n(150, 1500)):
        R = Registries(names)
        pre = R.state()
        for seq in range(1, 16):
            op = dict(name=rng.choice(["register", "class", "instance"]), r=rng.choice(list(REG)), n=rng.choice(names), c=rng.randint(1, 9))
            R.argsok = True
            op.update(R.do(op, rng))
            post = R.state()
            ev.append(dict(tid=tid, seq=seq, op=op, pre=pre, post=post, argsok=R.argsok))
            pre = post
    # the documented names, in their own registry only, before and after all of the above
    ids = {}
    seq = 0
    built = {r: {n: 1 + i for i, n in enumerate(BUILTIN[r])} for r in BUILTIN}
    for r in BUILTIN:
        for other in BUILTIN:
            for n in list(BUILTIN[other]) + NOT_THERE:
                seq += 1
                out, c = outcome(REG[r].create_class, n)
                mod = wt if r == "transform" else mw
                got = 0
                for m, cn in BUILTIN[r].items():
                    if c is not None and c is getattr(mod, cn):
                        got = built[r][m]
                ev.append(dict(tid=10 ** 6, seq=seq, op=dict(name="class", r=r, n=n, out=out, got=got), pre=built, post=built, argsok=True))
    # a documented name can be taken over, and given back
    for r in BUILTIN:
        for n, cn in BUILTIN[r].items():
            own, old = new_class(99), getattr(wt if r == "transform" else mw, cn)
            for i, (c, cid) in enumerate([(own, 99), (old, built[r][n])]):
                before = built if i == 0 else {q: {m: 99 if q == r and m == n else v for m, v in d.items()} for q, d in built.items()}
                out, _ = outcome(REG[r].register(n), c)
                out2, got = outcome(REG[r].create_class, n)
                got = cid if got is c else BAD
                after = {q: {m: got if q == r and m == n else v for m, v in d.items()} for q, d in before.items()}
                ev.append(dict(tid=10 ** 6 + 1 + len(ev), seq=1, op=dict(name="register", r=r, n=n, c=cid, out=out if out2 == "ok" else out2, got=cid), pre=before, post=after, argsok=True))
    ctx.validate("Trace_Registry", ev)
