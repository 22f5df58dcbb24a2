"""P24 (JSON files, dictionaries) and P25 (suites) against spec/Store.tla."""
import copy
import json
import os
import pathlib
import shutil
import tempfile
import numpy as np
from swprocess import Peaks, PeaksSuite
from common import Adapter, outcome, quiet, BAD, scratch
from p_peaks import make, abstract, do, rand_member, rand_op, back, DERIVED, STORED, UNIT, AWKWARD

FILES = ["f1", "f2"]


def of_dict(d):
    """The sets held in a dictionary {identifier: {attr: values, "valid": flags}}."""
    ms = []
    for ident, x in d.items():
        attrs = [a for a in x if a != "valid"]
        shp = np.shape(x["velocity"])
        data = {a: [back(v, a) for v in np.array(x[a], float).ravel()] if np.shape(x[a]) == shp else [BAD] for a in attrs}
        rows, cols = (0, shp[0]) if len(shp) == 1 else shp
        n = len(data["velocity"])
        if "valid" in x:
            valid = [int(v) if isinstance(v, bool) else BAD for v in np.array(x["valid"]).ravel().tolist()] if np.shape(x["valid"]) == shp else [BAD] * n
        else:
            valid = [2] * n                       # nothing said about validity
        ms.append(dict(id=ident, attrs=attrs, rows=rows, cols=cols, data=data, valid=valid))
    return ms


class World:
    def __init__(self, members, base):
        self.dir = tempfile.mkdtemp(dir=base)
        self.base = base
        self.heap = [make(m) for m in members]
        self.suites, self.dicts = [], []

    def fork(self):
        v = World([], self.base)
        memo = {}
        v.heap = copy.deepcopy(self.heap, memo)
        v.suites = copy.deepcopy(self.suites, memo)
        v.dicts = copy.deepcopy(self.dicts)
        for f in os.listdir(self.dir):
            shutil.copy(os.path.join(self.dir, f), v.dir)
        return v

    def path(self, f):
        return os.path.join(self.dir, f + ".json")

    def state(self):
        files = {}
        for f in FILES:
            if os.path.exists(self.path(f)):
                try:
                    with open(self.path(f)) as fh:
                        files[f] = of_dict(json.load(fh))
                except ValueError:
                    files[f] = [dict(id="unreadable")]
            else:
                files[f] = []
        suites = []
        for s in self.suites:
            suites.append([next((i + 1 for i, h in enumerate(self.heap) if h is p), BAD) for p in s])
        return dict(heap=[abstract(p) for p in self.heap], suites=suites, files=files, dicts=[of_dict(d) for d in self.dicts])

    def ids_ok(self):
        return all(list(s.ids) == [p.identifier for p in s] and len(s) == len(s.ids) == len(list(s)) and
                   all(s[i] is p for i, p in enumerate(s)) for s in self.suites)

    def eq_ok(self):
        """Sets are equal exactly when identifier, attributes and valid values are."""
        for a in self.heap:
            for b in self.heap:
                A, B = abstract(a), abstract(b)
                va = {x: [v for v, ok in zip(A["data"][x], A["valid"]) if ok] for x in A["attrs"]}
                vb = {x: [v for v, ok in zip(B["data"][x], B["valid"]) if ok] for x in B["attrs"]}
                with quiet():
                    if (a == b) != (A["id"] == B["id"] and va == vb):
                        return False
        return True

    def do(self, op, rng):
        n = op["name"]
        self.kept = True
        if n == "new":
            o, p = outcome(make, dict(op["set"], valid=None))
            if o == "ok":
                self.heap.append(p)
            return o
        if n == "reject":
            return do(self.heap, None, dict(op["how"], m=op["i"]), rng)
        if n == "rejectall":
            return do(None, self.suites[op["s"] - 1], dict(op["how"], m=0), rng)
        if n in ("single", "frompeaks", "merge", "loadsuite", "fromdict"):
            if n == "single":
                o, s = outcome(PeaksSuite, self.heap[op["i"] - 1])
            elif n == "frompeaks":
                arg = [self.heap[i - 1] for i in op["is"]]
                if rng.random() < .5:
                    arg = tuple(arg)
                before = list(arg)
                o, s = outcome(PeaksSuite.from_peaks, arg)
                self.kept = list(arg) == before
                if isinstance(arg, list):
                    arg.append("scribble")
            elif n == "merge":
                arg = [self.suites[i - 1] for i in op["ss"]]
                if len(arg) == 1 and rng.random() < .5:
                    arg = arg[0]
                o, s = outcome(PeaksSuite.from_peakssuite, arg)
            elif n == "loadsuite":
                names = [self.path(f) for f in op["fs"]]
                arg = names[0] if len(names) == 1 and rng.random() < .5 else pathlib.Path(names[0]) if len(names) == 1 and rng.random() < .5 else names
                o, s = outcome(PeaksSuite.from_json, arg)
            else:
                arg = [self.dicts[i - 1] for i in op["ds"]]
                if len(arg) == 1 and rng.random() < .5:
                    arg = arg[0]
                o, s = outcome(PeaksSuite.from_dict, arg)
            if o == "ok":
                for p in s:
                    if not any(p is h for h in self.heap):
                        self.heap.append(p)
                self.suites.append(s)
            return o
        if n == "append":
            return outcome(self.suites[op["s"] - 1].append, self.heap[op["i"] - 1])[0]
        if n in ("appendbad", "suitebad"):
            bad = rng.choice([None, "a", 5, self.heap[:1], dict(frequency=[1], velocity=[2])] + self.suites[:1])
            return outcome(self.suites[op["s"] - 1].append, bad)[0] if n == "appendbad" else outcome(PeaksSuite, bad)[0]
        if n == "save":
            kw = dict(append=True) if op["app"] else {} if rng.random() < .5 else dict(append=False)
            return outcome(self.heap[op["i"] - 1].to_json, self.path(op["f"]), **kw)[0]
        if n == "savesuite":
            return outcome(self.suites[op["s"] - 1].to_json, self.path(op["f"]))[0]
        if n == "load":
            o, p = outcome(Peaks.from_json, self.path(op["f"]))
        if n == "dict":
            with open(self.path(op["f"])) as fh:
                self.dicts.append(json.load(fh))
            return "ok"
        if n == "peaksdict":
            ident, d = list(self.dicts[op["d"] - 1].items())[op["j"] - 1]
            o, p = outcome(Peaks.from_dict, d, identifier=ident)
        if o == "ok":
            self.heap.append(p)
        return o


class StoreAdapter(Adapter):
    def __init__(self, rng, base):
        self.rng, self.base = rng, base

    def init(self, s):
        w = World(s["w"]["heap"], self.base)
        for x in s["w"]["suites"]:
            w.suites.append(PeaksSuite.from_peaks([w.heap[i - 1] for i in x]))
        return w

    def clone(self, w):
        return w.fork()

    def dispose(self, w):
        shutil.rmtree(w.dir, ignore_errors=True)

    def apply(self, w, op):
        return dict(out=w.do(op, self.rng))

    def project(self, w):
        return dict(w=w.state())

    def diff(self, exp, got):
        bad = [c for c in exp["w"] if exp["w"][c] != got["w"][c]]
        return "; ".join(f"{c}: expected {json.dumps(exp['w'][c])} got {json.dumps(got['w'][c])}" for c in bad) or None


CFG = """SPECIFICATION Spec
CONSTANTS MaxSteps = %d Mode = "%s"
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InvSuites InvFiles
PROPERTY PropNeverLost PropFailSafe PropRestores
CHECK_DEADLOCK FALSE
"""


def histories(ctx, runs, steps, names):
    rng, ev = ctx.rng, []
    with scratch() as base:
        for tid in range(runs):
            if ctx.left() < 30:
                break
            ids = ["a", "b", "c", "Ä 1", "0"] if rng.random() < .6 else ["a", "A", "a ", " a", "a.0", "0", "00", "0.0"]
            ms = [rand_member(rng, rng.choice(ids)) for j in range(rng.choice([2, 3, 4]))]
            UNIT.clear()
            if ctx.pid == "P24" and rng.random() < .6:
                UNIT.update({a: rng.choice(AWKWARD) for a in STORED})
            w = World(ms, base)
            pre = w.state()
            todo = []
            for seq in range(1, 1 + steps):
                n, given = todo.pop(0) if todo else (rng.choice(names), {})
                nh, ns, nd = len(w.heap), len(w.suites), len(w.dicts)
                have = [f for f in FILES if os.path.exists(w.path(f))]
                op = dict(name=n)
                H, S = lambda: rng.randint(1, nh), lambda: rng.randint(1, ns)
                if n == "new":
                    op["set"] = rand_member(rng, rng.choice(ids))
                elif n == "reject":
                    op["i"] = H()
                    how = dict(name="")
                    while not how["name"] or UNIT and {how.get("attr"), how.get("xt"), how.get("yt")} & set(DERIVED):
                        how = rand_op(rng, [pre["heap"][op["i"] - 1]])
                    op["how"] = dict(how, m=0)
                    if rng.random() < .15:              # everything goes
                        op["how"] = dict(name="out", attr="frequency", lims=[[10 ** 6, 4], [0, 0]], m=0)
                        if "savesuite" in names and rng.random() < .6:      # a suite that begins with it goes to a file
                            f = rng.choice(FILES)
                            todo = [("frompeaks", dict(first=op["i"])), ("savesuite", dict(s=-1, f=f)), ("loadsuite", dict(fs=[f]))]
                    if not todo and have and "save" in names and rng.random() < .5:      # what was rejected goes to a file and comes back
                        f = max(have, key=lambda f: os.path.getsize(w.path(f)))
                        todo = [("save", dict(i=op["i"], f=f, app=True)), ("load", dict(f=f))]
                elif n == "rejectall":
                    if not ns:
                        continue
                    op["s"] = S()
                    how = dict(m=1)
                    while how["m"]:                    # an attribute all members have
                        how = rand_op(rng, [pre["heap"][i - 1] for i in pre["suites"][op["s"] - 1]])
                    op["how"] = how
                elif n == "single":
                    op["i"] = H()
                elif n == "frompeaks":
                    op["is"] = [H() for _ in range(rng.randint(1, 3))]
                    if "first" in given:
                        op["is"] = [given["first"]] + op["is"]
                elif n in ("append", "appendbad"):
                    if not ns:
                        continue
                    op["s"] = S()
                    if n == "append":
                        op["i"] = H()
                elif n == "merge":
                    if not ns:
                        continue
                    op["ss"] = [S() for _ in range(rng.randint(1, 3))]
                elif n == "save":
                    op.update(i=H(), f=rng.choice(FILES), app=rng.random() < .6)
                    op.update(given)
                    if op["app"] and op["f"] not in have:
                        op["app"] = False
                elif n == "savesuite":
                    if not ns:
                        continue
                    op.update(s=S(), f=rng.choice(FILES))
                    op.update(given)
                    if op["s"] < 0:
                        op["s"] = ns
                elif n in ("load", "loadsuite", "dict"):
                    if not have:
                        continue
                    if n == "loadsuite":
                        op["fs"] = given["fs"] if given and given["fs"][0] in have else [rng.choice(have) for _ in range(rng.choice([1, 1, 2]))]
                    else:
                        op["f"] = given.get("f") or rng.choice(have)
                elif n in ("fromdict", "peaksdict"):
                    if not nd:
                        continue
                    if n == "fromdict":
                        op["ds"] = [rng.randint(1, nd) for _ in range(rng.choice([1, 1, 2]))]
                    else:
                        op["d"] = rng.randint(1, nd)
                        op["j"] = rng.randint(1, len(w.dicts[op["d"] - 1]))
                op["out"] = w.do(op, rng)
                post = w.state()
                ev.append(dict(tid=tid, seq=1, op=op, pre=pre, post=post, ids=w.ids_ok(), kept=w.kept, eq=w.eq_ok() if ctx.pid == "P24" else True))
                pre = post
                if nh > 8:
                    break
            shutil.rmtree(w.dir, ignore_errors=True)
    UNIT.clear()
    ctx.validate("Trace_Store", ev)


def p24(ctx):
    with scratch() as base:
        ctx.replay_graph(ctx.graph("MC_Store", CFG % (ctx.n(3, 4), "files")), StoreAdapter(ctx.rng, base), walks=100, depth=3, edge_cap=ctx.n(1500, 30000))
    histories(ctx, ctx.n(90, 800), 14, ["new", "reject", "reject", "save", "save", "save", "savesuite", "frompeaks", "load", "loadsuite", "dict", "fromdict", "peaksdict", "peaksdict"])


def p25(ctx):
    with scratch() as base:
        ctx.replay_graph(ctx.graph("MC_Store", CFG % (ctx.n(2, 3), "suites")), StoreAdapter(ctx.rng, base), walks=200, depth=3, edge_cap=ctx.n(2500, 40000))
    histories(ctx, ctx.n(60, 800), 14, ["new", "single", "frompeaks", "frompeaks", "append", "append", "append", "appendbad", "suitebad", "merge", "merge",
                                        "rejectall", "reject", "savesuite", "save", "loadsuite", "dict", "fromdict"])
