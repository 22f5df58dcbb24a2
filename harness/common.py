"""Machinery shared by all checks: TLC runs, behaviour replay, trace validation, verdicts, evidence."""
import collections
import contextlib
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SWP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
BAD = -777777777     # a number that is not on the grid the specification talks about
NAN = -999999999     # not-a-number


class Machinery(Exception):
    """The check itself could not be carried out (never a verdict about the code)."""


class Stop(Exception):
    """Enough violations were found."""


def isnum(v):
    import numbers
    return isinstance(v, numbers.Number)


def q(value, unit=1.0, tol=1e-6):
    """Project a float on the integer grid of step `unit`; BAD when it is not on the grid."""
    try:
        v = float(value) / unit
    except Exception:
        return BAD
    if v != v:
        return NAN
    if v in (float("inf"), float("-inf")) or abs(v) > 2e9:
        return BAD
    r = round(v)
    return int(r) if abs(v - r) <= tol * max(1.0, abs(v)) else BAD


def sc(value, scale=1.0):
    """Round to a scaled integer (for clauses with tolerances)."""
    try:
        v = float(value) * scale
    except Exception:
        return BAD
    if v != v:
        return NAN
    if abs(v) > 5e8:
        return BAD
    return int(round(v))


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out

    def lines(self, tag):
        """Values printed with PrintT(<<tag, ToJson(v)>>) as python objects."""
        pat = '<<"%s", ' % tag
        res = []
        for ln in self.out.splitlines():
            if ln.startswith(pat):
                res.append(json.loads(json.loads(ln[len(pat):-2])))
        return res


def run_tlc(module, cfg, env=None, workers=8, timeout=600, heap="6g", expect_ok=True, extra=()):
    d = tempfile.mkdtemp(prefix="tlc_")
    try:
        cfgp = os.path.join(d, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC",
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-nowarning", "-workers", str(workers), "-config", cfgp,
               *extra, os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise Machinery(f"TLC timed out on {module} after {timeout}s") from ex
        r = TLCResult(p.stdout, p.returncode)
        if expect_ok and not r.ok:
            tail = "\n".join(x for x in p.stdout.splitlines() if not x.startswith("<<\"E\""))[-3000:]
            raise Machinery(f"TLC did not complete on {module} (rc={p.returncode}):\n{tail}")
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def key(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(f"{seed}-{pid}")
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.replayed = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.known = [k for k in load_known() if k.get("property") == pid]
        self.known_hit = []
        self.budget = float(os.environ.get("SWP_BUDGET", 600 if self.thorough else 150))
        self.op_counts = collections.Counter()

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self):
        return self.budget - (time.time() - self.t0)

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, what, data=None, ident=None):
        for k in self.known:
            if ident is not None and k.get("ident") == ident:
                if ident not in self.known_hit:
                    self.known_hit.append(ident)
                return
        self.violations.append(dict(what=what, data=data, ident=ident))
        if len(self.violations) >= 5:
            raise Stop()

    # -- specification -> code ---------------------------------------------------------------
    def graph(self, module, cfg, **kw):
        """Model check `module` and return its emitted transitions [(pre, op, post)]."""
        r, edges = self.explored(module, cfg, kw)
        self.states += r.distinct
        self.transitions += r.generated
        if not edges:
            raise Machinery(f"{module}: no transition was emitted")
        for e in edges:
            self.op_counts[module + ":" + str(e["o"].get("name", "?")) + ":" + str(e["o"].get("out", ""))] += 1
        return edges

    def explored(self, module, cfg, kw):
        """TLC's exploration; the mutation sweep (tools/mutate.py) keeps it between runs, a check never does."""
        keep = os.environ.get("SWP_GRAPH_CACHE")
        if keep:
            import hashlib
            import pickle
            f = os.path.join(keep, module + hashlib.sha1((cfg + repr(kw)).encode()).hexdigest())
            if os.path.exists(f):
                with open(f, "rb") as h:
                    return pickle.load(h)
        r = run_tlc(module, cfg, **kw)
        got = r, r.lines("E")
        if keep:
            r.out = ""
            with open(f + f".{os.getpid()}", "wb") as h:
                pickle.dump(got, h)
            os.replace(f + f".{os.getpid()}", f)
        return got

    def replay_graph(self, edges, adapter, walks=200, depth=12, edge_cap=None):
        """Take every transition of the model in the real code, then random paths without resets.

        adapter: init(state)->world ; apply(world, op)->out-dict ; project(world)->state ; same(a,b)
        """
        succ, states = collections.defaultdict(list), {}
        tgt = set()
        for e in edges:
            kp, kq = key(e["p"]), key(e["q"])
            states[kp], states[kq] = e["p"], e["q"]
            succ[kp].append((e["o"], kq))
            tgt.add(kq)
        roots = [k for k in states if adapter.is_init(states[k])]
        if not roots:
            raise Machinery("no initial state in the emitted graph")
        worlds = {}
        todo = collections.deque()
        path = {}
        for k in roots:
            worlds[k] = adapter.init(states[k])
            path[k] = []
            self._cmp(adapter, worlds[k], states[k], None, dict(init=states[k]))
            todo.append(k)
        done = 0
        while todo:
            k = todo.popleft()
            for op, kq in succ[k]:
                if edge_cap and done >= edge_cap:
                    break
                w = adapter.clone(worlds[k])
                info = dict(init=path[k][0] if path[k] else states[k], path=path[k], op=op, expected=states[kq])
                ok = self._step(adapter, w, op, states[kq], info)
                done += 1
                if ok and kq not in worlds:
                    worlds[kq] = w
                    path[kq] = path[k] + [op]
                    todo.append(kq)
                elif hasattr(adapter, "dispose"):
                    adapter.dispose(w)
        self.replayed += done
        if edges:
            self.sample(dict(kind="model transition replayed", **edges[len(edges) // 2]))
        rootkeys = sorted(roots)
        for _ in range(walks):
            if self.left() < 0:
                break
            k = self.rng.choice(rootkeys)
            w = adapter.init(states[k])
            ops = []
            root = states[k]
            for _ in range(depth):
                if not succ[k]:
                    break
                op, kq = self.rng.choice(succ[k])
                ops.append(op)
                info = dict(init=root, path=ops[:-1], op=op, expected=states[kq])
                self.replayed += 1
                if not self._step(adapter, w, op, states[kq], info):
                    break
                k = kq
            if hasattr(adapter, "dispose"):
                adapter.dispose(w)
        return done

    def _step(self, adapter, w, op, expected, info):
        try:
            with quiet():
                out = adapter.apply(w, op)
        except Exception as ex:
            self.violation(f"operation {op.get('name')} could not be carried out: {ex!r}",
                           dict(info, traceback=traceback.format_exc()))
            return False
        for f, v in out.items():
            if f in op and op[f] != v and not adapter.out_same(f, op[f], v):
                self.violation(f"{op.get('name')}: {f} should be {op[f]!r} but is {v!r}", dict(info, got=out))
                return False
        return self._cmp(adapter, w, expected, op, info)

    def _cmp(self, adapter, w, expected, op, info):
        try:
            with quiet():
                got = adapter.project(w)
        except Exception as ex:
            self.violation(f"state unreadable after {op}: {ex!r}", dict(info, traceback=traceback.format_exc()))
            return False
        d = adapter.diff(expected, got)
        if d:
            self.violation(f"after {op.get('name') if op else 'init'}: {d}", dict(info, got=got))
            return False
        return True

    # -- code -> specification ---------------------------------------------------------------
    def validate(self, module, events, consts="", workers=8, timeout=600, ident=lambda e, c: None, chunk=20000, heap="6g"):
        """Check recorded events against the specification module (total verdict per event)."""
        for a in range(0, len(events), chunk):
            self._validate(module, events[a:a + chunk], consts, workers, timeout, ident, heap)

    def _validate(self, module, events, consts, workers, timeout, ident, heap):
        if not events:
            return
        d = tempfile.mkdtemp(prefix="trace_")
        try:
            tf = os.path.join(d, "trace.ndjson")
            with open(tf, "w") as f:
                for e in events:
                    f.write(json.dumps(e) + "\n")
            chunks = min(workers, max(1, len(events) // 20))
            cfg = f"SPECIFICATION TSpec\nCONSTANT Verdict <- TheVerdict\nCONSTANT Chunks = {chunks}\n{consts}\nCHECK_DEADLOCK FALSE\n"
            r = run_tlc(module, cfg, env={"TRACE": tf}, workers=workers, timeout=timeout, heap=heap, expect_ok=False)
            if not r.ok:
                # The specification could not even evaluate some event. One that records a value outside its
                # vocabulary (BAD) cannot be a behaviour of it; anything else is a fault of this machinery.
                r = run_tlc(module, re.sub(r"Chunks = \d+", "Chunks = 1", cfg), env={"TRACE": tf}, workers=1, timeout=timeout, heap=heap, expect_ok=False)
                at = [int(x) for x in re.findall(r"^/\\ l = (\d+)", r.out, re.M)]
                n = max(at, default=0)
                if not at or n > len(events) or not (str(BAD) in json.dumps(events[n - 1]) or r.lines("BAD")):
                    raise Machinery(f"TLC did not complete on {module} (rc={r.rc}):\n{r.out[-3000:]}")
                self.report(module, events, r, ident)
                if str(BAD) in json.dumps(events[n - 1]):
                    e = events[n - 1]
                    self.violation(f"{module}: event {n} ({e.get('op', {}).get('name')}) records a value the specification cannot speak of",
                                   dict(event=e), ident=ident(e, ["vocabulary"]))
                return
            if r.distinct != len(events) + chunks:
                raise Machinery(f"{module}: {r.distinct} states for {len(events)} events in {chunks} chunks\n{r.out[-2000:]}")
            self.states += r.distinct
            self.transitions += r.generated
            self.events += len(events)
            self.traces += len({e.get("tid", i) for i, e in enumerate(events)})
            for e in events:
                o = e.get("op", {})
                self.op_counts["trace:" + str(o.get("name", "?")) + ":" + str(o.get("out", ""))] += 1
            self.sample(dict(kind="recorded event validated", event=events[len(events) // 2]))
            self.report(module, events, r, ident)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def report(self, module, events, r, ident):
        for b in r.lines("BAD"):
            e = events[b["l"] - 1]
            c = sorted(b["c"])
            prev = [x for x in events[:b["l"] - 1] if x.get("tid") == e.get("tid") and "tid" in e]
            self.violation(f"{module}: event {b['l']} ({e.get('op', {}).get('name')}) violates {c}",
                           dict(event=e, clauses=c, trace_before=[x.get("op") for x in prev][-20:]), ident=ident(e, c))

    def finish(self, level="model_checking"):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces + self.replayed,
                   events_validated_against_spec=self.events, model_transitions_replayed_in_code=self.replayed,
                   per_action=dict(sorted(self.op_counts.items())), samples=self.samples or ["none"], **self.notes)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            if k.get("status") == "open":
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        if self.violations:
            for i, v in enumerate(self.violations):
                p = os.path.join(VERIF, "evidence", f"replay-{self.pid}-{i}.json")
                with open(p, "w") as f:
                    json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, **v), f, indent=1, default=str)
                print(f"  {v['what'][:600]}")
                print(f"VIOLATION property={self.pid} replay={p}")
            return 1
        print(f"OK property={self.pid} states={self.states} transitions={self.transitions} replayed={self.replayed} "
              f"events={self.events} wall={ev['wall_s']}s")
        return 0


class Adapter:
    def is_init(self, s):
        return s.get("k", 0) == 0

    def clone(self, w):
        return copy.deepcopy(w)

    def out_same(self, f, a, b):
        return False

    def diff(self, exp, got):
        if key(exp) == key(got):
            return None
        bad = [f for f in exp if f not in self.ignore and key(exp[f]) != key(got.get(f))] if isinstance(exp, dict) else ["state"]
        if not bad:
            return None
        return "; ".join(f"{f}: expected {json.dumps(exp[f])} got {json.dumps(got.get(f))}" for f in bad)

    ignore = ("k",)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def outcome(fn, *a, **k):
    """Run fn; return ("ok", value) or (exception class name, None)."""
    try:
        with quiet():
            return "ok", fn(*a, **k)
    except Exception as ex:  # noqa
        return type(ex).__name__, None


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="swp_")
    cwd = os.getcwd()
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
