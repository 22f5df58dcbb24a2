"""Mutation sweep of /repo/swprocess, to find what the checks do not see (not part of any check).

mutate.py gen OUT.json [file...]      list mutants
mutate.py test IN.json OUT.json [n]   keep those which pass the existing tests (n workers)
mutate.py check IN.json OUT.json      run the checks of each survivor's file until one catches it
"""
import ast, concurrent.futures as cf, json, os, queue, random, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutmap
SRC = "/repo/swprocess"
PY = "/opt/venv/bin/python"
PIDS = {"activetimeseries.py": "P03 P01 P02 P05 P04 P09", "array1d.py": "P06 P07 P08 P31 P10 P11 P30 P37 P35 P09", "interact.py": "P30 P23 P08",
        "inversion.py": "P34", "masw.py": "P12 P13 P14 P15", "maswworkflows.py": "P12 P13 P14", "peaks.py": "P21 P22 P24 P28 P26 P35",
        "peakssuite.py": "P25 P24 P23 P27 P28 P32 P35 P22 P26", "regex.py": "P28 P29", "register.py": "P36", "sensor1c.py": "P09 P10 P11 P04 P03 P29 P05",
        "snr.py": "P14", "source.py": "P04 P06 P09", "stats.py": "P33 P27", "utils.py": "P29", "wavefieldtransforms.py": "P19 P16 P17 P18 P20 P02 P14 P35"}
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"],
       ast.Is: ["is not"], ast.IsNot: ["is"]}
TXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.Pow: ("**", "*"), ast.FloorDiv: ("//", "/"), ast.Mod: ("%", "*")}


def gen(f):
    s = open(os.path.join(SRC, f), newline="").read()
    t = s.replace("\r\n", "\n")
    lines = t.split("\n")
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()) + 1)
    b = t.encode()
    tree = ast.parse(t)
    out = []

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(n, a, z, new, kind):
        out.append(dict(file=f, line=n.lineno, a=a, z=z, old=b[a:z].decode(), new=new, kind=kind))

    def op_between(l, r, old, new, n, kind):
        a, z = pos(l)[1], pos(r)[0]
        seg = b[a:z].decode()
        if seg.count(old) == 1:
            add(n, a, z, seg.replace(old, new), kind)

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            if n.name in ("__repr__", "__str__"):
                return
            self.generic_visit(n)

        def visit_Raise(self, n):
            pass

        def visit_Compare(self, n):
            l = n.left
            for o, r in zip(n.ops, n.comparators):
                for new in CMP.get(type(o), []):
                    op_between(l, r, TXT[type(o)], new, n, "cmp")
                l = r
            self.generic_visit(n)

        def visit_BinOp(self, n):
            if type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                o, new = BIN[type(n.op)]
                op_between(n.left, n.right, o, new, n, "bin")
            self.generic_visit(n)

        def visit_BoolOp(self, n):
            o = "and" if isinstance(n.op, ast.And) else "or"
            op_between(n.values[0], n.values[1], o, "or" if o == "and" else "and", n, "bool")
            self.generic_visit(n)

        def visit_UnaryOp(self, n):
            a, z = pos(n)
            if isinstance(n.op, (ast.Not, ast.USub)):
                add(n, a, z, "(" + b[pos(n.operand)[0]:pos(n.operand)[1]].decode() + ")", "unary")
            self.generic_visit(n)

        def visit_Constant(self, n):
            a, z = pos(n)
            if isinstance(n.value, bool):
                add(n, a, z, str(not n.value), "const")
            elif isinstance(n.value, (int, float)):
                add(n, a, z, repr(n.value + 1), "const")
                if n.value not in (0,):
                    add(n, a, z, repr(n.value - 1 if n.value != 1 else 0), "const")
            elif n.value is None:
                pass

        def visit_If(self, n):
            a, z = pos(n.test)
            add(n, a, z, "True", "if")
            add(n, a, z, "False", "if")
            self.generic_visit(n)

        def visit_IfExp(self, n):
            a, z = pos(n)
            for x in (n.body, n.orelse):
                add(n, a, z, b[pos(x)[0]:pos(x)[1]].decode(), "ifexp")
            self.generic_visit(n)

        def visit_Expr(self, n):
            if isinstance(n.value, ast.Constant):
                return
            a, z = pos(n)
            add(n, a, z, "pass", "stmt")
            self.generic_visit(n)

        def visit_Assign(self, n):
            if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                a, z = pos(n)
                add(n, a, z, "pass", "stmt")
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            a, z = pos(n)
            add(n, a, z, "pass", "stmt")
            o = {ast.Add: ("+=", "-="), ast.Sub: ("-=", "+="), ast.Mult: ("*=", "/="), ast.Div: ("/=", "*=")}.get(type(n.op))
            if o:
                op_between(n.target, n.value, o[0], o[1], n, "aug")
            self.generic_visit(n)

        def visit_Call(self, n):
            a, z = pos(n)
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    ka, kz = off[k.lineno - 1] + k.col_offset, pos(k.value)[1]
                    seg = b[ka:z].decode()
                    rest = seg[kz - ka:]
                    if rest.lstrip().startswith(","):
                        i = rest.index(",") + 1
                        add(n, ka, kz + i, "", "kwarg")
                    else:
                        p = b[:ka].decode().rstrip()
                        if p.endswith(","):
                            add(n, len(p.encode()) - 1, kz, "", "kwarg")
            if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args) and getattr(n.func, "id", "") not in ("isinstance", "getattr", "hasattr"):
                p0, p1 = pos(n.args[0]), pos(n.args[1])
                add(n, p0[0], p1[1], b[p1[0]:p1[1]].decode() + ", " + b[p0[0]:p0[1]].decode(), "swap")
            if isinstance(n.func, ast.Attribute) and len(n.args) == 1 and n.func.attr in ("abs", "sorted", "array", "deepcopy", "copy", "conj", "real") or \
                    isinstance(n.func, ast.Name) and len(n.args) == 1 and n.func.id in ("abs", "sorted", "list", "int", "float", "str", "deepcopy", "round"):
                add(n, a, z, "(" + b[pos(n.args[0])[0]:pos(n.args[0])[1]].decode() + ")", "unwrap")
            self.generic_visit(n)

        def visit_Slice(self, n):
            for x in (n.lower, n.upper):
                if x is not None:
                    a, z = pos(x)
                    add(x, a, z, "", "slice")
            self.generic_visit(n)

        def visit_Break(self, n):
            a, z = pos(n)
            add(n, a, z, "pass", "jump")

        def visit_Continue(self, n):
            a, z = pos(n)
            add(n, a, z, "pass", "jump")
    V().visit(tree)
    res, seen = [], set()
    for m in out:
        try:
            c = b[:m["a"]] + m["new"].encode() + b[m["z"]:]
            ast.parse(c)
        except SyntaxError:
            continue
        k = (m["a"], m["z"], m["new"])
        if k not in seen and m["old"] != m["new"]:
            seen.add(k)
            res.append(m)
    return res


def apply(root, m):
    p = os.path.join(root, "swprocess", m["file"])
    b = open(os.path.join(SRC, m["file"]), newline="").read().replace("\r\n", "\n").encode()
    c = (b[:m["a"]] + m["new"].encode() + b[m["z"]:]).decode()
    open(p, "w", newline="").write(c.replace("\n", "\r\n"))


def restore(root, m):
    subprocess.run(["cp", os.path.join(SRC, m["file"]), os.path.join(root, "swprocess", m["file"])], check=True)


def fresh(i):
    R = f"/tmp/mut/{os.environ.get('MUT_W', 'w')}{i}"
    subprocess.run(["rm", "-rf", R], check=True)
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    return R


def survives(R, m):
    env = dict(os.environ, PYTHONPATH=R, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", QT_QPA_PLATFORM="offscreen", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore")
    x = R + "/o.xml"
    try:
        subprocess.run(f"{PY} -m pytest -q -x -p no:cacheprovider --timeout=60 -o junit_family=xunit2 --junitxml={x} " + DESEL, shell=True, cwd=R + "/test", env=env,
                       capture_output=True, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", R + "/o.json", "junit:" + x], capture_output=True)
    c = subprocess.run([sys.executable, "/verif/tools/cmp.py", R + "/o.json"], capture_output=True, text=True).stdout.strip()
    return c.endswith("[]")


DESEL = ""


def pool(ms, n, fn):
    q = queue.Queue()
    for i in range(n):
        q.put(fresh(i))

    def job(m):
        R = q.get()
        try:
            apply(R, m)
            return m, fn(R, m)
        finally:
            restore(R, m)
            subprocess.run("git checkout -q -- . ; git clean -qfd", shell=True, cwd=R)
            q.put(R)
    with cf.ThreadPoolExecutor(n) as ex:
        for f in cf.as_completed([ex.submit(job, m) for m in ms]):
            yield f.result()


def checks(R, m):
    for p in mutmap.FN.get((m["file"], mutmap.fn(m["file"], m["line"])), PIDS[m["file"]]).split():
        try:
            r = subprocess.run(["./check", p, "quick"], cwd="/verif" if not os.environ.get("MUT_VERIF") else os.environ["MUT_VERIF"],
                               env=dict(os.environ, SWP_REPO=R, VERIF_SEED="1", SWP_ALARM="150", SWP_GRAPH_CACHE="/tmp/mut/graphs"), capture_output=True, text=True, timeout=700)
            if r.returncode == 1:
                return p
            if r.returncode != 0:
                return p + "?" + (r.stdout + r.stderr)[-200:]
        except subprocess.TimeoutExpired:
            return p + "?timeout"
    return ""


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        ms = [m for f in (sys.argv[3:] or sorted(PIDS)) for m in gen(f)]
        json.dump(ms, open(sys.argv[2], "w"))
        import collections
        print(len(ms), collections.Counter(m["file"] for m in ms), collections.Counter(m["kind"] for m in ms))
    else:
        ms = json.load(open(sys.argv[2]))
        random.Random(5).shuffle(ms)
        n = int(sys.argv[4]) if len(sys.argv) > 4 else 4
        if sys.argv[1] == "check":
            ms = [m for m in ms if mutmap.fn(m["file"], m["line"]) not in mutmap.SKIP]
            for x in sys.argv[5:]:          # results of earlier sweeps
                seen = {(r["file"], r["a"], r["z"], r["new"]) for r in json.load(open(x))}
                ms = [m for m in ms if (m["file"], m["a"], m["z"], m["new"]) not in seen]
            print(len(ms), "mutants", flush=True)
        done = []
        for m, r in pool(ms, n, survives if sys.argv[1] == "test" else checks):
            if sys.argv[1] == "test":
                if r:
                    done.append(m)
            else:
                done.append(dict(m, caught=r))
                print(r or "MISSED", m["file"], m["line"], repr(m["old"][:70]), "->", repr(m["new"][:70]), flush=True)
            json.dump(done, open(sys.argv[3], "w"))
