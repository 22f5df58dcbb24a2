"""P34 (least squares) against spec/Inversion.tla."""
import numpy as np
from swprocess.inversion import leastsquare_iterativealgorithm, leastsquare_posterioricovmatrix
from common import Adapter, outcome, q, BAD

ORDER = ["p0", "pm", "cp", "d0", "dm", "cd", "g"]


def scaled(a, det):
    a = np.asarray(a)
    return [[q(v * det, 1, 1e-6) for v in r] for r in a] if a.ndim == 2 else [[BAD]]


def units(rng, n, top):
    """Units for n quantities: powers of two, so that changing units rounds nothing."""
    e = rng.choice([0, 0, rng.randint(-top, top)])
    return np.array([[2. ** (e if rng.random() < .7 else rng.randint(-top, top) if e else 0)] for _ in range(n)])


def run(x, rng, det):
    a = {k: np.array(x[k], float) for k in ORDER}
    up, ud = units(rng, len(a["p0"]), 30), units(rng, len(a["d0"]), 12)
    unit = dict(p0=up, pm=up, cp=up * up.T, d0=ud, dm=ud, cd=ud * ud.T, g=ud / up.T)
    a = {k: v * unit[k] for k, v in a.items()}
    if rng.random() < .3:
        a = {k: np.asfortranarray(v) for k, v in a.items()}
    if all((u == 1).all() for u in (up, ud)) and rng.random() < .3:
        a = {k: np.array(x[k]) if every or rng.random() < .5 else a[k] for every in [rng.random() < .3] for k in ORDER}     # whole numbers
    a0 = {k: v.copy() for k, v in a.items()}
    if rng.random() < .5:
        o1, u = outcome(leastsquare_iterativealgorithm, *[a[k] for k in ORDER])
        o2, p = outcome(leastsquare_posterioricovmatrix, a["cp"], a["cd"], a["g"])
    else:
        o1, u = outcome(leastsquare_iterativealgorithm, p0=a["p0"], pm=a["pm"], covp0p0=a["cp"], d0=a["d0"], dm=a["dm"], covd0d0=a["cd"], dgdp=a["g"])
        o2, p = outcome(leastsquare_posterioricovmatrix, covp0p0=a["cp"], covd0d0=a["cd"], dgdp=a["g"])
    kept = all(np.array_equal(a[k], a0[k]) for k in ORDER)
    if o1 != "ok" or o2 != "ok":
        return (o1 if o1 != "ok" else o2), [], [], kept
    if np.shape(u) != up.shape or np.shape(p) != unit["cp"].shape:
        return "ok", [[BAD]], [[BAD]], kept
    return "ok", scaled(u / up, det), scaled(p / unit["cp"], det), kept


class InvAdapter(Adapter):
    def __init__(self, rng):
        self.rng = rng

    def init(self, s):
        return None

    def apply(self, w, op):
        out, u, p, kept = run(op["x"], self.rng, op["det"])
        return dict(update=u, post=p) if kept else dict(update="inputs changed")

    def project(self, w):
        return {}


CFG = """SPECIFICATION Spec
CONSTANTS M = %d V = %d
ACTION_CONSTRAINT Emit
INVARIANT Inv
CHECK_DEADLOCK FALSE
"""


def cov(rng, n, fixed=0):
    if n > 1 and rng.random() < fixed:                          # a parameter known exactly
        c = cov(rng, n - 1)
        i = rng.randrange(n)
        for r in c:
            r.insert(i, 0)
        return c[:i] + [[0] * n] + c[i:]
    L = [[1 + (rng.random() < .2) if r == c else rng.choice([-1, 0, 0, 1]) if c < r else 0 for c in range(n)] for r in range(n)]
    return (np.array(L) @ np.array(L).T).tolist()


def p34(ctx):
    rng, ev = ctx.rng, []
    edges = ctx.graph("MC_Inversion", CFG % (1, ctx.n(1, 2)))
    rng.shuffle(edges)
    ctx.replay_graph(edges, InvAdapter(rng), walks=0, edge_cap=ctx.n(6000, 60000))
    vec = lambda n, m: [[rng.randint(-m, m)] for _ in range(n)]
    for _ in range(ctx.n(800, 8000)):
        j, k = rng.choice([1, 2, 2, 3, 3, 4, 5, 7]), rng.choice([1, 2, 2, 3, 3, 4])
        x = dict(g=[[rng.randint(-2, 2) for _ in range(j)] for _ in range(k)], cp=cov(rng, j, .25), cd=cov(rng, k), p0=vec(j, 9), pm=vec(j, 9), d0=vec(k, 20), dm=vec(k, 20))
        s = np.array(x["cd"]) + np.array(x["g"]) @ np.array(x["cp"]) @ np.array(x["g"]).T
        det = int(round(np.linalg.det(s)))
        if det > 20000:
            continue
        out, u, p, kept = run(x, rng, det)
        ev.append(dict(op=dict(name="invert", out=out), x=x, det=det, update=u, post=p, kept=kept))
    ctx.validate("Trace_Inversion", ev)
