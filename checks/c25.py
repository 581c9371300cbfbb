"""C25: concurrent queries give the sequential answers - all schedules of two threads up to a preemption bound, on the real code."""
import os, sys, threading, types
from mc import core, sched, state
_real = threading.Lock, threading.RLock
threading.Lock, threading.RLock = sched.CoopLock, sched.CoopRLock      # for the library, if it uses any
try:
    from PathLib import Bezier as _bz, CurveFitting as CF
finally:
    threading.Lock, threading.RLock = _real
_coop = types.ModuleType("threading")
_coop.__dict__.update({k: v for k, v in vars(threading).items() if not k.startswith("__")}, Lock=sched.CoopLock, RLock=sched.CoopRLock)
for _m in [m for n, m in sys.modules.items() if n.startswith("PathLib")]:
    if vars(_m).get("threading") is threading:
        _m.threading = _coop
from PathLib.Bezier import Bezier, BContour
from checks.c13 import OPS as CURVE_OPS

ID, LEVEL = "C25", "model_checking"
RULE = ("for every pair of queries on one shared object: every schedule of the two threads with at most two preemptions, switching before any "
        "executed line (any bytecode instruction where stated) of the library; answers during and after compared with those of a single thread; "
        "non-trivial = both threads had started when one was preempted")
ASSUMPTIONS = ["threads switch at line boundaries (at bytecode boundaries in the op shards)", "at most two preemptions per schedule"]

CURVES = {"q": [(0, 0), (10, 90), (80, 20)], "c": [(0, 0), (100, 50), (0, 100), (100, 150)], "l": [(0, 0), (30, 40)]}
OTHER = [(0, 40), (30, -10), (70, 100), (100, 20)]
LINE = [(-5, 20), (105, 33)]
CONTOUR = [[(0, 0), (40, 10)], [(40, 10), (90, 70), (20, 60)]]
PTS = [(0, 0), (10, 30), (20, -5), (45, 10), (60, 40), (70, 70), (90, 10), (100, 0)]

CONTOUR_OPS = {
    "lut2": lambda c: c.getLUT(2), "lut3": lambda c: c.getLUT(3), "lut5": lambda c: c.getLUT(5), "closest": lambda c: c.findClosestPoint((30, 55), 3),
    "d": lambda c: c.d(), "bounds": lambda c: c.boundsRectangle, "curves": lambda c: [b.boundsRectangle for b in c], "ends": lambda c: [c.start, c.end],
    "closest5": lambda c: c.findClosestPoint((80, 60), 5), "clut3": lambda c: [b.getLUT(3) for b in c],
}
FIT_OPS = {
    "b7": lambda _: CF.binomial(7, 3), "b8": lambda _: CF.binomial(8, 4), "b9": lambda _: CF.binomial(9, 2), "b6": lambda _: CF.binomial(6, 3),
    "b12": lambda _: CF.binomial(12, 6), "m3": lambda _: CF.basisMatrix(3), "m8": lambda _: CF.basisMatrix(8), "m9": lambda _: CF.basisMatrix(9),
    "fit3": lambda _: CF.fit(PTS[:3])[3], "fit8": lambda _: CF.fit(PTS)[3],
}
# queries with the number of lines each executes on the quadratic (only used to decide how much is affordable)
OPS = {"lut2": 17, "lut3": 46, "dcPoints": 33, "extrema": 81, "bbox": 160, "boundsRectangle": 185, "normal": 56, "get": 27, "hull1": 37, "facts": 13, "split": 388,
       "tightbbox": 675, "length": 785, "align": 277, "roots": 29, "simple": 87, "raise": 198, "abc": 61, "offset2": 147, "lineIntersects": 208, "split2": 784,
       "lut7": 162, "overlaps": 562, "midpoint": 28, "skeletonBounds": 58, "scale": 338}
N_CONTOUR = {"lut2": 47, "lut3": 90, "lut5": 176, "closest": 1022, "closest5": 1118, "d": 46, "bounds": 1, "curves": 5, "ends": 2, "clut3": 78}
N_FIT = {"b6": 4, "b7": 23, "b8": 44, "b9": 67, "b12": 148, "m3": 65, "m8": 384, "m9": 495, "fit3": 1147, "fit8": 11501}
HEAVY = ["reduce", "offset", "selfIntersects", "intersects"]


def curve_op(name):
    if name == "lut2":
        return lambda b: b.getLUT(2)
    if name == "lut3":
        return lambda b: b.getLUT(3)
    if name == "hull1":
        return lambda b: b.hull(0.5)
    f = CURVE_OPS[name]
    if name == "get":
        return lambda b: b.get(0.3)
    # the other arguments are of the thread's own
    o = Bezier(list(OTHER)) if name in ("overlaps", "intersects") else None
    return lambda b: f(b, o, list(LINE))


def op(kind, name):
    return curve_op(name) if kind in CURVES else CONTOUR_OPS[name] if kind == "contour" else FIT_OPS[name]


def make(kind):
    return Bezier(list(CURVES[kind])) if kind in CURVES else BContour([list(s) for s in CONTOUR]) if kind == "contour" else None


def pairs(names):
    names = list(names)
    return [(a, b) for i, a in enumerate(names) for b in names[i:]]


def shards(tier):
    q = tier == "quick"
    out = []

    def add(kind, a, b, pre, g, hist=(), r=None):
        out.append((f"{kind}-{a}-{b}-{pre}{g}" + "".join("-" + h for h in hist) + (f"-{r[0]}" if r else ""), {"o": kind, "a": a, "b": b, "pre": pre, "g": g, "h": list(hist), "r": r, "q": q}))

    def both(kind, n, a, b, limit, hist=()):
        """Two preemptions where that is affordable, else one."""
        if 2 * n[a] * n[b] <= limit:
            add(kind, a, b, 2, "line", hist)
        elif q and n[a] + n[b] > 900:
            add(kind, a, b, 1, "visit2", hist)
        else:
            add(kind, a, b, 1, "line", hist)
    for a, b in pairs(OPS):
        both("q", OPS, a, b, 4000 if q else 60000)
        if "scale" in (a, b):
            continue                                       # (not a simple curve: scale refuses; so does abc for lines)
        if q:
            if {a, b} & {"lut3", "bbox", "length"} or a == b:
                add("c", a, b, 1, "visit2")
        else:
            both("c", OPS, a, b, 20000)
            if "abc" not in (a, b):
                add("l", a, b, 1, "line")
    for h in ("lut3", "bbox", "length"):                   # the object has been asked before
        for a, b in pairs(["lut2", "lut3", "lut7", "bbox", "extrema", "boundsRectangle", "length", "split", "dcPoints"]):
            for k in ("q",) if q else ("q", "c"):
                add(k, a, b, 1, "visit2" if q else "line", (h,))
    for a in ("offset",) if q else HEAVY:
        for b in ("bbox",) if q else ("bbox", "lut3", "extrema", "length", "dcPoints", "split"):
            if a == "intersects" and b not in ("bbox", "lut3"):
                continue
            for i in range(0, 700, 20):
                add("q", a, b, 1, "visit1" if q else "visit2", r=[i, i + 20 if i < 680 else -1])
    for h in ((), ("lut2",), ("lut3",)) + (() if q else (("closest",), ("lut3", "lut2"))):
        for a, b in pairs(N_CONTOUR):
            if q and "closest5" in (a, b):
                continue
            both("contour", N_CONTOUR, a, b, (4000 if not h else 0) if q else 40000, h)
    for a, b in pairs(N_FIT):
        if "fit8" in (a, b):
            if not q:
                add("fit", a, b, 1, "visit2")
            continue
        both("fit", N_FIT, a, b, 4000 if q else 60000)
        if {a, b} <= {"b6", "b7", "b8", "b9", "b12", "m3", "m8"}:
            if 72 * N_FIT[a] * N_FIT[b] <= (0 if q else 100000):
                add("fit", a, b, 2, "op")
            elif not q or not {a, b} & {"m8", "b12"}:
                add("fit", a, b, 1, "op")
    # switching between any two bytecode instructions
    for a, b in pairs(["lut2", "lut3", "extrema", "bbox", "dcPoints", "boundsRectangle"] if q else [n for n in OPS if OPS[n] < 300]):
        for k in ("q",) if q else ("q", "c", "l"):
            if k == "q" or "scale" not in (a, b) and (k == "c" or "abc" not in (a, b)):
                add(k, a, b, 1, "op")
    for a, b in pairs(["lut2", "lut3", "d", "clut3"]):
        add("contour", a, b, 1, "op")
    if not q:
        for a, b in pairs(["dcPoints", "lut2", "facts", "get"]):
            add("l", a, b, 2, "op")
    return out


QUICK_S, THOROUGH_S = 8, 600
SCHED = None
BASE = None
EXPECT = {}


def explore(p, ctx):
    """All schedules: thread `first` runs i points, the other j points, then the first to its end, then the other to its end."""
    base = {k: p[k] for k in ("o", "a", "b", "g", "h")}
    pre = p["pre"]
    # what is affordable depends on how many points the queries execute on this tree
    ladder = [(2, "line"), (1, "line"), (1, "visit2"), (1, "visit1")] if base["g"] != "op" else [(2, "op"), (1, "op"), (1, "line"), (1, "visit2"), (1, "visit1")]
    for pre, base["g"] in ladder[ladder.index((pre, base["g"])):]:
        steps, total = [], 0
        for first in (0, 1):                    # (each of the two is measured where it comes first)
            ctx.run(dict(base, first=first, s=[]))
            steps.append(ctx.steps[first])
            total = max(total, ctx.nevents)
        runs = sum(steps) if p["a"] != p["b"] else steps[0]
        if p.get("r"):
            runs = min(runs, 2 * (p["r"][1] - p["r"][0]) if p["r"][1] > 0 else runs)
        if pre > 1:
            runs += (2 if p["a"] != p["b"] else 1) * steps[0] * steps[1]
        ctx.cost = runs * 1e-3 + runs * total * 1e-6              # seconds, roughly
        if ctx.cost <= (QUICK_S if p["q"] else THOROUGH_S) or base["g"] == "visit1":
            break
    if (pre, base["g"]) != (p["pre"], p["g"]):
        ctx.outcome(f"pairs reduced from {p['pre']} preemptions at {p['g']} points to {pre} at {base['g']} points")
    for first in (0, 1) if p["a"] != p["b"] else (0,):
        i, stop = p.get("r") or (0, -1)
        while i != stop:
            ctx.run(dict(base, first=first, s=[i]))
            ctx.traces += 1
            ctx.transitions += ctx.nsteps
            ctx.states += 1
            if ctx.preempted < 1:
                break                       # the first thread was through before i points
            if pre > 1:
                j = 1
                while True:
                    ctx.run(dict(base, first=first, s=[i, j]))
                    ctx.traces += 1
                    ctx.transitions += ctx.nsteps
                    ctx.states += 1
                    if ctx.preempted < 2:
                        break
                    j += 1
            i += 1


def expected(kind, names):
    """Answers of one thread asking alone, in a process state of its own."""
    key = (kind, names)
    if key not in EXPECT:
        obj = make(kind)
        EXPECT[key] = [state.answer(op(kind, n)(obj)) for n in names]
        BASE.restore()
    return EXPECT[key]


def check_case(case, ctx):
    global SCHED, BASE
    if SCHED is None:
        BASE = state.ModuleState()
        SCHED = sched.Sched(os.path.join(core.REPO, "PathLib") + os.sep)
        sched.CoopLock.sched = SCHED
        for _ in range(2):                      # (the interpreter reports instructions only from the second time on)
            SCHED.run([lambda: CF.binomial(3, 1), lambda: CF.binomial(3, 1)], 0, [], True)
    kind, a, b = case["o"], case["a"], case["b"]
    want = expected(kind, (a,))[0], expected(kind, (b,))[0]
    try:
        obj = make(kind)
        for h in case["h"]:
            op(kind, h)(obj)
        fa, fb = op(kind, a), op(kind, b)
        # (answers are converted in the thread that got them, as a caller would read them)
        res = SCHED.run([lambda: fa(obj), lambda: fb(obj)], case["first"], case["s"], case["g"] == "op", sched.reach(obj) if case["g"] == "focus" else None, int(case["g"][5:]) if case["g"].startswith("visit") else 0)
        ctx.preempted, ctx.nsteps = SCHED.preempted, sum(SCHED.steps)
        ctx.steps, ctx.nevents = SCHED.steps, sum(SCHED.events)
        if SCHED.preempted:
            ctx.nontriv()
        ctx.outcome(f"{kind}, {SCHED.preempted} preemptions")
        for k, n in enumerate((a, b)):
            s, v = res[k]
            if s != "ok":
                return f"{n} in thread {k} {s} {v}"
            if not state.same(state.answer(v), want[k], 1e-12):
                return f"{n} in thread {k} answers {str(state.answer(v))[:300]}, alone it answers {str(want[k])[:300]}"
        # what anybody is told afterwards
        after = [n for n in ((b, a) if a not in HEAVY else (b,)) + (("lut3", "bbox", "extrema") if kind in CURVES else ("lut3", "bounds") if kind == "contour" else ("b8", "b9"))]
        for n in after:
            g, w = state.answer(op(kind, n)(obj)), expected(kind, (n,))[0]
            if not state.same(g, w, 1e-12):
                return f"{n}, asked after {a} and {b} in two threads, answers {str(g)[:300]}, alone {str(w)[:300]}"
        return None
    finally:
        BASE.restore()
