"""C13: queries are pure - explicit-state search over the states a curve object can be brought into by queries."""
import copy, json, os
from collections import deque
from mc import domains as D, state
from PathLib.Bezier import Bezier

ID, LEVEL = "C13", "model_checking"
RULE = ("for every curve of a core set: breadth-first search over all states reachable by query sequences (canonical dump of the object "
        "graph and of all library module state), every query asked in every state; plus every pair of queries on two curves; non-trivial "
        "= the history before the query is not empty")
CAP = 1200

OTHER = [(0, 40), (30, -10), (70, 100), (100, 20)]
LINE = [(-5, 20), (105, 33)]

OPS = {
    "get": lambda b, o, l: [b.get(0.3), b.get(0), b.get(1)],
    "midpoint": lambda b, o, l: b.midpoint,
    "hull": lambda b, o, l: b.hull(0.25),
    "hull-ends": lambda b, o, l: [b.hull(0), b.hull(1)],
    "split-ends": lambda b, o, l: [b.split(0), b.split(1), b.split(0, 0.5), b.split(0.5, 1), b.split(0, 1)],
    "normal-ends": lambda b, o, l: [b.normal(0), b.normal(1)],
    "abc-ends": lambda b, o, l: [b.getABC(0), b.getABC(1), b.getABC(0.5)],
    "lut1": lambda b, o, l: b.getLUT(1),
    "dcPoints": lambda b, o, l: b.dcPoints,
    "extrema": lambda b, o, l: b.extrema,
    "bbox": lambda b, o, l: b.bbox,
    "tightbbox": lambda b, o, l: b.tightbbox,
    "boundsRectangle": lambda b, o, l: b.boundsRectangle,
    "skeletonBounds": lambda b, o, l: b.skeletonBounds,
    "normal": lambda b, o, l: b.normal(0.2),
    "lut4": lambda b, o, l: b.getLUT(4),
    "lut7": lambda b, o, l: b.getLUT(7),
    "lut100": lambda b, o, l: b.getLUT(),
    "length": lambda b, o, l: b.length,
    "split": lambda b, o, l: b.split(0.5),
    "split2": lambda b, o, l: b.split(0.2, 0.7),
    "split-lut": lambda b, o, l: b.split(0.4)[1].getLUT(4),
    "split-length": lambda b, o, l: b.split(0.5)[0].length,
    "split-bbox": lambda b, o, l: [b.split(0.5)[0].bbox, b.split(0.5)[1].bbox],
    "split-extrema": lambda b, o, l: b.split(0.3, 0.9).extrema,
    "roots": lambda b, o, l: b.roots(),
    "roots-line": lambda b, o, l: b.roots(l),
    "lineIntersects": lambda b, o, l: b.lineIntersects(l),
    "intersectWithLine": lambda b, o, l: b.intersectWithLine(Bezier(l)),
    "align": lambda b, o, l: b.align(),
    "align-bbox": lambda b, o, l: b.align(l).bbox,
    "raise": lambda b, o, l: b.raiseOrder(),
    "simple": lambda b, o, l: b.simple(),
    "reduce": lambda b, o, l: b.reduce(),
    "offset2": lambda b, o, l: [b.offset(0.3, 5), b.offset(0.3, 0)],
    "offset": lambda b, o, l: b.offset(4),
    "scale": lambda b, o, l: b.scale(3),
    "abc": lambda b, o, l: b.getABC(0.3),
    "overlaps": lambda b, o, l: b.overlaps(o),
    "intersects": lambda b, o, l: b.intersects(Bezier(list(o.controlPoints)), 2),
    "selfIntersects": lambda b, o, l: b.selfIntersects(2),
    "facts": lambda b, o, l: [b.direction, b.start, b.startX, b.startY, b.end, b.endX, b.endY, b.order, b.controlPoints],
}
SLOW = ["lut100", "scale", "reduce", "offset", "intersects", "selfIntersects"]
NAMES = [n for n in OPS if n not in SLOW] + SLOW          # cheap queries first: shorter replays


def curves():
    return [D.CORE[1][2], D.CORE[1][0], D.CORE[2][0], D.CORE[2][2], D.CORE[2][6], D.CORE[3][0], D.CORE[3][2], D.CORE[3][4], D.CORE[3][3]]


def kin(pts):
    """Curves easily taken for this one: the same ends, box, points in another order, nearly the same points, the same tail ..."""
    pts = [tuple(p) for p in pts]
    out = [pts[::-1], [pts[0]] + [(x + 7, y - 3) for x, y in pts[1:-1]] + [pts[-1]],
           [(x + 1e-7, y) for x, y in pts], [(x, y + 0.001) for x, y in pts], [(y, x) for x, y in pts],
           [(x + 10, y) for x, y in pts], [(2 * x, 2 * y) for x, y in pts], [(-x, y) for x, y in pts],
           pts[:-1] + [(pts[-1][0] + 5, pts[-1][1] + 8)], [(pts[0][0] - 6, pts[0][1] + 2)] + pts[1:],
           pts[:1] + pts[1:-1][::-1] + pts[-1:], [(float(x), float(y)) for x, y in pts], pts]
    # mirrored in its chord, turned half a turn about the middle of it, both, and turned about the origin
    (ax, ay), (bx, by) = pts[0], pts[-1]
    dx, dy = bx - ax, by - ay
    flip = [((x - ax) * dx + (y - ay) * dy, (x - ax) * dy - (y - ay) * dx) for x, y in pts]
    flip = [(ax + (u * dx + v * dy) / (dx * dx + dy * dy), ay + (u * dy - v * dx) / (dx * dx + dy * dy)) for u, v in flip] if (dx, dy) != (0, 0) else pts
    flip = [pts[0]] + flip[1:-1] + [pts[-1]]
    turn = [pts[0]] + [(ax + bx - x, ay + by - y) for x, y in pts[1:-1][::-1]] + [pts[-1]]
    out += [flip, turn, turn[:1] + turn[1:-1][::-1] + turn[-1:], flip[:1] + flip[1:-1][::-1] + flip[-1:],
            [(-x, -y) for x, y in pts], [(-y, x) for x, y in pts], [(x - 3e6, y + 7e6) for x, y in pts]]
    if len(pts) > 2:
        out += [[pts[0], pts[-1]], pts[:-1]]
    if len(pts) < 4:
        out += [pts + [(pts[-1][0] + 20, pts[-1][1] - 9)], [pts[0]] + [pts[0]] + pts[1:]]
    return out


def shards(tier):
    out = [(f"states-{i}", {"kind": "bfs", "c": i}) for i in range(len(curves()))]
    out += [(f"two-{i}", {"kind": "two", "c": i, "n": 2 if tier == "quick" else 1}) for i in (0, 2, 5, 7)]
    out += [(f"kin-{i}", {"kind": "kin", "c": i, "all": tier != "quick"}) for i in range(len(curves()))]
    if tier == "thorough":
        out += [(f"statesf-{m}-{i}", {"kind": "bfs", "c": i, "map": m}) for m in ("rot30", "third") for i in range(len(curves()))]
        out += [(f"seq-{i}", {"kind": "seq", "c": 5, "i": i, "n": 8}) for i in range(8)]
    return out


class World:
    """Curve, partner curve and argument line, built anew; all answers given so far are remembered with a copy."""

    def __init__(self, pts, mods, opts=OTHER):
        mods.restore()
        self.pts = [tuple(p) for p in pts]
        self.opts = [tuple(p) for p in opts]
        self.line = [tuple(p) for p in LINE]
        self.b, self.o = Bezier(self.pts), Bezier(self.opts)
        self.orig = copy.deepcopy((self.pts, self.opts, self.line))
        self.given = []

    def ask(self, name, swap=False):
        b, o = (self.o, self.b) if swap else (self.b, self.o)
        try:
            r = OPS[name](b, o, self.line)
        except Exception as e:
            return ["raises", type(e).__name__]
        a = state.answer(r)
        self.given.append((name, r, a))
        return a

    def problem(self):
        if (self.pts, self.opts, self.line) != self.orig:
            return "an argument was changed"
        if [tuple(p) for p in self.b.controlPoints] != self.orig[0] or [tuple(p) for p in self.o.controlPoints] != self.orig[1]:
            return "control points were changed"
        for name, r, a in self.given:
            if not state.same(state.answer(r), a):
                return f"the answer given earlier to {name} was changed afterwards"
        return None

    def key(self):
        return state.dump([self.b, self.o]) + "|" + state.module_dump()


def pristine(pts, mods, opts=OTHER):
    """Answers of each query asked first thing, each in a process of its own."""
    out = {}
    for sw in (False, True):
        for name in NAMES:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    try:
                        a = World(pts, mods, opts).ask(name, sw)
                    except Exception as e:
                        a = f"failed: {type(e).__name__}: {e}"
                    with os.fdopen(w, "w") as f:
                        json.dump(a, f)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r) as f:
                out[name, sw] = json.load(f)
            os.waitpid(pid, 0)
    return out


_P = {}


def fresh(case):
    k = json.dumps([case["pts"], case.get("opts")])
    if k not in _P:
        m = state.ModuleState()
        _P[k] = (m, pristine(case["pts"], m, case.get("opts", OTHER)))
    return _P[k]


def check_case(case, ctx):
    """hist: queries asked before (name, or name with a leading ~ for the partner curve); q: the query decided."""
    mods, want = fresh(case)
    w = World(case["pts"], mods, case.get("opts", OTHER))
    for h in case["hist"]:
        w.ask(h.lstrip("~"), h[0] == "~")
    sw = case["q"][0] == "~"
    a = w.ask(case["q"].lstrip("~"), sw)
    if case["hist"]:
        ctx.nontriv()
    if not state.same(a, want[case["q"].lstrip("~"), sw]):
        return f"after {case['hist']} the answer to {case['q']} is {str(a)[:300]}, first thing it is {str(want[case['q'].lstrip('~'), sw])[:300]}"
    ctx.outcome(case["q"] + (" raises" if a and isinstance(a, list) and a[0] == "raises" else ""))
    p = w.problem()
    if p:
        return f"after {case['hist']} and {case['q']}: {p}"
    ctx.key = w.key()
    return None


def explore(p, ctx):
    f = D.MAPS[p.get("map", "id")]
    pts = [f(q) for q in curves()[p["c"]]]
    case0 = {"pts": pts}
    mods, want = fresh(case0)
    # queries that are refused on this kind of curve (the same way in every state) stay in the alphabet
    if p["kind"] == "bfs":
        seen = {World(pts, mods).key()}
        todo = deque([[]])
        while todo:
            h = todo.popleft()
            for q in NAMES:
                ctx.run({"pts": pts, "hist": h, "q": q})
                ctx.transitions += 1
                ctx.traces += 1
                if ctx.key not in seen:
                    seen.add(ctx.key)
                    if len(seen) <= CAP:
                        todo.append(h + [q])
                    else:
                        ctx.outcome("state cap reached")
        ctx.states += len(seen)
        ctx.outcome(f"fixpoint with {len(seen)} states")
    elif p["kind"] == "kin":
        slow = {"reduce", "offset", "intersects", "selfIntersects", "length", "split-length", "lut100", "scale"}
        for k, o in enumerate(kin(pts)):
            for x in NAMES:
                if x in slow and not p["all"] and k % 3:
                    continue
                for y in (NAMES if p["all"] and x not in slow and k % 3 == 0 else [x]):
                    if y in slow and y != x:
                        continue
                    ctx.run({"pts": pts, "opts": o, "hist": ["~" + x], "q": y})
                    ctx.transitions += 1
                    ctx.traces += 1
                ctx.run({"pts": pts, "opts": o, "hist": [x], "q": "~" + x})
                ctx.transitions += 1
                ctx.traces += 1
            ctx.states += 1
    elif p["kind"] == "two":
        slow = {"reduce", "offset", "intersects", "selfIntersects", "length", "split-length", "lut100"}
        names = NAMES[::p["n"]] if p["n"] > 1 else NAMES
        for x in NAMES:
            for y in names:
                if p["n"] > 1 and x in slow and y in slow and x != y:
                    continue
                ctx.run({"pts": pts, "hist": ["~" + x], "q": y})
                ctx.run({"pts": pts, "hist": [y, "~" + x], "q": y})
                ctx.transitions += 2
                ctx.traces += 2
        ctx.states += 1
    else:
        cheap = [n for n in NAMES if n not in ("reduce", "offset", "intersects", "selfIntersects", "lut100")]
        for i, x in enumerate(cheap):
            if i % p["n"] != p["i"]:
                continue
            for y in cheap:
                for z in cheap:
                    ctx.run({"pts": pts, "hist": [x, y], "q": z})
                    ctx.transitions += 1
                    ctx.traces += 1
        ctx.states += 1
