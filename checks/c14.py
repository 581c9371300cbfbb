"""C14: contours and outlines always reflect their current curves - search over edit and query histories."""
import itertools
from collections import deque
from mc import domains as D, ref, state
from PathLib.Bezier import Bezier, BContour, BOutline

ID, LEVEL = "C14", "model_checking"
RULE = ("breadth-first search over histories of curve replacements, deletions and queries on contours of 1-4 (in shorter histories, 5 and 12) curves (states = canonical dumps "
        "of the object graph), answers compared with an independent model of the current segment list and with a newly built contour; the "
        "same for outlines of 1-3 and 9 contours; non-trivial = the history contains an edit or an earlier query")

SEG = {
    "l": [(0, 0), (40, 10)],
    "q": [(40, 10), (90, 70), (20, 60)],
    "c": [(20, 60), (-30, 80), (-50, -20), (0, 0)],
    "f": [(-100, 300), (-50, 420), (200, 500)],
    "k": [(40, 10), (92, 66), (20, 60)],          # between the same points as q, by a slightly different way
    "v": [(5, 5), (5, 90)],
}
STEPS = (2, 3, 4, 5, 7)
# edits that are refused
BAD = {"short": lambda c: c.__setitem__(0, [(1, 2)]), "none": lambda c: c.__setitem__(-1, [(1, 2), (3, None)]), "empty": lambda c: c.__setitem__(0, []),
       "index": lambda c: c.__setitem__(9, [(1, 2), (3, 4)]), "del": lambda c: c.__delitem__(9), "last": lambda c: c.__delitem__(0),
       "huge": lambda c: c.__setitem__(-1, [(1, 2), (30, 10 ** 400), (50, 0)])}
POINTS = {"p": (30, 55), "r": (-80, 200)}
INIT = {1: ["l", "q", "c"], 2: ["lq", "qc", "cl"], 3: ["lqc"], 4: ["lqcv"]}


def ops_for(n, segs):
    out = [f"lut{s}" for s in STEPS] + ["d", "closest-p", "closest-r"]
    for i in list(range(n)) + [-1] + [-2] * (n > 2):
        out += [f"set{i}:{s}" for s in segs]
        if n > 1:
            out.append(f"del{i}")
    return out + [f"bad:{b}" for b in BAD if n == 1 or b != "last"]


def shards(tier):
    q = tier == "quick"
    out = []
    for n, inits in INIT.items():
        for init in inits:
            if q:
                out.append((f"c-{init}", {"kind": "contour", "init": init, "segs": "qfk", "depth": 4 if n < 3 else 3}))
            else:
                for k in range(4):
                    out.append((f"c-{init}-{k}", {"kind": "contour", "init": init, "segs": "lqfk", "depth": 5 if n < 3 else 4, "k": k, "of": 4}))
    out += [(f"many-{len(i)}-{k}", {"kind": "contour", "init": i, "segs": "fk", "depth": 2, "k": k, "of": 4}) for i in ("lqclq", "lqclqclqfkvc") for k in range(4)]
    out += [(f"luts-{i}-{d}", {"kind": "luts", "init": i, "depth": 4 if q else 5, "big": d}) for i in ("lq", "lqc", "c") for d in (0, 1)]
    out += [(f"o-{i}", {"kind": "outline", "init": i, "depth": 3 if q else 4}) for i in ("l", "lq|c", "q|lqc", "v|f|l")]
    out += [("o-many", {"kind": "outline", "init": "lq|c|q|v|f|lqc|k|l|v", "depth": 2})]
    # very many curves, and very many contours
    out += [(f"long-{n}", {"kind": "contour", "init": ("lqclqvfkc" * n)[:n], "segs": "f", "depth": 1}) for n in ((45, 101) if q else (41, 45, 64, 101, 150))]
    out += [(f"o-long-{n}", {"kind": "outline", "init": "|".join(("lqclqvfkc" * n)[i:i + 1 + i % 2] for i in range(n)), "depth": 1}) for n in ((45,) if q else (41, 45, 101))]
    return out


def explore(p, ctx):
    if p["kind"] == "luts":
        # every sequence of table sizes on one contour of 2 and of 3 curves
        # (the default size, 100, in shorter sequences)
        init, sizes = p["init"], (2, 3, 100) if p["big"] else STEPS + (9,)
        for d in range(1, p["depth"] + 1 - p["big"]):
            for seq in itertools.product(sizes, repeat=d):
                ctx.run({"k": "contour", "init": init, "hist": [f"lut{s}" for s in seq[:-1]], "q": f"lut{seq[-1]}"})
                ctx.transitions += 1
                ctx.traces += 1
        ctx.states += 1
        return
    if p["kind"] == "contour":
        bfs(p, ctx, {"k": "contour", "init": p["init"]}, lambda cur: ops_for(len(cur), p["segs"]))
        return
    def ops(cur):
        out = ["bounds", "iter"]
        for ci, segs in enumerate(cur):
            for i in range(len(segs)):
                out += [f"{ci}.set{i}:{s}" for s in "fv"]
                if len(segs) > 1:
                    out.append(f"{ci}.del{i}")
            out += [f"{ci}.lut3", f"{ci}.lut5"]
        return out
    bfs(p, ctx, {"k": "outline", "init": p["init"]}, ops)


def bfs(p, ctx, base, ops):
    seen, todo, n = set(), deque([([], None)]), 0
    first = True
    while todo:
        h, cur = todo.popleft()
        if cur is None:
            cur = start(base)[1]
        if len(h) >= p["depth"]:
            continue
        for j, q in enumerate(ops(cur)):
            if first and "k" in p and j % p["of"] != p["k"]:
                continue
            ctx.run(dict(base, hist=h, q=q))
            ctx.transitions += 1
            ctx.traces += 1
            if ctx.key not in seen:
                seen.add(ctx.key)
                todo.append((h + [q], ctx.cur))
        first = False
    ctx.states += len(seen)


def start(case):
    if case["k"] == "contour":
        cur = list(case["init"])
        return BContour([list(SEG[s]) for s in cur]), cur
    cur = [list(x) for x in case["init"].split("|")]
    return BOutline([[list(SEG[s]) for s in x] for x in cur]), cur


def edit(bc, cur, op):
    """Apply an edit to the contour and to the model; True if op is an edit."""
    if op.startswith("bad:"):
        if op == "bad:last" and len(cur) > 1:
            return False
        try:
            BAD[op[4:]](bc)
        except Exception:
            return True             # nothing may have changed
        raise Accepted()
    if op.startswith("set"):
        i, s = op[3:].split(":")
        bc[int(i)] = list(SEG[s])
        cur[int(i)] = s
        return True
    if op.startswith("del"):
        del bc[int(op[3:])]
        del cur[int(op[3:])]
        return True
    return False


def want_lut(cur, n):
    out = []
    for k, s in enumerate(cur):
        out += [tuple(map(float, ref.bez(SEG[s], ref.F(i, n - 1)))) for i in range(1 if k else 0, n)]
    return out


def want_box(cur):
    b = [ref.bbox(SEG[s]) for s in cur]
    return (min(x[0][0] for x in b), min(x[1][0] for x in b), max(x[0][1] for x in b), max(x[1][1] for x in b))


def rect_problem(r, want):
    return None if all(ref.near(a, b, 1e-6) for a, b in zip(r.points, want)) else f"bounds are {r.points}, of the current curves {want}"


def query(bc, cur, op):
    fresh = BContour([list(SEG[s]) for s in cur])
    if op.startswith("lut"):
        n = int(op[3:])
        got, want = (bc.getLUT(n) if n != 100 else bc.getLUT()), want_lut(cur, n)
        if len(got) != len(want):
            return f"the table of {n} steps has {len(got)} entries, not {len(want)}"
        for i, (g, w) in enumerate(zip(got, want)):
            if not ref.pnear(g, w, 1e-9 * 500):
                return f"entry {i} of the table of {n} steps is {g}, not {w}"
    elif op == "d":
        if bc.d() != fresh.d():
            return f"path data {bc.d()!r}, of a new contour {fresh.d()!r}"
    elif op.startswith("closest"):
        p = POINTS[op[-1]]
        g, w = bc.findClosestPoint(p, 10), fresh.findClosestPoint(p, 10)
        if not state.same(state.answer(g), state.answer(w)):
            return f"closest point {g}, of a new contour {w}"
        dmin = min(ref.nearest_on_curve(SEG[s], p)[0] for s in cur)
        if g[0] < dmin - 1e-6 or g[0] > dmin + 60:
            return f"closest distance {g[0]}, true minimum {dmin}"
    return None


def passive(bc, cur):
    if tuple(bc.start) != SEG[cur[0]][0] or tuple(bc.end) != SEG[cur[-1]][-1]:
        return f"start/end are {bc.start}, {bc.end}, of the current curves {SEG[cur[0]][0]}, {SEG[cur[-1]][-1]}"
    got = [[tuple(p) for p in b.controlPoints] for b in bc]
    if got != [SEG[s] for s in cur] or [list(b.controlPoints) for b in bc.beziers] != got:
        return f"the curves are {got}, not {[SEG[s] for s in cur]}"
    if [[tuple(p) for p in bc[i].controlPoints] for i in range(len(cur))] != got or list(bc[-1].controlPoints) != got[-1]:
        return "indexing disagrees with iteration"
    return rect_problem(bc.boundsRectangle, want_box(cur))


class Accepted(Exception):
    pass


def check_case(case, ctx):
    try:
        return decide(case, ctx)
    except Accepted:
        ctx.outcome("edit not refused: undecided")
        ctx.key, ctx.cur = "-", ["l"]
        return None


def decide(case, ctx):
    obj, cur = start(case)
    contour = case["k"] == "contour"
    for h in case["hist"] + [case["q"]]:
        last = h is case["q"]
        if contour:
            p = None if edit(obj, cur, h) else query(obj, cur, h)
        else:
            p = None
            if "." in h:
                ci, op = h.split(".")
                bc = obj.contours[int(ci)]
                p = None if edit(bc, cur[int(ci)], op) else query(bc, cur[int(ci)], op)
        if p:
            return f"after {case['hist']}, {case['q']}: {p}"
    if case["hist"]:
        ctx.nontriv()
    ctx.outcome("refused edit" if case["q"].startswith("bad:") else case["q"].split(":")[0].rstrip("0123456789-"))
    if contour:
        p = passive(obj, cur)
    else:
        p = None
        cs = list(obj)
        if len(cs) != len(cur) or list(obj.contours) != cs or list(obj.bContours) != cs:
            return "iteration, contours and bContours disagree"
        for bc, c in zip(cs, cur):
            p = p or passive(bc, c)
        bx = [want_box(c) for c in cur]
        w = (min(b[0] for b in bx), min(b[1] for b in bx), max(b[2] for b in bx), max(b[3] for b in bx))
        p = p or rect_problem(obj.boundsRectangle, w)
        if p is None and case["q"] == "iter":
            p = outline_helpers(obj, cur)
    ctx.key = state.dump(obj)
    ctx.cur = cur
    return f"after {case['hist']}, {case['q']}: {p}" if p else None


def outline_helpers(obj, cur):
    for bc, c in zip(obj, cur):
        again = BOutline.pathFromSegments(*bc.beziers)
        p = passive(again, c)
        if p:
            return "pathFromSegments: " + p
        alls = [tuple(q) for b in (b for x in obj for b in x) for q in b.controlPoints]
        xs, ys = BOutline.unzipPoints(alls)
        if list(zip(xs, ys)) != alls or len(ys) != len(alls):
            return f"unzipPoints({alls}) gives {xs}, {ys}"
        for b in bc:
            pts = [tuple(q) for q in b.controlPoints]
            xs, ys = BOutline.unzipPoints(pts)
            if list(zip(xs, ys)) != pts:
                return f"unzipPoints({pts}) gives {xs}, {ys}"
            if list(BOutline.segmentFromPoints(pts).controlPoints) != pts:
                return "segmentFromPoints changed the points"
            for k in (BOutline, BContour, Bezier):
                if any(tuple(k.pointXY(q)) != q or tuple(k.xyPoint(*q)) != q for q in pts):
                    return f"{k.__name__}.pointXY/xyPoint changed a point"
    return None
