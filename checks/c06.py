"""C06: tight bounding box = minimal box aligned with the chord."""
import math
from mc import domains as D, ref
from PathLib.Bezier import Bezier

ID, LEVEL = "C06", "exploration"
RULE = ("every line/quadratic/cubic with distinct end points over the lattices and core shapes under 20 affine maps, both directions; "
        "non-trivial = curve leaves its chord")


def shards(tier):
    q = tier == "quick"
    out = [(f"core-{m}", {"kind": "core", "map": m}) for m in D.MAPS]
    out += [(f"lat{o}", {"kind": "lat", "order": o, "i": 0, "n": 1, "lat": "9"}) for o in (1, 2)]
    n3 = 6 if q else 32
    out += [(f"lat3-{i}", {"kind": "lat", "order": 3, "i": i, "n": n3, "lat": "9" if q else "16"}) for i in range(n3)]
    out += [(f"closed-{m}", {"kind": "closed", "map": m}) for m in D.MAPS]
    out += [(f"elev-{m}", {"kind": "elev", "map": m}) for m in ("id", "tenth", "rot30", "over")]
    out += D.steep_shards(tier)
    return out


def explore(p, ctx):
    if p["kind"] == "steep":
        # coordinates of very different size
        for c in D.steep_part(p):
            if c[0] != c[-1]:
                ctx.run({"pts": c})
        return
    f = D.MAPS[p.get("map", "id")]
    if p["kind"] == "core":
        it = [x for c in D.cores((1, 2, 3), [p["map"]]) for x in (c, c[::-1])]
    elif p["kind"] == "lat":
        it = (c for i, c in enumerate(D.lattice(p["order"], D.LAT9 if p["lat"] == "9" else D.LAT16)) if i % p["n"] == p["i"])
    elif p["kind"] == "closed":
        # closed curves, and those that are closed but for a small gap
        far = [(-x - 20, -y - 5) for x, y in D.LAT4[1:]] + [(30, -7), (5, 0), (0, 90)]
        gaps = [(0, 0), (0, 1e-3), (-1e-3, 0), (1e-6, -2e-6), (3e-3, 4e-3)]
        it = [[f(q) for q in ((0, 0), a, g)] for a in far for g in gaps] + [[f(q) for q in ((0, 0), a, b, g)] for a in far for b in far + [(0, 0)] for g in gaps]
        for c in it:
            ctx.run({"pts": c})
        return
    else:
        it = (D.elevate([f(q) for q in c]) for c in D.lattice(2))
    for c in it:
        if tuple(c[0]) != tuple(c[-1]):
            ctx.run({"pts": c})


def check_case(case, ctx):
    pts = D.pts(case["pts"])
    size = ref.size(pts)
    tol = 1e-8 * size
    if pts[0] == pts[-1]:
        return closed(pts, size, tol, ctx)
    dx, dy = float(pts[-1][0] - pts[0][0]), float(pts[-1][1] - pts[0][1])
    L = math.hypot(dx, dy)
    ux, uy = dx / L, dy / L
    loc = [((float(x) - float(pts[0][0])) * ux + (float(y) - float(pts[0][1])) * uy,
            -(float(x) - float(pts[0][0])) * uy + (float(y) - float(pts[0][1])) * ux) for x, y in pts]
    (u0, u1), (v0, v1) = ref.bbox(loc)
    if v1 - v0 > 1e-6 * L:
        ctx.nontriv()
    ctx.outcome("chord quadrant %d%d order %d" % (dx > 0, dy > 0, len(pts) - 1))
    b = Bezier(list(pts))
    box = [[tuple(q) for q in s] for s in b.tightbbox]
    if len(box) != 4 or any(len(s) != 2 for s in box):
        return f"tight box is not four straight sides: {box}"
    for i in range(4):
        if not ref.pnear(box[i][1], box[(i + 1) % 4][0], tol):
            return f"sides {i} and {(i + 1) % 4} of the tight box do not join: {box}"
    got = [((x - float(pts[0][0])) * ux + (y - float(pts[0][1])) * uy, -(x - float(pts[0][0])) * uy + (y - float(pts[0][1])) * ux)
           for x, y in (s[0] for s in box)]
    want = [(u0, v0), (u0, v1), (u1, v1), (u1, v0)]
    # same cyclic order up to direction/starting corner
    for seq in (want, want[::-1]):
        for r in range(4):
            if all(ref.pnear(g, w, tol) for g, w in zip(got, seq[r:] + seq[:r])):
                break
        else:
            continue
        break
    else:
        return f"tight box corners in the chord frame are {got}, the minimal box is u in [{u0}, {u1}], v in [{v0}, {v1}]"
    # and every side is really reached / not crossed by curve points (redundant with the exact box, cheap)
    a = b.align()
    e = [(0.0, 0.0)] + [loc[-1]]
    if not ref.pnear(a.start, e[0], tol) or not ref.pnear(a.end, (L, 0.0), tol):
        return f"aligned curve runs from {a.start} to {a.end}, expected (0, 0) to ({L}, 0)"
    return None


def closed(pts, size, tol, ctx):
    """Without a chord the direction of the box is free: a rectangle that the curve fills."""
    ctx.outcome(f"closed, order {len(pts) - 1}")
    box = [[tuple(map(float, q)) for q in s] for s in Bezier(list(pts)).tightbbox]
    if len(box) != 4 or any(len(s) != 2 for s in box) or any(not ref.pnear(box[i][1], box[(i + 1) % 4][0], tol) for i in range(4)):
        return f"the tight box is not a closed contour of four straight sides: {box}"
    c = [s[0] for s in box]
    dx, dy = max(((b[0] - a[0], b[1] - a[1]) for a, b in zip(c, c[1:])), key=lambda v: math.hypot(*v))
    L = math.hypot(dx, dy)
    if L <= 1e-6 * size:
        return f"the tight box {c} of {pts} is a single point"
    ctx.nontriv()
    ux, uy = dx / L, dy / L
    turn = lambda p: ((float(p[0]) - c[0][0]) * ux + (float(p[1]) - c[0][1]) * uy, -(float(p[0]) - c[0][0]) * uy + (float(p[1]) - c[0][1]) * ux)
    (u0, u1), (v0, v1) = ref.bbox([turn(p) for p in pts])
    want = [(u0, v0), (u0, v1), (u1, v1), (u1, v0)]
    got = [turn(p) for p in c]
    for seq in (want, want[::-1]):
        for r in range(4):
            if all(ref.pnear(g, w, 10 * tol) for g, w in zip(got, seq[r:] + seq[:r])):
                return None
    return f"the corners of the tight box, along its own sides, are {got}, the curve fills u in [{u0}, {u1}], v in [{v0}, {v1}]"
