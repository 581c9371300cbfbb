"""C04: bounding boxes enclose the curve and are tight; contour and outline bounds are unions."""
from itertools import product
from mc import domains as D, ref
from PathLib.Bezier import Bezier, BContour, BOutline

ID, LEVEL = "C04", "exploration"
RULE = ("coordinates of very different size (0 to 40000 in one curve) included; "
        "every line/quadratic/cubic over the lattices, core shapes under 20 affine maps, every lattice quadratic written as a cubic "
        "(id, thirds, rotated), pieces of splits, order-raised curves; contours of 1-3 and 4-20 curves and outlines of 0-2 and 2-20 contours; non-trivial "
        "= the curve leaves the box of its end points in some axis, or the contour has several curves")
ELEV_MAPS = ("id", "tenth", "rot30", "font", "over")


def shards(tier):
    q = tier == "quick"
    out = [(f"core-{m}", {"kind": "core", "map": m}) for m in D.MAPS]
    out += [(f"lat{o}", {"kind": "lat", "order": o, "i": 0, "n": 1, "lat": "9"}) for o in (1, 2)]
    n3 = 4 if q else 32
    out += [(f"lat3-{i}", {"kind": "lat", "order": 3, "i": i, "n": n3, "lat": "9" if q else "16"}) for i in range(n3)]
    out += [(f"lat3rot-{i}", {"kind": "lat", "order": 3, "i": i, "n": 4, "lat": "9", "map": "rot30", "step": 3 if q else 1}) for i in range(4)]
    out += D.steep_shards(tier)
    out += [(f"elev-{m}", {"kind": "elev", "map": m}) for m in ELEV_MAPS]
    out += [(f"split-{m}", {"kind": "split", "map": m}) for m in ("id", "tenth", "rot30", "over")]
    out += [(f"contour-{m}", {"kind": "contour", "map": m}) for m in ("id", "rot30", "over", "under", "neg", "huge")]
    return out


def explore(p, ctx):
    f = D.MAPS[p.get("map", "id")]
    k = p["kind"]
    if k == "core":
        for c in D.cores((1, 2, 3), [p["map"]]):
            ctx.run({"k": "curve", "pts": c})
            ctx.run({"k": "curve", "pts": c[::-1]})
    elif k == "lat":
        for i, c in enumerate(D.lattice(p["order"], D.LAT9 if p["lat"] == "9" else D.LAT16)):
            if i % p["n"] == p["i"] and (i // p["n"]) % p.get("step", 1) == 0:
                ctx.run({"k": "curve", "pts": [f(q) for q in c]})
    elif k == "steep":
        # coordinates of very different size: turns very near the ends, and small ones
        for c in D.steep_part(p):
            ctx.run({"k": "curve", "pts": c})
    elif k == "elev":
        for c in D.lattice(2):
            ctx.run({"k": "curve", "pts": D.elevate([f(q) for q in c])})
            ctx.run({"k": "curve", "pts": [f(q) for q in D.elevate(c)]})
    elif k == "split":
        for c in list(D.cores((1, 2, 3), [p["map"]])) + [D.elevate([f(q) for q in c]) for c in D.CORE[2]]:
            for t in (0.5, 0.3, 1 / 3, 0.9, 0.01):
                ctx.run({"k": "split", "pts": c, "t": t})
            ctx.run({"k": "raise", "pts": c})
    elif k == "contour":
        segs = [[f(q) for q in c] for o in (1, 2, 3) for c in (D.CORE[o][0], D.CORE[o][2], D.CORE[o][4])]
        segs.append([f(q) for q in [(0, 0), (10, 200), (20, -150), (30, 0)]])
        far = [tuple(x + 1000 for x in q) for q in segs[4]], [tuple(x - 3000 for x in q) for q in segs[8]]
        segs += [list(far[0]), list(far[1])]
        for n in (1, 2, 3):
            for c in product(range(len(segs)), repeat=n):
                if n < 3 or c[0] <= c[1]:
                    ctx.run({"k": "contour", "segs": [segs[i] for i in c]})
        for a, b in product(range(len(segs)), repeat=2):
            ctx.run({"k": "outline", "contours": [[segs[a]], [segs[b], segs[a]]]})
        ctx.run({"k": "outline", "contours": [[s] for s in segs]})
        ctx.run({"k": "outline", "contours": [segs]})
        ctx.run({"k": "outline", "contours": []})
        # one curve that sticks out, at every place of a long contour or outline
        small = [[f(q) for q in D.CORE[o][i]] for o in (1, 2, 3) for i in (0, 1, 2)]
        for n in (4, 7, 12, 20):
            row = [small[i % len(small)] for i in range(n)]
            for i in range(n):
                for s in segs[-5:]:
                    c = row[:i] + [s] + row[i + 1:]
                    ctx.run({"k": "contour", "segs": c})
                    ctx.run({"k": "outline", "contours": [[x] for x in c]})
                    ctx.run({"k": "outline", "contours": [c[j:j + 3] for j in range(0, n, 3)]})


def box_problem(got, pts_lists, what, tolmul=1.0):
    """got = (left, bottom, right, top) vs the exact box of all curves."""
    boxes = [ref.bbox(p) for p in pts_lists]
    size = max(ref.size(p) for p in pts_lists)
    want = (min(b[0][0] for b in boxes), min(b[1][0] for b in boxes), max(b[0][1] for b in boxes), max(b[1][1] for b in boxes))
    tol = 1e-8 * size * tolmul
    for n, g, w in zip(("left", "bottom", "right", "top"), got, want):
        if not abs(g - w) <= tol:
            return f"{what}: {n} = {g!r}, smallest enclosing box has {w!r}"
    return None


def rect(r):
    return (r.left, r.bottom, r.right, r.top)


def curve_problem(b, pts, what):
    bb = b.bbox
    p = box_problem((bb[0][0], bb[1][0], bb[0][1], bb[1][1]), [pts], what + " bbox")
    return p or box_problem(rect(b.boundsRectangle), [pts], what + " boundsRectangle")


def check_case(case, ctx):
    k = case["k"]
    if k == "curve":
        pts = D.pts(case["pts"])
        e = ref.bbox(pts)
        for d in (0, 1):
            if e[d] != tuple(sorted((float(pts[0][d]), float(pts[-1][d])))):
                ctx.nontriv()
                ctx.outcome(f"order {len(pts) - 1} axis {d} bulges")
        p = curve_problem(Bezier(list(pts)), pts, "curve")
        if p:
            return p
        b = Bezier(list(pts))      # the rectangle asked for first
        return box_problem(rect(b.boundsRectangle), [pts], "boundsRectangle asked first")
    if k == "split":
        ctx.nontriv()
        b = Bezier(D.pts(case["pts"]))
        l, r, _ = b.split(case["t"])
        for w, o in (("left piece", l), ("right piece", r)):
            p = curve_problem(o, o.controlPoints, w)
            if p:
                return p
        return None
    if k == "raise":
        ctx.nontriv()
        o = Bezier(D.pts(case["pts"])).raiseOrder()
        return curve_problem(o, o.controlPoints, "raised curve") if o.order <= 3 else None
    if k == "contour":
        if len(case["segs"]) > 1:
            ctx.nontriv()
        segs = [D.pts(s) for s in case["segs"]]
        return box_problem(rect(BContour(segs).boundsRectangle), segs, "contour bounds")
    if k == "outline":
        ctx.nontriv()
        cs = [[D.pts(s) for s in c] for c in case["contours"]]
        o = BOutline(cs)
        if not cs:
            r = o.boundsRectangle
            return None if r.right < r.left and r.top < r.bottom else f"outline without contours has bounds {r}"
        return box_problem(rect(o.boundsRectangle), [s for c in cs for s in c], "outline bounds")
