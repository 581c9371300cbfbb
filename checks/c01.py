"""C01: evaluation, hull, lookup table, midpoint = Bernstein polynomial / de Casteljau scheme."""
from mc import domains as D, ref
from PathLib.Bezier import Bezier

ID, LEVEL = "C01", "exploration"
RULE = ("coordinates of very different size (0 to 40000 in one curve) included; "
        "every control polygon of the stated finite families (all tuples over a 3x3 lattice for orders 1-3, over a 2x2 lattice for "
        "orders 4-5 (thorough: 6), core shapes under all affine maps, orders 7-12 on windows of a point sequence) x every parameter of a 51 element "
        "alphabet x table sizes (2-130 and 12 larger for ten shapes); non-trivial = "
        "control points not all equal; distinct by polygon")

NEAR = [1e-12, 1e-7, 1e-5, 5e-4, 0.002, 0.005, 0.02, 0.05]
TS = D.T_MAIN + [i / 16 for i in range(1, 16)] + [0.3, 0.7, 0.499999, 0.500001] + NEAR + [1 - t for t in NEAR]
STEPS = (2, 3, 5, 10, 11, 64, 100, 101)
ALLSTEPS = list(range(2, 131)) + [199, 200, 201, 255, 256, 257, 499, 500, 501, 1000, 1001, 1024]
HIGH = [(0, 0), (10, 40), (50, -60), (90, 40), (100, 0), (120, 7), (1, 1), (-30, 80), (44, 44), (7, -90), (60, 61), (15, -2), (3, 33)]


def shards(tier):
    out = [(f"core-{m}", {"kind": "core", "map": m}) for m in D.MAPS]
    out += [(f"steps{o}", {"kind": "steps", "order": o}) for o in (1, 2, 3, 4, 6)]
    out += [("high", {"kind": "high"})]
    out += [("lat1", {"kind": "lat", "order": 1, "i": 0, "n": 1}), ("lat2", {"kind": "lat", "order": 2, "i": 0, "n": 1})]
    n3 = 4 if tier == "quick" else 32
    out += [(f"lat3-{i}", {"kind": "lat", "order": 3, "i": i, "n": n3, "lat": "9" if tier == "quick" else "16"}) for i in range(n3)]
    for o in (4, 5) if tier == "quick" else (4, 5, 6):
        out += [(f"lat{o}-{i}", {"kind": "lat", "order": o, "i": i, "n": 4, "lat": "4"}) for i in range(4)]
    out += D.steep_shards(tier, 3)
    return out


def explore(p, ctx):
    if p["kind"] == "steep":
        # coordinates of very different size
        for c in D.steep_part(p):
            ctx.run({"pts": c, "lut": [6], "full": 1})
        return
    if p["kind"] == "steps":
        for c in D.CORE[p["order"]][:2]:
            ctx.run({"pts": c, "lut": ALLSTEPS, "full": 1})
    elif p["kind"] == "high":
        # orders 7 to 12: all windows of a fixed sequence of points, under every map
        for m in D.MAPS:
            for n in range(8, 14):
                for i in range(14 - n):
                    c = [D.MAPS[m](q) for q in HIGH[i:i + n]]
                    ctx.run({"pts": c, "lut": [4, 33], "full": 1})
                    ctx.run({"pts": c[::-1], "lut": [7], "full": 1})
    elif p["kind"] == "core":
        for c in D.cores((1, 2, 3, 4, 5, 6), [p["map"]]):
            ctx.run({"pts": c, "lut": list(STEPS), "full": 1})
            ctx.run({"pts": c[::-1], "lut": list(STEPS), "full": 1})
    else:
        lat = {"9": D.LAT9, "16": D.LAT16, "4": D.LAT4}[p.get("lat", "9")]
        for k, c in enumerate(D.lattice(p["order"], lat)):
            if k % p["n"] == p["i"]:
                ctx.run({"pts": c, "lut": [5] if k % 16 == 0 else [], "full": 0})


def check_case(case, ctx):
    pts = D.pts(case["pts"])
    n = len(pts) - 1
    tol = 1e-11 * ref.size(pts)
    if len(set(pts)) > 1:
        ctx.nontriv()
    b = Bezier(list(pts))
    if b.order != n:
        return f"order {b.order}, expected {n}"
    if tuple(b.start) != pts[0] or tuple(b.end) != pts[-1] or (b.startX, b.startY, b.endX, b.endY) != pts[0] + pts[-1]:
        return "start/end are not the first/last control points"
    if [tuple(q) for q in b.controlPoints] != pts:
        return "control points changed"
    for t in (TS if case["full"] else D.T_MAIN[::2] + [0.75, 1.0]):
        e = ref.bez(pts, t)
        g = b.get(t)
        if len(g) != 2 or not ref.pnear(g, e, tol):
            return f"get({t!r}) = {g}, Bernstein value {tuple(map(float, e))}"
        ctx.outcome(f"order {n}")
        if case["full"] or t in (0.25, 1 / 3, 0.9):
            lv = ref.casteljau(pts, t)
            flat = [q for level in lv for q in level]
            h = b.hull(t)
            if len(h) != len(flat):
                return f"hull({t}) has {len(h)} points, expected {len(flat)}"
            for i, (x, y) in enumerate(zip(h, flat)):
                if not ref.pnear(x, y, tol):
                    return f"hull({t})[{i}] = {x}, expected {tuple(map(float, y))}"
    if not ref.pnear(b.midpoint, ref.bez(pts, 0.5), tol):
        return f"midpoint {b.midpoint}"
    for s in case["lut"]:
        lut = Bezier(list(pts)).getLUT(s)
        if len(lut) != s:
            return f"table of {s} steps has {len(lut)} entries"
        if tuple(lut[0]) != pts[0] or tuple(lut[-1]) != pts[-1]:
            return f"table of {s} steps runs from {lut[0]} to {lut[-1]}, not from the first to the last control point"
        for i, g in enumerate(lut):
            if not ref.pnear(g, ref.bez(pts, ref.F(i, s - 1)), tol * 10):
                return f"table of {s} steps: entry {i} = {g}"
    return None
