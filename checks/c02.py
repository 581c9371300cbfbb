"""C02: unit normals, 90 degrees counter-clockwise from the exact direction of travel; offset points."""
import math
from mc import domains as D, ref
from PathLib.Bezier import Bezier

ID, LEVEL = "C02", "exploration"
RULE = ("coordinates of very different size (0 to 40000 in one curve) included; "
        "every line/quadratic/cubic control polygon over the 3x3 lattice and core shapes under 20 affine maps x every parameter of the "
        "alphabet where the exact derivative is non-zero x distances {10,-10,0,0.5,-1e3,1e-7,123456.75}; non-trivial = at least one such parameter")
NEAR = [1e-9, 1e-6, 1e-4, 1e-3, 5e-3, 0.02, 0.1]
TS = [0, 1, 0.5, 0.25, 0.75, 1 / 3, 2 / 3, 0.4, 0.6] + NEAR + [1 - t for t in NEAR]
DS = (10, -10, 0, 0.5, -1000.0, 1e-7, 123456.75)


def shards(tier):
    out = [(f"core-{m}", {"kind": "core", "map": m}) for m in D.MAPS]
    out += [(f"lat{o}", {"kind": "lat", "order": o, "i": 0, "n": 1, "lat": "9"}) for o in (1, 2)]
    n3 = 6 if tier == "quick" else 32
    out += [(f"lat3-{i}", {"kind": "lat", "order": 3, "i": i, "n": n3, "lat": "9" if tier == "quick" else "16"}) for i in range(n3)]
    out += D.steep_shards(tier)
    return out


def explore(p, ctx):
    if p["kind"] == "steep":
        # coordinates of very different size
        for c in D.steep_part(p):
            ctx.run({"pts": c})
        return
    if p["kind"] == "core":
        for c in D.cores((1, 2, 3), [p["map"]]):
            ctx.run({"pts": c})
            ctx.run({"pts": c[::-1]})
    else:
        for k, c in enumerate(D.lattice(p["order"], D.LAT9 if p["lat"] == "9" else D.LAT16)):
            if k % p["n"] == p["i"]:
                ctx.run({"pts": c})


def check_case(case, ctx):
    pts = D.pts(case["pts"])
    try:
        b = Bezier(list(pts))
    except Exception as e:
        return f"constructor raised {e!r}"
    size = ref.size(pts)
    ext = max(ref.extent(pts), 1e-300)
    for t in TS:
        dx, dy = ref.derivative(pts, t)
        if dx == 0 == dy and t in (0, 1) and size < 1e9:
            # a handle on its end point: the direction in which the curve leaves or reaches it
            dx, dy = ref.end_direction(pts, t) or (0, 0)
        q = math.hypot(float(dx), float(dy))
        # direction is undefined at zero; within rounding of zero it is not decidable in floating point
        if q <= 1e-6 * ext or q <= 1e-7 * size:
            continue
        ctx.nontriv()
        e = (-float(dy) / q, float(dx) / q)
        tol = 1e-12 * max(1.0, size / q) * 10
        g = b.normal(t)
        if not ref.pnear(g, e, tol):
            return f"normal({t}) = {g}, expected {e}"
        if abs(math.hypot(*g) - 1) > 1e-12:
            return f"normal({t}) = {g} is not a unit vector"
        for d in DS:
            r = b.offset(t, d)
            if len(r) != 3:
                return f"offset({t}, {d}) = {r!r}: expected point, normal, offset point"
            pt = ref.bez(pts, t)
            if not ref.pnear(r[0], pt, 1e-11 * size) or not ref.pnear(r[1], e, tol):
                return f"offset({t}, {d}) reports point {r[0]}, normal {r[1]}"
            x = (float(pt[0]) + d * e[0], float(pt[1]) + d * e[1])
            if not ref.pnear(r[2], x, 1e-11 * size + tol * abs(d)):
                return f"offset({t}, {d}) reports offset point {r[2]}, expected {x}"
        ctx.outcome("quadrant %d%d" % (e[0] > 0, e[1] > 0))
    return None
