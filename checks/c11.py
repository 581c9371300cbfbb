"""C11: offset curves run at the requested distance, on the normal's side."""
import math
from mc import domains as D, ref
from PathLib.Bezier import Bezier

ID, LEVEL = "C11", "exploration"
RULE = ("coordinates of very different size (0 to 40000 in one curve) included; "
        "every regular curve (smallest speed at least 0.5% of the largest) of the core shapes under affine maps and of the lattices x "
        "distances of either sign up to half the smallest radius of curvature (and a quarter of the extent), scale() on simple curves (pieces, whole lattice curves, handles on the chord and on the ends) "
        "with numbers and distance functions; non-trivial = the curve is not straight")
REG = 0.005
FRACS = (0.5, -0.5, 0.2, -0.1, 0.01)


def shards(tier):
    q = tier == "quick"
    out = [(f"core-{m}", {"kind": "core", "map": m, "fr": FRACS[:3] if q else FRACS}) for m in D.MAPS]
    out += [("lat1", {"kind": "lat", "o": 1, "i": 0, "n": 1, "map": "id", "fr": FRACS})]
    out += [(f"lat2-{i}", {"kind": "lat", "o": 2, "i": i, "n": 8, "map": "id" if i % 2 else "rot200", "fr": FRACS[:2] if q else FRACS}) for i in range(8)]
    n, k = 16, (16 if q else 2)
    out += [(f"lat3-{i}", {"kind": "lat", "o": 3, "i": i * k, "n": n * k, "map": "id" if i % 2 else "rot30", "fr": FRACS[:2] if q else FRACS}) for i in range(n)]
    out += [(f"near-{m}", {"kind": "near", "map": m, "fr": []}) for m in (("id", "rot30", "font", "tenth") if q else D.MAPS)]
    out += [(f"scale-{m}", {"kind": "scale", "map": m}) for m in ("id", "rot200", "tenth", "negx")]
    # whole curves of the lattice, handles on the chord and on the end points included
    out += [(f"whole-{i}", {"kind": "whole", "i": i, "n": 4 if q else 1, "map": m}) for i, m in enumerate(("id", "rot30", "tenth", "negx"))]
    out += [(f"handles-{m}", {"kind": "handles", "map": m}) for m in (("id", "rot30", "font", "tenth") if q else D.MAPS)]
    out += D.steep_shards(tier, 3)
    return out


def explore(p, ctx):
    k, f = p["kind"], D.MAPS[p["map"]]
    if k == "steep":
        # coordinates of very different size
        for c in D.steep_part(p):
            run_all(c, FRACS[:3], ctx)
        return
    if k == "core":
        for c in D.cores((1, 2, 3), [p["map"]]):
            run_all(c, p["fr"], ctx)
            run_all(c[::-1], p["fr"][:2], ctx)
    elif k == "lat":
        for i, c in enumerate(D.lattice(p["o"])):
            if i % p["n"] == p["i"]:
                run_all([f(q) for q in c], p["fr"], ctx)
    elif k == "whole":
        for i, c in enumerate(x for o in (2, 3) for x in D.lattice(o)):
            if i % p["n"] == p["i"] % p["n"] and turn_ok(c):
                for fr in (0.4, -0.3):
                    ctx.run({"k": "scale", "whole": 1, "pts": [f(q) for q in c], "fr": fr})
    elif k == "handles":
        # handles on end points, and handles on the line between the end points
        for a in (0, 20, 40):
            for b in (60, 80, 100):
                for h1, h2 in ((0, 20), (0, -20), (10, 0), (-10, 0), (0, 3), (2, 0), (5, 12), (-12, -3)):
                    for c in ([(0, 0), (a, h1 if a else 0), (b, h2 if b < 100 else 0), (100, 0)],):
                        for c in (c, c[::-1]):
                            c = [f(q) for q in c]
                            for fr in (0.1, -0.1, 0.02):
                                ctx.run({"k": "scale", "whole": 1, "pts": c, "fr": fr})
                            if retracted(c):
                                for fr in (0.05, -0.05, 0.01):
                                    ctx.run({"k": "offset", "pts": c, "d": fr * ref.extent(c)})
    elif k == "near":
        # curves that are almost straight
        for c in D.CORE[1]:
            (x0, y0), (x1, y1) = c
            for e in (1e-7, 5e-7, 5e-6, 2e-5, 1e-4, 4e-4, 2e-3, 0.01, 0.04):
                for s in ((0.5,), (0.2,), (1, 1), (1, -1), (0.3, 1), (1, 0), (0, 1)):
                    g = [c[0]]
                    for j, v in enumerate(s):
                        u = (j + 1) / (len(s) + 1)
                        g.append((x0 + u * (x1 - x0) - v * e * (y1 - y0), y0 + u * (y1 - y0) + v * e * (x1 - x0)))
                    ext = ref.extent(c)
                    for d in (ext / 4, -ext / 4, ext / 50) if e < 0.05 else ():
                        if abs(d) <= min_radius([f(q) for q in g + [c[1]]]) / 2:
                            ctx.run({"k": "offset", "pts": [f(q) for q in g + [c[1]]], "d": d})
    else:
        for c in D.cores((1, 2, 3), [p["map"]]):
            lo, hi = ref.min_speed(c)
            if hi == 0 or lo < REG * hi or len(c) == 2:
                continue
            for w in (1, -1):
                for a, b in ((0.0, 0.1), (0.1, 0.25), (0.25, 0.4), (0.4, 0.5), (0.5, 0.7), (0.7, 0.9), (0.9, 1.0)):
                    s = [tuple(map(float, q)) for q in ref.sub(c, ref.F(a), ref.F(b))][::w]
                    for fr in (0.4, -0.4):
                        ctx.run({"k": "scale", "pts": s, "fr": fr})


def run_all(c, fracs, ctx):
    lo, hi = ref.min_speed(c)
    if hi == 0 or lo < REG * hi:
        return
    r = min_radius(c)
    ext = ref.extent(c)
    for f in fracs:
        d = f * min(r, ext / 2)
        ctx.run({"k": "offset", "pts": c, "d": d})
    if r > 1e6 * ext:
        for d in (25, -7, 0):
            ctx.run({"k": "offset", "pts": c, "d": d})


def derivs(c):
    d = [(float(a), float(b)) for a, b in ref.dpts(c)]
    return d, ([(float(a), float(b)) for a, b in ref.dpts(d)] if len(d) > 1 else [(0.0, 0.0)])


def ev(c, t):
    return c[0] if len(c) == 1 else ref.bezf(c, t)


def min_radius(c, n=400):
    d, dd = derivs(c)
    m = math.inf
    for i in range(n + 1):
        x, y = ev(d, i / n)
        u, v = ev(dd, i / n)
        k = abs(x * v - y * u)
        s = math.hypot(x, y)
        if k > 1e-12 * s * max(math.hypot(u, v), s):
            m = min(m, s ** 3 / k)
    return m


def retracted(c):
    """A handle is on its end point."""
    return len(c) > 2 and (tuple(c[0]) == tuple(c[1]) or tuple(c[-1]) == tuple(c[-2]))


def collinear(c):
    (ax, ay), big = c[0], ref.extent(c)
    return all(abs((float(p[0]) - float(ax)) * (float(q[1]) - float(ay)) - (float(p[1]) - float(ay)) * (float(q[0]) - float(ax))) <= 1e-3 * big * big for p in c for q in c)


def even(c):
    """All legs of the control polygon run within 60 degrees of the chord."""
    ux, uy = float(c[-1][0] - c[0][0]), float(c[-1][1] - c[0][1])
    return (ux or uy) and all((float(q[0] - p[0]) * ux + float(q[1] - p[1]) * uy) >= 0.5 * math.hypot(ux, uy) * math.hypot(q[0] - p[0], q[1] - p[1]) for p, q in zip(c, c[1:]))


def turn_ok(c):
    """The curve has directions at its ends, less than 60 degrees apart (more are not simple)."""
    a, b = ref.end_direction(c, 0), ref.end_direction(c, 1)
    return a and b and a[0] * b[0] + a[1] * b[1] > 0.49 * math.hypot(*a) * math.hypot(*b)


class Fn:
    """A distance function that isn't a plain Python function."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __call__(self, t):
        return self.a + (self.b - self.a) * t


def end_normal(pts, t):
    x, y = ref.end_direction(pts, t)
    h = math.hypot(x, y)
    return -y / h, x / h


def normal(d, t):
    x, y = ev(d, t)
    h = math.hypot(x, y)
    return -y / h, x / h


def exact_offset(c, dist, n=400):
    d, _ = derivs(c)
    c = [(float(x), float(y)) for x, y in c]
    out = []
    for i in range(n + 1):
        x, y = ref.bezf(c, i / n)
        u, v = normal(d, i / n)
        out.append((x + dist * u, y + dist * v))
    return out


def poly_dist(q, poly):
    return min(ref.dist_point_seg(q, a, b) for a, b in zip(poly, poly[1:]))


def check_case(case, ctx):
    pts = D.pts(case["pts"])
    if case["k"] == "scale":
        return check_scale(pts, case["fr"], ctx, case.get("whole"))
    dist = case["d"]
    size = ref.size(pts)
    got = Bezier(list(pts)).offset(dist)
    if not got:
        return f"offset({dist}) gives no curves"
    p = ends(pts, dist, got, size, ctx)
    if p:
        return p
    if retracted(pts):
        # the curvature can be infinite at such an end
        ctx.nontriv()
        ctx.outcome("handle on an end point")
        return None
    r = min_radius(pts)
    straight = r > 1e6 * ref.extent(pts)
    ad = abs(dist)
    off = exact_offset(pts, dist)
    tol = tolerance(pts) * ad + 1e-6 * size + ref.extent(pts) * 1e-4
    if straight and len(got) == 1:
        d, _ = derivs(pts)
        nx, ny = normal(d, 0)
        want = [(float(x) + dist * nx, float(y) + dist * ny) for x, y in pts]
        g = list(got[0].controlPoints)
        if len(g) != len(pts) or any(not ref.pnear(u, v, 1e-6 * size + 1e-5 * ad) for u, v in zip(g, want)):
            return f"a straight curve offset by {dist} is {g}, not the translated {want}"
    worst = 0
    mine = []
    for o in got:
        cp = [(float(x), float(y)) for x, y in o.controlPoints]
        for i in range(9):
            q = ref.bezf(cp, i / 8)
            mine.append(q)
            worst = max(worst, poly_dist(q, off))
    if worst > tol:
        return f"offset({dist}) strays {worst:.4g} from the exact offset (allowed {tol:.4g})"
    ext2 = ref.extent(off) / 40 + tol
    for q in off[::20]:
        if poly_dist(q, mine) > ext2:
            return f"offset({dist}) does not reach the exact offset point {q}"
    if not straight:
        ctx.nontriv()
    ctx.outcome(f"order {len(pts) - 1}, {min(len(got), 10)} pieces, deviation/d <= {math.ceil(20 * worst / ad) / 20 if ad else 0:.2f}")
    return None


def tolerance(pts):
    """Largest deviation allowed, as a fraction of the distance: a few percent for even curves, more for hairpins."""
    lo, hi = ref.min_speed(pts)
    return 0.33 - 0.3 * lo / hi


def ends(pts, dist, got, size, ctx):
    def flat(o):
        # pieces that are straight to a millionth of their size are moved without changing their shape
        g = [(float(x), float(y)) for x, y in o.controlPoints]
        (ax, ay), (bx, by) = g[0], g[-1]
        big = max(math.hypot(x - ax, y - ay) for x, y in g)
        chord = math.hypot(bx - ax, by - ay)
        if len(g) == 2 or chord and max(abs((x - ax) * (by - ay) - (y - ay) * (bx - ax)) for x, y in g) > 3e-6 * big * chord + 1e-12 * size * chord:
            return 0
        h = min(math.hypot(g[1][0] - ax, g[1][1] - ay), math.hypot(bx - g[-2][0], by - g[-2][1]))
        return min(1.0, 4e-6 * big / h) if h else 1.0

    tol = 1e-7 * size
    for t, q, what in ((0, got[0].controlPoints[0], "first"), (1, got[-1].controlPoints[-1], "last")):
        nx, ny = end_normal(pts, t)
        x, y = pts[0] if t == 0 else pts[-1]
        w = (float(x) + dist * nx, float(y) + dist * ny)
        if not ref.pnear(q, w, tol + abs(dist) * flat(got[-t])):
            return f"offset({dist}): the {what} point is {q}, not {w}"
    for i, (a, b) in enumerate(zip(got, got[1:])):
        if not ref.pnear(a.controlPoints[-1], b.controlPoints[0], 1e-6 * size + abs(dist) * (flat(a) + flat(b))):
            return f"offset({dist}): piece {i} ends at {a.controlPoints[-1]}, the next starts at {b.controlPoints[0]}"
    # end tangents
    for t, g, what in ((0, got[0].controlPoints, "start"), (1, got[-1].controlPoints, "end")):
        p, q = (g[0], g[1]) if t == 0 else (g[-2], g[-1])
        ux, uy = float(q[0]) - float(p[0]), float(q[1]) - float(p[1])
        vx, vy = ref.end_direction(pts, t)
        h = math.hypot(ux, uy) * math.hypot(vx, vy)
        if math.hypot(ux, uy) <= 1e-4 * size:
            continue
        sin, cos = (ux * vy - uy * vx) / h, (ux * vx + uy * vy) / h
        # the last control point of a quadratic can only serve the tangent at its start
        slack = 0.3 if len(g) == 3 and t == 1 else 1e-5
        if abs(sin) > slack + flat(got[-t]) or cos < 0:
            return f"offset({dist}): the tangent at the {what} is off by {math.degrees(math.atan2(abs(sin), cos)):.3f} degrees"
    return None


def check_scale(pts, fr, ctx, whole=False):
    b = Bezier(list(pts))
    ends_only = retracted(pts)
    lo, hi = ref.inner_speed(pts)
    if hi == 0 or lo < REG * hi:
        return None
    r = ref.extent(pts) if ends_only else min_radius(pts)
    ext = ref.extent(pts)
    if r > 1000 * ext or collinear(pts) or not even(pts) or not b.simple():
        ctx.outcome("straight, uneven or not simple (skipped)")
        return None
    dist = fr * min(r, ext)
    size = ref.size(pts)
    (ax, ay), (bx, by) = end_normal(pts, 0), end_normal(pts, 1)
    try:
        g = Bezier(list(pts)).scale(dist)
    except ValueError:
        if abs(ax * by - ay * bx) < 1e-6:
            ctx.outcome("parallel normals: refused")
            return None
        raise
    if len(g.controlPoints) != len(pts):
        return f"scale({dist}) changed the order from {len(pts) - 1} to {len(g.controlPoints) - 1}"
    p = ends(pts, dist, [g], size, ctx)
    if p:
        return "scale: " + p
    off = None if ends_only else exact_offset(pts, dist, 100)
    cp = [(float(x), float(y)) for x, y in g.controlPoints]
    tol = (0.35 if whole else tolerance(pts)) * abs(dist) + 1e-6 * size + ext * 1e-3
    if off:
        worst = max(poly_dist(ref.bezf(cp, i / 16), off) for i in range(17))
        if worst > tol:
            return f"scale({dist}) strays {worst:.4g} from the exact offset (allowed {tol:.4g})"
    # a distance function: the ends move by its values at 0 and 1, the handles by the values at 1/3 and 2/3 to the same side
    handles = [(float(x), float(y)) for x, y in (pts if len(pts) == 4 else ref.raised(pts))[1:3]]
    for r1, r2 in ((dist, dist), (dist, dist / 2), (0, dist)):
        fn = Fn(r1, r2) if r1 == 0 else lambda t, r1=r1, r2=r2: r1 + (r2 - r1) * t
        g = Bezier(list(pts)).scale(fn)
        if len(g.controlPoints) != 4:
            return f"scale(function) of order {len(pts) - 1} gives order {len(g.controlPoints) - 1}"
        for t, rr, q in ((0, r1, g.controlPoints[0]), (1, r2, g.controlPoints[-1])):
            nx, ny = end_normal(pts, t)
            x, y = pts[0] if t == 0 else pts[-1]
            w = (float(x) + rr * nx, float(y) + rr * ny)
            if not ref.pnear(q, w, 1e-7 * size):
                return f"scale(function): the point at {t} is {q}, not {w}"
        for i, (x, y) in enumerate(handles):
            rc = r1 + (r2 - r1) * (i + 1) / 3
            u, v = float(g.controlPoints[i + 1][0]) - x, float(g.controlPoints[i + 1][1]) - y
            if abs(math.hypot(u, v) - abs(rc)) > 1e-6 * size:
                return f"scale(function): handle {i + 1} is moved by {math.hypot(u, v)}, not {abs(rc)}"
            if (u * (ax + bx) + v * (ay + by)) * rc <= 0:
                return f"scale(function): handle {i + 1} is moved by {(u, v)}, to the wrong side for {rc}"
        if r1 == r2 and off:
            cp = [(float(x), float(y)) for x, y in g.controlPoints]
            worst = max(poly_dist(ref.bezf(cp, i / 16), off) for i in range(17))
            if worst > tol + 0.2 * abs(dist):
                return f"scale(constant function {r1}) strays {worst:.4g} from the exact offset (allowed {tol:.4g})"
            ctx.outcome(f"fn deviation/d <= {math.ceil(10 * worst / abs(dist)) / 10:.1f}")
    ctx.nontriv()
    ctx.outcome(f"scale order {len(pts) - 1}{', ends only' if ends_only else ''}")
    return None
