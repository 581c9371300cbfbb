"""C08: curve-line intersections, sound and complete against exact sign changes."""
import math
from mc import domains as D, ref
from mc.ref import F
from PathLib.Bezier import Bezier

ID, LEVEL = "C08", "exploration"
RULE = ("coordinates of very different size (0 to 40000 in one curve) included; "
        "every curve (orders 1-3: lattices, core shapes under affine maps, quadratics written as cubics exactly and rounded to 2-6 "
        "decimals) x every segment between points of a 4x4 lattice (both directions) or a 24-segment subset; non-trivial = at least one "
        "decided crossing")
PTS16 = [(x, y) for x in (-5, 8, 33, 70) for y in (-12, 4, 21, 50)]
ALL = [(a, b) for a in PTS16 for b in PTS16 if a != b]
SOME = [(a, b) for i, (a, b) in enumerate(ALL) if i % 11 == 3] + [((0, 15), (40, 15)), ((10, 0), (10, 35)), ((40, 0), (0, 35))]
CORELINES = [((x0 * 4, y0 * 4), (x1 * 4, y1 * 4)) for i, ((x0, y0), (x1, y1)) in enumerate(ALL) if i % 5 == 2] + \
            [((-50, 40), (300, 40)), ((300, 40), (-50, 40)), ((45, -100), (45, 300)), ((45, 300), (45, -100)), ((0, 0), (100, 100)), ((20, 20), (30, 25))]
FAR = ["+512-300", "-70000+1.5", "+0.375+40000", "+123456+0.1", "-3.7+1e7", "*0.1+512", "*0.01-40000"]


def straight(c):
    (a, b), (u, v) = c
    return [(a, b), (a + (u - a) / 3, b + (v - b) / 3), (a + (u - a) * 2 / 3, b + (v - b) * 2 / 3), (u, v)]


def farmap(g, f):
    if f[0] == "*":
        s, o = f[1:].replace("-", "+-").split("+")
        return lambda p: (D.MAPS[g](p)[0] * float(s) + float(o), D.MAPS[g](p)[1] * float(s) - float(o) / 3)
    import re
    x, y = map(float, re.match(r"([+-][0-9.e]+)([+-].*)", f).groups())
    return lambda p: (D.MAPS[g](p)[0] + x, D.MAPS[g](p)[1] + y)


FARMAPS = {g + f: farmap(g, f) for g in ("id", "swap", "negx", "neg") for f in FAR}
LINES = {"all": ALL, "some": SOME, "core": CORELINES}


def shards(tier):
    q = tier == "quick"
    out = [(f"core-{m}", {"kind": "core", "map": m}) for m in D.MAPS]
    out += [(f"lat1", {"kind": "lat", "order": 1, "i": 0, "n": 1, "lines": "all"})]
    out += [(f"lat2-{i}", {"kind": "lat", "order": 2, "i": i, "n": 8, "lines": "some" if q else "all"}) for i in range(8)]
    n3 = 16
    out += [(f"lat3-{i}", {"kind": "lat", "order": 3, "i": i * (2 if q else 1), "n": n3 * (2 if q else 1), "lines": "some"}) for i in range(n3)]
    out += [(f"elev-{m}", {"kind": "elev", "map": m, "step": 4 if q else 1}) for m in ("id", "rot30", "tenth")]
    out += [(f"far-{i}", {"kind": "far", "i": i}) for i in range(len(FAR))]
    out += [(f"round{k}", {"kind": "round", "digits": k, "step": 4 if q else 1}) for k in (1, 2, 3, 4, 5, 6)]
    out += D.steep_shards(tier, 8)
    return out


def explore(p, ctx):
    if p["kind"] == "steep":
        # coordinates of very different size
        for c in D.steep_part(p):
            ctx.run({"pts": c, "lines": "some", "map": "id"})
        return
    k = p["kind"]
    if k == "core":
        for c in D.cores((1, 2, 3), [p["map"]]):
            ctx.run({"pts": c, "lines": "core", "map": p["map"]})
    elif k == "lat":
        for i, c in enumerate(D.lattice(p["order"])):
            if i % p["n"] == p["i"]:
                ctx.run({"pts": c, "lines": p["lines"], "map": "id"})
    elif k == "far":
        # small curves far from the origin: lines and quadratics in disguise, and others, in every orientation
        for c in D.CORE[2] + D.CORE[3] + [D.elevate(c) for c in D.CORE[2]] + [straight(c) for c in D.CORE[1]]:
            for g in ("id", "swap", "negx", "neg"):
                ctx.run({"pts": [FARMAPS[g + FAR[p["i"]]](q) for q in c], "lines": "core", "map": g + FAR[p["i"]]})
    elif k == "elev":
        f = D.MAPS[p["map"]]
        for c in list(D.lattice(2))[::p["step"]] + D.CORE[2]:
            ctx.run({"pts": D.elevate([f(q) for q in c]), "lines": "some", "map": p["map"]})
    else:
        for c in list(D.lattice(2))[::p["step"]] + D.CORE[2]:
            ctx.run({"pts": [[round(x, p["digits"]) for x in q] for q in D.elevate(c)], "lines": "some", "map": "id"})


def check_case(case, ctx):
    pts = D.pts(case["pts"])
    f = D.MAPS.get(case["map"]) or FARMAPS[case["map"]]
    px, py = ref.power(ref.axis(pts, 0)), ref.power(ref.axis(pts, 1))
    for a, b in LINES[case["lines"]]:
        p = one(pts, px, py, f(a), f(b), ctx)
        if p:
            return f"line {f(a)}-{f(b)}: {p}"
    if case["lines"] in ("core", "all") and len(pts) > 2:
        # lines across the curve close to its ends, along both axes and along the normal
        for t in (0.0004, 0.0021, 0.998, 0.9996):
            x, y = ref.bezf(pts, t)
            dx, dy = (float(v) for v in ref.derivative(pts, t))
            h = math.hypot(dx, dy)
            r = max(ref.size(pts), 1) / 7
            for ux, uy in ((1, 0), (0, 1), (-dy / h, dx / h)) if h else ():
                a, b = (x - r * ux, y - r * uy), (x + 1.3 * r * ux, y + 1.3 * r * uy)
                p = one(pts, px, py, a, b, ctx)
                if p:
                    return f"line {a}-{b}: {p}"
    if case["lines"] in ("core", "all"):
        p = at_ends(pts, ctx) or (collinear(pts) if len(pts) == 2 else None)
        if p:
            return p
    # roots without a segment: parameters where y = 0
    return axis_roots(pts, py, ctx)


def sign_changes(g, eps):
    """Decided simple roots in (0, 1) of the exact polynomial g (float coefficients suffice): intervals between consecutive
    critical points over which g changes sign with both end values beyond eps."""
    d = ref.deriv(g)
    cr = ref.roots_lin_quad(d) if len(d) <= 3 else None
    knots = [0.0] + sorted(t for t, _ in (cr or []) if 0 < t < 1) + [1.0]
    gf = [float(c) for c in g]
    vals = [float(ref.pval(g, F(t))) for t in knots]
    roots, touchy = [], any(abs(v) <= eps for v in vals)
    for u, v, gu, gv in zip(knots, knots[1:], vals, vals[1:]):
        if abs(gu) > eps and abs(gv) > eps and (gu > 0) != (gv > 0):
            lo, hi = u, v
            for _ in range(60):
                m = (lo + hi) / 2
                if (ref.pval(gf, m) > 0) == (gu > 0):
                    lo = m
                else:
                    hi = m
            roots.append((lo + hi) / 2)
    return roots, touchy


def one(pts, px, py, a, b, ctx):
    ax, ay, bx, by = map(F, (a[0], a[1], b[0], b[1]))
    dx, dy = bx - ax, by - ay
    L = math.hypot(float(dx), float(dy))
    n = len(px)
    g = [dx * py[i] - dy * px[i] for i in range(n)]
    g[0] += -dx * ay + dy * ax
    size = max(ref.size(pts), ref.size([a, b]))
    # a point may be past an end of the segment by the library's epsilon, but off the line only by rounding errors
    told, tolp = 2e-6 + 1e-8 * size, 1e-8 * size
    eps = 10 * tolp * L
    roots, touchy = sign_changes(g, eps)
    line = (tuple(a), tuple(b))
    got = Bezier(list(pts)).lineIntersects(line)
    for t in got:
        if not -1e-5 <= t <= 1 + 1e-5:
            return f"reported parameter {t} is outside [0, 1]"
        p = ref.bezf(pts, float(t)) if len(pts) > 2 else tuple(map(float, ref.bez(pts, float(t))))
        d = ref.dist_point_seg(p, (float(ax), float(ay)), (float(bx), float(by)))
        if not d <= told:
            return f"reported t = {t}, but the curve point {p} is {d:.3g} away from the segment"
        d = abs(float(dx) * (float(p[1]) - float(ay)) - float(dy) * (float(p[0]) - float(ax))) / L
        if not d <= tolp:
            return f"reported t = {t}, but the curve point {p} is {d:.3g} away from the line"
    dpx, dpy = ref.deriv(px), ref.deriv(py)
    decided = 0
    for r in roots:
        if not 1e-5 < r < 1 - 1e-5:
            continue
        x, y = float(ref.pval(px, F(r))), float(ref.pval(py, F(r)))
        s = ((x - float(ax)) * float(dx) + (y - float(ay)) * float(dy)) / (L * L)
        if not 1e-3 < s < 1 - 1e-3:
            continue
        decided += 1
        sp = math.hypot(float(ref.pval(dpx, F(r))), float(ref.pval(dpy, F(r))))
        tolt = 1e-5 + 4 * tolp * L / max(abs(float(ref.pval(ref.deriv(g), F(r)))), 1e-300)
        if not any(abs(float(t) - r) <= tolt for t in got):
            return f"the curve crosses the segment at t = {r} (fraction {s:.4f} of it), but lineIntersects reports {list(got)}"
    if decided:
        ctx.nontriv()
    ctx.outcome(f"order {len(pts) - 1}: {decided} crossings")
    got = Bezier(list(pts)).intersectWithLine(Bezier([tuple(a), tuple(b)]))
    if len(pts) == 2:
        det = (F(pts[1][0]) - F(pts[0][0])) * dy - (F(pts[1][1]) - F(pts[0][1])) * dx
        l0 = math.hypot(float(F(pts[1][0]) - F(pts[0][0])), float(F(pts[1][1]) - F(pts[0][1])))
        if l0 == 0:
            return None
        sin = abs(float(det)) / (L * l0)
        if sin < 1e-6:
            # parallel up to rounding; exactly parallel integer lines must give nothing
            ints = all(isinstance(c, int) for q in (pts[0], pts[1], a, b) for c in q)
            return f"parallel lines intersect at {got}" if det == 0 and ints and got is not None else None
        u = ((ax - F(pts[0][0])) * dy - (ay - F(pts[0][1])) * dx) / det
        want = ref.bez(pts, u)
        mag = max(size, abs(float(want[0])), abs(float(want[1])))
        if got is None or not ref.pnear(got, want, 1e-9 * mag / sin):
            return f"the infinite lines meet at {tuple(map(float, want))}, intersectWithLine gives {got}"
        return None
    if got is None:
        if roots:
            return f"the curve crosses the infinite line at t = {roots}, intersectWithLine gives nothing"
    else:
        d = abs(float(dx) * (float(got[1]) - float(ay)) - float(dy) * (float(got[0]) - float(ax))) / L
        if not d <= tolp:
            return f"intersectWithLine gives {got}, {d:.3g} away from the line"
        nd = ref.nearest_on_curve(pts, (float(got[0]), float(got[1])), 32)[0]
        if nd > 1e-6 * size:       # (possibly because the two sides of a hairpin are close together)
            nd = ref.nearest_on_curve(pts, (float(got[0]), float(got[1])), 32, 4)[0]
        if nd > 1e-6 * size:
            return f"intersectWithLine gives {got}, {nd:.3g} away from the curve"
        if not roots and not touchy:
            return f"intersectWithLine gives {got}, but the curve does not meet the line"
    return None


def at_ends(pts, ctx):
    """Segments whose interior passes through the first or the last point of the curve, across it."""
    lo, hi = ref.min_speed(pts)
    for t in (0, 1):
        x, y = map(float, pts[-t])
        dx, dy = (float(v) for v in ref.derivative(pts, t))
        h = math.hypot(dx, dy)
        if not h or h < 1e-3 * hi:
            continue
        r = ref.extent(pts) / 7
        for ux, uy in ((1, 0), (0, 1), (-1, 0), (0, -1), (-dy / h, dx / h), (dy / h, -dx / h)):
            if abs(ux * dy - uy * dx) < 0.1 * h:
                continue
            line = ((x - r * ux, y - r * uy), (x + 1.3 * r * ux, y + 1.3 * r * uy))
            if math.hypot(line[0][0] - x, line[0][1] - y) < 1e-3 * max(abs(x), abs(y)):
                continue
            got = Bezier(list(pts)).lineIntersects(line)
            if not any(abs(float(g) - t) < 1e-5 for g in got):
                return f"the {'last' if t else 'first'} point of the curve is on the segment {line}, but lineIntersects reports {list(got)}"
            ctx.nontriv()
            ctx.outcome("crossing at an end of the curve")
    return None


def collinear(pts):
    """Two lines along the same line (or beside it) have no single meeting point, whatever they share."""
    (x0, y0), (x1, y1) = pts
    dx, dy = x1 - x0, y1 - y0
    if not (dx or dy) or not all(isinstance(c, int) for p in pts for c in p):
        return None
    at = lambda k: (x0 + k * dx, y0 + k * dy)
    for k, l in ((0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1), (-1, 0), (0, -1), (-1, 2), (2, 3), (-1, 1)):
        for off in ((0, 0), (3, -1)):
            a, b = ((p[0] + off[0], p[1] + off[1]) for p in (at(k), at(l)))
            got = Bezier(list(pts)).intersectWithLine(Bezier([a, b]))
            if got is not None:
                return f"parallel lines: intersectWithLine with {[a, b]} gives {got}"
    return None


def axis_roots(pts, py, ctx):
    told = 1e-8 * ref.size(pts)
    got = Bezier(list(pts)).roots()
    for t in got:
        if not -1e-5 <= t <= 1 + 1e-5:
            return f"roots() reports {t}"
        y = float(ref.pval(py, F(float(t))))
        if abs(y) > told:
            return f"roots() reports t = {t}, where y = {y}"
    roots, _ = sign_changes(py, 10 * told)
    sl = ref.deriv(py)
    for r in roots:
        if 1e-5 < r < 1 - 1e-5:
            tolt = 1e-5 + 4 * told / max(abs(float(ref.pval(sl, F(r)))), 1e-300)
            if not any(abs(float(t) - r) <= tolt for t in got):
                return f"y changes sign at t = {r}, but roots() reports {list(got)}"
    return None
