"""C20: line utilities are exact on representable geometry - all pairs of segments and all points over coordinate lattices."""
from fractions import Fraction as F
from itertools import product
from math import atan2, degrees, hypot, inf
from PathLib import PathUtilities as PU
from PathLib import BezierUtilities as BU

ID, LEVEL = "C20", "exploration"
RULE = ("every ordered pair of segments over a lattice (degenerate, axis-parallel, reversed, collinear ones included), every segment x every point of a "
        "finer lattice, every measure (almost vertical and almost horizontal lines included) of every segment, at several exactly representable scales; non-trivial = the segments are not degenerate")

LATS = {"a": ((0, 1, 3, 7), (0, 2, 3, 8)), "b": ((0, 1, 2, 3, 4), (0, 1, 2, 3, 4))}
MAPS = {
    "int": lambda p: p, "float": lambda p: (float(p[0]), float(p[1])), "neg": lambda p: (-3 * p[0] + 5, -2 * p[1] + 1), "dyad": lambda p: (p[0] * 0.375 - 1.25, 2.5 - p[1] * 0.125),
    "font": lambda p: (p[0] * 1000 - 3000.0, p[1] * 1700 - 5000.0), "far": lambda p: (p[0] * 37 + 40000, p[1] * 41 + 61000), "swap": lambda p: (p[1], p[0] * 0.5),
    "wide": lambda p: (p[0] * 2 ** 22 + 1, p[1] * 2 ** 21 - 3), "small": lambda p: (p[0] * 2.0 ** -40, p[1] * 2.0 ** -39),
    "below": lambda p: (p[0] * 3.0 - 40000, p[1] * 7.0 - 55000),
}


def shards(tier):
    q = tier == "quick"
    out = []
    for m in MAPS:
        lat = "a" if q or m not in ("int", "float", "neg", "dyad") else "b"
        n = len(LATS[lat][0]) ** 2
        for i in range(0, n, 4 if q else 2):
            out.append((f"pairs-{m}-{i}", {"k": "pair", "m": m, "lat": lat, "lo": i, "hi": min(n, i + (4 if q else 2))}))
    out += [(f"on-{m}", {"k": "on", "m": m, "lat": "a"}) for m in MAPS]
    out += [("skew", {"k": "skew", "m": "int", "lat": "a"})]
    return out


def explore(p, ctx):
    xs, ys = LATS[p["lat"]]
    pts = [(x, y) for x in xs for y in ys]
    if p["k"] == "skew":
        # lines that are almost vertical or horizontal, very short or very long
        w = (0, 1e-12, -1e-9, 1e-6, -1e-4, 1, -7, 1e5, -1e9, 2.0 ** 40)
        for a in ((0, 0), (5, -7), (0.5, -2.0 ** 20), (1e-3, 0)):
            for dx in w:
                for dy in w:
                    ctx.run({"m": "int", "s": [a, (a[0] + dx, a[1] + dy)]})
        w = (0, 1, -3, 2 ** 16)
        segs = [(a, (a[0] + dx, a[1] + dy)) for a in ((0, 0), (5, -7), (-2, 2 ** 15), (2 ** 15, 1)) for dx in w for dy in w]
        for a, b in segs:
            for c, d in segs:
                ctx.run({"m": "int", "l": [a, b, c, d]})
        return
    if p["k"] == "pair":
        for a in pts[p["lo"]:p["hi"]]:
            for b in pts:
                for c in pts:
                    for d in pts:
                        ctx.run({"m": p["m"], "l": [a, b, c, d]})
        return
    fine = [(x / 2, y / 2) for x in range(-2, 2 * xs[-1] + 3) for y in range(-2, 2 * ys[-1] + 3)]
    for a in pts:
        for b in pts:
            ctx.run({"m": p["m"], "s": [a, b]})
            for c in fine:
                ctx.run({"m": p["m"], "s": [a, b], "p": c})
            if p["m"] in ("int", "float") and a[0] == 0 == a[1] and b[0] == b[1]:
                # points that miss a long line by as little as whole numbers can
                f = [1, 1]
                while f[-1] < 2 ** 24:
                    f.append(f[-1] + f[-2])
                for i in range(3, len(f) - 1):
                    for u in range(1, i):
                        for h in (1, 2, 3):
                            for sx, sy in ((1, 1), (-1, 1)):
                                for e, q in (((f[i + 1], f[i]), (f[u + 1], f[u])), ((f[i], f[i + 1]), (f[u], f[u + 1]))):
                                    if h * f[i] < 2 ** 25:
                                        ctx.run({"m": p["m"], "s": [(5, -7), (5 + sx * h * e[0], -7 + sy * h * e[1])], "p": (5 + sx * q[0], -7 + sy * q[1])})
                                        ctx.run({"m": p["m"], "s": [(0, 0), (sx * h * e[0], sy * h * e[1])], "p": (sx * e[0], sy * e[1])})
            if p["m"] in ("int", "dyad", "swap") and a != b:
                # points that miss the line by very little
                for s in (0, 0.25, 0.5, 1):
                    for e in (2.0 ** -12, 2.0 ** -22, 2.0 ** -32, 2.0 ** -40):
                        for i, j in ((0, e), (0, -e), (e, 0), (-e, 0)):
                            ctx.run({"m": p["m"], "s": [a, b], "p": (a[0] + (b[0] - a[0]) * s + i, a[1] + (b[1] - a[1]) * s + j)})
            if p["m"] == "wide":
                # the whole numbers next to the ends, the middle and a quarter of long lines
                for s in (0, 0.25, 0.5, 1):
                    for i in (-1, 0, 1):
                        for j in (-1, 0, 1):
                            ctx.run({"m": p["m"], "s": [a, b], "p": (a[0] + (b[0] - a[0]) * s + i / 2 ** 22, a[1] + (b[1] - a[1]) * s + j / 2 ** 21)})


def cross(a, b, c, d):
    """('none' | 'skip', None), or ('point', exact meeting point) of segments ab and cd."""
    (x1, y1), (x2, y2), (x3, y3), (x4, y4) = a, b, c, d
    ux, uy, vx, vy = x2 - x1, y2 - y1, x4 - x3, y4 - y3
    if (ux, uy) == (0, 0) or (vx, vy) == (0, 0):
        return "skip", None, None
    den = ux * vy - uy * vx
    if den == 0:
        return "none", None, None
    s = ((x3 - x1) * vy - (y3 - y1) * vx) / den
    t = ((x3 - x1) * uy - (y3 - y1) * ux) / den
    q = (x1 + s * ux, y1 + s * uy)
    return ("point" if 0 <= s <= 1 and 0 <= t <= 1 else "none"), q, (s, t)


def ex(p):
    return (F(p[0]), F(p[1]))


def near(g, w):
    return g is not None and len(g) == 2 and all(abs(F(a) - b) <= abs(b) / 10**12 for a, b in zip(g, w))


def check_case(case, ctx):
    f = MAPS[case["m"]]
    if "l" in case:
        a, b, c, d = [f(tuple(p)) for p in case["l"]]
        l1, l2 = [a, b], (c, d)
        kind, q, st = cross(ex(a), ex(b), ex(c), ex(d))
        got = PU.intersectionPoint(l1, l2)
        inf_ = BU.lli(l1, l2), BU.lli4(a, b, c, d), BU.lli8(*a, *b, *c, *d)
        if l1 != [a, b] or l2 != (c, d):
            return "the lines were changed"
        if kind == "skip":
            ctx.outcome("degenerate")
            return None
        ctx.nontriv()
        ctx.outcome("parallel" if q is None else "meet inside" if kind == "point" and 0 < min(st) and max(st) < 1 else "touch" if kind == "point" else "apart")
        for g in inf_:
            if (g is None) != (q is None) or q and not near(g, q):
                return f"the lines through {l1} and {l2} meet at {g}, expected {q and tuple(map(float, q))}"
        if kind == "none":
            return None if got is None else f"{l1} and {l2} do not meet, but {got} is reported"
        if not near(got, q):
            return f"{l1} and {l2} meet at {tuple(map(float, q))}, but {got} is reported"
        return None
    a, b = [f(tuple(p)) for p in case["s"]]
    (x1, y1), (x2, y2) = ex(a), ex(b)
    line = [a, b]
    if "p" in case:
        p = f(tuple(case["p"]))
        x, y = ex(p)
        want = (x2 - x1) * (y - y1) == (y2 - y1) * (x - x1) and min(x1, x2) <= x <= max(x1, x2) and min(y1, y2) <= y <= max(y1, y2)
        got = PU.pointOnLine(p, line)
        if a != b:
            ctx.nontriv()
        ctx.outcome("on" if want else "off")
        return None if bool(got) == want else f"{p} on {line}: {got}"
    return measures(a, b, ctx)


def measures(a, b, ctx):
    dx, dy = b[0] - a[0], b[1] - a[1]
    if a != b:
        ctx.nontriv()
    ctx.outcome("measures")
    mid = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
    forms = [[a, b], (a, b), [list(a), list(b)], [complex(*a), complex(*b)]]
    for s in forms:
        if tuple(PU.endPoints(s)) != a + b or tuple(PU.getDeltas(s)) != (dx, dy):
            return f"{s}: end points {PU.endPoints(s)}, deltas {PU.getDeltas(s)}"
        if [bool(PU.isVerticalLine(s)), bool(PU.isHorizontalLine(s)), bool(PU.isDiagonalLine(s))] != [dx == 0, dy == 0, dx != 0 and dy != 0]:
            return f"{s}: vertical {PU.isVerticalLine(s)}, horizontal {PU.isHorizontalLine(s)}, diagonal {PU.isDiagonalLine(s)}"
        if abs(PU.length(s) - hypot(dx, dy)) > 1e-12 * hypot(dx, dy):
            return f"{s}: length {PU.length(s)}"
        w = inf if dx == 0 else dy / dx
        if PU.slope(s) != w and (w == inf or not abs(PU.slope(s) - w) <= 1e-12 * abs(w)):
            return f"{s}: slope {PU.slope(s)}"
        if abs(PU.slopeAngle(s) - degrees(atan2(abs(dx), abs(dy)))) > 1e-10:
            return f"{s}: angle from vertical {PU.slopeAngle(s)}"
        if abs(PU.rawSlopeAngle(s) - degrees(atan2(dy, dx))) > 1e-10:
            return f"{s}: angle {PU.rawSlopeAngle(s)}"
        if tuple(PU.midpoint(s)) != mid:
            return f"{s}: midpoint {PU.midpoint(s)}"
    for n, s in enumerate(([a, (99, -98), b], [a, (99, 3), (-5, 4), b])):
        if tuple(PU.endPoints(s)) != a + b or tuple(PU.getDeltas(s)) != (dx, dy):
            return f"{s}: end points {PU.endPoints(s)}, deltas {PU.getDeltas(s)}"
        if PU.isVerticalLine(s) or PU.isHorizontalLine(s) or PU.isDiagonalLine(s):
            return f"the curve {s} is called a line"
    if tuple(PU.minMax(a[0], b[0])) != (min(a[0], b[0]), max(a[0], b[0])):
        return f"minMax({a[0]}, {b[0]}) is {PU.minMax(a[0], b[0])}"
    if tuple(PU.pointXY(complex(*a))) != a or tuple(PU.pointXY(a)) != a:
        return f"pointXY of {a} is {PU.pointXY(complex(*a))}, {PU.pointXY(a)}"
    cons = [[[a, b], [b, a]], [], [[a, a]]]
    if PU.flatten(cons) != [[a, b], [b, a], [a, a]] or len(cons) != 3:
        return f"flatten({cons}) is {PU.flatten(cons)}"
    if a[0] == a[1]:
        # longer lists
        for n in (4, 7, 60):
            cons = [[[a, (i, j)] for j in range((i * 5 + n) % (9 if i != 2 else 1000))] for i in range(n)]
            cons[1] = [[a, (j, n)] for j in range(3 * n)]
            if PU.flatten(cons) != [s for c in cons for s in c]:
                return f"flatten({cons}) is {PU.flatten(cons)}"
    if abs(PU.toMicros(a[0], 2048) - a[0] * 1000 / 2048) > 1e-12 * abs(a[0]) * 1000:
        return f"{a[0]} units of 2048 are {PU.toMicros(a[0], 2048)} micros"
    return None
