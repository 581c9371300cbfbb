"""C28: answers move with the curve - every query on every image of a curve under a finite group of similarities, and on the curve run backwards."""
import math
from itertools import product
from mc import domains as D, ref, state
from PathLib.Bezier import Bezier, BContour

ID, LEVEL = "C28", "exploration"
RULE = ("every lattice and core curve (and contours of them) x every similarity made of a quarter turn or mirroring (8) or a turn by another angle, a scale (powers of two and others) and a shift, and x "
        "reversal and the forms a point may take; every query asked of the curve and of its image, the answers compared after moving them; "
        "non-trivial = the image differs from the curve")
ASSUMPTIONS = ["parameters within 1e-6 of 0, 1 or each other, and grazing intersections, are not compared (rounding may move them in or out)"]

LIN = {"id": (1, 0, 0, 1), "r90": (0, -1, 1, 0), "r180": (-1, 0, 0, -1), "r270": (0, 1, -1, 0), "mx": (1, 0, 0, -1), "my": (-1, 0, 0, 1), "swap": (0, 1, 1, 0), "anti": (0, -1, -1, 0)}
for _n, _d, _m in (("t30", 30, 1), ("t200", 200, 1), ("t77", 77.7, 1), ("u50", 50, -1)):
    _c, _s = math.cos(math.radians(_d)), math.sin(math.radians(_d))
    LIN[_n] = (_c, -_s * _m, _s, _c * _m)
SCALES = (1, 2, 0.5, 1024, 2.0 ** -12, 3, 0.1, 1e6, 2.0 ** -20, 2.0 ** 30)
SHIFTS = ((0, 0), (512, -300), (-70000, 1.5), (0.375, 40000))
LINES = [((-20, 12), (130, 33)), ((37, -40), (21, 170)), ((0, 70), (100, 1)), ((-50, 25), (150, 25))]
TS = (0, 1 / 1024, 0.125, 0.3, 0.5, 0.75, 1 - 1 / 512, 1)


def maps(tier):
    out = []
    for g in LIN:
        for s in SCALES:
            for k, sh in enumerate(SHIFTS):
                # all mirrorings with every scale, all mirrorings with every shift, the rest in the thorough tier
                if (s == 1 or k == 0 or tier != "quick" and s > 2.0 ** -20) and (g, s, k) != ("id", 1, 0):
                    out.append((g, s, k))
    return out


def curves(tier):
    out = [c for n in (1, 2, 3) for c in D.CORE[n]]
    lat = list(D.lattice(2, D.LAT4))
    out += [c for c in lat if len(set(c)) > 1]
    if tier != "quick":
        out += [c for c in D.lattice(2) if len(set(c)) > 1] + [c for c in D.lattice(3, D.LAT4) if len(set(c)) > 1]
    return [[tuple(p) for p in c] for c in out]


CONTOURS = [[[(0, 0), (40, 10)], [(40, 10), (90, 70), (20, 60)], [(20, 60), (0, 0)]],
            [[(20, 60), (-30, 80), (-50, -20), (0, 0)], [(0, 0), (20, 60)]],
            [[(0, 0), (100, 50), (0, 100), (100, 150)], [(100, 150), (150, 90), (100, 0)], [(100, 0), (0, 0)]],
            [[(0, 0), (30, 60), (70, 60), (100, 0)]]]
POINTS = [(30, 55), (-80, 200), (60, 5), (10, 10), (400, 20)]


def shards(tier):
    n = 16 if tier == "quick" else 64
    out = [(f"move-{i}", {"k": "move", "t": tier, "i": i, "n": n}) for i in range(n)]
    out += [(f"contour-{i}", {"k": "contour", "t": tier, "i": i}) for i in range(len(CONTOURS))]
    out += [("reverse", {"k": "rev", "t": tier}), ("form", {"k": "form", "t": tier})]
    out += D.steep_shards(tier)
    return out


def explore(p, ctx):
    if p["k"] == "steep":
        # coordinates of very different size
        for c in D.steep_part(p):
            ctx.run({"k": "rev", "p": c})
        return
    cs = curves(p["t"])
    if p["k"] == "move":
        for i, c in enumerate(cs):
            if i % p["n"] == p["i"]:
                for m in maps(p["t"]):
                    ctx.run({"k": "move", "p": c, "m": list(m)})
        if p["t"] == "quick":
            # more curves, each with some of the similarities
            ms = maps("thorough")
            for i, c in enumerate(list(D.lattice(2)) + list(D.lattice(3, D.LAT4)) + list(D.lattice(3))[::5]):
                if i % p["n"] == p["i"] and len(set(c)) > 1:
                    for m in ms[i % 59::59]:
                        ctx.run({"k": "move", "p": [tuple(q) for q in c], "m": list(m)})
    elif p["k"] == "contour":
        for m in maps(p["t"]):
            ctx.run({"k": "contour", "c": p["i"], "m": list(m)})
    elif p["k"] == "rev":
        for c in cs:
            ctx.run({"k": "rev", "p": c})
            for s in (0.1, 1000, 1 / 3):
                ctx.run({"k": "rev", "p": [(x * s, y * s + 1) for x, y in c]})
    else:
        for c in cs:
            for f in FORMS:
                ctx.run({"k": "form", "p": c, "f": f})


class Map:
    def __init__(self, g, s, k):
        self.g, self.s, self.sh = LIN[g], s, SHIFTS[k]
        self.det = 1 if self.g[0] * self.g[3] - self.g[1] * self.g[2] > 0 else -1
        self.axes = g[0] not in "tu"              # axes go to axes
        self.swaps = self.g[0] == 0

    def lin(self, v):
        a, b, c, d = self.g
        return (a * v[0] + b * v[1], c * v[0] + d * v[1])

    def P(self, p):
        x, y = self.lin(p)
        return (x * self.s + self.sh[0], y * self.s + self.sh[1])

    def V(self, v):
        x, y = self.lin(v)
        return (x * self.s, y * self.s)

    def N(self, v):
        x, y = self.lin(v)
        return (x * self.det, y * self.det)

    def B(self, b):
        (x0, y0), (x1, y1) = self.P(b[:2]), self.P(b[2:])
        return (min(x0, x1), min(y0, y1), max(x0, x1), max(y0, y1))


# the parts of an answer: (name, kind, value); P point, V vector, N normal, L length, T parameters, X parameters per axis, B box, S set of points, U unmoved
def parts(b, pts, m):
    """What b says; m moves the arguments (lines, distances)."""
    out = []
    n = len(pts) - 1
    dx = [float(q[0] - p[0]) for p, q in zip(pts, pts[1:])]
    dy = [float(q[1] - p[1]) for p, q in zip(pts, pts[1:])]
    speed = lambda t: math.hypot(ref.bezf(list(zip(dx, dy)), t)[0], ref.bezf(list(zip(dx, dy)), t)[1])
    top = max(map(math.hypot, dx, dy))
    for t in TS:
        out.append((f"get({t})", "P", b.get(t)))
        for i, q in enumerate(b.hull(t)):
            out.append((f"hull({t})[{i}]", "P", q))
        if n <= 3 and speed(t) > 1e-3 * top:
            out.append((f"normal({t})", "N", b.normal(t)))
            out.append((f"offset({t}, 7)", "P", b.offset(t, 7 * m.s * m.det)[2]))
    out.append(("midpoint", "P", b.midpoint))
    for i, q in enumerate(b.getLUT(9)):
        out.append((f"getLUT(9)[{i}]", "P", q))
    for i, l in enumerate(b.dcPoints):
        for j, q in enumerate(l):
            out.append((f"dcPoints[{i}][{j}]", "V", q))
    for name, c in (("split(0.3)[0]", b.split(0.3)[0]), ("split(0.3)[1]", b.split(0.3)[1]), ("split(0.2, 0.7)", b.split(0.2, 0.7)), ("raiseOrder()", b.raiseOrder())):
        for i, q in enumerate(c.controlPoints):
            out.append((f"{name}.controlPoints[{i}]", "P", q))
    out.append(("boundsRectangle", "B", b.boundsRectangle.points))
    (x0, x1), (y0, y1) = b.bbox[0], b.bbox[1]
    out.append(("bbox", "B", (x0, y0, x1, y1)))
    out.append(("split(0.3)[1].boundsRectangle", "B", b.split(0.3)[1].boundsRectangle.points))
    out.append(("extrema", "X", [list(b.extrema[0]), list(b.extrema[1])]))
    out.append(("all extrema", "T", list(b.extrema[2])))
    out.append(("length", "L", float(b.length)))
    if tuple(pts[0]) != tuple(pts[-1]):
        out.append(("tightbbox", "S", [q for s in b.tightbbox for q in s]))
        chord = math.hypot(pts[-1][0] - pts[0][0], pts[-1][1] - pts[0][1])
        if chord > 1e-3 * top:
            for i, q in enumerate(b.align().controlPoints):
                out.append((f"align()[{i}]", "A", q))
    for l in LINES:
        (ax, ay), (bx, by) = l
        L = math.hypot(bx - ax, by - ay)
        across = lambda t: abs(ref.bezf(list(zip(dx, dy)), t)[0] * (by - ay) - ref.bezf(list(zip(dx, dy)), t)[1] * (bx - ax)) / L
        out.append((f"lineIntersects({l})", "T", [t for t in b.lineIntersects(tuple(map(m.P, l))) if across(t) > 2e-2 * top and inside(ref.bezf(pts, t), l)]))
        out.append((f"roots({l})", "T", [t for t in b.roots(list(map(m.P, l))) if across(t) > 2e-2 * top]))
    if n in (2, 3) and tuple(pts[0]) != tuple(pts[-1]):
        for t in (0.25, 0.5, 0.7):
            A, B, C, r, _ = b.getABC(t)
            # (ill-defined when the line from A to B runs along the chord)
            u = (A[0] - B[0], A[1] - B[1])
            w = m.V((pts[-1][0] - pts[0][0], pts[-1][1] - pts[0][1]))
            if abs(u[0] * w[1] - u[1] * w[0]) > 1e-2 * math.hypot(*u) * math.hypot(*w) and math.hypot(*u) > 1e-2 * top * m.s:
                out += [(f"getABC({t}).A", "P", A), (f"getABC({t}).B", "P", B), (f"getABC({t}).C", "P", C), (f"getABC({t}).ratio", "U", r)]
    if min(speed(0), speed(1)) > 1e-3 * top and margin(pts):
        out.append(("simple()", "U", bool(b.simple())))
        u, w = b.normal(0), b.normal(1)
        if b.simple() and abs(u[0] * w[1] - u[1] * w[0]) > 0.05 and n > 1:
            for i, q in enumerate(b.scale(5 * m.s * m.det).controlPoints):
                out.append((f"scale(5)[{i}]", "P", q))
            for i, q in enumerate(b.scale(lambda t: (5 + 3 * t) * m.s * m.det).controlPoints):
                out.append((f"scale(5 + 3t)[{i}]", "P", q))
    # (where the pieces begin is a matter of comparisons, which only a change of the exponent leaves exactly as they are)
    if n <= 3 and exact(m) and margin(pts) and min(speed(i / 64) for i in range(65)) > 1e-2 * top:
        pieces = b.offset(4 * m.s)
        out.append(("pieces of offset(4)", "U", len(pieces)))
        for j, c in enumerate(pieces):
            for i, q in enumerate(c.controlPoints):
                out.append((f"offset(4)[{j}][{i}]", "Q", q))
        out.append(("pieces of reduce()", "U", len(b.reduce())))
    return out


def exact(m):
    return m.g == (1, 0, 0, 1) and m.sh == (0, 0) and math.frexp(m.s)[0] == 0.5


def inside(p, l):
    (ax, ay), (bx, by) = l
    f = ((p[0] - ax) * (bx - ax) + (p[1] - ay) * (by - ay)) / ((bx - ax) ** 2 + (by - ay) ** 2)
    return 1e-3 < f < 1 - 1e-3


def margin(pts):
    """simple() is not a close decision."""
    a, b = ref.dpts(pts)[0], ref.dpts(pts)[-1]
    turn = abs(math.atan2(float(a[0] * b[1] - a[1] * b[0]), float(a[0] * b[0] + a[1] * b[1])))
    if abs(turn - math.pi / 3) < 1e-6 or turn > math.pi - 1e-3:
        return False
    if len(pts) < 4:
        return True
    w = (pts[3][0] - pts[0][0], pts[3][1] - pts[0][1])
    h = [w[0] * (q[1] - pts[0][1]) - w[1] * (q[0] - pts[0][0]) for q in pts[1:3]]
    return all(abs(x) > 1e-3 * (w[0] ** 2 + w[1] ** 2) for x in h)


def ts_same(a, b):
    """Parameter lists agree, apart from entries near the ends of the range."""
    f = lambda l: [t for t in l if 1e-6 < t < 1 - 1e-6]
    a, b = f(a), f(b)
    return all(any(abs(x - y) < 1e-6 for y in b) for x in a) and all(any(abs(x - y) < 1e-6 for x in a) for y in b)


def compare(before, now, m, size, pts):
    tol = 1e-9 * size * m.s + 1e-11 * max(map(abs, m.sh))
    near = lambda p, q, t=tol: all(abs(float(x) - float(y)) <= t for x, y in zip(p, q)) and len(p) == len(q)
    if not exact(m):
        before, now = ([x for x in l if x[1] != "Q" and "pieces" not in x[0]] for l in (before, now))
    if [x[0] for x in before] != [x[0] for x in now]:
        return f"different queries are possible: {set(x[0] for x in before) ^ set(x[0] for x in now)}"
    rel = 1e-9 + 1e-11 * max(map(abs, m.sh)) / (size * m.s)
    # rounding can bring about turning points where a derivative vanishes throughout
    loose = m.s == 0.1 and any(ref.power(ref.axis(pts, d))[-1] == 0 for d in (0, 1))
    for (name, k, v), (_, _, w) in zip(before, now):
        if loose and "extrema" in name or not m.axes and (k in "BX" or "extrema" in name):
            continue
        if k in "PQ":
            want = m.P(v)
            ok = near(w, want, tol * (100 if "ABC" in name or "scale" in name else 1))
        elif k == "V":
            want = m.V(v)
            ok = near(w, want)
        elif k == "N":
            want = m.N(v)
            ok = near(w, want, 1e3 * rel)
        elif k == "A":
            want = (v[0] * m.s, v[1] * m.s * m.det)
            ok = near(w, want, tol * 1e3)
        elif k == "B":
            want = m.B(v)
            ok = near(w, want, tol * 100)
        elif k == "L":
            want = v * m.s
            ok = abs(w - want) <= 1e-7 * want + tol
        elif k == "T":
            want = v
            ok = ts_same(v, w)
        elif k == "X":
            want = v[::-1] if m.swaps else v
            ok = all(ts_same(a, b) for a, b in zip(want, w))
        elif k == "S":
            want = [m.P(q) for q in v]
            ok = all(any(near(a, b, tol * 1e3) for b in w) for a in want) and all(any(near(a, b, tol * 1e3) for a in want) for b in w)
        else:
            want = v
            ok = v == w if isinstance(v, bool) else abs(v - w) <= 1e-9
        if not ok:
            return f"{name} of {pts} is {v}, but of its image it is {w}, not {want}"
    return None


ID_MAP = Map("id", 1, 0)
MEMO = {}


def base(pts):
    k = tuple(pts)
    if k not in MEMO:
        if len(MEMO) > 4:
            MEMO.clear()
        MEMO[k] = parts(Bezier(list(pts)), pts, ID_MAP)
    return MEMO[k]


FORMS = {
    "float": lambda pts: [(float(x), float(y)) for x, y in pts],
    "list": lambda pts: [list(p) for p in pts],
    "tuple": lambda pts: tuple(tuple(p) for p in pts),
}


def check_case(case, ctx):
    k = case["k"]
    if k == "contour":
        return contour_problem(case, ctx)
    pts = [tuple(p) for p in case["p"]]
    size = max(1.0 if k == "move" else 0, ref.extent(pts), max(abs(c) for p in pts for c in p))
    ctx.outcome(f"{k}, order {len(pts) - 1}")
    ctx.nontriv()
    if k == "move":
        m = Map(*case["m"])
        moved = [m.P(p) for p in pts]
        return compare(base(pts), parts(Bezier(list(moved)), pts, m), m, size, pts)
    if k == "form":
        return compare(base(pts), parts(Bezier(FORMS[case["f"]](pts)), pts, ID_MAP), ID_MAP, size, pts)
    # ---- run backwards
    a, b = Bezier(list(pts)), Bezier(pts[::-1])
    tol = 1e-9 * size
    for t in TS:
        if not ref.pnear(a.get(t), b.get(1 - t), tol):
            return f"{pts} is at {a.get(t)} at {t}, backwards at {1 - t} at {b.get(1 - t)}"
        d = ref.derivative(pts, ref.F(t))
        if math.hypot(*map(float, d)) > 1e-3 * size:
            u, v = a.normal(t), b.normal(1 - t)
            if not ref.pnear(u, (-v[0], -v[1]), 1e-6):
                return f"the normal of {pts} at {t} is {u}, backwards {v}"
    for u, v in zip(a.getLUT(9), b.getLUT(9)[::-1]):
        if not ref.pnear(u, v, tol):
            return f"the table of {pts} is {a.getLUT(9)}, backwards {b.getLUT(9)}"
    if any(abs(x - y) > tol * 100 for x, y in zip(a.boundsRectangle.points, b.boundsRectangle.points)):
        return f"the bounds of {pts} are {a.boundsRectangle.points}, backwards {b.boundsRectangle.points}"
    if abs(float(a.length) - float(b.length)) > 1e-7 * float(a.length) + tol:
        return f"the length of {pts} is {a.length}, backwards {b.length}"
    for d in range(3):
        if not ts_same(a.extrema[d], [1 - t for t in b.extrema[d]]):
            return f"the extrema of {pts} are {a.extrema}, backwards {b.extrema}"
    for x, y in ((a.split(0.3)[0], b.split(0.7)[1]), (a.split(0.3)[1], b.split(0.7)[0]), (a.split(0.2, 0.7), b.split(0.3, 0.8)), (a.raiseOrder(), b.raiseOrder())):
        if any(not ref.pnear(p, q, tol * 10) for p, q in zip(x.controlPoints, list(y.controlPoints)[::-1])):
            return f"a part of {pts} is {x.controlPoints}, backwards {y.controlPoints}"
    for l in LINES:
        if [x for x in parts(a, pts, ID_MAP) if x[0] == f"roots({l})"] and not ts_same(parts_of(a, pts, l), [1 - t for t in parts_of(b, pts[::-1], l)]):
            return f"{pts} meets {l} at {a.roots(list(l))}, backwards {b.roots(list(l))}"
    if pts[0] != pts[-1]:
        s, w = ([q for g in x.tightbbox for q in g] for x in (a, b))
        if not all(any(ref.pnear(p, q, tol * 1e3) for q in w) for p in s):
            return f"the tight box of {pts} is {s}, backwards {w}"
    if margin(pts) and min(math.hypot(*map(float, ref.dpts(pts)[i])) for i in (0, -1)) > 1e-3 * size and a.simple() != b.simple():
        return f"simple() of {pts} is {a.simple()}, backwards {b.simple()}"
    return None


def parts_of(b, pts, l):
    (ax, ay), (bx, by) = l
    d = [(float(q[0] - p[0]), float(q[1] - p[1])) for p, q in zip(pts, pts[1:])]
    top = max(math.hypot(*v) for v in d)
    L = math.hypot(bx - ax, by - ay)
    return [t for t in b.roots(list(l)) if abs(ref.bezf(d, t)[0] * (by - ay) - ref.bezf(d, t)[1] * (bx - ax)) / L > 2e-2 * top]


def contour_problem(case, ctx):
    segs = CONTOURS[case["c"]]
    m = Map(*case["m"])
    ctx.nontriv()
    ctx.outcome("contour")
    a, b = BContour([list(s) for s in segs]), BContour([[m.P(p) for p in s] for s in segs])
    tol = 1e-9 * 200 * m.s + 1e-11 * max(map(abs, m.sh))
    near = lambda p, q, f=1: all(abs(float(x) - float(y)) <= tol * f for x, y in zip(p, q))
    if m.axes and not near(b.boundsRectangle.points, m.B(a.boundsRectangle.points), 100):
        return f"the bounds of {segs} are {a.boundsRectangle.points}, of its image {b.boundsRectangle.points}"
    for n in (2, 5, 8):
        u, v = a.getLUT(n), b.getLUT(n)
        if len(u) != len(v) or not all(near(m.P(p), q) for p, q in zip(u, v)):
            return f"the table of {n} steps of {segs} is {u}, of its image {v}"
    if not near(m.P(a.start), b.start) or not near(m.P(a.end), b.end):
        return f"{segs} goes from {a.start} to {a.end}, its image from {b.start} to {b.end}"
    for p in POINTS:
        for n in (4, 9, 40):
            d, e = a.findClosestPoint(p, n)[0], b.findClosestPoint(m.P(p), n)[0]
            # (equally near table points may be told apart differently)
            lut = sorted(math.hypot(x - p[0], y - p[1]) for x, y in a.getLUT(n))
            if lut[1] - lut[0] > 1e-6 * lut[1] and abs(d * m.s - e) > 1e-6 * d * m.s + tol * 10:
                return f"{p} is {d} from {segs}, its image {e} from the image of scale {m.s} ({n} steps)"
    return None
