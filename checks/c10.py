"""C10: reduce partitions a regular curve into simple pieces that trace it."""
import math
from mc import domains as D, ref
from PathLib.Bezier import Bezier

ID, LEVEL = "C10", "exploration"
RULE = ("coordinates of very different size (0 to 40000 in one curve) included; "
        "every curve of the lattices and of the core shapes under 20 affine maps, "
        "forward and reversed, plus quadratics written as cubics; every curve (regular or not) for the simplicity test; non-trivial = a "
        "curve that is cut into more than one piece")
REG = 1e-4


def shards(tier):
    q = tier == "quick"
    out = [(f"core-{m}", {"kind": "core", "map": m}) for m in D.MAPS]
    out += [("lat1", {"kind": "lat", "order": 1, "i": 0, "n": 1, "map": "id"}), ("lat2", {"kind": "lat", "order": 2, "i": 0, "n": 1, "map": "id"}),
            ("lat2-rot30", {"kind": "lat", "order": 2, "i": 0, "n": 1, "map": "rot30"})]
    n, k = 16, (6 if q else 1)
    out += [(f"lat3-{i}", {"kind": "lat", "order": 3, "i": i * k, "n": n * k, "map": "id"}) for i in range(n)]
    out += [(f"lat3r-{i}", {"kind": "lat", "order": 3, "i": i * k + k // 2, "n": n * k, "map": "rot30"}) for i in range(n)]
    out += [(f"elev-{m}", {"kind": "elev", "map": m}) for m in ("id", "third")]
    out += [(f"simple-{m}", {"kind": "simple", "map": m, "step": 5 if q else 1}) for m in ("id", "rot30", "huge", "tiny")]
    out += D.steep_shards(tier, 8)
    return out


def explore(p, ctx):
    if p["kind"] == "steep":
        # coordinates of very different size
        for c in D.steep_part(p):
            ctx.run({"k": "reduce", "pts": c})
        return
    k, f = p["kind"], D.MAPS[p["map"]]
    if k == "core":
        for c in D.cores((1, 2, 3), [p["map"]]):
            ctx.run({"k": "reduce", "pts": c})
            ctx.run({"k": "reduce", "pts": c[::-1]})
    elif k == "lat":
        for i, c in enumerate(D.lattice(p["order"])):
            if i % p["n"] == p["i"]:
                ctx.run({"k": "reduce", "pts": [f(q) for q in c]})
    elif k == "elev":
        for c in D.lattice(2):
            ctx.run({"k": "reduce", "pts": D.elevate([f(q) for q in c])})
    else:
        for o in (1, 2, 3):
            for i, c in enumerate(D.lattice(o)):
                if i % p["step"] == 0 or o < 3:
                    ctx.run({"k": "simple", "pts": [f(q) for q in c]})


def cross(o, a, b):
    return (float(a[0]) - float(o[0])) * (float(b[1]) - float(o[1])) - (float(a[1]) - float(o[1])) * (float(b[0]) - float(o[0]))


def handle_sides(pts):
    """Signed sines of the two handles of a cubic against its chord (0 for one that is on an end point, None when the chord vanishes)."""
    o, e = pts[0], pts[-1]
    out = []
    for p in pts[1:-1]:
        if tuple(p) in (tuple(o), tuple(e)) and tuple(o) != tuple(e):
            out.append(0)
            continue
        n = math.hypot(float(e[0] - o[0]), float(e[1] - o[1])) * math.hypot(float(p[0] - o[0]), float(p[1] - o[1]))
        out.append(cross(o, e, p) / n if n else None)
    return out


def end_turn(pts):
    """Angle between the directions at the two ends (radians), None for a single point."""
    a, b = ref.end_direction(pts, 0), ref.end_direction(pts, 1)
    if a is None or b is None:
        return None
    (ax, ay), (bx, by) = a, b
    return abs(math.atan2(ax * by - ay * bx, ax * bx + ay * by))


def check_case(case, ctx):
    pts = D.pts(case["pts"])
    if case["k"] == "simple":
        return check_simple(pts, ctx)
    lo, hi = ref.inner_speed(pts)
    if ref.extent(pts) <= 1e-9 * ref.size(pts):
        ctx.outcome("a single point (skipped)")
        return None
    cusp = lo < REG * hi
    size = ref.size(pts)
    b = Bezier(list(pts))
    got = b.reduce()
    if list(b.controlPoints) != pts:
        return "reduce changed the curve"
    if not got:
        if cusp:
            ctx.outcome("near-cusp, no reduction")
            return None
        return "reduce found no pieces"
    tol = 1e-8 * size
    tsame = 1e-12 * size
    if not ref.pnear(got[0].controlPoints[0], pts[0], tol) or not ref.pnear(got[-1].controlPoints[-1], pts[-1], tol):
        return f"pieces run from {got[0].controlPoints[0]} to {got[-1].controlPoints[-1]}, the curve from {pts[0]} to {pts[-1]}"
    for i, (p, q) in enumerate(zip(got, got[1:])):
        if not ref.pnear(p.controlPoints[-1], q.controlPoints[0], tol):
            return f"piece {i} ends at {p.controlPoints[-1]}, piece {i + 1} starts at {q.controlPoints[0]}"
    a = 0.0
    for i, p in enumerate(got):
        cp = list(p.controlPoints)
        if len(cp) != len(pts):
            return f"piece {i} has order {len(cp) - 1}, the curve {len(pts) - 1}"
        if cusp:
            # the parameters of a point next to a cusp are not determined, so only the place of the piece is checked
            for j in range(9):
                q = ref.bezf([(float(x), float(y)) for x, y in cp], j / 8)
                if ref.nearest_on_curve(pts, q, levels=4)[0] > 1e-7 * size:
                    return f"piece {i}, {cp}, is not on the curve at {q}"
            if ref.extent(cp) < 1e-6 * size:
                continue
        else:
            t = find_end(pts, a, cp, tol, i == len(got) - 1)
            if t is None:
                return f"piece {i}, {cp}, is not the part of the curve that starts at t = {a:.9g}"
            a = t
        turn = end_turn(cp)
        if turn is None or turn > math.pi / 3 + 1e-6:
            return f"piece {i}, {cp}, turns by {None if turn is None else math.degrees(turn)} degrees"
        if len(cp) == 4:
            s = handle_sides(cp)
            if None not in s and s[0] * s[1] < 0 and min(abs(s[0]), abs(s[1])) > 1e-5 and \
                    min(abs(s[0]), abs(s[1])) * math.hypot(cp[3][0] - cp[0][0], cp[3][1] - cp[0][1]) > 1e-6 * size:
                return f"piece {i}, {cp}, has handles on both sides of its chord"
    if cusp:
        for j in range(33):
            q = ref.bezf([(float(x), float(y)) for x, y in pts], j / 32)
            if min(ref.nearest_on_curve(list(p.controlPoints), q, levels=4)[0] for p in got) > 1e-7 * size:
                return f"no piece passes the point {q} at t = {j / 32}"
        ctx.outcome("with a cusp")
    elif abs(a - 1) > 1e-6:
        return f"the pieces end at t = {a}, not 1"
    if len(got) > 1:
        ctx.nontriv()
    ctx.outcome(f"order {len(pts) - 1}: {min(len(got), 12)} pieces")
    return None


def find_end(pts, a, cp, tol, last):
    """The parameter b > a such that cp are the control points of the curve over [a, b]; None if there is none."""
    fp = [(float(x), float(y)) for x, y in pts]

    def matches(b, slack):
        w = subf(fp, a, b)
        return all(ref.pnear(u, v, tol * slack) for u, v in zip(w, cp))
    if last:
        return 1.0 if matches(1.0, 100) else None
    # the first handle is as long as the piece is, in parameters
    dx, dy = ref.bezf([(float(x), float(y)) for x, y in ref.dpts(pts)], a)
    v = dx * dx + dy * dy
    if v:
        b = a + (len(fp) - 1) * ((cp[1][0] - cp[0][0]) * dx + (cp[1][1] - cp[0][1]) * dy) / v
        if a < b <= 1 + 1e-9 and matches(b, 10):
            return b
    e = cp[-1]
    n = 256
    s = []
    for i in range(n + 1):
        x, y = ref.bezf(fp, i / n) if len(fp) > 2 else (fp[0][0] + (fp[1][0] - fp[0][0]) * i / n, fp[0][1] + (fp[1][1] - fp[0][1]) * i / n)
        s.append(math.hypot(x - float(e[0]), y - float(e[1])))

    def d(t):
        x, y = ref.bezf(fp, t)
        return math.hypot(x - float(e[0]), y - float(e[1]))
    L = max(math.hypot(float(x), float(y)) for x, y in ref.dpts(pts))
    for i in range(n + 1):
        if s[i] <= L / n and (i == 0 or s[i] <= s[i - 1]) and (i == n or s[i] <= s[i + 1]):
            u, v = max(0, i - 1) / n, min(n, i + 1) / n
            for _ in range(60):
                m1, m2 = u + (v - u) * 0.382, u + (v - u) * 0.618
                if d(m1) <= d(m2):
                    v = m2
                else:
                    u = m1
            b = (u + v) / 2
            if b > a and matches(b, 100):
                return b
    return None


def subf(pts, a, b):
    """Float blossom restriction to [a, b]."""
    n = len(pts) - 1
    out = []
    for k in range(n + 1):
        q = pts
        for u in [b] * k + [a] * (n - k):
            q = [(p[0] + u * (r[0] - p[0]), p[1] + u * (r[1] - p[1])) for p, r in zip(q, q[1:])]
        out.append(q[0])
    return out


def check_simple(pts, ctx):
    turn = end_turn(pts)
    if turn is None:
        ctx.outcome("no direction at an end (skipped)")
        return None
    got = bool(Bezier(list(pts)).simple())
    sides = handle_sides(pts) if len(pts) == 4 else [0]
    if None in sides:
        ctx.outcome("closed (skipped)")
        return None
    if abs(turn - math.pi / 3) < 1e-6:
        ctx.outcome("exactly 60 degrees (undecided)")
        return None
    scurve = len(pts) == 4 and sides[0] * sides[1] < 0
    if len(pts) == 4 and any(abs(x) < 1e-5 and type(x) is not int for x in sides):
        ctx.outcome("handle on the chord (undecided)")
        return None
    ctx.nontriv()
    want = turn < math.pi / 3 and not scurve
    ctx.outcome(f"simple={want}")
    if got != want:
        return f"simple() is {got}, but the ends differ by {math.degrees(turn):.3f} degrees and the handles are on {'both sides' if scurve else 'one side'}"
    return None
