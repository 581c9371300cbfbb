"""C12: order raising, alignment and the ABC construction keep the geometry."""
import math
from mc import domains as D, ref
from mc.ref import F
from PathLib.Bezier import Bezier

ID, LEVEL = "C12", "exploration"
RULE = ("coordinates of very different size (0 to 40000 in one curve) included; "
        "raise: every lattice polygon of order 1-3, every core polygon of order 1-6 under 17 maps, chained raises to order +3; align: every "
        "lattice curve with its own chord and with every segment of a 16-point lattice; ABC: every lattice quadratic/cubic with distinct "
        "ends x 12 parameters; non-trivial = not all control points equal")
TS = [0.5, 0.25, 0.75, 0.1, 0.9, 1 / 3, 0.6, 0.01, 0.99, 1e-4, 0.42, 0.875, 0.9975, 0.0025, 0.9995, 1e-6]
SEGS = [((x, y), (u, v)) for x, y in ((0, 0), (-7, 20), (13.5, -4)) for u, v in ((10, 0), (-5, 30), (0, 0), (0.5, -9), (-7, 21), (13.5, 2), (13, -4), (100, 100), (-60, -80))
        if (x, y) != (u, v)]


def shards(tier):
    q = tier == "quick"
    out = [(f"raise-{m}", {"kind": "raise", "map": m}) for m in D.MAPS]
    out += [(f"raise-lat{o}", {"kind": "rlat", "o": o, "step": 1}) for o in (1, 2, 3)]
    out += [(f"align-{m}", {"kind": "align", "map": m}) for m in D.MAPS]
    out += [(f"align-lat{o}", {"kind": "alat", "o": o, "step": 5 if o == 3 and q else 1}) for o in (1, 2, 3)]
    out += [(f"abc-{m}", {"kind": "abc", "map": m}) for m in D.MAPS]
    out += [(f"abc-lat{o}", {"kind": "abclat", "o": o, "step": 3 if o == 3 and q else 1}) for o in (2, 3)]
    out += D.steep_shards(tier)
    return out


def explore(p, ctx):
    if p["kind"] == "steep":
        # coordinates of very different size
        for c in D.steep_part(p):
            ctx.run({"k": "align", "pts": c, "segs": "own"})
            ctx.run({"k": "abc", "pts": c, "ts": 4})
            ctx.run({"k": "raise", "pts": c, "n": 2})
        return
    k = p["kind"]
    if k == "raise":
        for c in D.cores((1, 2, 3, 4, 5, 6), [p["map"]]):
            ctx.run({"k": "raise", "pts": c, "n": 3})
    elif k == "rlat":
        for c in D.lattice(p["o"]):
            ctx.run({"k": "raise", "pts": c, "n": 1})
    elif k == "align":
        for c in D.cores((1, 2, 3), [p["map"]]):
            ctx.run({"k": "align", "pts": c, "segs": "all"})
    elif k == "alat":
        for i, c in enumerate(D.lattice(p["o"])):
            if i % p["step"] == 0:
                ctx.run({"k": "align", "pts": c, "segs": "own"})
    elif k == "abc":
        for c in D.cores((2, 3), [p["map"]]):
            ctx.run({"k": "abc", "pts": c, "ts": 16})
    else:
        for i, c in enumerate(D.lattice(p["o"])):
            if i % p["step"] == 0:
                ctx.run({"k": "abc", "pts": c, "ts": 4})


def check_case(case, ctx):
    pts = D.pts(case["pts"])
    size = ref.size(pts)
    if len(set(pts)) > 1:
        ctx.nontriv()
    if case["k"] == "raise":
        b = Bezier(list(pts))
        for k in range(case["n"]):
            r = b.raiseOrder()
            n = len(b.controlPoints)
            if len(r.controlPoints) != n + 1 or r.order != n:
                return f"raising order {n - 1} gave order {len(r.controlPoints) - 1}"
            for i in range(n + 3):
                t = F(i, n + 2)
                if not ref.pnear(ref.bez(r.controlPoints, t), ref.bez(pts, t), 1e-11 * size):
                    return f"raise {k + 1}: at t = {t} the raised curve {list(r.controlPoints)} is at {tuple(map(float, ref.bez(r.controlPoints, t)))}, the curve at {tuple(map(float, ref.bez(pts, t)))}"
            for t in (0.5, 0.125, 0.9):
                if not ref.pnear(r.get(t), ref.bez(pts, t), 1e-11 * size):
                    return f"raise {k + 1}: get({t}) of the raised curve is wrong"
            if list(b.controlPoints) != (pts if k == 0 else list(b.controlPoints)):
                return "raiseOrder changed the curve"
            b = r
        ctx.outcome(f"raise order {len(pts) - 1}")
        return None
    if case["k"] == "align":
        segs = [None] + (SEGS if case["segs"] == "all" else [])
        for s in segs:
            if s is None:
                a, e = pts[0], pts[-1]
            else:
                a, e = s
            dx, dy = float(F(e[0]) - F(a[0])), float(F(e[1]) - F(a[1]))
            L = math.hypot(dx, dy)
            if L == 0:
                continue
            g = Bezier(list(pts)).align() if s is None else Bezier(list(pts)).align([tuple(a), tuple(e)])
            gp = list(g.controlPoints)
            if len(gp) != len(pts):
                return f"align changed the number of control points"
            c, sn = dx / L, dy / L
            tol = 1e-9 * max(size, ref.size([a, e]))
            for p, q in zip(pts, gp):
                ux, uy = float(F(p[0]) - F(a[0])), float(F(p[1]) - F(a[1]))
                w = (ux * c + uy * sn, -ux * sn + uy * c)
                if not ref.pnear(q, w, tol):
                    return f"align({s}): control point {p} went to {q}, not {w}"
        ctx.outcome("align")
        return None
    # ABC
    a0, a1 = pts[0], pts[-1]
    L = math.hypot(float(F(a1[0]) - F(a0[0])), float(F(a1[1]) - F(a0[1])))
    if L == 0:
        ctx.outcome("closed curve (skipped)")
        return None
    n = len(pts) - 1
    for t in [0, 1] + TS[:case["ts"]]:
        A, B, C, ratio, hull = Bezier(list(pts)).getABC(t)
        lev = ref.casteljau(pts, t)
        wb = lev[-1][0]
        wa = lev[1][1] if n == 3 else lev[0][1]
        tt, s = F(t), 1 - F(t)
        u = s ** n / (s ** n + tt ** n)
        wc = (u * F(a0[0]) + (1 - u) * F(a1[0]), u * F(a0[1]) + (1 - u) * F(a1[1]))
        wr = float(abs((tt ** n + s ** n - 1) / (tt ** n + s ** n)))
        tol = 1e-9 * size
        if not ref.pnear(B, wb, tol):
            return f"t = {t}: B is {B}, the point of the curve is {tuple(map(float, wb))}"
        if not ref.pnear(A, wa, tol):
            return f"t = {t}: A is {A}, not {tuple(map(float, wa))}"
        if not abs(ratio - wr) <= 1e-9 * max(1, wr):
            return f"t = {t}: ratio is {ratio}, not {wr}"
        flat = [p for l in lev for p in l]
        if len(hull) != len(flat) or any(not ref.pnear(p, q, tol) for p, q in zip(hull, flat)):
            return f"t = {t}: the hull is wrong"
        # C is where AB meets the chord: undefined when AB is parallel to (or on) the chord
        abx, aby = wb[0] - wa[0], wb[1] - wa[1]
        cr = abs(float(abx * (F(a1[1]) - F(a0[1])) - aby * (F(a1[0]) - F(a0[0])))) / L
        if cr < 1e-6 * size:
            ctx.outcome("A, B along the chord (C undefined)")
            continue
        if C is None or not ref.pnear(C, wc, 1e-9 * size * max(1.0, size / cr)):
            return f"t = {t}: C is {C}, not {tuple(map(float, wc))}"
        ab = math.hypot(B[0] - A[0], B[1] - A[1])
        bc = math.hypot(C[0] - B[0], C[1] - B[1])
        if abs(bc - ratio * ab) > 1e-8 * size * max(1.0, size / cr) * max(1, ratio):
            return f"t = {t}: |BC| = {bc} is not ratio {ratio} times |AB| = {ab}"
        ctx.outcome("ABC")
    return None
