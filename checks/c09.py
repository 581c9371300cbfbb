"""C09: curve-curve and self intersections, sound and complete against independently isolated crossings."""
import math
from mc import domains as D, ref
from PathLib.Bezier import Bezier

ID, LEVEL = "C09", "exploration"
RULE = ("all ordered pairs of core curves (orders 1-3) under placements of the second, lattice curves against fixed probes, several "
        "thresholds; all lattice and core cubics for self-intersection; non-trivial = at least one decided crossing")

PLACE = {
    "same": lambda p: p,
    "a": lambda p: (p[0] * 0.9 + 7.3, p[1] * 0.9 + 5.1),
    "b": lambda p: (-p[1] + 93.7, p[0] - 11.3),
    "c": lambda p: (p[0] * 0.6 - p[1] * 0.8 + 41.9, p[0] * 0.8 + p[1] * 0.6 - 20.6),
    "d": lambda p: (90.3 - p[0] * 0.5, 70.7 - p[1] * 0.5),
    "e": lambda p: (p[0] * 2 - 60.1, p[1] * 0.3 + 30.9),
}
PROBES = [((-3, 12.5), (60, 20.25)), ((5.5, -10), (30.25, 60)), ((-5, 30), (20, -25), (50, 31)), ((-4, 3), (70, 5), (-20, 33), (48, 22.5)),
          ((22.25, -6), (2, 20), (44, 21), (13, 44))]
SCALE = {"1": 1.0, "0.01": 0.01, "10": 10.0}


def curves(o):
    return [c for c in D.CORE[o] if len(set(map(tuple, c))) > 1]


def shards(tier):
    q = tier == "quick"
    out = []
    for pl in (("a", "b", "c") if q else ("a", "b", "c", "d", "e", "same")):
        for o in (1, 2, 3):
            for i in range(1 if o < 2 else 3):
                out.append((f"pairs-{pl}-{o}-{i}", {"kind": "pairs", "place": pl, "o": o, "i": i, "n": 1 if o < 2 else 3}))
    out += [(f"thr-{t}", {"kind": "thr", "thr": t}) for t in (0.05, 2.0, 0.002, 8)]
    out += [(f"many-{i}", {"kind": "many", "i": i, "n": 4}) for i in range(4)]
    out += [(f"self-tilt-{i}", {"kind": "selftilt", "i": i, "n": 4, "step": 3 if q else 1}) for i in range(4)]
    out += [(f"self-late-{i}", {"kind": "selflate", "i": i, "n": 4, "fine": not q}) for i in range(4)]
    out += [(f"scale-{s}", {"kind": "scale", "scale": s}) for s in ("0.01", "10")]
    # thresholds below the rounding errors of the coordinates
    out += [(f"fine-{i}", {"kind": "fine", "i": i, "n": 4, "step": 4 if q else 1}) for i in range(4)]
    n = 16
    out += [(f"lat2-{i}", {"kind": "lat", "o": 2, "i": i, "n": 8 * (6 if q else 1)}) for i in range(8)]
    out += [(f"lat3-{i}", {"kind": "lat", "o": 3, "i": i * (12 if q else 3), "n": n * (12 if q else 3)}) for i in range(n)]
    out += [(f"self-core-{m}", {"kind": "selfcore", "map": m}) for m in ("id", "float", "negx", "rot30", "third", "neg")]
    out += [(f"self-lat-{i}", {"kind": "selflat", "i": i, "n": n * (4 if q else 1)}) for i in range(n)]
    return out


def explore(p, ctx):
    k = p["kind"]
    if k == "pairs":
        f = PLACE[p["place"]]
        for a in curves(p["o"])[p["i"]::p["n"]]:
            for o in (1, 2, 3):
                for b in curves(o):
                    if (p["o"], o) != (1, 1) and not (p["place"] == "same" and a == b):
                        ctx.run({"k": "pair", "a": a, "b": [f(q) for q in b], "thr": None})
    elif k == "thr":
        f = PLACE["b"]
        for a in curves(2)[::3] + curves(3)[::3]:
            for b in curves(2)[1::3] + curves(3)[1::3]:
                ctx.run({"k": "pair", "a": a, "b": [f(q) for q in b], "thr": p["thr"]})
    elif k == "many":
        # pairs with up to nine crossings
        waves = [((0, 0), (w, h), (100 - w, -h), (100, 0)) for w in (20, 60, 110) for h in (90, 150, 400)]
        waves += [((0, -50 * k), (100 / 3 + j, 250 * k), (200 / 3 - j, -250 * k), (100, 50 * k)) for k in (0.8, 1.15, 1.6) for j in (0, 9)]
        turned = [[(50 + c * (x - 50) - s * y, s * (x - 50) + c * y) for x, y in wv] for wv in waves for c, s in ((0, 1), (0.6, 0.8), (0, -1))]
        for i, (a, b) in enumerate((a, b) for a in waves for b in turned):
            if i % p["n"] == p["i"]:
                ctx.run({"k": "pair", "a": a, "b": b, "thr": None})
                ctx.run({"k": "pair", "a": b[::-1], "b": a, "thr": 0.1})
    elif k == "selftilt":
        # loops of all sizes and directions
        for i, (u, v, h, w, m) in enumerate((u, v, h, w, m) for u in (105, 130, 200, 400) for v in (-3, -60, -250) for h in (40, 90, 300)
                                            for w in (70, 100, 240) for m in ("id", "rot200", "swap")):
            if i % p["n"] == p["i"] and (i // p["n"]) % p["step"] == 0:
                ctx.run({"k": "self", "a": [D.MAPS[m](q) for q in ((0, 0), (u, h), (v, w), (100, 5))], "thr": None})
    elif k == "selflate":
        # loops that come after many pieces, and are followed by many
        L = (-80, -30, 0, 35, 70, 110, 160)
        for i, (u, h, v, w) in enumerate((u, h, v, w) for u in (L if p["fine"] else L[::2]) for h in (30, 90, 200) for v in (L if p["fine"] else (0, 35, 70, 110)) for w in (-60, 30, 90, 200)):
            if i % p["n"] == p["i"]:
                c = [(0, 0), (u, h), (v, w), (90, 0)]
                if ref.self_crossing(c):
                    ctx.run({"k": "self", "a": c, "thr": None})
                    ctx.run({"k": "self", "a": c[::-1], "thr": None})
    elif k == "fine":
        f = PLACE["c"]
        cs = [(a, [f(q) for q in b], s, thr) for a in curves(1) + curves(2)[::2] + curves(3)[::2] for b in curves(2)[1::3] + curves(3)[1::3]
              for s, thr in ((1.0, 0.0), (1.0, 1e-13), (1e17, None), (1e-3, 0), (1e30, 10))]
        for a, b, s, thr in cs[p["i"]::p["n"]][::p["step"]]:
            ctx.run({"k": "pair", "a": [(x * s, y * s) for x, y in a], "b": [(x * s, y * s) for x, y in b], "thr": thr})
    elif k == "scale":
        s = SCALE[p["scale"]]
        f = PLACE["c"]
        for a in curves(2)[::2] + curves(3)[::2]:
            for b in curves(2)[::3] + curves(3)[::3]:
                ctx.run({"k": "pair", "a": [(x * s, y * s) for x, y in a], "b": [(x * s, y * s) for x, y in map(f, b)], "thr": 0.5 * s})
    elif k == "lat":
        for i, c in enumerate(D.lattice(p["o"])):
            if i % p["n"] == p["i"]:
                if len(set(map(tuple, c))) > 1:
                    for b in PROBES:
                        ctx.run({"k": "pair", "a": c, "b": b, "thr": None})
                        ctx.run({"k": "pair", "a": b, "b": c, "thr": None})
    elif k == "selfcore":
        f = D.MAPS[p["map"]]
        for o in (1, 2, 3):
            for c in D.CORE[o]:
                for thr in (None, 0.1):
                    ctx.run({"k": "self", "a": [f(q) for q in c], "thr": thr})
    else:
        for i, c in enumerate(D.lattice(3)):
            if i % p["n"] == p["i"]:
                ctx.run({"k": "self", "a": c, "thr": None})


def at(pts, t):
    return tuple(map(float, ref.bez(pts, t))) if len(pts) == 2 else ref.bezf(pts, t)


def check_case(case, ctx):
    a = D.pts(case["a"])
    thr = case["thr"]
    args = () if thr is None else (thr,)
    th = 0.5 if thr is None else thr
    if case["k"] == "self":
        return check_self(a, args, th, ctx)
    b = D.pts(case["b"])
    th = max(th, 1e-12 * max(ref.size(a), ref.size(b)))
    want = ref.crossings(a, b)
    if want is None:
        ctx.outcome("curves run along each other (skipped)")
        return None
    got = Bezier(list(a)).intersects(Bezier(list(b)), *args)
    for t1, t2 in got:
        if not (-1e-9 <= t1 <= 1 + 1e-9 and -1e-9 <= t2 <= 1 + 1e-9):
            return f"reported parameters ({t1}, {t2}) are outside [0, 1]"
        p, q = at(a, float(t1)), at(b, float(t2))
        if math.hypot(p[0] - q[0], p[1] - q[1]) > th * 1.5:
            return f"reported pair ({t1}, {t2}) is at {p} and {q}, further apart than the threshold {th}"
    dec = 0
    for t1, t2, x, sin in want:
        if sin < 0.1 or min(t1, t2) < 0.01 or max(t1, t2) > 0.99:
            continue
        dec += 1
        if not any(math.hypot(at(a, float(u))[0] - x[0], at(a, float(u))[1] - x[1]) <= 2 * th and
                   math.hypot(at(b, float(v))[0] - x[0], at(b, float(v))[1] - x[1]) <= 2 * th for u, v in got):
            return f"the curves cross at {x} (t1 = {t1:.6f}, t2 = {t2:.6f}), but only {got[:6]} are reported"
    if dec:
        ctx.nontriv()
    ctx.outcome(f"{len(a) - 1}x{len(b) - 1}: {min(dec, 10)} crossings")
    ov = bool(Bezier(list(a)).overlaps(Bezier(list(b))))
    if want and not ov:
        return "the curves have common points, but overlaps() is False"
    if ov and separated(a, b):
        return "overlaps() is True, but the bounding boxes are disjoint"
    if not want:
        # far apart curves report nothing
        if separated(a, b) and got:
            return f"the boxes of the control points are disjoint, but {got[:4]} are reported"
    return None


def separated(a, b):
    (x0, x1), (y0, y1) = ref.bbox(a)
    (u0, u1), (v0, v1) = ref.bbox(b)
    m = 1e-6 * max(ref.size(a), ref.size(b))
    return x0 > u1 + m or u0 > x1 + m or y0 > v1 + m or v0 > y1 + m


def check_self(a, args, th, ctx):
    lo, hi = ref.inner_speed(a)
    if hi == 0:
        ctx.outcome("a single point (skipped)")
        return None
    got = Bezier(list(a)).intersects(None, *args)
    if got != Bezier(list(a)).selfIntersects(*args):
        return "intersects(None) and selfIntersects() disagree"
    for t1, t2 in got:
        if not (-1e-9 <= t1 <= 1 + 1e-9 and -1e-9 <= t2 <= 1 + 1e-9):
            return f"reported parameters ({t1}, {t2}) are outside [0, 1]"
        if abs(t1 - t2) < 1e-4:
            return f"reported pair ({t1}, {t2}) is one point, not a self-intersection"
        p, q = at(a, float(t1)), at(a, float(t2))
        if math.hypot(p[0] - q[0], p[1] - q[1]) > th * 1.5:
            return f"reported pair ({t1}, {t2}) is at {p} and {q}, further apart than the threshold {th}"
    loop = ref.self_crossing(a) if len(a) == 4 else None
    if loop and 0.01 <= loop[0] and loop[1] <= 0.99:
        if not got:
            # a very small loop (turning inside one threshold) may be missed
            e = ref.extent([tuple(map(float, p)) for p in ref.sub(a, ref.F(loop[0]), ref.F(loop[1]))])
            if e > 4 * th:
                return f"the curve crosses itself at t = {loop}, but nothing is reported"
            ctx.outcome("loop below the threshold")
            return None
        x = at(a, loop[0])
        if not any(math.hypot(at(a, float(u))[0] - x[0], at(a, float(u))[1] - x[1]) <= 2 * th and
                   math.hypot(at(a, float(v))[0] - x[0], at(a, float(v))[1] - x[1]) <= 2 * th for u, v in got):
            return f"the curve crosses itself at t = {loop}, but {got} are reported"
        ctx.nontriv()
        ctx.outcome("loop found")
    elif not loop or loop[0] < -0.01 or loop[1] > 1.01:
        if got and lo < 0.05 * hi:
            # the two sides of a near cusp are closer together than the threshold
            ctx.outcome("near cusp")
            return None
        if got:
            ctx.outcome("near miss")
            return f"the curve has no loop, but {got} are reported"
        ctx.outcome("no loop")
    return None
