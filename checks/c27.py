"""C27: the numeric helpers behind the curves - every argument tuple over finite alphabets against exact arithmetic."""
import math
from fractions import Fraction as F
from itertools import product
from mc import domains as D, ref
from PathLib import BezierUtilities as BU
from PathLib.Bezier import Bezier

ID, LEVEL = "C27", "exploration"
RULE = ("every argument tuple over finite alphabets (integers, dyadic and decimal fractions, sizes 1e-6 to 1e12, equal and opposite values, positions in "
        "and outside the unit interval); non-trivial = the answer is not the trivial one (no root, parallel lines, a list without duplicates)")

V = (-3, -1, 0, 1, 2, 5)
W = (-7.5, -2, -1, -0.1, 0, 1e-3, 0.3, 1, 4, 60)
SIZES = (1, 1e-14, 1e-6, 1e-3, 1e4, 1e9, 1e12)
TS = [F(i, 64) for i in range(65)] + [F(1, 10), F(1, 3), F(999, 1000), F(1, 10 ** 6), 1 - F(1, 10 ** 6)]
RS = [-2, -0.5, 0, 0.1, 0.25, 1 / 3, 0.5, 0.9, 1, 1.5, 10]


def shards(tier):
    q = tier == "quick"
    out = [(k, {"k": k}) for k in ("scalar", "ratio", "dup", "linear", "skeleton")]
    out += [(f"quad-{s}", {"k": "quad", "s": s, "al": (W if q else W + (-1e3, 0.7, 1e-5, 3.3, 250))}) for s in SIZES]
    out += [("quadi", {"k": "quad", "s": 1, "al": tuple(range(-9, 10) if q else range(-20, 21))}), ("near", {"k": "near"})]
    out += [(f"lerp-{i}", {"k": "lerp", "x": x}) for i, x in enumerate(W)]
    out += [(f"map-{i}", {"k": "map", "x": x}) for i, x in enumerate(W)]
    out += [(f"angle-{i}", {"k": "angle", "x": x, "al": (-3, -1, 0, 1, 2) if q else (-3, -1, 0, 1, 2, 5)}) for i, x in enumerate(V)]
    out += [(f"lli-{i}", {"k": "lli", "x": x, "al": (-1, 0, 2) if q else (-1, 0, 1, 3)}) for i, x in enumerate((-1, 0, 2, 0.5))]
    return out


def explore(p, ctx):
    k = p["k"]
    if k == "scalar":
        vals = sorted({s * v * 10.0 ** e for v in (1, 2, 3, 8, 27, 0.5, 7.3) for s in (1, -1) for e in range(-12, 16)} | {0.0}) + [0, 1, -1, 64, -27]
        for v in vals:
            ctx.run({"k": "cbrt", "v": v})
            ctx.run({"k": "sqrt", "v": v})
        near = (0, 5e-7, -5e-7, 9e-7, -9e-7, 1.1e-6, -1.1e-6, 1e-3, -1e-3, 1, -1)
        for a, e in product((-1, 0, 0.5, 1, 100, -3e4), near):
            ctx.run({"k": "approx", "a": a, "b": a + e, "p": None})
            for pr in (1e-9, 1e-3, 2):
                ctx.run({"k": "approx", "a": a, "b": a + e, "p": pr})
            for w in (0, 1, 10, 1e-3):
                for m in (a, a - w, a - 2 * w):
                    ctx.run({"k": "between", "v": a + e, "m": m, "M": m + w})
    elif k == "ratio":
        for t in TS:
            ctx.run({"k": "ratio", "t": float(t)})
        for i in range(1001):
            ctx.run({"k": "ratio", "t": i / 1000})
    elif k == "dup":
        for n in range(7):
            for l in product((1, 2.5, -0.25), repeat=n):
                ctx.run({"k": "dup", "l": list(l)})
        for n in range(5):
            for l in product(((0, 1), (0, 2), (1, 1), (0.0, 1.0)), repeat=n):
                ctx.run({"k": "dup", "l": [list(x) for x in l], "t": True})
        for n in range(7, 70):
            for m in (3, 5, 8, 13, 21, 34, 55, n):
                for k in (1, 2, 7):
                    ctx.run({"k": "dup", "l": [(i * k % m) / 4 for i in range(n)]})
                    ctx.run({"k": "dup", "l": [i * k // 2 % m for i in range(n)][::-1]})
                    ctx.run({"k": "dup", "l": [[i * k % m / 8, i % 3] for i in range(n)], "t": True})
        for n in range(5):
            for l in product((0.1, 0.1 + 1e-16, 0.10000000000000002, 0.1 + 1e-6, 0, -0.0), repeat=n):
                ctx.run({"k": "dup", "l": list(l)})
    elif k == "linear":
        for a, b in product(W, repeat=2):
            for s in SIZES:
                ctx.run({"k": "roots", "p": [a * s, b * s]})
        for n in (0, 1):
            ctx.run({"k": "roots", "p": [3] * n})
    elif k == "quad":
        for c in product(p["al"], repeat=3):
            ctx.run({"k": "roots", "p": [x * p["s"] for x in c]})
    elif k == "near":
        # nearly linear, and nearly double roots
        for e in range(1, 16):
            for s in (1, -1):
                h = s * 10.0 ** -e
                for a, c in ((1, -3), (-100, 40), (-2, 1), (5, 7), (3, 3)):
                    ctx.run({"k": "roots", "p": [a, (a + c) / 2 + h, c]})
                    ctx.run({"k": "roots", "p": [a, (a + c) / 2 * (1 + h), c]})
                for r in (0.25, 0.5, 0.75):
                    # (t - r)^2 + h
                    ctx.run({"k": "roots", "p": [r * r + h, r * r - r + h, (1 - r) ** 2 + h]})
    elif k == "skeleton":
        for n in (1, 2, 3):
            for c in D.CORE[n]:
                for m in ("id", "swap", "neg", "over", "rot30"):
                    ctx.run({"k": "skel", "p": [list(D.MAPS[m](q)) for q in c]})
    elif k == "lerp":
        for y, u, w in product((-2, 0, 0.3, 60), W, (-1, 4, 0.1)):
            for r in RS:
                ctx.run({"k": "lerp", "r": r, "a": [p["x"], y], "b": [u, w]})
    elif k == "map":
        for a, b, c, d in product((-2, 0, 0.25, 1, 30), (-1, 0.5, 1, 100), (0, -3, 0.2), (1, 7.5, -3)):
            if a != b:
                ctx.run({"k": "map", "v": p["x"], "r": [a, b, c, d]})
    elif k == "angle":
        al = p["al"]
        for y, a, b, c, d in product((-1, 0, 2.5), al, al, al, al):
            ctx.run({"k": "angle", "o": [p["x"], y], "a": [a, b], "b": [c, d]})
            if y == 0:
                for s in (2.0 ** -30, 2.0 ** -12, 2.0 ** 30):
                    ctx.run({"k": "angle", "o": [p["x"] * s, y], "a": [a * s, b * s], "b": [c * s, d * s]})
                if p["x"] == 0:
                    # one long ray, one short
                    ctx.run({"k": "angle", "o": [0, 0], "a": [a * 2.0 ** -30, b * 2.0 ** -30], "b": [c * 2.0 ** 20, d * 2.0 ** 20]})
    elif k == "lli":
        al = p["al"]
        for v in product(al, repeat=7):
            ctx.run({"k": "lli", "p": [p["x"]] + list(v)})
            if v[0] == al[0]:
                for s in (1e-5, 1e6):
                    ctx.run({"k": "lli", "p": [x * s for x in (p["x"],) + v]})


def close(got, want, rel=1e-12, scale=0):
    return abs(F(got) - F(want)) <= F(rel) * max(abs(F(want)), F(scale))


def check_case(case, ctx):
    k = case["k"]
    ctx.outcome(k)
    if k == "cbrt":
        v = case["v"]
        r = BU.crt(v)
        ctx.nontriv()
        return None if close(F(r) ** 3, v, 1e-13) and (r > 0) == (v > 0) else f"the cube root of {v} is {r}"
    if k == "sqrt":
        v = case["v"]
        r = BU.sqrt(v)
        if v < 0:
            return None if r != r else f"the square root of {v} is {r}, not NaN"
        ctx.nontriv()
        return None if r >= 0 and close(F(r) ** 2, v, 1e-14) else f"the square root of {v} is {r}"
    if k == "approx":
        a, b, p = case["a"], case["b"], case["p"]
        got = BU.approximately(a, b) if p is None else BU.approximately(a, b, p)
        d, lim = abs(F(a) - F(b)), F(1e-6 if p is None else p)
        if abs(d - lim) <= lim * F(1e-6) + abs(F(a)) * F(1e-15):
            return None
        ctx.nontriv()
        return None if got == (d <= lim) and got == (BU.approximately(b, a) if p is None else BU.approximately(b, a, p)) else f"approximately({a}, {b}, {p}) is {got}"
    if k == "between":
        v, m, M = case["v"], case["m"], case["M"]
        got = BU.between(v, m, M)
        d = min(abs(F(v) - F(m)), abs(F(v) - F(M)))
        if m <= v <= M:
            want = True
        elif abs(d - F(1e-6)) <= F(1e-12) + abs(F(v)) * F(1e-15):
            return None
        else:
            want = d < F(1e-6)
        ctx.nontriv()
        return None if bool(got) == want else f"between({v}, {m}, {M}) is {got}"
    if k == "ratio":
        t = F(case["t"])
        ctx.nontriv()
        for name, f, n in (("quadratic", BU.quadraticRatio, 2), ("cubic", BU.cubicRatio, 3)):
            s = t ** n + (1 - t) ** n
            want = abs((s - 1) / s)
            got = f(case["t"])
            if not close(got, want, 1e-12, 1e-3):
                return f"the {name} ratio at {case['t']} is {got}, not {float(want)}"
        return None
    if k == "dup":
        l = [tuple(x) for x in case["l"]] if case.get("t") else list(case["l"])
        keep = list(l)
        want = []
        for x in l:
            if not any(x == y for y in want):
                want.append(x)
        got = BU.removeDuplicates(l)
        if l != keep:
            return f"{keep} was changed to {l}"
        if len(want) < len(l):
            ctx.nontriv()
        if got is l and want != l:
            return "the argument is returned"
        return None if list(got) == want and all(repr(a) == repr(b) for a, b in zip(got, want)) else f"{keep} without duplicates is {got}"
    if k == "roots":
        return roots_problem(case["p"], ctx)
    if k == "skel":
        pts = [tuple(p) for p in case["p"]]
        b = Bezier(list(pts))
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        got = b.skeletonBounds.points
        ctx.nontriv()
        if tuple(got) != (min(xs), min(ys), max(xs) + 40, max(ys)) or tuple(b.skeletonBounds.points) != tuple(got):
            return f"the bounds of the skeleton {pts} are {got}"
        return None
    if k == "lerp":
        r, a, b = case["r"], tuple(case["a"]), tuple(case["b"])
        got = BU.lerp(r, a, b)
        ctx.nontriv()
        want = [F(x) + F(r) * (F(y) - F(x)) for x, y in zip(a, b)]
        s = max(map(abs, a + b)) * max(1, abs(r))
        if len(got) != 2 or not all(close(g, w, 1e-14, s) for g, w in zip(got, want)):
            return f"lerp({r}, {a}, {b}) is {got}"
        return None if r != 0 or tuple(got) == a else f"lerp(0, {a}, {b}) is {got}"
    if k == "map":
        v, (a, b, c, d) = case["v"], case["r"]
        got = BU.map(v, a, b, c, d)
        ctx.nontriv()
        f = (F(v) - F(a)) / (F(b) - F(a))
        want = F(c) + (F(d) - F(c)) * f
        if not close(got, want, 1e-13, max(abs(c), abs(d), abs(f) * abs(F(d) - F(c)))):
            return f"map({v}, {a}, {b}, {c}, {d}) is {got}, not {float(want)}"
        return None
    if k == "angle":
        o, a, b = (tuple(case[x]) for x in "oab")
        got = BU.angle(o, a, b)
        u, w = (a[0] - o[0], a[1] - o[1]), (b[0] - o[0], b[1] - o[1])
        if u == (0, 0) or w == (0, 0):
            return None if got == 0 else f"the angle at {o} from {a} to {b} is {got}"
        ctx.nontriv()
        want = math.atan2(u[0] * w[1] - u[1] * w[0], u[0] * w[0] + u[1] * w[1])
        d = (got - want) % math.tau
        if min(d, math.tau - d) > 1e-12 or abs(got) > math.pi + 1e-12:
            return f"the angle at {o} from {a} to {b} is {got}, not {want}"
        return None
    if k == "lli":
        v = case["p"]
        p = [tuple(v[i:i + 2]) for i in (0, 2, 4, 6)]
        (x1, y1), (x2, y2), (x3, y3), (x4, y4) = [(F(x), F(y)) for x, y in p]
        d = (x1 - x2) * (y3 - y4) - (y1 - y2) * (x3 - x4)
        res = [BU.lli8(*v), BU.lli4(*p), BU.lli(p[:2], p[2:])]
        if any(r != res[0] for r in res):
            return f"lli8, lli4 and lli of {p} differ: {res}"
        s = F(max(map(abs, v)))
        if d == 0 and all(float(x) == int(x) for x in v):
            return None if res[0] is None else f"the parallel lines {p} meet in {res[0]}"
        if abs(d) <= s * s * F(1e-9):
            return None
        ctx.nontriv()
        if res[0] is None:
            return f"the lines {p} don't meet"
        a, b = x1 * y2 - y1 * x2, x3 * y4 - y3 * x4
        want = ((a * (x3 - x4) - (x1 - x2) * b) / d, (a * (y3 - y4) - (y1 - y2) * b) / d)
        c = s * s / abs(d)
        if not all(close(g, w, 1e-14 * float(max(1, c)) * 10, s) for g, w in zip(res[0], want)):
            return f"the lines {p} meet in {res[0]}, not {tuple(map(float, want))}"
        return None


def roots_problem(p, ctx):
    keep = list(p)
    got = list(BU.droots(p))
    if p != keep:
        return f"the argument {keep} was changed to {p}"
    q = [F(x) for x in p]
    if len(p) < 2:
        return None if got == [] else f"the roots of {p} are {got}"
    size = max(map(abs, q))
    if size == 0:
        return None if got == [] or all(g == 0 for g in got) else f"the roots of {p} are {got}"
    if len(p) == 2:
        if q[0] == q[1]:
            return None if got == [] else f"the roots of the constant {p} are {got}"
        want = q[0] / (q[0] - q[1])
        ctx.nontriv()
        return None if len(got) == 1 and close(got[0], want, 1e-13) else f"the root of {p} is {got}, not {float(want)}"
    a, b, c = q
    d = a - 2 * b + c
    disc = b * b - a * c
    real = [g for g in got if g == g and abs(g) != math.inf]
    # every real root reported is one
    for g in real:
        t = F(g)
        val = a * (1 - t) ** 2 + 2 * b * t * (1 - t) + c * t * t
        # backward error: rounding of the coefficients
        bound = (abs(a) * (1 - t) ** 2 + 2 * abs(b) * abs(t * (1 - t)) + abs(c) * t * t) + size * (1 + abs(t)) ** 2 * F(1e-3)
        if abs(val) > bound * F(1e-12):
            return f"{g} is reported as a root of {p}, whose value there is {float(val)}"
    if abs(disc) <= size * size * F(1e-12):
        if disc == 0 and d != 0 and all(x.denominator == 1 and abs(x) < 2 ** 25 for x in q):
            want = float((a - b) / d)
            ctx.nontriv()
            return None if real and all(ref.near(g, want, 1e-7 * max(1, abs(want))) for g in real) else f"the double root {want} of {p} is reported as {got}"
        return None
    if disc < 0:
        return None if not real else f"{p} has no real root, but {got} are reported"
    ctx.nontriv()
    # every root in a reasonable range is reported
    if d == 0:
        roots = [float(a / (2 * (a - b)))]
        if len(real) != 1 and all(x.denominator == 1 for x in q):
            return f"the linear polynomial {p} has the roots {got}"
    else:
        s = ref.rsqrt(disc)
        m = F(s)
        e = a - b
        roots = [(e + m) / d, (e - m) / d]
        # the one that cancels, from the product
        big = max(roots, key=abs)
        roots = [float(big), float(a / (d * big)) if big else 0.0]
    for r in roots:
        # (p' is +-2 sqrt(disc) there)
        tol = 1e-12 * (1 + abs(r)) + 1e-14 * float(size) * (1 + abs(r)) ** 2 / (2 * ref.rsqrt(disc) if d else float(abs(a - b)))
        if abs(r) <= 1e6 and not any(ref.near(g, r, tol) for g in real):
            return f"the root {r} of {p} is not reported: {got}"
    return None
