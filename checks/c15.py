"""C15: the closest point on a contour is on it and nearly optimal - exhaustive over contours x query points x table sizes."""
from math import hypot
from mc import domains as D, ref
from PathLib.Bezier import BContour

ID, LEVEL = "C15", "exploration"
RULE = ("every listed contour of 1-4, 9 and 12 curves (open, closed, with joints of all kinds) x every query point of a grid, of points on the contour and "
        "of points beside it x table sizes 2-600; non-trivial = the nearest table entry is not the first point of the contour")

S = {
    "l": [(0, 0), (100, 0)], "L": [(100, 0), (100, 120)], "q": [(0, 0), (60, 90), (100, 0)], "Q": [(100, 0), (190, 10), (100, 120)],
    "c": [(0, 0), (20, 80), (90, 70), (100, 0)], "C": [(100, 0), (250, 20), (-20, 70), (100, 120)], "R": [(100, 120), (60, 160), (20, 90), (0, 60)],
    "T": [(0, 60), (0, 0)], "U": [(100, 120), (0, 0)], "t": [(0, 60), (-40, 30), (0, 0)], "o": [(0, 0), (150, 10), (20, 160), (0, 0)],
    "s": [(0, 0), (33, 100), (66, -100), (100, 0)],
}
CONTOURS = ["l", "q", "c", "s", "o", "lL", "qQ", "cC", "lC", "qL", "cLU", "lQU", "sQR", "qLRT", "cCRt", "lQRt", "sLRT"]
# a ring of twelve curves, and an open zigzag of nine
RING = [(0, 0), (60, -40), (130, -50), (200, 0), (240, 70), (230, 150), (170, 200), (100, 210), (30, 190), (-30, 150), (-60, 90), (-40, 40)]
ZIG = [(0, 0), (50, 90), (70, -20), (120, 60), (90, 130), (180, 150), (200, 20), (260, 140), (230, 200), (10, 220)]
for _n, (_a, _l) in enumerate(((chr(0x100), RING + RING[:1]), (chr(0x200), ZIG))):
    for _i, (_p, _q) in enumerate(zip(_l, _l[1:])):
        _h = (_i + _n) % 3
        S[chr(ord(_a) + _i)] = [_p] + [(_p[0] + (_q[0] - _p[0]) * k / (_h + 1) + 9 * k, _p[1] + (_q[1] - _p[1]) * k / (_h + 1) - 14 * (2 * k - 3)) for k in range(1, _h + 1)] + [_q]
CONTOURS += ["".join(chr(0x100 + i) for i in range(12)), "".join(chr(0x200 + i) for i in range(9))]
SIZES = {"quick": (2, 3, 5, 10, 26, 100, 300), "thorough": (2, 3, 4, 5, 6, 8, 10, 13, 20, 26, 50, 63, 100, 251, 300, 512, 600)}
FAR = [[70000, 20000], [-50000, -41000], [1000000, 3000000], [3, -33000], [40, 9000]]
MAPS = {"id": lambda p: p, "turn": D.rot(200), "micro": D.MAPS["micro"], "astro": D.MAPS["astro"], "font": D.MAPS["font"], "float": lambda p: (p[0] * 0.37 + 3.3, p[1] * 0.41 - 7.7)}


def shards(tier):
    maps = ["id", "turn", "micro", "astro"] if tier == "quick" else list(MAPS)
    out = [(f"{c if c.isascii() else ('ring' if c[0] < chr(0x200) else 'zigzag')}-{m}", {"c": c, "m": m, "tier": tier, "grid": 6 if tier == "quick" else 12}) for m in maps for c in CONTOURS]
    return out


def explore(p, ctx):
    g = p["grid"] if p["c"].isascii() else p["grid"] // 2
    step, lo = 240 / (g - 1), -60
    sizes = SIZES[p["tier"]]
    if p["m"] != "id" and p["tier"] == "quick":
        sizes = (3, 10, 100)
    for n in sizes:
        for i in range(g):
            for j in range(g):
                ctx.run({"c": p["c"], "m": p["m"], "p": [round(lo + i * step, 3), round(lo + j * step, 3)], "n": n})
        for q in FAR:
            ctx.run({"c": p["c"], "m": p["m"], "p": q, "n": n})
        for k in range(len(p["c"])):
            for t in (0, 0.004, 0.05, 0.31, 0.5, 0.77, 0.96, 0.997, 1):
                for off in (0, 3, -9):
                    ctx.run({"c": p["c"], "m": p["m"], "on": [k, t, off], "n": n})


def window(pts, p, a, b):
    """Smallest distance over [a, b] if the distance has a single valley there, else None."""
    m = 48
    v = []
    for i in range(m + 1):
        x, y = ref.bezf(pts, a + (b - a) * i / m)
        v.append(hypot(x - p[0], y - p[1]))
    k = min(range(m + 1), key=lambda i: v[i])
    if any(v[i] <= v[i + 1] + 1e-9 for i in range(k)):
        return None
    if any(v[i] >= v[i + 1] - 1e-9 for i in range(k, m)):
        return None
    return v[k]


def check_case(case, ctx):
    f, n = MAPS[case["m"]], case["n"]
    segs = [[tuple(float(v) for v in f(q)) for q in S[s]] for s in case["c"]]
    for a, b in zip(segs, segs[1:]):
        b[0] = a[-1]
    if S[case["c"][0]][0] == S[case["c"][-1]][-1]:
        segs[-1][-1] = segs[0][0]
    closed = segs[-1][-1] == segs[0][0]
    fl = [[(float(x), float(y)) for x, y in s] for s in segs]
    if "p" in case:
        p = f(tuple(case["p"]))
    else:
        k, t, off = case["on"]
        x, y = ref.bezf(fl[k], t)
        dx, dy = (float(v) for v in ref.derivative(fl[k], t))
        h = hypot(dx, dy) or 1
        p = (x - off * dy / h, y + off * dx / h)
    bc = BContour([list(s) for s in segs])
    d, q = bc.findClosestPoint(p, n)
    size = max(ref.size([p]), *[ref.size(s) for s in segs])
    tol = 1e-9 * max(1, size)
    if abs(hypot(q[0] - p[0], q[1] - p[1]) - d) > tol:
        return f"the distance of {q} is reported as {d}"
    # the table, independently
    tab = []
    for k, s in enumerate(fl):
        for i in range(n):
            if i or not k:
                x, y = ref.bezf(s, i / (n - 1))
                tab.append((hypot(x - p[0], y - p[1]), k, i))
    best = min(tab)[0]
    if d > best + tol:
        return f"distance {d}; the table of {n} steps has a point at {best}"
    near = [ref.nearest_on_curve(s, p) for s in fl]
    dmin = min(v[0] for v in near)
    if d < dmin - 1e-6 * max(1, size):
        return f"distance {d} is less than the true minimum {dmin}"
    L = max(max(hypot(float(x), float(y)) for x, y in ref.dpts(s)) for s in fl)
    if d > dmin + L / (2 * (n - 1)) + tol:
        return f"distance {d}, true minimum {dmin}, half the table spacing is at most {L / (2 * (n - 1))}"
    if min(ref.nearest_on_curve(s, q)[0] for s in fl) > 1e-7 * max(1, size):
        return f"{q} is not on the contour"
    # next to the nearest table entry the minimum is found to the resolution of the refinement
    need = []
    for v, k, i in tab:
        if v <= best + 1e-9 * max(1, size):
            w = [(k, max(0, i - 1), min(n - 1, i + 1))]
            if i == n - 1 and k + 1 < len(fl):
                w.append((k + 1, 0, 1))
            if i == 0 and k == 0 and closed:
                w.append((len(fl) - 1, n - 2, n - 1))
            if i == n - 1 and k == len(fl) - 1 and closed:
                w.append((0, 0, 1))
            ms = [window(fl[kk], p, a / (n - 1), b / (n - 1)) for kk, a, b in w]
            ms = [m for m in ms if m is not None]
            need.append(min(ms) if ms else None)
    first = tab[0][0] <= best + tol
    if not first:
        ctx.nontriv()
    if None in need:
        ctx.outcome("more than one valley next to the table entry")
        return None
    if len(need) > 1:
        ctx.outcome("several nearest table entries")
    else:
        ctx.outcome(f"one valley, n={n}")
    # (max(): any of the tied entries may be taken)
    if d > max(need) + 0.00125 * L + tol:
        return f"distance {d}, but next to the nearest table entry the contour comes as near as {max(need)} (largest speed {L})"
    return None
