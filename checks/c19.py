"""C19: bounds rectangles form the expected algebra - all rectangles of coordinate grids, all pairs (thorough: triples), closure under the operations."""
import re
from itertools import product
from math import inf
from PathLib.PathUtilities import BoundsRectangle

ID, LEVEL = "C19", "model_checking"
RULE = ("every rectangle of a grid (degenerate ones included) and the empty one, at several magnitudes; every pair and operation, every point of a finer "
        "grid; closure of the one-point rectangles under union and intersection searched to a fixpoint; every point list up to length 4, longer ones (to 140 points) with the extremes at every position; "
        "non-trivial = neither argument is empty")

GRIDS = {
    "int": ((-3, 0, 2, 7), (-5, -1, 4, 9)), "float": ((-0.3, 0.1, 2.5, 7.75), (-5.5, -1e-3, 0.2, 9.125)), "far": ((40000, 40010, 50000, 10**6), (-90000, -70000, -40000, -33000)),
    "huge": ((-1e300, -1e18, 3e20, 1e299), (-2e200, 0.0, 1e-300, 5e250)), "pos": ((1, 2, 3, 4), (5, 6, 7, 8)), "neg": ((-9, -8, -7, -5), (-4, -3, -2, -1)),
    "fine": ((0.1, 0.1 + 1e-12, 0.1 + 2e-7, 1 / 3), (-1 / 7, -1 / 7 + 1e-13, 0.2, 0.2 + 3e-7)),
    "beyond": ((33000, 33001, 70000, 1e5), (40000, 50000, 60000, 1e9)), "below": ((-1e9, -1e5, -70000, -33000), (-1e6, -50000, -45000, -40000)),
}
PCT = (0, 1, 0.5, 0.25, 1 / 3, 0.9, -0.5, 2)


def rects(g):
    xs, ys = GRIDS[g]
    return [(l, b, r, t) for l in xs for r in xs if l <= r for b in ys for t in ys if b <= t]


def shards(tier):
    out = [(f"pair-{g}-{i}", {"k": "pair", "g": g, "i": i, "of": 2}) for g in GRIDS for i in range(2)]
    out += [(f"pts-{g}", {"k": "pts", "g": g, "n": 4 if tier == "quick" else 5}) for g in GRIDS]
    out += [(f"clo-{g}", {"k": "clo", "g": g}) for g in GRIDS]
    if tier != "quick":
        out += [(f"tri-{g}-{i}", {"k": "tri", "g": g, "i": i}) for g in ("int", "far", "huge") for i in range(10)]
    return out


def explore(p, ctx):
    g = p["g"]
    if p["k"] == "pair":
        rs = rects(g) + [None]
        for n, a in enumerate(rs):
            if n % p["of"] == p["i"]:
                ctx.run({"k": "one", "a": a, "g": g})
                for b in rs:
                    ctx.run({"k": "two", "a": a, "b": b})
                    ctx.transitions += 1
                    ctx.traces += 1
        ctx.states += len(rs)
    elif p["k"] == "pts":
        xs, ys = GRIDS[g]
        pts = [(x, y) for x in (xs[3], xs[0], xs[1]) for y in (ys[2], ys[0], ys[3])]
        for n in range(p["n"] + 1):
            for c in product(pts, repeat=n):
                ctx.run({"k": "pts", "p": c})
                ctx.traces += 1
        # longer lists, with the extremes at every position
        for n in list(range(5, 24)) + [50, 140]:
            base = [(pts[0][0] + (xs[2] - xs[1]) / 64 * (i * 5 % 7), pts[0][1] + (ys[2] - ys[1]) / 64 * (i * 3 % 11)) for i in range(n)]
            for i in range(n):
                for e in ((xs[0], ys[2]), (xs[3], ys[2]), (xs[2], ys[0]), (xs[2], ys[3])):
                    ctx.run({"k": "pts", "p": base[:i] + [e] + base[i + 1:]})
                    ctx.traces += 1
    elif p["k"] == "tri":
        rs = rects(g)
        for a in rs[p["i"]::10]:
            for b in rs:
                for c in rs:
                    ctx.run({"k": "tri", "a": a, "b": b, "c": c})
                    ctx.traces += 1
    else:
        ctx.run({"k": "clo", "g": g})
        ctx.states += ctx.n[0]
        ctx.transitions += ctx.n[1]
        ctx.traces += ctx.n[1]


def make(a, how=0):
    """A rectangle from its sides (two opposite corners, in any order), None = the empty one."""
    if a is None:
        return BoundsRectangle()
    l, b, r, t = a
    return BoundsRectangle(*[((l, b), (r, t)), ((r, t), (l, b)), ((l, t), (r, b)), ((r, b), (l, t), (l, b))][how % 4])


def sides(r):
    return (r.left, r.bottom, r.right, r.top)


def empty(r):
    return r.left > r.right or r.bottom > r.top


def is_(r, want, what):
    """r is the rectangle with these sides (None: empty)."""
    if want is None:
        return None if empty(r) else f"{what} is {sides(r)}, it should be empty"
    if sides(r) != tuple(want):
        return f"{what} is {sides(r)}, it should be {tuple(want)}"
    return None


def hull(*rs):
    rs = [r for r in rs if r is not None]
    return (min(r[0] for r in rs), min(r[1] for r in rs), max(r[2] for r in rs), max(r[3] for r in rs)) if rs else None


def common(a, b):
    if a is None or b is None:
        return None
    c = (max(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), min(a[3], b[3]))
    return c if c[0] <= c[2] and c[1] <= c[3] else None


def inside(p, a):
    return a is not None and a[0] <= p[0] <= a[2] and a[1] <= p[1] <= a[3]


def close(a, b, scale):
    return a == b or abs(a - b) <= 1e-12 * max(scale, abs(a), abs(b))


def check_case(case, ctx):
    k = case["k"]
    tup = lambda a: None if a is None else tuple(a)
    if k == "pts":
        pts = [tuple(p) for p in case["p"]]
        want = hull(*[(x, y, x, y) for x, y in pts])
        ctx.outcome(f"{len(pts)} points")
        if pts:
            ctx.nontriv()
        r = is_(BoundsRectangle(*pts), want, f"the rectangle of {pts}")
        segs = [[list(p) for p in pts[:2]], [list(p) for p in pts[2:]]] if len(pts) > 1 else [pts] if pts else []
        r = r or is_(BoundsRectangle.fromContour(segs), want, f"fromContour({segs})")
        r = r or is_(BoundsRectangle.fromContour(segs[::-1]), want, f"fromContour({segs[::-1]})")
        cons = [[s] for s in segs] + [[]]
        r = r or is_(BoundsRectangle.fromCoutours(cons), want, f"fromCoutours({cons})")
        r = r or is_(BoundsRectangle.fromCoutours([segs]), want, f"fromCoutours({[segs]})")
        if len(pts) > 4:
            segs = [pts[i:i + 2 + i % 3] for i in range(len(pts) - 1)]
            cons = [segs[i:i + 1 + i % 2] for i in range(len(segs))]
            r = r or is_(BoundsRectangle.fromContour(segs), want, f"fromContour({segs})") or is_(BoundsRectangle.fromCoutours(cons), want, f"fromCoutours({cons})")
            r = r or is_(BoundsRectangle.fromCoutours(cons[::-1]), want, f"fromCoutours({cons[::-1]})")
        return r
    if k == "one":
        return one(tup(case["a"]), GRIDS[case["g"]], ctx)
    if k == "two":
        return two(tup(case["a"]), tup(case["b"]), ctx)
    if k == "tri":
        a, b, c = tup(case["a"]), tup(case["b"]), tup(case["c"])
        A, B, C = make(a), make(b, 1), make(c, 2)
        ctx.nontriv()
        ctx.outcome("triple")
        r = is_(A.union(B).union(C), hull(a, b, c), "(A u B) u C") or is_(A.union(B.union(C)), hull(a, b, c), "A u (B u C)")
        if r:
            return r
        w = common(common(a, b), c)
        i = A.intersection(B)
        i = i.intersection(C) if i else None
        if (i is None) != (w is None) or i and sides(i) != w:
            return f"the intersection of {a}, {b}, {c} is {i and sides(i)}, not {w}"
        return None
    return closure(case, ctx)


def one(a, grid, ctx):
    A = make(a)
    for how in range(4):
        r = is_(make(a, how), a, f"the rectangle of {a}")
        if r:
            return r
    xs, ys = grid
    px = sorted(set(xs) | {(x + y) / 2 for x, y in zip(xs, xs[1:])} | {xs[0] - abs(xs[0]) - 1, xs[3] + abs(xs[3]) + 1})
    py = sorted(set(ys) | {(x + y) / 2 for x, y in zip(ys, ys[1:])} | {ys[0] - abs(ys[0]) - 1, ys[3] + abs(ys[3]) + 1})
    for x in px:
        for y in py:
            if bool(A.enclosesPoint((x, y))) != inside((x, y), a):
                return f"{a} encloses {(x, y)}: {A.enclosesPoint((x, y))}"
    if a is None:
        ctx.outcome("empty")
        return None
    ctx.nontriv()
    ctx.outcome("one rectangle")
    l, b, r, t = a
    for x in px:
        if bool(A.crossesX(x)) != (l <= x <= r):
            return f"{a}.crossesX({x}) is {A.crossesX(x)}"
    for y in py:
        if bool(A.crossesY(y)) != (b <= y <= t):
            return f"{a}.crossesY({y}) is {A.crossesY(y)}"
    w, h = r - l, t - b
    sx, sy = max(abs(l), abs(r)), max(abs(b), abs(t))
    if A.width != w or A.height != h or A.area != w * h:
        return f"{a}: width {A.width}, height {A.height}, area {A.area}"
    if [tuple(p) for p in A.diagonal] != [(l, b), (r, t)] or tuple(A.points) != a:
        return f"{a}: diagonal {A.diagonal}, points {A.points}"
    c = A.centerPoint
    if not close(c[0], l / 2 + r / 2, sx) or not close(c[1], b / 2 + t / 2, sy):
        return f"{a}: centre {c}"
    con = [[tuple(p) for p in s] for s in A.contour]
    if len(con) != 4 or any(len(s) != 2 for s in con) or any(s[1] != n[0] for s, n in zip(con, con[1:] + con[:1])):
        return f"{a}: the contour {con} is not a closed contour of four lines"
    corners = [(l, b), (l, t), (r, t), (r, b)]
    got = [s[0] for s in con]
    if not any(got == v[i:] + v[:i] for v in (corners, corners[::-1]) for i in range(4)):
        return f"{a}: the contour {con} does not go round the corners"
    for p in PCT:
        if not close(A.yFromBottom(p), b + h * p, sy + abs(h * p)) or not close(A.xFromLeft(p), l + w * p, sx + abs(w * p)):
            return f"{a}: {p} of the way is {A.xFromLeft(p)}, {A.yFromBottom(p)}"
    if [float(x) for x in re.findall(r"[-+0-9.][-+0-9.e]*", str(A))] != [float(v) for v in a]:
        return f"{a} is printed as {A}"
    if sides(A) != a:
        return f"queries changed {a} to {sides(A)}"
    return None


def two(a, b, ctx):
    A, B = make(a), make(b, 3)
    r = is_(A.union(B), hull(a, b), f"the union of {a} and {b}")
    if a is None and b is None:
        # what comes of two empty ones is as neutral
        for c in ((-1.7e308, -1.7e308, -1.6e308, -1.6e308), (1.6e308, 1.6e308, 1.7e308, 1.7e308), (0, 0, 0, 0)):
            r = r or is_(A.union(B).union(make(c)), c, f"the union of {c} and two empty ones") or is_(make(c).union(A.union(B)), c, f"the union of {c} and two empty ones")
    if r:
        return r
    i, w = A.intersection(B), common(a, b)
    if (i is None) != (w is None) or i is not None and sides(i) != w:
        return f"the intersection of {a} and {b} is {i and sides(i)}, not {w}"
    if a is not None and b is not None:
        ctx.nontriv()
        enc = inside(b[:2], a) and inside(b[2:], a)
        den = inside(a[:2], b) and inside(a[2:], b)
        if bool(A.encloses(B)) != enc:
            return f"{a} encloses {b}: {A.encloses(B)}"
        rel = A.relationTo(B)
        names = {BoundsRectangle.relationEncloses: "encloses", BoundsRectangle.relationEnclosed: "enclosed",
                 BoundsRectangle.relationIntersects: "intersects", BoundsRectangle.relationSeparate: "separate"}
        if len(names) != 4:
            return f"the relations are not distinct: {names}"
        ok = {n for n, c in (("encloses", enc), ("enclosed", den)) if c} or {"intersects" if w else "separate"}
        if names.get(rel) not in ok:
            return f"the relation of {a} to {b} is {names.get(rel, rel)}, not {ok}"
        ctx.outcome(names[rel])
    else:
        ctx.outcome("with the empty one")
    if is_(A, a, "") or is_(B, b, ""):
        return f"an operation changed its argument: {a} -> {sides(A)}, {b} -> {sides(B)}"
    return None


def closure(case, ctx):
    """All rectangles reachable from one-point ones by union and intersection: results of operations are themselves operands."""
    xs, ys = GRIDS[case["g"]]
    xs, ys = xs[:3], ys[1:]
    known = {None: BoundsRectangle()}
    todo = [(x, y, x, y) for x in xs for y in ys]
    for a in todo:
        known[a] = BoundsRectangle(a[:2])
    done = [None]
    n = 0
    while todo:
        a = todo.pop()
        for b in done + [a]:
            for x, y in ((a, b), (b, a)):
                n += 2
                u, i = known[x].union(known[y]), known[x].intersection(known[y])
                w, c = hull(x, y), common(x, y)
                p = is_(u, w, f"the union of {x} and {y} (made by operations)")
                if p:
                    return p
                if (i is None) != (c is None) or i is not None and sides(i) != c:
                    return f"the intersection of {x} and {y} (made by operations) is {i and sides(i)}, not {c}"
                for k, v in ((w, u), (c, i)):
                    if k is not None and k not in known:
                        known[k] = v
                        todo.append(k)
        done.append(a)
    for k, v in known.items():
        p = is_(v, k, "a rectangle used as an operand")
        if p:
            return p
    want = sum(1 for i in range(3) for _ in range(i, 3)) ** 2 + 1
    if len(known) != want:
        return f"{len(known)} rectangles were reached, not {want}"
    ctx.n = (len(known), n)
    ctx.nontriv()
    ctx.outcome("closure")
    return None
