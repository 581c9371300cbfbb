"""C18: transforms compose and act as the geometry they are named for - all compositions of named transforms to a depth bound."""
from fractions import Fraction as F
from math import cos, sin, pi, hypot
from itertools import product
from PathLib.Transform import Transform
from PathLib import PathUtilities as PU

ID, LEVEL = "C18", "model_checking"
RULE = ("every sequence of named transforms up to the depth bound (and alternations of two to length 12) x probe points, against applying exact point maps one after another; every named "
        "constructor x parameter alphabet x points; rotations by every whole and many fractional degrees; non-trivial = the result differs from the point")

PTS = [(0, 0), (1, 0), (0, 1), (3, -2), (-7.5, 0.25), (120, 333)]
CENTERS = [(0, 0), (5, 0), (0, -3), (2, 7), (-40.5, 13.25)]
ANGLES = [0, 90, 180, 270, 360, -90, 450, 30, 45, 60, -17.5, 123.4, 0.001]


def turn(p, deg, ccw=True, about=(0, 0)):
    d = F(deg) % 360
    if not ccw:
        d = -d % 360
    quad = {F(0): (1, 0), F(90): (0, 1), F(180): (-1, 0), F(270): (0, -1)}
    if d in quad:
        c, s = quad[d]
    else:
        c, s = F(cos(float(d) * pi / 180)), F(sin(float(d) * pi / 180))
    x, y = p[0] - about[0], p[1] - about[1]
    return (x * c - y * s + about[0], x * s + y * c + about[1])


def persp(p, a, b, about=(0, 0), s=1):
    x, y = p[0] - about[0], p[1] - about[1]
    w = x * a + y * b + s
    if abs(w) < F(1, 50):
        raise ZeroDivisionError
    return (x / w + about[0], y / w + about[1])


# name -> (constructor on the library, exact point map)
def gen(name):
    k, *a = name.split(" ")
    if any("=" in x for x in a) or len(a) < len(NAMED.get(k, ())):
        return by_name(k, a)
    a = [eval(x, {"__builtins__": {}}, {"F": False, "T": True}) for x in a]
    q = [tuple(F(v) for v in x) if isinstance(x, tuple) else x if isinstance(x, bool) else F(x) for x in a]
    T = Transform
    return {
        "translate": lambda: (T.translate(*a), lambda p: (p[0] + q[1][0] - q[0][0], p[1] + q[1][1] - q[0][1])),
        "scale": lambda: (T.scale(*a), lambda p: (p[0] * (q[0] if q else 1), p[1] * (q[1] if len(q) > 1 else 1))),
        "shear": lambda: (T.shear(*a), lambda p: (p[0] + (q[0] if q else 0) * p[1], p[1] + (q[1] if len(q) > 1 else 0) * p[0])),
        "mirror": lambda: (T.mirror(*a), lambda p: (-p[0] if q[1] else p[0], -p[1] if q[0] else p[1])),
        "rotation": lambda: (T.rotation(*a), lambda p: turn(p, q[0] if q else 90, q[1] if len(q) > 1 else True)),
        "perspective": lambda: (T.perspective(*a), lambda p: persp(p, q[0], q[1], s=q[2] if len(q) > 2 else 1)),
        "moveAndRotate": lambda: (T.moveAndRotate(*a), lambda p: turn((p[0] + q[1][0] - q[0][0], p[1] + q[1][1] - q[0][1]), q[2])),
        "rotateAndMove": lambda: (T.rotateAndMove(*a), lambda p: (lambda r: (r[0] + q[1][0] - q[0][0], r[1] + q[1][1] - q[0][1]))(turn(p, q[2]))),
        "rotationAbout": lambda: (T.rotationAbout(*a), lambda p: turn(p, q[1] if len(q) > 1 else 90, q[2] if len(q) > 2 else True, q[0])),
        "mirrorAround": lambda: (T.mirrorAround(*a), lambda p: (2 * q[0][0] - p[0] if q[2] else p[0], 2 * q[0][1] - p[1] if q[1] else p[1])),
        "perspectiveFrom": lambda: (T.perspectiveFrom(*a), lambda p: persp(p, q[1], q[2], q[0])),
        "matrix": lambda: (T(mat(a)), lambda p: general(p, mat(q))),
    }[k]()


# what an argument that is left out stands for
NAMED = {"scale": (("sx", 1), ("sy", 1)), "shear": (("sx", 0), ("sy", 0)), "mirror": (("xAxis", False), ("yAxis", False)),
         "perspective": (("p", 0), ("q", 0), ("s", 1)), "rotation": (("degrees", 90), ("ccw", True)),
         "mirrorAround": (("centerPoint", None), ("xAxis", False), ("yAxis", False)), "perspectiveFrom": (("centerPoint", None), ("p", 0), ("q", 0)),
         "rotationAbout": (("about", None), ("degrees", 90), ("ccw", True))}


def by_name(k, a):
    """A constructor with arguments left out or given by name: the one with all of them."""
    val = lambda x: eval(x, {"__builtins__": {}}, {"F": False, "T": True})
    given = [val(x) for x in a if "=" not in x]
    kw = {x.split("=")[0]: val(x.split("=")[1]) for x in a if "=" in x}
    full = {n: d for n, d in NAMED[k]}
    full.update(zip((n for n, d in NAMED[k]), given))
    full.update(kw)
    show = lambda v: "FT"[v] if isinstance(v, bool) else repr(v).replace(" ", "")
    return getattr(Transform, k)(*given, **kw), gen(" ".join([k] + [show(full[n]) for n, d in NAMED[k]]))[1]


def mat(v):
    return [[v[0], v[1], v[2]], [v[3], v[4], v[5]], [v[6], v[7], v[8]]]


def general(p, m):
    x, y, w = (p[0] * m[0][i] + p[1] * m[1][i] + m[2][i] for i in range(3))
    if abs(w) < F(1, 50):
        raise ZeroDivisionError
    return (x / w, y / w)


GENS = ["translate (0,0) (3,-5)", "translate (10,4.5) (-2,4.5)", "scale 2 0.5", "scale -1 3", "shear 0.5 0", "shear 0 -0.25", "shear 2 3", "mirror T F",
        "mirror F T", "mirror T T", "rotation 90 T", "rotation 90 F", "rotation 30 T", "rotation 45 F", "rotation 180", "moveAndRotate (1,2) (4,-4) 90",
        "rotateAndMove (1,2) (4,-4) 90", "rotateAndMove (0,0) (7,1) -30", "rotationAbout (5,3) 90 T", "rotationAbout (-2,8.5) 60 F",
        "mirrorAround (4,9) T F", "mirrorAround (4,9) F T", "mirrorAround (3,-6) T T", "perspective 0.01 0", "perspective 0 -0.002",
        "perspectiveFrom (10,20) 0.001 0.003", "scale 0.5", "mirror F F", "perspective 0 0 2",
        "perspective 0.01 -0.003 0.5", "matrix 2 0.5 0 -1 3 0 7 -4 1", "matrix 1 2 0.001 3 -1 -0.002 5 0 1", "matrix 1 0 0 0 1 0 0 0 -4"]


def singles():
    out = []
    pts = ["(0,0)", "(5,0)", "(0,-3)", "(2,7)", "(-40.5,13.25)"]
    for a, b in product(pts, pts):
        out.append(f"translate {a} {b}")
        for d in (0, 90, 30, -45):
            out += [f"moveAndRotate {a} {b} {d}", f"rotateAndMove {a} {b} {d}"]
    for a, b in product((0, 1, -1, 2, 0.5, -3.25, 10), repeat=2):
        out += [f"scale {a} {b}", f"shear {a} {b}"]
        out += [f"perspective {a / 1000} {b / 1000}"]
        out += [f"perspectiveFrom {c} {a / 1000} {b / 1000}" for c in pts]
    for a in (0, 2, -1.5):
        out += [f"scale {a}", f"shear {a}"]
    out += ["scale", "shear", "rotation"]
    for a, b in product("TF", repeat=2):
        out.append(f"mirror {a} {b}")
        out += [f"mirrorAround {c} {a} {b}" for c in pts]
    for d in ANGLES:
        out.append(f"rotation {d}")
        for w in "TF":
            out.append(f"rotation {d} {w}")
            out += [f"rotationAbout {c} {d} {w}" for c in pts]
    out += [f"rotationAbout {c}" for c in pts]
    # arguments left out, and given by name, in every combination
    some = {"sx": (2, -0.5), "sy": (3, -1), "xAxis": "TF", "yAxis": "TF", "p": (0.01, -0.002), "q": (0.003, -0.004), "s": (2, 0.5), "degrees": (30, -90), "ccw": "TF"}
    for k, names in NAMED.items():
        for c in pts if names[0][1] is None else [None]:
            rest = [n for n, d in names if d is not None]
            for v in product(*[(None,) + tuple(some[n]) for n in rest]):
                head = [k] + ([c] if c else [])
                out.append(" ".join(head + [f"{n}={x}" for n, x in zip(rest, v) if x is not None]))
                lead = [str(x) for x in v[:v.index(None) if None in v else len(v)]]
                out.append(" ".join(head + lead))
            if c:
                out.append(" ".join([k] + [f"{n}={x}" for n, x in zip(rest[::-1], [some[n][0] for n in rest[::-1]])] + [f"{names[0][0]}={c}"]))
    # arguments with many digits, very small and very large ones
    many = ("1/3", "-2/7", "0.123456789", "1e-7", "-3e-9", "1234567.890625")
    for a, b in product(many, repeat=2):
        out += [f"scale {a} {b}", f"shear {a} {b}", f"translate ({a},{b}) (0,0)", f"translate (0,{b}) ({a},1/7)", f"moveAndRotate ({a},0) (0,{b}) 90"]
        if max(abs(eval(a)), abs(eval(b))) < 1e3:
            out += [f"perspective {a} {b}", f"perspective {a} {b} 4/3", f"perspectiveFrom (1/3,-2/7) {a} {b}"]
        out += [f"mirrorAround ({a},{b}) T F", f"mirrorAround ({a},{b}) T T", f"rotationAbout ({a},{b}) 37.123456789"]
    for a in ("1/3", "-200/7", "0.123456789", "1e-7", "89.9999999", "90.0000001", "180.00000001", "-359.9999999", "360.0000002", "719.99999"):
        out += [f"rotation {a}", f"rotation {a} F", f"rotationAbout (12.5,-3) {a}"]
    return list(dict.fromkeys(out))


def shards(tier):
    d = 3 if tier == "quick" else 4
    out = [("singles", {"k": "singles"})]
    out += [(f"angles-{i}", {"k": "angles", "i": i, "fine": tier != "quick"}) for i in range(4)]
    out += [(f"long-{i}", {"k": "long", "i": i, "n": 4}) for i in range(4)]
    out += [(f"seq-{i}", {"k": "seq", "first": i, "depth": d}) for i in range(len(GENS))]
    return out


def explore(p, ctx):
    if p["k"] == "singles":
        for s in singles():
            ctx.run({"seq": [s]})
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
    elif p["k"] == "angles":
        n = 4 if p["fine"] else 1
        for a in range(-400 * n + p["i"], 800 * n, 4):
            for w in (True, False):
                for c in CENTERS[:5 if p["fine"] else 3]:
                    ctx.run({"angle": a / n if a % n else a // n, "ccw": w, "about": c})
                    ctx.transitions += 1
                    ctx.traces += 1
        ctx.states += 1
    elif p["k"] == "long":
        # long compositions: two transforms in turn
        for i, g in enumerate(GENS):
            if i % p["n"] == p["i"]:
                for h in GENS:
                    for n in (5, 6, 8, 12):
                        ctx.run({"seq": ([g, h] * n)[:n]})
                        ctx.states += 1
                        ctx.transitions += 1
                        ctx.traces += 1
        # compositions of very many: one, and three in turn
        for i, g in enumerate(GENS):
            if i % p["n"] == p["i"]:
                for n in range(2, 61):
                    ctx.run({"seq": [g] * n})
                    ctx.run({"seq": ([g, GENS[(i * 5 + 3) % len(GENS)], GENS[(i * 7 + 1) % len(GENS)]] * n)[:n]})
                    ctx.states += 2
                    ctx.transitions += 2
                    ctx.traces += 2
        if p["i"] == 0:
            for n in range(1, 61):
                for s in ("rotation 30 T", "translate (0,0) (3,-5)", "matrix 2 0.5 0 -1 3 0 7 -4 1", "perspective 0.01 -0.003 0.5"):
                    ctx.run({"list": n, "seq": [s]})
    else:
        seen = set()
        todo = [[GENS[p["first"]]]]
        for d in range(p["depth"]):
            nxt = []
            for h in todo:
                ctx.run({"seq": h})
                seen.add(ctx.key)
                ctx.transitions += 1
                ctx.traces += 1
                if d + 1 < p["depth"]:
                    nxt += [h + [g] for g in GENS]
            todo = nxt
        ctx.states += len(seen)


def same(g, w):
    return len(g) == 2 and all(abs(F(a) - b) <= F(1, 10**9) * max(1, abs(b), *[abs(v) for v in w]) for a, b in zip(g, w))


MADE = {}


def made(name):
    if name not in MADE:
        MADE[name] = gen(name)
    return MADE[name]


def check_case(case, ctx):
    if "angle" in case:
        return angle(case, ctx)
    if "list" in case:
        return lists(case, ctx)
    names = case["seq"]
    gens = [made(n) for n in names]
    mats = [g[0].transform for g in gens]
    copy = [[list(r) for r in m] for m in mats]
    t = Transform(*mats)
    alt = Transform(Transform(*mats[:-1]).transform, mats[-1]) if len(mats) > 1 else t
    ctx.key = hash(tuple(round(float(v), 9) for r in t.transform for v in r))
    good = []
    for p in PTS if len(names) < 4 else PTS[2:5]:
        w = tuple(F(v) for v in p)
        try:
            for g in gens:
                w = g[1](w)
                if max(abs(w[0]), abs(w[1])) > 10**6:
                    raise ZeroDivisionError
        except ZeroDivisionError:
            ctx.outcome("through infinity")
            continue
        r = t.applyToPoint(p)
        if not same(r, w):
            return f"{names} takes {p} to {r}, not {tuple(map(float, w))}"
        if not same(alt.applyToPoint(p), w):
            return f"{names[:-1]} as one transform followed by {names[-1]} takes {p} to {alt.applyToPoint(p)}, not {tuple(map(float, w))}"
        if w != p:
            ctx.nontriv()
        ctx.outcome(names[-1].split(" ")[0])
        good.append((p, w))
    if not good:
        return None
    pts, want = [g[0] for g in good], [g[1] for g in good]
    seg, con = list(pts), [pts[:2], pts[1:], pts[::-1]]
    cons = [con, [pts], [], con[::-1], [list(s) for s in con], [pts, pts[:1], list(pts)]]
    before = repr((seg, con, cons))
    s, c, cs = t.applyToSegment(seg), t.applyToContour(con), t.applyToContours(cons)
    if before != repr((seg, con, cons)):
        return f"{names}: applying the transform changed its argument"
    if copy != mats or copy != [g[0].transform for g in gens]:
        return f"{names}: building or applying a transform changed a matrix it was built from"
    def flat(got, exp):
        if isinstance(exp, list):
            return len(got) == len(exp) and all(flat(a, b) for a, b in zip(got, exp))
        return same(got, exp)
    wc = [want[:2], want[1:], want[::-1]]
    if not flat(s, want):
        return f"{names}: applyToSegment gives {s}"
    if not flat(c, wc):
        return f"{names}: applyToContour gives {c}"
    if not flat(cs, [wc, [want], [], wc[::-1], wc, [want, want[:1], want]]):
        return f"{names}: applyToContours gives {cs}"
    return None


def lists(case, ctx):
    """Segments, contours and lists of contours of any length: each point moves, none is lost."""
    t, f = made(case["seq"][0])
    n = case["list"]
    pts = [(3 * i - 40, i * i % 17 - 5) for i in range(n)]
    try:
        want = [f(tuple(F(v) for v in p)) for p in pts]
    except ZeroDivisionError:
        return None
    ctx.nontriv()
    ctx.outcome("long lists")
    ok = lambda g, e: len(g) == len(e) and all(same(x, y) for x, y in zip(g, e))
    s = t.applyToSegment(pts)
    if not ok(s, want):
        return f"{case['seq']}: applyToSegment of {n} points gives {s}"
    con = [pts[i:i + 2] for i in range(n)]
    wcon = [want[i:i + 2] for i in range(n)]
    c = t.applyToContour(con)
    if len(c) != n or not all(ok(a, b) for a, b in zip(c, wcon)):
        return f"{case['seq']}: applyToContour of {n} segments gives {c}"
    cs = t.applyToContours([[q] for q in con])
    if len(cs) != n or not all(len(a) == 1 and ok(a[0], b) for a, b in zip(cs, wcon)):
        return f"{case['seq']}: applyToContours of {n} contours gives {cs}"
    return None


def angle(case, ctx):
    a, w, c = case["angle"], case["ccw"], tuple(case["about"])
    t = Transform.rotationAbout(c, a, w)
    back = Transform.rotationAbout(c, a, not w)
    neg = Transform.rotationAbout(c, -a, w)
    again = Transform(t.transform, back.transform)
    if not same(t.applyToPoint(c), tuple(F(v) for v in c)):
        return f"rotating about {c} by {a} moves it to {t.applyToPoint(c)}"
    for p in PTS:
        want = turn(tuple(F(v) for v in p), a, w, tuple(F(v) for v in c))
        r = t.applyToPoint(p)
        if not same(r, want):
            return f"rotating {p} about {c} by {a}, ccw={w}, gives {r}, not {tuple(map(float, want))}"
        if abs(hypot(r[0] - c[0], r[1] - c[1]) - hypot(p[0] - c[0], p[1] - c[1])) > 1e-9 * 400:
            return f"rotating {p} about {c} by {a} changes its distance from it"
        for x, n in ((back.applyToPoint(r), "the opposite direction"), (again.applyToPoint(p), "both at once")):
            if not same(x, tuple(F(v) for v in p)):
                return f"rotating {p} about {c} by {a} and back ({n}) gives {x}"
        if not same(neg.applyToPoint(p), turn(tuple(F(v) for v in p), -F(a), w, tuple(F(v) for v in c))):
            return f"rotating {p} about {c} by {-a} gives {neg.applyToPoint(p)}"
        if not same(PU.rotatePointAbout(p, c, a, w), want):
            return f"rotatePointAbout({p}, {c}, {a}, {w}) gives {PU.rotatePointAbout(p, c, a, w)}"
        if r != p:
            ctx.nontriv()
    if a == 90 and w:
        got = [PU.rotatePointAbout(PTS[3], c), PU.rotateSegmentAbout(PTS, c)[3], PU.rotateContourAbout([PTS], c)[0][3], PU.rotateContoursAbout([[PTS]], c)[0][0][3]]
        if any(not same(g, turn(tuple(F(v) for v in PTS[3]), 90, True, c)) for g in got):
            return f"the default rotation is not 90 degrees counter-clockwise: {got}"
    want = [turn(tuple(F(v) for v in p), a, w, tuple(F(v) for v in c)) for p in PTS]
    pts = list(PTS)
    s, k, kk = PU.rotateSegmentAbout(pts, c, a, w), PU.rotateContourAbout([pts, pts[:2]], c, a, w), PU.rotateContoursAbout([[pts], [pts[:2], pts]], c, a, w)
    ok = lambda g, e: len(g) == len(e) and all(same(x, y) for x, y in zip(g, e))
    if pts != PTS:
        return "rotating changed the segment"
    if not ok(s, want):
        return f"rotateSegmentAbout gives {s}"
    if len(k) != 2 or not ok(k[0], want) or not ok(k[1], want[:2]):
        return f"rotateContourAbout gives {k}"
    if len(kk) != 2 or len(kk[0]) != 1 or len(kk[1]) != 2 or not ok(kk[0][0], want) or not ok(kk[1][0], want[:2]) or not ok(kk[1][1], want):
        return f"rotateContoursAbout gives {kk}"
    ctx.outcome("rotation by any angle")
    return None
