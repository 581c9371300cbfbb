"""C03: splitting. Transition system: state = sub-interval [a,b] of a curve held by the implementation as a Bezier object;
transition = split at one of SPLITS and keep either half, or split(t1, t2). Every reached state is compared with the exact
restriction of the original curve."""
from mc import domains as D, ref
from mc.ref import F
from PathLib.Bezier import Bezier

ID, LEVEL = "C03", "model_checking"
RULE = ("coordinates of very different size (0 to 40000 in one curve) included; "
        "breadth-first over split sequences (keep left / keep right / middle piece) to the depth bound from every listed curve (and repeated halving to depth 7, thorough 9); each "
        "state's piece compared with the exact restriction at its control points; non-trivial = curve not a single point")
SPLITS = [F(1, 2), F(1, 4), F(9, 10)]
PAIRS = [(F(1, 4), F(3, 4)), (0, F(1, 2)), (F(1, 2), 1), (F(1, 10), F(3, 10)), (0, 1), (F(1, 3), F(1, 3) + F(1, 100))]
FINE = [F(1, 10**6), F(1, 2000), F(1, 100), F(1, 3), F(49, 100), F(2, 3), F(99, 100), 1 - F(1, 2000), 1 - F(1, 10**6)]
ENDS = [(0, F(1, 10**6)), (F(1, 3), F(1, 3) + F(1, 10000)), (F(3, 5), F(7, 10)), (F(1, 100), F(99, 100)),
        (F(1, 2000), F(1, 2)), (F(1, 2), 1 - F(1, 2000)), (F(1, 1000), 1), (F(1, 10**6), 1 - F(1, 10**6)), (0, F(1, 2000)), (1 - F(1, 2000), 1)]

GRID = [F(0), F(1, 10**6), F(1, 2000), F(1, 100), F(1, 50), F(1, 10), F(1, 4), F(1, 3), F(49, 100), F(1, 2), F(2, 3), F(3, 4), F(9, 10), F(99, 100),
        F(199, 200), F(499, 500), 1 - F(1, 2000), 1 - F(1, 10**6), F(1)]


def shards(tier):
    out = [(f"core-{m}", {"kind": "core", "map": m, "depth": (3 if m in ("id", "rot30") else 2) + (tier != "quick")}) for m in D.MAPS]
    out += [(f"deep{o}", {"kind": "deep", "order": o, "depth": 7 if tier == "quick" else 9}) for o in (1, 2, 3)]
    out += [(f"lat{o}", {"kind": "lat", "order": o, "i": 0, "n": 1, "depth": 2 if tier == "quick" else 3}) for o in (1, 2)]
    n3 = 8 if tier == "quick" else 32
    out += [(f"lat3-{i}", {"kind": "lat", "order": 3, "i": i, "n": n3, "depth": 1 if tier == "quick" else 2}) for i in range(n3)]
    out += D.steep_shards(tier, 3)
    return out


def explore(p, ctx):
    if p["kind"] == "steep":
        # coordinates of very different size
        for c in D.steep_part(p):
            ctx.run({"pts": c, "depth": 1})
        return
    if p["kind"] == "deep":
        for c in D.CORE[p["order"]][2:5]:
            ctx.run({"pts": c, "depth": p["depth"], "deep": 1})
        return
    it = D.cores((1, 2, 3), [p["map"]]) if p["kind"] == "core" else D.lattice(p["order"])
    for k, c in enumerate(it):
        if p["kind"] == "core" or k % p["n"] == p["i"]:
            ctx.run({"pts": c, "depth": p["depth"], **({"grid": 1} if p["kind"] == "core" else {})})


def piece_problem(piece, pts, a, b, size, what):
    want = ref.sub(pts, a, b)
    got = piece.controlPoints
    if len(got) != len(want):
        return f"{what}: piece has {len(got)} control points, expected {len(want)}"
    for i, (g, w) in enumerate(zip(got, want)):
        if not ref.pnear(g, w, 1e-10 * size):
            return f"{what}: control point {i} is {g}, exact sub-curve [{float(a)}, {float(b)}] has {tuple(map(float, w))}"
    for s in (0, F(1, 3), 1):
        g, w = piece.get(float(s)), ref.bez(pts, a + (b - a) * s)
        if not ref.pnear(g, w, 1e-10 * size):
            return f"{what}: piece at {float(s)} is {g}, the curve there is {tuple(map(float, w))}"
    return None


def check_case(case, ctx):
    pts = D.pts(case["pts"])
    if len(set(pts)) > 1:
        ctx.nontriv()
    size = ref.size(pts)
    frontier = [((F(0), F(1)), [])]
    seen = {(F(0), F(1))}
    for depth in range(case["depth"]):
        nxt = []
        for (a, b), hist in frontier:
            # rebuild the live object by replaying its history on a fresh curve
            obj = replay(Bezier(list(pts)), hist)
            for t in [F(1, 2)] if case.get("deep") else SPLITS + ([F(0), F(1)] + FINE if depth == 0 else []):
                r = obj.split(float(t))
                if len(r) != 3:
                    return f"split({float(t)}) after {hist} returned {len(r)} values"
                left, right, hull = r
                m = a + (b - a) * t
                ctx.transitions += 1
                for which, piece, lo, hi in (("left", left, a, m), ("right", right, m, b)):
                    p = piece_problem(piece, pts, lo, hi, size, f"{which} of split({float(t)}) after {hist}")
                    if p:
                        return p
                    if lo < hi and t not in FINE and (lo, hi) not in seen:
                        seen.add((lo, hi))
                        nxt.append(((lo, hi), hist + [(which, float(t))]))
                want = [q for lv in ref.casteljau(ref.sub(pts, a, b), t) for q in lv]
                if len(hull) != len(want) or not all(ref.pnear(g, w, 1e-10 * size) for g, w in zip(hull, want)):
                    return f"split({float(t)}) after {hist}: reported hull {hull} is not the de Casteljau hull"
            grid = [(x, y) for x in GRID for y in GRID if x < y] if case.get("grid") and depth == 0 else []
            for t1, t2 in [] if case.get("deep") else (PAIRS + ENDS + grid) if depth < 2 else PAIRS:
                piece = obj.split(float(t1) if t1 else 0, float(t2) if t2 != 1 else 1)
                lo, hi = a + (b - a) * t1, a + (b - a) * t2
                ctx.transitions += 1
                p = piece_problem(piece, pts, lo, hi, size, f"split({float(t1)}, {float(t2)}) after {hist}")
                if p:
                    return p
                if (t1, t2) in PAIRS and (lo, hi) not in seen:
                    seen.add((lo, hi))
                    nxt.append(((lo, hi), hist + [("mid", float(t1), float(t2))]))
            if [tuple(q) for q in obj.controlPoints] != [tuple(q) for q in replay(Bezier(list(pts)), hist).controlPoints]:
                return f"splitting changed the curve it was applied to (after {hist})"
        frontier = nxt
    ctx.states += len(seen)
    ctx.traces += len(seen)
    ctx.outcome(f"order {len(pts) - 1}")
    return None


def replay(obj, hist):
    for h in hist:
        if h[0] == "left":
            obj = obj.split(h[1])[0]
        elif h[0] == "right":
            obj = obj.split(h[1])[1]
        else:
            obj = obj.split(0 if h[1] == 0 else h[1], 1 if h[2] == 1 else h[2])
    return obj
