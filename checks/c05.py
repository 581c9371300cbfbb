"""C05: extrema = exact turning/inflection parameters; up/down classification."""
from fractions import Fraction as F
from itertools import product
from mc import domains as D, ref
from PathLib.Bezier import Bezier

ID, LEVEL = "C05", "exploration"
RULE = ("every line/quadratic/cubic over the lattices, core shapes under 20 affine maps, quadratics written as cubics; two-sided match with "
        "exact roots; non-trivial = at least one decided root in (0,1)")


def shards(tier):
    q = tier == "quick"
    out = [(f"core-{m}", {"kind": "core", "map": m}) for m in D.MAPS]
    out += [(f"lat{o}", {"kind": "lat", "order": o, "i": 0, "n": 1, "lat": "9"}) for o in (1, 2)]
    n3 = 6 if q else 32
    out += [(f"lat3-{i}", {"kind": "lat", "order": 3, "i": i, "n": n3, "lat": "9" if q else "16"}) for i in range(n3)]
    out += [(f"elev-{m}", {"kind": "elev", "map": m}) for m in ("id", "tenth", "rot30", "over")]
    out += [(f"flat-{o}", {"kind": "flat", "order": o}) for o in (1, 2, 3)]
    out += D.steep_shards(tier)
    return out


def explore(p, ctx):
    if p["kind"] == "steep":
        # coordinates of very different size
        for c in D.steep_part(p):
            ctx.run({"pts": c})
        return
    if p["kind"] == "flat":
        # curves that hardly rise or fall
        for ys in product((0, 1e-12, -1e-12, 2e-13, 1e-8, 50), repeat=p["order"] + 1):
            for y in (0, 2.0 ** -40 + 3e-12):
                ctx.run({"pts": list(zip((0, 30, 20, 90), [y + v for v in ys]))})
                ctx.run({"pts": list(zip((0.5, 30, 20, -90), [1e3 * (y + v) for v in ys]))})
        return
    f = D.MAPS[p.get("map", "id")]
    if p["kind"] == "core":
        for c in D.cores((1, 2, 3), [p["map"]]):
            ctx.run({"pts": c})
            ctx.run({"pts": c[::-1]})
    elif p["kind"] == "lat":
        for i, c in enumerate(D.lattice(p["order"], D.LAT9 if p["lat"] == "9" else D.LAT16)):
            if i % p["n"] == p["i"]:
                ctx.run({"pts": c})
    else:
        for c in D.lattice(2):
            ctx.run({"pts": D.elevate([f(q) for q in c])})


def check_case(case, ctx):
    pts = D.pts(case["pts"])
    order = len(pts) - 1
    size = ref.size(pts)
    b = Bezier(list(pts))
    ex = {k: list(v) for k, v in b.extrema.items()}
    if sorted(ex) != [0, 1, 2]:
        return f"extrema has keys {sorted(ex)}"
    for d in (0, 1):
        for t in ex[d]:
            if not (0 <= t <= 1):
                return f"axis {d}: reported extremum {t!r} is outside [0, 1]"
        d1 = ref.deriv(ref.power(ref.axis(pts, d)))
        polys = [d1] + ([ref.deriv(d1)] if order == 3 else [])
        scale = [max((abs(c) for c in q), default=0) for q in polys]
        if scale[0] <= 1e-9 * size:
            if scale[0] == 0 and ex[d]:
                return f"axis {d} is constant but extrema {ex[d]} are reported"
            continue                      # constant up to rounding: not decidable in floating point
        want = []
        for q, s in zip(polys, scale):
            r = ref.roots_lin_quad(q)
            dq = ref.deriv(q)
            for t, kind in r or []:
                # decidable: simple root, away from 0 and 1 and from ill-conditioning
                slope = abs(float(ref.pval(dq, F(t))))
                if kind == "simple" and 1e-6 < t < 1 - 1e-6 and slope * 1e-6 > 1e-11 * size:
                    want.append(t)
        if all(isinstance(p[d], int) for p in pts) and order > 1:
            # a derivative that vanishes exactly at an end: decided in integers
            for t in (0, 1):
                if any(ref.pval(q, F(t)) == 0 and ref.pval(ref.deriv(q), F(t)) != 0 for q in polys):
                    want.append(t)
                    ctx.outcome("root at an end")
        for t in want:
            ctx.nontriv()
            if not any(abs(t - g) <= 1e-6 for g in ex[d]):
                return f"axis {d}: the derivative vanishes at {t} but the reported extrema are {ex[d]}"
        for g in ex[d]:
            res = min(abs(float(ref.pval(q, F(g)))) for q in polys)
            if res > 1e-8 * size:
                return f"axis {d}: reported extremum {g} is not a root of the first" + (" or second" if order == 3 else "") + " derivative"
        ctx.outcome(f"order {order}: {len(want)} decided roots")
        knots = [0.0] + sorted(float(g) for g in ex[d]) + [1.0]
        for u, v in zip(knots, knots[1:]):
            vals = [float(ref.bez(pts, F(u) + (F(v) - F(u)) * F(i, 6))[d]) for i in range(7)] if v > u else []
            up = any(y > x + 1e-9 * size for x, y in zip(vals, vals[1:]))
            dn = any(y < x - 1e-9 * size for x, y in zip(vals, vals[1:]))
            if up and dn:
                return f"axis {d}: not monotone between reported extrema {u} and {v}"
    union = sorted(set(ex[0] + ex[1]))
    comb = ex[2]
    if any(not x < y for x, y in zip(comb, comb[1:])):
        return f"combined extrema {comb} are not strictly increasing"
    if any(not any(abs(x - y) <= 1e-9 for y in comb) for x in union) or any(not any(abs(x - y) <= 1e-9 for y in union) for x in comb):
        return f"combined extrema {comb} are not the union of {ex[0]} and {ex[1]}"
    ys = [p[1] for p in pts]
    kinds = {Bezier.dir_up: "up", Bezier.dir_down: "down", Bezier.dir_flat: "flat", Bezier.dir_mixed: "mixed"}
    k = kinds.get(b.direction)
    vals = [ref.bez(pts, F(i, 24))[1] for i in range(25)]
    rises = any(y > x for x, y in zip(vals, vals[1:]))
    falls = any(y < x for x, y in zip(vals, vals[1:]))
    eps = 1e-9 * size
    if k == "up" and any(y < x - eps for x, y in zip(vals, vals[1:])) or k == "down" and any(y > x + eps for x, y in zip(vals, vals[1:])):
        return f"classified {k} but the curve also goes the other way"
    if order == 1 and k != ("flat" if ys[0] == ys[1] else "up" if ys[0] < ys[1] else "down"):
        return f"line classified {k}"
    if order > 1:
        up, dn = all(x <= y for x, y in zip(ys, ys[1:])), all(x >= y for x, y in zip(ys, ys[1:]))
        if up and not dn and k != "up" or dn and not up and k != "down":
            return f"control points {'rise' if up else 'fall'} monotonically but the curve is classified {k}"
        if k not in ("up", "down", "mixed") or k == "mixed" and (up or dn):
            return f"classified {k}"
    ctx.outcome(f"direction {k}")
    return None
