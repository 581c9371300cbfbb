"""C07: arc length vs adaptive reference, bracketing, additivity, decimal context, query order."""
import decimal
from decimal import Decimal
from mc import domains as D, ref
from PathLib.Bezier import Bezier

ID, LEVEL = "C07", "exploration"
RULE = ("every lattice and core line/quadratic/cubic (float, int and Decimal control points, 20 affine maps), pieces after splits, every "
        "context precision of the alphabet, failing inputs; non-trivial = positive length")
PRECS = (28, 10, 50)


def shards(tier):
    q = tier == "quick"
    out = [(f"core-{m}", {"kind": "core", "map": m}) for m in D.MAPS]
    out += [("decimal", {"kind": "decimal"}), ("fail", {"kind": "fail"}), ("order", {"kind": "order"})]
    out += [("lat1", {"kind": "lat", "order": 1, "i": 0, "n": 1}), ("lat2", {"kind": "lat", "order": 2, "i": 0, "n": 1})]
    n3, k = (6, 3) if q else (16, 1)
    out += [(f"lat3-{i}", {"kind": "lat", "order": 3, "i": i * k, "n": n3 * k}) for i in range(n3)]
    out += D.steep_shards(tier, 2)
    return out


def explore(p, ctx):
    if p["kind"] == "steep":
        # coordinates of very different size
        for c in D.steep_part(p):
            ctx.run({"k": "len", "pts": c, "prec": 28, "split": [0.3]})
        return
    k = p["kind"]
    if k == "core":
        for c in D.cores((1, 2, 3), [p["map"]]):
            ctx.run({"k": "len", "pts": c, "prec": 28, "split": [0.5, 0.25, 0.9]})
            ctx.run({"k": "len", "pts": c[::-1], "prec": 28, "split": []})
    elif k == "lat":
        for i, c in enumerate(D.lattice(p["order"])):
            if i % p["n"] == p["i"]:
                ctx.run({"k": "len", "pts": c, "prec": 28, "split": [0.3] if i % 7 == 0 else []})
    elif k == "decimal":
        for prec in PRECS:
            for m in ("id", "tenth", "rot30", "over"):
                for c in D.cores((1, 2, 3), [m]):
                    ctx.run({"k": "len", "pts": c, "prec": prec, "split": [0.5] if prec == 28 else []})
                    ctx.run({"k": "len", "pts": [[str(x) for x in q] for q in c], "prec": prec, "split": []})
        for rnd in ("ROUND_UP", "ROUND_DOWN", "ROUND_FLOOR", "ROUND_CEILING", "ROUND_HALF_DOWN", "ROUND_05UP"):
            for prec in (12, 28, 60):
                for c in D.cores((1, 2, 3), ["id"]):
                    ctx.run({"k": "len", "pts": c, "prec": prec, "rounding": rnd, "split": []})
    elif k == "fail":
        inf, nan = "inf", "nan"
        for bad in (inf, nan):
            for o in (2, 3):
                for i in range(o + 1):
                    for d in (0, 1):
                        ctx.run({"k": "fail", "pts": D.CORE[o][0], "i": i, "d": d, "bad": bad})
        for o in (1, 2, 3):
            for c in D.CORE[o]:
                ctx.run({"k": "trap", "pts": c})
    elif k == "order":
        # all orders of asking three curves (lengths interleaved), twice each
        from itertools import permutations
        cs = [D.CORE[1][2], D.CORE[2][0], D.CORE[3][0], D.CORE[3][2]]
        for perm in permutations([0, 1, 2, 3, 0, 2]):
            ctx.run({"k": "order", "curves": cs, "seq": list(perm)})


def ctxkey():
    c = decimal.getcontext()
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted((k.__name__, v) for k, v in c.traps.items())))


def tolerance(pts, prec):
    rho = ref.gauss_rho(pts)
    return max(1e-10, 0.5 * rho ** -48 if rho < 1e3 else 0.0, 20 * 10.0 ** -prec)


def length_problem(b, pts, prec, what):
    L = b.length
    R = ref.arclen(pts)
    poly = sum(ref.hypot(float(v[0]) - float(u[0]), float(v[1]) - float(u[1])) for u, v in zip(pts, pts[1:]))
    chord = ref.hypot(float(pts[-1][0]) - float(pts[0][0]), float(pts[-1][1]) - float(pts[0][1]))
    tol = tolerance(pts, prec) * max(poly, R) + 1e-12 * ref.size(pts)
    # an accuracy promise needs a conditioned curve; any curve must still be within half a percent
    tol = min(tol, 0.005 * poly + 1e-12 * ref.size(pts)) if poly else 1e-12 * ref.size(pts)
    if not abs(float(L) - R) <= tol:
        return f"{what}: length {L}, arc length {R!r} (allowed error {tol:.3g})"
    if float(L) < chord - tol or float(L) > poly + tol:
        return f"{what}: length {L} outside [chord {chord}, polygon {poly}]"
    return None


def check_case(case, ctx):
    base = decimal.Context(prec=case.get("prec", 28), rounding=case.get("rounding", "ROUND_HALF_EVEN"))
    with decimal.localcontext(base):
        k0 = ctxkey()
        p = inner(case, ctx)
        k1 = ctxkey()
    if p is None and k0 != k1:
        return f"the decimal context changed from {k0[:2]} to {k1[:2]}"
    return p


def inner(case, ctx):
    k = case["k"]
    if k == "len":
        pts = [tuple(Decimal(x) if isinstance(x, str) else x for x in q) for q in case["pts"]]
        if len(set(pts)) > 1:
            ctx.nontriv()
        rho = ref.gauss_rho(pts)
        ctx.outcome("order %d rho~%s" % (len(pts) - 1, "inf" if rho > 100 else "%.1f" % min(rho, 4)))
        b = Bezier(list(pts))
        p = length_problem(b, pts, case["prec"], "curve")
        if p:
            return p
        if b.length != Bezier(list(pts)).length or b.length != b.length:
            return "asking twice gives different lengths"
        for t in case["split"]:
            l, r, _ = Bezier(list(pts)).split(t)
            for w, o in (("left piece", l), ("right piece", r)):
                p = length_problem(o, o.controlPoints, case["prec"], f"{w} of split({t})")
                if p:
                    return p
            tol = (tolerance(pts, 28) + tolerance(l.controlPoints, 28) + tolerance(r.controlPoints, 28)) * (float(b.length) + ref.size(pts) * 1e-6)
            if not abs(float(l.length + r.length - b.length)) <= tol:
                return f"pieces of split({t}) have lengths {l.length} + {r.length}, the curve has {b.length}"
        return None
    if k == "fail":
        pts = [list(q) for q in case["pts"]]
        ctx.nontriv()
        try:
            pts[case["i"]][case["d"]] = float(case["bad"])
            b = Bezier([tuple(q) for q in pts])
        except (ArithmeticError, ValueError):
            ctx.outcome("not constructible")
            return None
        k0 = ctxkey()
        try:
            b.length
            ctx.outcome("answered")
        except (ArithmeticError, ValueError) as e:
            ctx.outcome(f"raised {type(e).__name__}")
        return None if ctxkey() == k0 else f"a failing length query left decimal precision {decimal.getcontext().prec}"
    if k == "trap":
        ctx.nontriv()
        decimal.getcontext().traps[decimal.Inexact] = True
        k0 = ctxkey()
        b = Bezier(D.pts(case["pts"]))
        try:
            b.length
            ctx.outcome("answered under trap")
        except decimal.Inexact:
            ctx.outcome("raised Inexact")
        k1 = ctxkey()
        decimal.getcontext().traps[decimal.Inexact] = False
        if k1 != k0:
            return f"a failing length query left decimal precision {k1[0]}"
        # the failure must not have spoiled the answer
        decimal.getcontext().prec = 28
        return length_problem(b, D.pts(case["pts"]), 28, "after a failed query")
    if k == "order":
        ctx.nontriv()
        bs = [Bezier(D.pts(c)) for c in case["curves"]]
        want = [Bezier(D.pts(c)).length for c in case["curves"]]
        for i in case["seq"]:
            p = length_problem(bs[i], D.pts(case["curves"][i]), 28, f"curve {i} in order {case['seq']}")
            if p:
                return p
            if bs[i].length != want[i]:
                return f"curve {i}: {bs[i].length} in order {case['seq']}, {want[i]} alone"
        return None
