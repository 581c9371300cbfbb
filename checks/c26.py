"""C26: an interrupted query leaves nothing behind - every crash point of every query, then every query from the state it leaves."""
import copy, decimal, os, sys
from mc import core, state
from PathLib import CurveFitting as CF
from PathLib.Bezier import Bezier, BContour, BOutline
from checks.c13 import OPS, SLOW

# (with a coarse threshold: interruptions deep in the recursion are no different from others)
CURVE_OPS = dict(OPS, intersects=lambda b, o, l: b.intersects(Bezier(list(o.controlPoints)), 30), selfIntersects=lambda b, o, l: b.selfIntersects(30))

ID, LEVEL = "C26", "model_checking"
RULE = ("for every query on a curve, contour, outline and the fitting tables, with nothing or one or two queries asked before: the query is "
        "interrupted before each executed line of the library (each bytecode instruction in the op shards; the first visits of each line for long "
        "queries) by an exception; every distinct state this leaves (dump of the object and of all library module data) is then asked every "
        "query; non-trivial = the state differs from that before the query")
ASSUMPTIONS = ["an interruption shows as an exception raised between two source lines or two bytecode instructions of the library"]

CURVES = {"q": [(0, 0), (10, 90), (80, 20)], "c": [(0, 0), (100, 50), (0, 100), (100, 150)], "l": [(0, 0), (30, 40)],
          "loop": [(0, 0), (150, 100), (-60, 90), (80, -10)], "arc": [(0, 0), (0, 55), (45, 100), (100, 100)],
          "d": [(decimal.Decimal(0), decimal.Decimal("0.5")), (decimal.Decimal(10), decimal.Decimal(90)), (decimal.Decimal(80), decimal.Decimal(20))]}
OTHER = [(0, 40), (30, -10), (70, 100), (100, 20)]
LINE = [(-5, 20), (105, 33)]
CONTOUR = [[(0, 0), (40, 10)], [(40, 10), (90, 70), (20, 60)], [(20, 60), (0, 0)]]
OUTLINE = [CONTOUR, [[(-100, 300), (-50, 420), (200, 500)]]]
PTS = [(0, 0), (10, 30), (20, -5), (45, 10), (60, 40), (70, 70), (90, 10), (100, 0)]

CONTOUR_OPS = {
    "lut2": lambda c: c.getLUT(2), "lut3": lambda c: c.getLUT(3), "lut5": lambda c: c.getLUT(5), "lut": lambda c: c.getLUT(),
    "closest3": lambda c: c.findClosestPoint((30, 55), 3), "closest5": lambda c: c.findClosestPoint((80, 60), 5),
    "d": lambda c: c.d(), "bounds": lambda c: c.boundsRectangle, "ends": lambda c: [c.start, c.end], "points": lambda c: [b.controlPoints for b in c],
    "curves": lambda c: [[b.boundsRectangle, b.bbox, b.extrema] for b in c], "clut3": lambda c: [b.getLUT(3) for b in c], "lengths": lambda c: [b.length for b in c],
    "item": lambda c: [c[0].getLUT(5), c[-1].normal(0.5), c[1].split(0.3)], "beziers": lambda c: [b.dcPoints for b in c.beziers],
}
OUTLINE_OPS = {
    "bounds": lambda o: o.boundsRectangle, "contours": lambda o: [c.d() for c in o], "lut3": lambda o: [c.getLUT(3) for c in o.contours],
    "lut4": lambda o: [c.getLUT(4) for c in o.bContours], "closest": lambda o: [c.findClosestPoint((50, 200), 4) for c in o],
    "path": lambda o: BOutline.pathFromSegments(*[b for c in o for b in c]), "boxes": lambda o: [b.boundsRectangle for c in o for b in c],
}
FIT_OPS = {f"b{n}": (lambda n: lambda _: [CF.binomial(n, k) for k in range(n + 1)])(n) for n in (0, 5, 6, 7, 8, 9, 12, 15)}
FIT_OPS.update({f"m{n}": (lambda n: lambda _: CF.basisMatrix(n))(n) for n in (3, 7, 8, 9, 11)})
FIT_OPS.update({"fit3": lambda _: CF.fit(PTS[:3])[3], "fit5": lambda _: CF.fit(PTS[:5], False)[3], "fit8": lambda _: CF.fit(PTS)[3], "lut": lambda _: CF.binomialCoefficients[:7]})

HEAVY = set(SLOW) | {"fit8", "lut", "lengths", "closest", "fit5"}
FIRST = {"q": ["lut4", "bbox", "length", "extrema", "reduce"], "c": ["lut4", "bbox", "length"], "contour": ["lut3", "closest3", "curves"], "outline": ["lut3"],
         "fit": ["b7", "m9"]}


class Stop(KeyboardInterrupt):
    pass


class Full(MemoryError):
    pass


EXC = {"stop": Stop, "full": Full}


def ops(kind):
    if kind in CURVES:
        return [n for n in CURVE_OPS if not (kind == "l" and n.startswith("abc") or n == "scale" and kind not in ("l", "arc")) and not (kind == "d" and n in NOT_D)]
    return list(CONTOUR_OPS if kind == "contour" else OUTLINE_OPS if kind == "outline" else FIT_OPS)


# (not meant for Decimal coordinates)
NOT_D = {"get", "midpoint", "hull", "hull-ends", "split-ends", "normal-ends", "abc-ends", "normal", "lut1", "lut4", "lut7", "lut100", "split", "split2", "split-lut",
         "split-length", "split-bbox", "split-extrema", "offset2", "offset", "scale", "abc", "raise", "reduce", "simple", "roots", "roots-line", "align", "align-bbox",
         "lineIntersects", "intersectWithLine", "intersects", "selfIntersects", "overlaps", "tightbbox", "extrema", "bbox", "boundsRectangle", "skeletonBounds"}


def shards(tier):
    q = tier == "quick"
    out = []

    def add(kind, name, g, hist=(), exc="stop", visits=0):
        out.append(("-".join((kind, name, g, exc) + tuple(hist)), {"o": kind, "a": name, "g": g, "h": list(hist), "x": exc, "v": visits}))
    kinds = ["q", "c", "l", "loop", "arc", "d", "contour", "outline", "fit"]
    for kind in kinds:
        for n in ops(kind):
            heavy = n in HEAVY
            if q and (n in ("intersects", "selfIntersects") and kind != "arc" or n == "offset" and kind not in ("q", "arc")):
                continue
            v = (1 if q else 12) if heavy else (4 if q else 0)
            add(kind, n, "line", visits=v)
            if not (q and heavy):
                add(kind, n, "line", exc="full", visits=1 if q else 4 if heavy else 0)
            if not heavy and (not q or kind in ("contour", "outline", "fit") or kind == "q" and not n.startswith("split-")):
                add(kind, n, "op", visits=1 if q else 8)
            for h in FIRST.get(kind, [])[:3 if q else None]:
                if not q or not heavy or kind == "q" and n in ("reduce", "lut100"):
                    add(kind, n, "line", (h,), visits=1 if q else 2 if heavy else 0)
            if not q:
                for h in (("lut4", "bbox"), ("length", "lut7")) if kind in "qc" else (("lut3", "lut5"), ("closest3", "lut3")) if kind == "contour" else ():
                    add(kind, n, "line", h, visits=1 if n in HEAVY else 3)
    return out


def fn(kind, name):
    if kind in CURVES:
        f = CURVE_OPS[name]
        o, l = Bezier(list(OTHER)), list(LINE)
        return lambda b: f(b, o, l)
    return (CONTOUR_OPS if kind == "contour" else OUTLINE_OPS if kind == "outline" else FIT_OPS)[name]


def make(kind):
    if kind in CURVES:
        return Bezier(list(CURVES[kind]))
    return BContour(copy.deepcopy(CONTOUR)) if kind == "contour" else BOutline(copy.deepcopy(OUTLINE)) if kind == "outline" else None


BASE = None
EXPECT = {}
PREFIX = os.path.join(core.REPO, "PathLib") + os.sep


def interrupted(f, obj, at, exc, opcodes=False, visits=0):
    """Run f(obj), raising exc before the at-th point: ("answer" | "exception", value), and whether the point was reached."""
    count, n, hit = {}, 0, False
    want = "opcode" if opcodes else "line"

    def local(frame, event, arg):
        nonlocal n, hit
        if event == want and not hit:
            if visits:
                w = (frame.f_code, frame.f_lasti) if opcodes else (frame.f_code, frame.f_lineno)
                c = count[w] = count.get(w, 0) + 1
                if c > visits:
                    return local
            if n == at:
                hit = True
                raise exc()
            n += 1
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(PREFIX):
            if opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return None
    sys.settrace(tracer)
    try:
        r = ("answer", f(obj))
    except BaseException as e:
        r = ("exception", e)
    finally:
        sys.settrace(None)
    return r, hit


def expected(kind, name):
    if (kind, name) not in EXPECT:
        try:
            EXPECT[kind, name] = state.answer(fn(kind, name)(make(kind)))
        except Exception as e:
            EXPECT[kind, name] = ["raises", type(e).__name__]
        BASE.restore()
    return EXPECT[kind, name]


def ask(kind, name, obj):
    try:
        return state.answer(fn(kind, name)(obj))
    except Exception as e:
        return ["raises", type(e).__name__]


def explore(p, ctx):
    ctx.seen = set()
    base = {k: p[k] for k in ("o", "a", "g", "h", "x", "v")}
    if p["g"] == "op":
        check_case(dict(base, at=0), ctx)        # (instructions are reported from the second time on)
        ctx.seen.clear()
    at = 0
    while True:
        ctx.run(dict(base, at=at))
        ctx.transitions += 1
        ctx.traces += 1
        if not ctx.hit:
            break
        at += 1
    ctx.states += len(ctx.seen)


def check_case(case, ctx):
    global BASE
    if BASE is None:
        BASE = state.ModuleState()
        interrupted(lambda o: CF.binomial(3, 1), None, 10 ** 9, Stop, True)
    kind, a = case["o"], case["a"]
    seen = getattr(ctx, "seen", set())

    def crash():
        BASE.restore()
        obj = make(kind)
        before = [(h, r, state.answer(r)) for h in case["h"] for r in [fn(kind, h)(obj)]]
        was = state.dump(obj) + state.module_dump()
        f = fn(kind, a)
        c0 = decimal.getcontext().copy()
        r, hit = interrupted(f, obj, case["at"], EXC[case["x"]], case["g"] == "op", case["v"])
        # (no Python code can put the context back at every point of its own clean-up; C07 decides about it)
        decimal.setcontext(c0)
        return obj, before, was, r, hit
    try:
        for n in ops(kind):
            if n not in HEAVY or n == a:
                expected(kind, n)
        wanted = expected(kind, a)
        obj, before, was, (how, r), ctx.hit = crash()
        if how == "answer":
            got = state.answer(r)
        elif isinstance(r, (Stop, Full)):
            got = None
        else:
            got = ["raises", type(r).__name__]
        if got is not None and not state.same(got, wanted, 1e-12):
            return f"{a}, interrupted, answers {str(got)[:300]} instead of {str(wanted)[:300]}"
        if kind in CURVES and [tuple(p) for p in obj.controlPoints] != CURVES[kind]:
            return f"{a}, interrupted, leaves the control points {obj.controlPoints}"
        for h, x, w in before:
            if not state.same(state.answer(x), w):
                return f"the answer given to {h} is changed by {a} being interrupted"
        key = state.dump(obj) + "|" + state.module_dump()
        if key != was + "|":
            ctx.outcome(f"{kind}: interrupted" if ctx.hit else f"{kind}: ran to its end")
        if key in seen:
            return None
        seen.add(key)
        ctx.nontriv()
        # every query from this state; then all of them one after the other
        names = ops(kind)
        light = [n for n in names if n not in HEAVY or n == a]
        for n in light:
            obj = crash()[0]
            g = ask(kind, n, obj)
            if not state.same(g, expected_keep(kind, n), 1e-12):
                return f"{n}, asked after {a} was interrupted{after(case)}, answers {str(g)[:300]}, not {str(expected_keep(kind, n))[:300]}"
        obj = crash()[0]
        for n in light:
            g = ask(kind, n, obj)
            if not state.same(g, expected_keep(kind, n), 1e-12):
                return f"{n}, asked in turn after {a} was interrupted{after(case)}, answers {str(g)[:300]}, not {str(expected_keep(kind, n))[:300]}"
        return None
    finally:
        BASE.restore()


def expected_keep(kind, name):
    if (kind, name) not in EXPECT:
        raise RuntimeError("expected answers are computed beforehand")
    return EXPECT[kind, name]


def after(case):
    return f" (after {case['h']})" if case["h"] else ""
