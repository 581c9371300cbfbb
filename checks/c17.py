"""C17: the segment pen records exactly the drawn glyph - all pen programs to a depth bound against an independent pen model."""
import itertools, logging
from PathLib.SegmentPen import SegmentPen

ID, LEVEL = "C17", "model_checking"
RULE = ("every legal pen program (sequence of moveTo/lineTo/curveTo/qCurveTo/closePath/addComponent calls) up to the depth bound, run on the real "
        "pen and on an independent model; every nesting of component transformations up to three levels (and chains of 4-5, thorough 7, of three of them); runs of up to 129 off-curve points; non-trivial = something is recorded")

NP = [(1e-9, -2e-12), (0, 1e-3)]          # close to P[0], not equal to it
P = [(0, 0), (30, 0), (10, 50), (-7, 2.5), (64, 33), (5, -81)]
NEAR = ["M0", "L0", "L1", "L3", "L4", "C3", "Q5", "Q6", "Q7", "Z"]
INSIDE = ["M0", "L0", "L1", "L2", "C", "C0", "CQ", "Q1", "Q2", "Q3", "Q4", "Z"]
OUTSIDE = ["M0", "M1", "QN1", "QN2", "QN3", "A", "B", "N", "D"]
NEAROUT = ["M0", "M2", "QN4", "QN5"]
TRANS = {
    "i": (1, 0, 0, 1, 0, 0), "f": (1.0, 0.0, 0.0, 1.0, 0.0, 0.0), "t": (1, 0, 0, 1, 120, -35), "s": (2, 0, 0, 0.5, 0, 0), "h": (1, 0, 0.25, 1, 0, 0),
    "v": (1, 0.5, 0, 1, 3, 0), "r": (0, 1, -1, 0, 10, 20), "x": (-1, 0, 0, 1, 0, 7), "g": (0.8, -0.3, 0.6, 1.2, -15.5, 40), "w": (1, 0, 0, 1, 0, 1e-3),
    "z": (1, 0, 0, -1, 0, 0), "c": (1, 0, 0, 1, 35, -35), "k": (1, 0, 0, 1, -4, 0),
}


def calls(c, trans="g"):
    """The pen calls of one program step."""
    k = {
        "M0": ("moveTo", P[0]), "M1": ("moveTo", P[1]), "L0": ("lineTo", P[0]), "L1": ("lineTo", P[1]), "L2": ("lineTo", P[2]),
        "C": ("curveTo", P[3], P[4], P[1]), "C0": ("curveTo", P[2], P[4], P[0]), "CQ": ("curveTo", P[5], P[2]),
        "Q1": ("qCurveTo", P[3]), "Q2": ("qCurveTo", P[4], P[0]), "Q3": ("qCurveTo", P[3], P[5], P[1]), "Q4": ("qCurveTo", P[3], P[4], P[5], P[2]),
        "QN1": ("qCurveTo", P[3], None), "QN2": ("qCurveTo", P[3], P[4], None), "QN3": ("qCurveTo", P[0], P[4], P[2], None), "Z": ("closePath",),
        "M2": ("moveTo", NP[0]), "L3": ("lineTo", NP[0]), "L4": ("lineTo", NP[1]), "C3": ("curveTo", P[3], P[3], NP[0]), "Q5": ("qCurveTo", P[3], P[3], P[1]),
        "Q6": ("qCurveTo", P[3], P[4], P[3], NP[1]), "Q7": ("qCurveTo", P[0], P[0], P[0]), "QN4": ("qCurveTo", P[3], P[3], None), "QN5": ("qCurveTo", P[3], P[4], P[3], None),
        "A": ("addComponent", "A", TRANS["i"]), "B": ("addComponent", "B", TRANS[trans]), "N": ("addComponent", "N", TRANS["r"]),
        "D": ("addComponent", "D", TRANS["t"]),
    }
    return k[c]


class Glyph:
    def __init__(self, program):
        self.program = program

    def draw(self, pen):
        for c in self.program:
            getattr(pen, c[0])(*c[1:])


def base_glyphs():
    def prog(*cs):
        return [calls(c) for c in cs]
    return {
        "A": Glyph(prog("M0", "L1", "L2", "Z")),
        "B": Glyph(prog("M1", "Q3", "L2", "Z", "M0", "C", "Z")),
        "N": Glyph([("addComponent", "A", TRANS["g"])] + prog("M0", "L1", "Q2", "Z") + [("addComponent", "B", TRANS["v"])]),
        "D": Glyph(prog("QN3", "Z", "M0", "Z", "M1", "L1", "Z")),
        "E": Glyph([]),
    }


# ---- the model: contours as lists of point lists
def mid(a, b):
    return ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)


class Model:
    def __init__(self, glyphs):
        self.glyphs, self.done, self.open, self.at = glyphs, [], None, None

    def step(self, c):
        k, a = c[0], c[1:]
        if k == "moveTo":
            self.open, self.at = [], a[0]
        elif k == "lineTo":
            if a[0] != self.at:
                self.open.append([self.at, a[0]])
            self.at = a[0]
        elif k == "curveTo":
            self.open.append([self.at] + list(a))
            self.at = a[-1]
        elif k == "qCurveTo":
            a = list(a)
            if a[-1] is None:
                a[-1] = mid(a[-2], a[0])
                self.open, self.at = [], a[-1]
            off, end = a[:-1], a[-1]
            if not off:
                self.open.append([self.at, end])
            ons = [mid(p, q) for p, q in zip(off, off[1:])] + [end]
            for o, e in zip(off, ons):
                self.open.append([self.at, o, e])
                self.at = e
            self.at = end
        elif k == "closePath":
            if self.open:
                if self.open[-1][-1] != self.open[0][0]:
                    self.open.append([self.open[-1][-1], self.open[0][0]])
                self.done.append(self.open)
            self.open = None
        elif k == "addComponent":
            sub = Model(self.glyphs)
            for s in self.glyphs[a[0]].program:
                sub.step(s)
            xx, xy, yx, yy, dx, dy = a[1]
            for c in sub.done:
                self.done.append([[(xx * x + yx * y + dx, xy * x + yy * y + dy) for x, y in s] for s in c])

    def key(self):
        return repr((self.done, self.open, self.at if self.open is not None else None))


def shards(tier):
    d = 5 if tier == "quick" else 6
    out = [(f"p-{a}-{i}", {"k": "prog", "first": a, "part": i, "of": 4 if a in ("M0", "M1") else 1, "depth": d if a[0] in "MQ" else d - 1})
           for a in OUTSIDE for i in range(4 if a in ("M0", "M1") else 1)]
    out += [(f"near-{a}", {"k": "prog", "first": a, "part": 0, "of": 1, "depth": d, "near": 1}) for a in NEAROUT]
    out += [(f"n-{x}", {"k": "nest", "a": x, "full": tier != "quick"}) for x in TRANS]
    out += [(f"maps-{x}", {"k": "maps", "a": x}) for x in (0, 1, 2, -1)]
    out += [(f"again-{a}", {"k": "again", "first": a}) for a in ("M0", "M1", "QN2", "QN3")]
    out += [("long", {"k": "long"})] + [(f"deep-{a}", {"k": "deep", "a": a, "n": 5 if tier == "quick" else 7}) for a in "tgr"]
    return out


def explore(p, ctx):
    if p["k"] == "nest":
        third = list(TRANS) if p["full"] else ["i", "t", "r", "g", "s"]
        for x in TRANS:
            for y in third:
                for g in ("A", "B", "D", "E"):
                    for own in (0, 1, 2, 3):
                        ctx.run({"k": "nest", "t": [p["a"], x, y], "g": g, "own": own})
                        ctx.transitions += 3
                        ctx.traces += 1
                        ctx.states += 1
        return
    if p["k"] == "maps":
        # every small matrix as a component's transformation, also as the second of two
        if p["a"] == 1:
            # almost the identity
            for i in range(6):
                for e in (1e-3, -1e-5, 1e-6, 1e-7, -1e-8):
                    m = [1, 0, 0, 1, 0, 0]
                    m[i] += e
                    for inner in ("i", "g"):
                        ctx.run({"k": "map", "m": m, "inner": inner})
                        ctx.transitions += 2
                        ctx.traces += 1
                        ctx.states += 1
        for r in itertools.product((0, 1, 2, -1), repeat=3):
            for off in ((0, 0), (5, 0), (0, -3), (0.25, 1000)):
                for inner in ("i", "g"):
                    ctx.run({"k": "map", "m": [p["a"], *r, *off], "inner": inner})
                    ctx.transitions += 2
                    ctx.traces += 1
                    ctx.states += 1
        return
    if p["k"] == "again":
        # closing once more what is closed changes nothing
        for n in (1, 2, 3):
            for mid_ in itertools.product(("L1", "L0", "C", "Q2", "Z"), repeat=n):
                for rest in ([], ["M0", "L2", "Z"], ["A"], ["M1", "Z", "Z"], ["QN2", "Z", "Z"], ["A", "Z", "M0", "L1"]):
                    h = [p["first"], *mid_[:mid_.index("Z") if "Z" in mid_ else n], "Z", "Z", *(["Z"] * mid_.count("Z")), *rest, "Z"]
                    ctx.run({"k": "prog", "p": h})
                    ctx.transitions += len(h)
                    ctx.traces += 1
                    ctx.states += 1
        return
    if p["k"] == "long":
        for n in (*range(1, 14), 20, 39, 40, 41, 42, 75, 129):
            for step in range(1, 8 if n < 14 else 3):
                for scale in (1, 0.125, -1000):
                    for end in (0, 1, 2):
                        ctx.run({"k": "long", "n": n, "step": step, "s": scale, "end": end})
                        ctx.transitions += 3
                        ctx.traces += 1
                        ctx.states += 1
        return
    if p["k"] == "deep":
        for n in range(4, p["n"] + 1):
            for ts in itertools.product("tgr", repeat=n - 1):
                for own in (0, 1):
                    ctx.run({"k": "deep", "t": p["a"] + "".join(ts), "own": own})
                    ctx.transitions += n
                    ctx.traces += 1
                    ctx.states += 1
        return
    seen = set()
    todo = [[p["first"]]]
    for d in range(p["depth"]):
        nxt = []
        for h in todo:
            ctx.run({"k": "prog", "p": h})
            ctx.transitions += 1
            ctx.traces += 1
            seen.add(hash(ctx.key))
            if d + 1 < p["depth"]:
                inside = ctx.inside
                for j, c in enumerate((NEAR if inside else NEAROUT) if "near" in p else (INSIDE if inside else OUTSIDE)):
                    if d == 0 and j % p["of"] != p["part"]:
                        continue
                    nxt.append(h + [c])
        todo = nxt
    ctx.states += len(seen)


def contours_problem(got, want):
    if len(got) != len(want):
        return f"{len(got)} contours are recorded, {len(want)} were drawn"
    for n, (g, w) in enumerate(zip(got, want)):
        g = [[tuple(p) for p in s] for s in g]
        if len(g) != len(w) or any(len(a) != len(b) for a, b in zip(g, w)):
            return f"contour {n} is recorded as {g}, drawn was {w}"
        for a, b in zip(g, w):
            for p, q in zip(a, b):
                if len(p) != 2 or not all(abs(u - v) <= 1e-9 * max(1.0, abs(v)) for u, v in zip(p, q)):
                    return f"contour {n} is recorded as {g}, drawn was {w}"
        for a, b in zip(g, g[1:] + g[:1]):
            if not all(abs(u - v) <= 1e-9 * max(1.0, abs(v)) for u, v in zip(a[-1], b[0])):
                return f"contour {n}: {a} is followed by {b}"
    return None


LOG = logging.getLogger("verif.c17")
LOG.addHandler(logging.NullHandler())
LOG.propagate = False


def check_case(case, ctx):
    glyphs = base_glyphs()
    if case["k"] == "prog":
        program = [calls(c) for c in case["p"]]
    elif case["k"] == "long":
        # a run of off-curve points, ending in a point, in the start, or closed without any on-curve point
        f = case["s"]
        off = [(f * ((i * i * case["step"]) % 17 - 8), f * ((i * (case["step"] + 3)) % 23 - 5)) for i in range(case["n"])]
        end = case["end"]
        program = [("moveTo", (7, 7))] if end < 2 else []
        program += [("qCurveTo", *off, [(f * 3, 1), (7, 7), None][end]), ("lineTo", (0.5, 2)), ("qCurveTo", *off[::-1], (1, 1)), ("closePath",)]
        program += [("moveTo", (0, 0)), ("lineTo", (4, 4)), ("closePath",)]
        if case["n"] > 13:
            # also as many lines and curves in a row, and as many contours and components
            program += [("moveTo", (0, 0))] + [("lineTo", q) for q in off] + [("curveTo", (1, 2), q, (i, 3)) for i, q in enumerate(off)] + [("closePath",)]
            for q in off:
                program += [("moveTo", q), ("lineTo", (q[0] + 3, 5)), ("closePath",), ("addComponent", "A", (1, 0, 0, 1, *q))]
    elif case["k"] == "map":
        glyphs["X"] = Glyph([("addComponent", "B", TRANS[case["inner"]])] + [calls(c) for c in ("M0", "C", "Q1", "Z")])
        program = [("addComponent", "X", tuple(case["m"])), ("addComponent", "A", tuple(case["m"])), ("addComponent", "A", list(case["m"]))]
    elif case["k"] == "deep":
        own = [calls(c) for c in ("M1", "L2", "Z")] if case["own"] else []
        below = "B"
        for i, t in enumerate(case["t"][:0:-1]):
            glyphs[f"G{i}"] = Glyph(own + [("addComponent", below, TRANS[t])])
            below = f"G{i}"
        program = own + [("addComponent", below, TRANS[case["t"][0]]), ("addComponent", below, TRANS["i"])]
    else:
        x, y, z = case["t"]
        own = [[], [calls(c) for c in ("M0", "Q4", "Z")], [calls(c) for c in ("M1", "L2", "L2", "L1", "Z", "M0", "Z")], [calls("QN2"), calls("Z")]][case["own"]]
        glyphs["X"] = Glyph([("addComponent", case["g"], TRANS[z])] + own)
        glyphs["Y"] = Glyph(own + [("addComponent", "X", TRANS[y]), ("addComponent", case["g"], TRANS[y])])
        program = own[:3] + [("addComponent", "Y", TRANS[x])] + own
    pen = SegmentPen(glyphs, LOG)
    model = Model(glyphs)
    if case["k"] in ("nest", "deep", "map"):
        glyphs["ROOT"] = Glyph(program)
        glyphs["ROOT"].draw(pen)
        for c in program:
            model.step(c)
    else:
        for c in program:
            getattr(pen, c[0])(*c[1:])
            model.step(c)
    if model.done:
        ctx.nontriv()
    ctx.outcome(f"{len(model.done)} contours, {'inside' if model.open is not None else 'outside'}")
    ctx.key, ctx.inside = model.key(), model.open is not None
    return contours_problem(pen.contours, model.done)
