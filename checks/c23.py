"""C23: plotted shapes match the contours and drawing leaves attributes as they were - search over histories of drawing calls."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "stubs"))
import xml.etree.ElementTree as ET
from collections import deque
from itertools import product
from mc import ref, state
from checks import c16
from checks.c16 import read, nonzero, Bad
from PathLib.Bezier import Bezier, BContour, BOutline
from PathLib.Color import Color
from PathLib.ContourPlotter import ContourPlotter

ID, LEVEL = "C23", "model_checking"
RULE = ("breadth-first search over histories of drawing and attribute calls on one plotter (states = canonical dumps of the plotter without its finished "
        "elements), in both output modes; every element drawn is parsed and compared with the shape and paint that were asked for; "
        "non-trivial = something was drawn before")
ASSUMPTIONS = ["the FontDocTools base class is replaced by the minimal stand-in in mc/stubs"]

SHAPES = {
    "tri": [[[(0, 0), (50, 0)], [(50, 0), (50, 40)], [(50, 40), (0, 0)]]],
    "hv": [[[(0, 0), (50, 0)], [(50, 0), (90, 0)], [(90, 0), (90, 0)], [(90, 0), (90, 30)], [(90, 30), (90, 70)]]],
    "diag": [[[(5, 5), (10, 20)], [(10, 20), (35, 25)], [(35, 25), (36, 90)]]],
    "curves": [[[(0, 0), (10, 50), (60, 0)], [(60, 0), (80, -10), (90, 60)], [(90, 60), (70, 80), (20, 90), (0, 0)]]],
    "cubics": [[[(3, 4), (10, 50), (60, 10), (80, 80)], [(80, 80), (70, 10), (-20.5, 30), (3, 4)]]],
    "two": [[[(0, 0), (50, 7)], [(50, 7), (90, 40)]], [[(10, 10), (30, 80)], [(30, 80), (77, 90)]]],
    "twoh": [[[(0, 0), (50, 0)]], [[(10, 20), (70, 20)]], [[(-5, -6), (-5, 33)]], [[(1, 1), (1, 44)]]],
    "twoq": [[[(0, 0), (10, 50), (60, 0)]], [[(60, 0), (80, -10), (90, 60)]], [[(60, 0), (1, 2), (3, 4), (90, 60)]], [[(6, 0), (1, 2), (3, 4), (9, 6)]]],
    "dot": [[[(9, 9), (9, 9)]]],
}
COLORS = {"red": (255, 0, 0), "navy": (0, 0, 128), "lightgrey": (211, 211, 211), "black": (0, 0, 0), "lime": (0, 255, 0)}
RUNS = {"a": [(0, 0), (10, 5), (10, 5), (20, 5), (20, 50)], "b": [(7, 7)], "c": [(0.5, -1), (0.5, 8), (3, 3), (0.5, -1)]}
LAT = [(0, 0), (10, 0), (0, 10), (10, 7)]
CURVES = {"l": [(0, 0), (40, 30)], "q": [(40, 10), (90, 70), (20, 60)], "c": [(20, 60), (-30, 80), (-50, -20), (0, 0)]}


def css(name):
    return "rgb(%d, %d, %d)" % COLORS[name]


def ops(small):
    out = []
    for kind in ("contours", "paths"):
        for s in SHAPES:
            for c, f in ((None, 0), ("red", 0), ("navy", 1), (None, 1)):
                if small and (c, f) != ("red", 0) and s not in ("two", "hv"):
                    continue
                for close in ((1, 0) if kind == "contours" and (c, f) in ((None, 0), ("navy", 1)) else (1,)):
                    out.append(f"{kind} {s} {c} {f} {close}")
                if c is None and not f:
                    out.append(f"{kind} {s} None - -")      # nothing but the shape is given: stroked, and closed
    for r in RUNS:
        out += [f"points {r} {c}" for c in (None, "red")]
        out += [f"circles {r} {c} {f}" for c in (None, "red", "red,navy", "red,navy,lime") for f in (0, 1, "-")]
        out += [f"ccircles {r} {c} {f}" for c in (None, "red,navy", "lime,navy,red") for f in (0, 1, "-")]
        out += [f"xcircles {r} {c} {f}" for c in (None, "red,navy") for f in (0, 1)]
    for c in CURVES:
        out += [f"curve {c} {k}" for k in (None, "navy")] + [f"skeleton {c} {k}" for k in (None, "navy", "no")] + [f"hull {c} 0.25 {k}" for k in (None, "navy", "no")]
    out += ["arrow None", "arrow red", "text"]
    out += ["setfill lime", "setstroke lime", "setwidth 3", "setdash 5,5", "setopacity 0.7"]
    out += ["pushfill navy None", "pushfill None 0.5", "pushfill red 0", "pushstroke 4 None None None", "pushstroke None red 0.25 None",
            "pushstroke 0 None 0 1,1", "popfill", "popstroke"]
    return out


def shards(tier):
    out = []
    for poly in (0, 1):
        if tier == "quick":
            out += [(f"pairs-{poly}-{i}", {"poly": poly, "k": "all", "depth": 2, "i": i, "of": 4}) for i in range(4)]
            out += [(f"deep-{poly}-{i}", {"poly": poly, "k": "small", "depth": 3, "i": i, "of": 8}) for i in range(8)]
        else:
            out += [(f"deep-{poly}-{i}", {"poly": poly, "k": "all", "depth": 3, "i": i, "of": 16}) for i in range(16)]
            out += [(f"stack-{poly}-{i}", {"poly": poly, "k": "attr", "depth": 5, "i": i, "of": 8}) for i in range(8)]
    for poly in (0, 1):
        out += [(f"shapes-{poly}-{i}", {"poly": poly, "k": "shapes", "i": i, "full": tier != "quick"}) for i in range(4)]
    return out


def segments(a, full):
    """Every line, quadratic and cubic from a over the small lattice."""
    out = [[a, b] for b in LAT]
    out += [[a, c, b] for c in LAT for b in LAT]
    out += [[a, c, d, b] for c in LAT for d in (LAT if full else LAT[1:3]) for b in LAT]
    return out


def shapes(p, ctx):
    """Every contour of two segments, every line after every segment in two contours, every run of points over the small lattice."""
    a = LAT[p["i"]]
    for s in segments(a, p["full"]):
        for u in segments(s[-1], p["full"]):
            if len(s) + len(u) > 6 and not p["full"]:
                continue
            ctx.run({"poly": p["poly"], "hist": [], "op": "contours @ None 0 0", "shape": [[s, u]]})
        for b in LAT:
            for c in LAT:
                for close in (0, 1):
                    ctx.run({"poly": p["poly"], "hist": [], "op": f"contours @ navy 1 {close}", "shape": [[s], [[b, c]]]})
                ctx.run({"poly": p["poly"], "hist": [], "op": "paths @ red 0 1", "shape": [[s], [[b, c]]]})
    # other kinds of numbers, longer contours, more of them
    for n, x in enumerate(c16.XS):
        if x != "list" and n % 4 == p["i"]:
            for m in product(c16.MOVES, repeat=2):
                c = c16.build({"a": x, "m": list(m)})
                ctx.run({"poly": p["poly"], "hist": [], "op": "contours @ None 0 0", "shape": [c]})
                ctx.run({"poly": p["poly"], "hist": [], "op": "paths @ red 0 1", "shape": [c, c[:1]]})
    s = [c16.MOVES[i] for i in c16.de_bruijn(len(c16.MOVES), 2)]
    for k in range(p["i"], len(s), 4):
        c = c16.build({"a": "int", "m": (s[k:] + s[:k])[:60]})
        for sh in ([c], [c[j:j + 3] for j in range(0, 60, 3)], [c[:1], c[1:30], c[30:31], c[31:]]):
            for op in ("contours @ None 0 0", "contours @ navy 1 1", "paths @ red 0 1"):
                ctx.run({"poly": p["poly"], "hist": [], "op": op, "shape": sh})
    for n in range(0, 5 if p["full"] else 4):
        for r in product(LAT, repeat=n):
            ctx.run({"poly": p["poly"], "hist": [], "op": "points @ None", "run": [a, *r]})
    # long runs of points, and points that are almost the same
    for n in (*range(5, 30, 3), 41, 60, 100, 130):
        r = [(a[0] + i * i % 29, a[1] + i * 7 % 13) for i in range(n)]
        for op in ("points @ None", "points @ red", "circles @ None 1", "circles @ red,navy,lime 0", "ccircles @ None 0", "ccircles @ red,navy 1", "xcircles @ lime,navy,red 1"):
            ctx.run({"poly": p["poly"], "hist": [], "op": op, "run": r})
        sh = [[[q, (q[0] + 3, q[1])], [(q[0] + 3, q[1]), (q[0] + 3, q[1] + i + 1)]] for i, q in enumerate(r)]
        for op in ("contours @ None 0 0", "contours @ navy 1 1", "paths @ red 0 1"):
            ctx.run({"poly": p["poly"], "hist": [], "op": op, "shape": sh})
            ctx.run({"poly": p["poly"], "hist": [], "op": op, "shape": [poly_line([(3 * i, 5 * i + x) for i, (x, y) in enumerate(r)])]})
    for e in (1e-4, -1e-5, 1e-6, -1e-7, 2.0 ** -30, 1e-10, -1e-13):
        for x, y in ((e, 0), (0, e), (e, e), (-e, e)):
            q = (10 + x, 7 + y)
            for r in ([a, (10, 7), q, a], [(10, 7), q, (10, 7)], [q, a, (10, 7)]):
                ctx.run({"poly": p["poly"], "hist": [], "op": "points @ None", "run": r})
                for close in (0, 1):
                    ctx.run({"poly": p["poly"], "hist": [], "op": f"contours @ None 0 {close}", "shape": [poly_line(r)]})
                ctx.run({"poly": p["poly"], "hist": [], "op": "contours @ navy 1 0", "shape": [[[a, (10, 7)]], [[q, (50, 60)]], [[(10, 7), (3, 3)]]]})
                ctx.run({"poly": p["poly"], "hist": [], "op": "paths @ None 0 1", "shape": [poly_line(r)]})


def explore(p, ctx):
    if p["k"] == "shapes":
        return shapes(p, ctx)
    alpha = ops(p["k"] == "small")
    if p["k"] == "small":
        alpha = [o for o in alpha if o.split()[1:2] not in (["cubics"], ["dot"], ["b"], ["c"]) or o.startswith("curve")]
    if p["k"] == "attr":
        alpha = [o for o in alpha if o.split()[0] in ("setfill", "setdash", "pushfill", "pushstroke", "popfill", "popstroke", "arrow")] + \
                ["contours two navy 1 1", "contours hv red 0 1", "circles a red,navy 1", "hull q 0.25 navy"]
    seen, todo = set(), deque([([], (0, 0))])
    while todo:
        h, depth = todo.popleft()
        for j, o in enumerate(alpha):
            if not h and j % p["of"] != p["i"]:
                continue
            if o == "popfill" and not depth[0] or o == "popstroke" and not depth[1]:
                continue
            if o.startswith("pushfill") and depth[0] > 1 or o.startswith("pushstroke") and depth[1] > 1:
                continue
            ctx.run({"poly": p["poly"], "hist": h, "op": o})
            ctx.transitions += 1
            ctx.traces += 1
            if ctx.key not in seen:
                seen.add(ctx.key)
                if len(h) + 1 < p["depth"]:
                    todo.append((h + [o], ctx.depth))
    ctx.states += len(seen)


class Model:
    """Paint in force, and the two stacks."""

    def __init__(self):
        self.fill, self.stroke = (None, None), (None, None, None, None)      # colour, opacity / width, colour, opacity, dash
        self.fills, self.strokes = [], []


def attrs(pl):
    return (pl._fillColor, pl._fillOpacity), (pl._strokeWidth, pl._strokeColor, pl._strokeOpacity, pl._strokeDash)


def canon(v):
    return "rgb(%d, %d, %d)" % (v.red, v.green, v.blue) if isinstance(v, Color) else v


def fill_attr(f):
    return {k: str(v) for k, v in zip(("fill", "fill-opacity"), f) if v is not None}


def stroke_attr(s):
    d = {k: str(v) for k, v in zip(("stroke-width", "stroke", "stroke-opacity", "stroke-dasharray"), s) if v is not None}
    d["fill"] = "none"
    return d


def merge(old, new):
    return tuple(o if n is None else n for o, n in zip(old, new))


def name(s):
    return None if s == "None" else s


def num(s):
    return None if s == "None" else float(s) if "." in s else int(s)


def level(pts, t):
    out = [pts]
    while len(out[-1]) > 2:
        out.append([((1 - t) * a[0] + t * b[0], (1 - t) * a[1] + t * b[1]) for a, b in zip(out[-1], out[-1][1:])])
    return out


def poly_line(pts):
    return [[a, b] for a, b in zip(pts, pts[1:])]


def run(pl, m, op):
    """Do one call on the plotter; the model says which elements it must add: (kind, data, attributes)."""
    k, *a = op.split(" ")
    col = lambda s: None if name(s) is None else Color(*COLORS[s])
    if k in ("contours", "paths"):
        shape, c, f, close = SHAPES[a[0]], name(a[1]), a[2] == "1", a[3] != "0"
        if a[2] == "-" and k == "contours":
            pl.drawContours([[list(s) for s in x] for x in shape])
        elif a[2] == "-":
            pl.drawPaths([BContour([list(s) for s in x]) for x in shape])
        elif k == "contours":
            pl.drawContours([[list(s) for s in x] for x in shape], color=col(a[1]), fill=f, close=close)
        else:
            pl.drawPaths([BContour([list(s) for s in x]) for x in shape] if len(shape) < 3 else BOutline([[list(s) for s in x] for x in shape]), color=col(a[1]), fill=f, close=close)
        paint = fill_attr(merge(m.fill, (c and css(c), None))) if f else stroke_attr(merge(m.stroke, (None, c and css(c), None, None)))
        if k == "contours":
            segs = [list(x) + ([[x[-1][-1], x[0][0]]] if close and x[-1][-1] != x[0][0] else []) for x in shape]
            return [("path", [segs], paint, len(shape) if close else 0)]
        # (a path object need not be closed: with or without a closing line)
        return [("path", [[x], [list(x) + [[x[-1][-1], x[0][0]]]]], paint) for x in shape]
    if k == "points":
        pl.drawPointsAsSegments(list(RUNS[a[0]]), col(a[1]))
        return [("path", [[poly_line(RUNS[a[0]])]], stroke_attr(merge(m.stroke, (None, name(a[1]) and css(a[1]), None, None))))]
    if k in ("circles", "ccircles", "xcircles"):
        cs = None if name(a[1]) is None else a[1].split(",")
        f = a[2] != "0"
        kw = {} if a[2] == "-" else {"fill": f}
        if cs:
            kw["colors"] = [Color(*COLORS[c]) for c in cs]
        if k == "circles":
            pl.drawPointsAsCircles(list(RUNS[a[0]]), 2.5, **kw)
        elif k == "xcircles":
            pl.drawPointsAsCircles([complex(*p) for p in RUNS[a[0]]], 2.5, **kw)
        else:
            pl.drawComplexPointsAsCircles([complex(*p) for p in RUNS[a[0]]], 2.5, **kw)
        out = []
        for i, p in enumerate(RUNS[a[0]]):
            c = cs and css(cs[i % len(cs)])
            out.append(("circle", (p, 2.5), fill_attr(merge(m.fill, (c, None))) if f else stroke_attr(merge(m.stroke, (None, c, None, None)))))
        return out
    if k == "curve":
        pl.drawCurve(list(CURVES[a[0]]), color=col(a[1]))
        return [("path", [[[CURVES[a[0]]]]], stroke_attr(merge(m.stroke, (None, name(a[1]) and css(a[1]), None, None))))]
    if k in ("skeleton", "hull"):
        pts = CURVES[a[0]]
        b = Bezier(list(pts))
        c = name(a[-1]) or "lightgrey"
        # (no line colour: the one in force)
        kw = {} if name(a[-1]) is None else {"lineColor": None if c == "no" else col(a[-1])}
        if k == "skeleton":
            pl.drawSkeleton(b, **kw)
        else:
            pl.drawHull(b, float(a[1]), **kw)
        base = merge(m.stroke, (None, None if c == "no" else css(c), None, None))
        # (the width of the lines of a skeleton is the plotter's own choice)
        out = [("path", [[poly_line(pts)]], {**stroke_attr(base), "stroke-width": None})]
        out += [("circle", (p, 2), fill_attr(merge(m.fill, (css("black"), None)))) for p in pts]
        out += [("text", f"({round(x, 2)}, {round(y, 2)})", fill_attr(merge(m.fill, (css("black"), None)))) for x, y in pts]
        if k == "hull":
            out += [("path", [[poly_line(l)]], stroke_attr(merge(base, (None, None, None if c == "no" else 0.5, None)))) for l in level(pts, float(a[1]))[1:] if len(l) > 1]
        return out
    if k == "arrow":
        pl.drawArrowBetweenPoints((1, 2), (30, 40), color=col(a[0]))
        # (an arrow is dashed)
        return [("line", ((1, 2), (30, 40)), {kk: v for kk, v in stroke_attr(merge(m.stroke, (None, name(a[0]) and css(a[0]), None, "2, 1"))).items() if kk != "fill"})]
    if k == "text":
        pl.drawText(5, 6, "left", "a<b")
        return [("text", "a<b", fill_attr(m.fill))]
    if k == "setfill":
        pl.setFillColor(col(a[0]))
        m.fill = (css(a[0]), m.fill[1])
    elif k == "setopacity":
        pl.setFillOpacity(0.7)
        m.fill = (m.fill[0], 0.7)
    elif k == "setstroke":
        pl.setStrokeColor(col(a[0]))
        m.stroke = merge(m.stroke, (None, css(a[0]), None, None))
    elif k == "setwidth":
        pl.setStrokeWidth(3)
        m.stroke = merge(m.stroke, (3, None, None, None))
    elif k == "setdash":
        pl.setStrokeDash("5,5")
        m.stroke = merge(m.stroke, (None, None, None, "5,5"))
    elif k == "pushfill":
        m.fills.append(m.fill)
        pl.pushFillAttributes(color=col(a[0]), opacity=num(a[1]))
        m.fill = merge(m.fill, (name(a[0]) and css(a[0]), num(a[1])))
    elif k == "pushstroke":
        m.strokes.append(m.stroke)
        pl.pushStrokeAttributes(width=num(a[0]), color=col(a[1]), opacity=num(a[2]), dash=name(a[3]))
        m.stroke = merge(m.stroke, (num(a[0]), name(a[1]) and css(a[1]), num(a[2]), name(a[3])))
    elif k == "popfill":
        pl.popFillAttributes()
        m.fill = m.fills.pop()
    elif k == "popstroke":
        pl.popStrokeAtributes()
        m.stroke = m.strokes.pop()
    return []


def fl(segs):
    return nonzero([[(float(x), float(y)) for x, y in s] for s in segs])


def same_segs(a, b):
    return len(a) == len(b) and all(len(s) == len(t) and all(ref.pnear(p, q, 1e-9) for p, q in zip(s, t)) for s, t in zip(a, b))


def element_problem(text, want):
    kind, data, paint, *closed = want
    try:
        e = ET.fromstring(text)
    except ET.ParseError as x:
        return f"{text!r} is not well-formed: {x}"
    if e.tag != kind:
        return f"{text!r} is drawn, not a {kind}"
    at = dict(e.attrib)
    if kind == "path":
        d = at.pop("d", "")
        try:
            subs = read(d)
        except Bad as x:
            return f"{d!r} is not valid path data: {x}"
        if closed and d.upper().count("Z") != closed[0]:
            return f"{d!r} closes {d.upper().count('Z')} shapes, asked for was {closed[0]}"
        got = [nonzero(s) for s in subs]
        if not any(len(got) == len(w) and all(same_segs(g, fl(s)) for g, s in zip(got, w)) for w in data):
            return f"{d!r} draws {got}, asked for was {data[0]}"
    elif kind == "circle":
        g = [float(at.pop(x, "nan")) for x in ("cx", "cy", "r")]
        if g != [float(data[0][0]), float(data[0][1]), float(data[1])]:
            return f"{text!r}, asked for was a circle at {data}"
    elif kind == "text":
        at.pop("x"), at.pop("y")
        if e.text != data:
            return f"{text!r}, asked for was {data!r}"
    else:
        g = [float(at.pop(x, "nan")) for x in ("x1", "y1", "x2", "y2")]
        if g != [float(v) for p in data for v in p]:
            return f"{text!r}, asked for was {data}"
    for x in [x for x, v in paint.items() if v is None]:
        at.pop(x, None)
        del paint[x]
    if at != paint:
        return f"{text!r} is painted with {at}, not {paint}"
    return None


def check_case(case, ctx):
    if "shape" in case:
        SHAPES["@"] = [[[tuple(q) for q in s] for s in x] for x in case["shape"]]
    if "run" in case:
        RUNS["@"] = [tuple(q) for q in case["run"]]
    try:
        return history(case, ctx)
    finally:
        SHAPES.pop("@", None)
        RUNS.pop("@", None)


def history(case, ctx):
    pl = ContourPlotter((0, 0, 100, 80), poly=bool(case["poly"]))
    m = Model()
    first = attrs(pl)
    m.fill, m.stroke = tuple(map(canon, first[0])), tuple(map(canon, first[1]))
    drawn = 0
    for o in case["hist"] + [case["op"]]:
        n = len(pl._content)
        last = o is case["op"]
        want = run(pl, m, o)
        if len(pl._content) < n:
            return f"after {case['hist']}, {o} removes elements"
        got = pl._content[n:]
        if last and drawn:
            ctx.nontriv()
        drawn += len(got)
        where = f"{'poly ' if case['poly'] else ''}after {case['hist']}, {case['op']}"
        if len(got) != len(want):
            return f"{where}: {len(got)} elements {got}, expected {len(want)}"
        for g, w in zip(got, want):
            p = element_problem(g, w)
            if p:
                return f"{where}: {p}"
        f, s = attrs(pl)
        if tuple(map(canon, f)) != m.fill or tuple(map(canon, s)) != m.stroke:
            return f"{where}: the fill and stroke in force are {f}, {s}, they should be {m.fill}, {m.stroke}"
    ctx.outcome(case["op"].split(" ")[0])
    keep = pl._content
    pl._content = []
    ctx.key = hash(state.dump(pl) + repr(m.__dict__))
    pl._content = keep
    ctx.depth = (len(m.fills), len(m.strokes))
    return None
