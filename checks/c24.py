"""C24: named and generated colours are exact."""
import functools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "stubs"))
from collections import deque
from fractions import Fraction as F
from itertools import product
from string import ascii_lowercase
from mc import state
from mc.csscolors import COLORS
from PathLib.Color import Color

ID, LEVEL = "C24", "model_checking"
RULE = ("every keyword in six letter-case variants, every string of 1-3 letters and every keyword with a letter dropped, doubled or replaced, non-letter "
        "strings; breadth-first search over all reachable hue states and all set/generate histories to a depth bound; "
        "non-trivial = a keyword is found or a colour generated")
ASSUMPTIONS = ["FontDocTools.Color is replaced by the minimal stand-in in mc/stubs (red, green, blue)"]

SETS = [0, 1, 72, 73, 287, 359, 360, 12.5, 145, 400, -30, "default"]


def shards(tier):
    q = tier == "quick"
    out = [("names", {"k": "names"}), ("letters", {"k": "letters", "n": 3}), ("near", {"k": "near"}), ("cycle", {"k": "cycle", "step": 1 if q else 0.25})]
    out += [(f"hist-{s}", {"k": "hist", "first": s, "depth": 4 if q else 5}) for s in SETS]
    out += [("bfs", {"k": "bfs"})]
    return out


# letters that only look like (or are sometimes converted to) ASCII ones; U+212A is not one of these, its lower case is k
LIKE = {"s": "\u017f", "i": "\u0131", "f": "\ufb00", "a": "\u0430", "e": "\u0435", "o": "\u043e"}


def explore(p, ctx):
    k = p["k"]
    if k == "names":
        for n in sorted(COLORS):
            for v in (n, n.upper(), n.title(), n.swapcase(), "".join(c.upper() if i % 2 else c for i, c in enumerate(n)), n[:-1] + n[-1].upper()):
                ctx.run({"name": v})
        for s in ("", " ", "#fff", "#ff0000", "red1", "1", "dark blue", " red", "red ", "dark-blue", "rgb(1,2,3)", "red\n", "0", "-", "light_grey", "red;"):
            ctx.run({"name": s})
    elif k == "letters":
        for n in range(1, p["n"] + 1):
            for t in product(ascii_lowercase, repeat=n):
                ctx.run({"name": "".join(t)})
    elif k == "near":
        for n in sorted(COLORS):
            for i in range(len(n)):
                for v in (n[:i] + n[i + 1:], n[:i] + n[i] + n[i:], n[:i] + "q" + n[i + 1:], n[:i] + "1" + n[i + 1:], n[:i] + " " + n[i:], n[:i] + "é" + n[i + 1:],
                          *(n[:i] + LIKE[c] + n[i + 1:] for c in n[i] if c in LIKE), n[:i] + chr(ord(n[i]) + 0xFEE0) + n[i + 1:]):
                    ctx.run({"name": v})
            ctx.run({"name": n + n})
    elif k == "cycle":
        h = 0
        while h < 360:
            ctx.run({"hist": [h] + ["next"] * 3})
            h += p["step"]
        for h in SETS:
            ctx.run({"hist": [h] + ["next"] * 721})
    elif k == "hist":
        alpha = ["next", "rgb", "name"] + SETS
        for d in range(p["depth"]):
            for t in product(alpha, repeat=d):
                if p["depth"] > 4 and d == 4 and t[0] not in ("next", "rgb"):
                    continue
                ctx.run({"hist": [p["first"]] + list(t) + ["next"]})
                ctx.transitions += d + 2
                ctx.traces += 1
    else:
        seen, todo = set(), deque([[]])
        while todo:
            h = todo.popleft()
            for o in ("next", "default", 1, 145.0, 36, 72, 108, 144, 180, 216, 252, 288, 324, 360):
                ctx.run({"hist": h + [o], "key": 1})
                ctx.transitions += 1
                ctx.traces += 1
                if ctx.key not in seen:
                    seen.add(ctx.key)
                    todo.append(h + [o])
        ctx.states += len(seen)


@functools.lru_cache(None)
def rgb(hue):
    """HSL(hue, 50%, 50%) in exact arithmetic; each channel as the set of acceptable roundings (two if it is a tie)."""
    h = F(hue) / 60 % 6
    x = {0: (F(3, 4), F(1, 4) + h / 2, F(1, 4)), 1: (F(3, 4) - (h - 1) / 2, F(3, 4), F(1, 4)), 2: (F(1, 4), F(3, 4), F(1, 4) + (h - 2) / 2),
         3: (F(1, 4), F(3, 4) - (h - 3) / 2, F(3, 4)), 4: (F(1, 4) + (h - 4) / 2, F(1, 4), F(3, 4)), 5: (F(3, 4), F(1, 4), F(3, 4) - (h - 5) / 2)}[int(h)]
    out = []
    for v in x:
        v *= 255
        lo = v.numerator // v.denominator
        out.append({lo, lo + 1} if abs(v - lo - F(1, 2)) < F(1, 10**9) else {lo + int(v - lo > F(1, 2))})
    return out


SNAP = None


def check_case(case, ctx):
    global SNAP
    if SNAP is None:
        SNAP = state.ModuleState()
    if "name" in case:
        n = case["name"]
        try:
            c = Color.fromName(n)
        except ValueError:
            c = "ValueError"
        ok = n.lower() in COLORS
        if ok:
            ctx.nontriv()
            want = COLORS[n.lower()]
            ctx.outcome("keyword")
            if not isinstance(c, Color):
                return f"the colour {n!r} gives {c}"
            got = (c.red, c.green, c.blue)
            return None if got == tuple(int(want[i:i + 2], 16) for i in (0, 2, 4)) else f"the colour {n!r} is {got}, not #{want}"
        want = "ValueError" if n.isalpha() else None
        ctx.outcome(f"{want}")
        return None if c == want else f"the colour {n!r} gives {c}, expected {want}"
    SNAP.restore()
    try:
        hue = F(0)
        for o in case["hist"]:
            if o == "next":
                hue = (hue + 73) % 360
                c = Color.randomHSLColor()
                got = (c.red, c.green, c.blue)
                if not isinstance(c, Color) or any(g not in w for g, w in zip(got, rgb(hue))):
                    return f"history {case['hist'][:12]}...: the colour at hue {float(hue)} is {got}, expected one of {rgb(hue)}"
                ctx.nontriv()
            elif o == "rgb":
                c = Color.randomRGBColor()
                if any(not isinstance(v, int) or not 0 <= v <= 255 for v in (c.red, c.green, c.blue)):
                    return f"a random colour is {(c.red, c.green, c.blue)}"
            elif o == "name":
                Color.fromName("teal")
            elif o == "default":
                Color.setCurrentHue()
                hue = F(0)
            else:
                Color.setCurrentHue(o)
                hue = F(o)
        ctx.outcome(f"history of {len(case['hist'])}" if len(case["hist"]) < 8 else "long history")
        ctx.key = (float(hue), hash(state.module_dump('PathLib.Color'))) if 'key' in case else None
        return None
    finally:
        SNAP.restore()
