"""C22: curve fitting interpolates the data, and its tables are exact whatever was asked before."""
from collections import deque
from fractions import Fraction as F
from itertools import product
from math import comb, hypot
from mc import ref, state
from PathLib import CurveFitting as CF

ID, LEVEL = "C22", "model_checking"
RULE = ("breadth-first search over the states of the shared binomial table under all requests (fixpoint), every request answered in every state; "
        "every list of 2-4 (thorough: 5, 6) points over a lattice with distinct neighbours fitted with chord-length and uniform times; products and "
        "transposes of all small matrices; non-trivial = the table grows, or three or more points")

LAT = [(0, 0), (10, 0), (0, 15), (40, 35), (-20, 5), (7, -60)]
FAR = [(0, 0), (10000, 0), (10001, 0), (10001, 0.002), (-70000, 5)]
REQ = [("binomial", n, k) for n in (0, 1, 5, 6, 7, 8, 9, 12, 16) for k in sorted({0, 1, n // 2, n}) if k <= n] + [("basis", n) for n in (1, 2, 4, 7, 8, 9, 12)] + [("binomial", 33, 16), ("binomial", 70, 35), ("binomial", 70, 67), ("basis", 45)]
REQ_T = [("binomial", n, k) for n in range(0, 24) for k in sorted({0, 1, n // 2, n}) if k <= n] + [("basis", n) for n in range(1, 18)]


def shards(tier):
    q = tier == "quick"
    out = [("table", {"k": "table", "big": not q}), ("matrix", {"k": "matrix"}), ("time", {"k": "time"}), ("order", {"k": "order", "n": 3 if q else 4})]
    out += [(f"fit-{n}-{i}", {"k": "fit", "n": n, "i": i}) for n in ((2, 3, 4, 5) if q else (2, 3, 4, 5, 6)) for i in range(6)]
    out += [(f"long-{i}", {"k": "long", "n": 7 + i}) for i in range(6 if q else 10)]
    out += [(f"least-{n}-{i}", {"k": "least", "n": n, "i": i}) for n in ((3, 4) if q else (3, 4, 5)) for i in range(6)] + [("least-long", {"k": "least-long", "n": 9 if q else 14})]
    return out


def explore(p, ctx):
    k = p["k"]
    if k == "table":
        req = REQ_T if p["big"] else REQ
        seen, todo = set(), deque([[]])
        while todo:
            h = todo.popleft()
            for r in req:
                ctx.run({"k": "req", "hist": h, "q": list(r), "upto": 26 if p["big"] else 18})
                ctx.transitions += 1
                ctx.traces += 1
                if ctx.key not in seen:
                    seen.add(ctx.key)
                    todo.append(h + [list(r)])
        ctx.states += len(seen)
    elif k == "order":
        # every order of growing requests, without merging states
        sizes = [("binomial", n, n // 2) for n in (6, 7, 9, 10, 14)] + [("basis", n) for n in (8, 11)]
        for d in range(1, p["n"] + 1):
            for h in product(sizes, repeat=d):
                ctx.run({"k": "req", "hist": [list(x) for x in h[:-1]], "q": list(h[-1]), "upto": 16})
                ctx.transitions += 1
                ctx.traces += 1
    elif k == "matrix":
        al = (0, 1, -2, 0.5)
        for r, m, c in product((1, 2), (1, 2), (1, 2)):
            for v in product(al, repeat=r * m + m * c):
                ctx.run({"k": "mul", "a": [list(v[i * m:i * m + m]) for i in range(r)], "b": [list(v[r * m + i * c:r * m + i * c + c]) for i in range(m)]})
        for r, m, c in product((1, 2, 3, 4, 5), repeat=3):
            for s in range(3):
                f = lambda i, j: (i * 5 + j * 3 + s * 4) % 11 - 5
                ctx.run({"k": "mul", "a": [[f(i, j) for j in range(m)] for i in range(r)], "b": [[f(j, i) * 0.25 for j in range(c)] for i in range(m)]})
        for r, m, c in ((1, 64, 1), (64, 1, 2), (2, 3, 64), (43, 44, 45), (12, 12, 12)):
            for s in range(3):
                f = lambda i, j: (i * 5 + j * 3 + s * 4) % 11 - 5
                ctx.run({"k": "mul", "a": [[f(i, j) for j in range(m)] for i in range(r)], "b": [[f(j, i) * 0.25 for j in range(c)] for i in range(m)]})
    elif k == "time":
        for n in (2, 3, 4):
            for pts in product(LAT, repeat=n):
                if all(a != b for a, b in zip(pts, pts[1:])):
                    for poly in (True, False):
                        ctx.run({"k": "time", "p": pts, "poly": poly})
        for n in (2, 3, 4, 5):
            for pts in product(FAR, repeat=n):
                if all(a != b for a, b in zip(pts, pts[1:])):
                    ctx.run({"k": "time", "p": pts, "poly": True})
        for n in range(5, 131):
            for m in range(3):
                pts = [((i * (7 + m)) % 31, (i * i * (3 + m)) % 23 + (i % 2) / 4) for i in range(n)]
                if all(a != b for a, b in zip(pts, pts[1:])):
                    for poly in (True, False):
                        ctx.run({"k": "time", "p": pts, "poly": poly})
        for n in (20, 50, 90):
            for size in (1, 4, 20, 50):
                ctx.run({"k": "tm", "s": [i / (n - 1) for i in range(n)], "n": size})
        for n in range(1, 8):
            for s in ([i / max(1, n - 1) for i in range(n)], [(i * 0.37) % 1 for i in range(n)]):
                for size in range(1, 8):
                    ctx.run({"k": "tm", "s": s, "n": size})
    elif k == "fit":
        for pts in product(LAT, repeat=p["n"] - 1):
            pts = (LAT[p["i"]],) + pts
            if all(a != b for a, b in zip(pts, pts[1:])):
                for poly in (True, False):
                    ctx.run({"k": "fit", "p": pts, "poly": poly})
                    ctx.traces += 1
    elif k == "least":
        for pts in product(LAT, repeat=p["n"] - 1):
            pts = (LAT[p["i"]],) + pts
            if all(a != b for a, b in zip(pts, pts[1:])):
                for n in range(1, p["n"] + 1):
                    for poly in (True, False):
                        ctx.run({"k": "least", "p": pts, "n": n, "poly": poly})
    elif k == "least-long":
        for m in range(5, p["n"] + 1):
            for n in range(1, min(m, 7)):
                for s in range(12):
                    ctx.run({"k": "least", "n": n, "p": [(i * 20 + (i * i * (s + 3)) % 7, (i * (s + 5) * 13) % 60 - 10) for i in range(m)], "poly": s % 2 == 0})
    else:
        n = p["n"]
        for s in range(12):
            ctx.run({"k": "fit", "p": [(i * 20 + (i * i * (s + 3)) % 7, (i * (s + 5) * 13) % 60 - 10) for i in range(n)], "poly": s % 2 == 0})


SNAP = None


def request(r):
    return CF.binomial(r[1], r[2]) if r[0] == "binomial" else CF.basisMatrix(r[1])


def basis(n):
    """Exact: the coefficient of t^r in the Bernstein polynomial c of degree n-1."""
    k = n - 1
    return [[comb(k, c) * comb(k - c, r - c) * (-1) ** (r - c) if r >= c else 0 for c in range(n)] for r in range(n)]


def req_problem(r, got):
    want = comb(r[1], r[2]) if r[0] == "binomial" else basis(r[1])
    return None if got == want else f"{r} gives {got}, not {want}"


def check_case(case, ctx):
    global SNAP
    if SNAP is None:
        SNAP = state.ModuleState()
    k = case["k"]
    if k == "req":
        SNAP.restore()
        try:
            before = state.module_dump()
            for r in case["hist"] + [case["q"]]:
                p = req_problem(r, request(r))
                if p:
                    return f"after {case['hist']}: {p}"
            ctx.key = hash(state.module_dump())
            if state.module_dump() != before:
                ctx.nontriv()
            ctx.outcome(case["q"][0])
            # what anybody asks next
            for n in range(case["upto"]):
                for i in range(n + 1):
                    p = req_problem(["binomial", n, i], CF.binomial(n, i))
                    if p:
                        return f"after {case['hist'] + [case['q']]}: {p}"
            return None
        finally:
            SNAP.restore()
    if k == "mul":
        a, b = [list(r) for r in case["a"]], [list(r) for r in case["b"]]
        want = [[sum(F(x) * F(y) for x, y in zip(r, c)) for c in zip(*b)] for r in a]
        got = CF.multiply(a, b)
        ctx.outcome("product")
        ctx.nontriv()
        if (a, b) != (case["a"], case["b"]):
            return "multiply changed its arguments"
        if got != want:
            return f"{a} * {b} is {got}"
        for m in (a, b):
            t = CF.transpose(m)
            if t != [list(c) for c in zip(*m)] or m not in (case["a"], case["b"]):
                return f"the transpose of {m} is {t}"
            for i in range(len(m)):
                if CF.row(m, i) != m[i]:
                    return f"row {i} of {m} is {CF.row(m, i)}"
            for i in range(len(m[0])):
                if CF.col(m, i) != [r[i] for r in m]:
                    return f"column {i} of {m} is {CF.col(m, i)}"
        return None
    if k == "tm":
        s, n = case["s"], case["n"]
        tt, t = CF.formTMatrix(list(s), n)
        ctx.outcome("T matrix")
        if n == len(s) and CF.formTMatrix(list(s)) != (tt, t):
            return f"formTMatrix({s}) is not the one of {n} columns"
        want = [[F(v) ** i for v in s] for i in range(n)]
        ok = lambda g, w: len(g) == len(w) and all(len(a) == len(b) and all(abs(F(x) - y) <= F(1, 10**14) for x, y in zip(a, b)) for a, b in zip(g, w))
        return None if ok(tt, want) and ok(t, [list(c) for c in zip(*want)]) else f"formTMatrix({s}, {n}) is {tt}, {t}"
    pts = [tuple(p) for p in case["p"]]
    n = len(pts)
    if k == "time":
        ctx.outcome("times")
        s = CF.computeTimeValues(pts, polygonal=case["poly"])
        if case["poly"] and CF.computeTimeValues(list(pts)) != s:
            return f"computeTimeValues({pts}) are not the chord-length times"
        if CF.computeTimeValues(list(pts), n, case["poly"]) != s:
            return f"computeTimeValues({pts}, {n}, {case['poly']}) differs from computeTimeValues({pts}, polygonal={case['poly']})"
        return times_problem(pts, case["poly"], s)
    if k == "least":
        return least_problem(pts, case["n"], case["poly"], ctx)
    # ---- fit
    arg = list(pts)
    res = CF.fit(arg, case["poly"])
    if case["poly"] and CF.fit(list(pts)) != res:
        return f"fit({pts}) is not the fit with chord-length times"
    if arg != pts:
        return "fit changed the points"
    points, m, s, (cx, cy) = res
    if [tuple(p) for p in points] != pts or m != basis(n):
        return f"fit returns points {points}, basis {m}"
    p = times_problem(pts, case["poly"], s)
    if p:
        return p
    if len(cx) != n or len(cy) != n or any(len(r) != 1 for r in cx + cy):
        return f"the fitted control points are {cx}, {cy}"
    ctrl = [(cx[i][0], cy[i][0]) for i in range(n)]
    if n > 2:
        ctx.nontriv()
    # rounding is amplified by the condition of the interpolation problem
    k2 = condition(tuple(s)) * 1e-16 * 50
    size = max(max(abs(x), abs(y)) for x, y in pts) or 1
    tol = max(1e-9, k2) * size
    if k2 > 1e-2:
        ctx.outcome(f"{n} points, too ill-conditioned")
        return None
    ctx.outcome(f"{n} points, " + ("chord-length" if case["poly"] else "uniform"))
    for q, t in zip(pts, s):
        b = ref.bezf(ctrl, t)
        if not ref.pnear(b, q, tol):
            return f"the curve fitted to {pts} with control points {ctrl} is at {b} at {t}, not at {q}"
    if not ref.pnear(ctrl[0], pts[0], tol) or not ref.pnear(ctrl[-1], pts[-1], tol):
        return f"the curve fitted to {pts} goes from {ctrl[0]} to {ctrl[-1]}"
    return None


LEAST = {}


def least(s, n):
    """The exact matrix that takes the data to the control points of the least-squares curve, and how much rounding is amplified."""
    if (s, n) not in LEAST:
        from checks.c21 import invert
        T = [[F(v) ** i for i in range(n)] for v in s]
        Tt = [list(c) for c in zip(*T)]
        mul = lambda A, B: [[sum(x * y for x, y in zip(r, c)) for c in zip(*B)] for r in A]
        norm = lambda A: float(max(sum(abs(x) for x in r) for r in A))
        A = mul(Tt, T)
        inv = invert(A)[0]
        M1 = invert([[F(x) for x in r] for r in basis(n)])[0]
        if len(LEAST) > 200:
            LEAST.clear()
        LEAST[s, n] = (mul(mul(M1, inv), Tt), norm(A) * norm(inv) * norm(M1) * norm(Tt)) if inv else (None, 1e30)
    return LEAST[s, n]


def least_problem(pts, n, poly, ctx):
    s = CF.computeTimeValues(list(pts), polygonal=poly)
    arg, sa, ma = list(pts), list(s), CF.basisMatrix(n)
    cx, cy = CF.bestFit(arg, ma, sa, n)
    if n == len(pts) and CF.bestFit(list(pts), CF.basisMatrix(n), list(s)) != (cx, cy):
        return f"bestFit without a number of control points is not the one with {n}"
    if arg != pts or sa != s or ma != basis(n):
        return f"bestFit changed its arguments"
    if len(cx) != n or len(cy) != n or any(len(r) != 1 for r in cx + cy):
        return f"the fitted control points are {cx}, {cy}"
    A, c = least(tuple(s), n)
    if c * 1e-14 > 1e-3:
        ctx.outcome("least squares, too ill-conditioned")
        return None
    if n < len(pts):
        ctx.nontriv()
    ctx.outcome(f"least squares, {n} control points for {len(pts)} points")
    size = max(max(abs(x), abs(y)) for x, y in pts) or 1
    for d, got in ((0, cx), (1, cy)):
        want = [sum(a * F(p[d]) for a, p in zip(r, pts)) for r in A]
        worst = max(abs(F(g[0]) - w) for g, w in zip(got, want))
        if worst > F(max(1e-11, c * 1e-14) * size):
            return f"the curve of order {n - 1} closest to {pts} at {s} has the {'xy'[d]} coordinates {list(map(float, want))}, not {[g[0] for g in got]} ({float(worst / F(size)) / c})"
    return None


COND = {}


def condition(s):
    if s not in COND:
        from checks.c21 import invert
        V = [[F(v) ** i for i in range(len(s))] for v in s]
        inv = invert(V)[0]
        norm = lambda A: float(max(sum(abs(x) for x in r) for r in A))
        COND[s] = norm(V) * norm(inv) if inv else 1e30
    return COND[s]


def times_problem(pts, poly, s):
    n = len(pts)
    if len(s) != n:
        return f"{len(s)} time values for {n} points"
    if poly:
        acc = [0.0]
        for a, b in zip(pts, pts[1:]):
            acc.append(acc[-1] + hypot(b[0] - a[0], b[1] - a[1]))
        want = [v / acc[-1] for v in acc]
    else:
        want = [i / (n - 1) for i in range(n)]
    if s[0] != 0 or s[-1] != 1 or any(abs(a - b) > 1e-12 for a, b in zip(s, want)):
        return f"the time values of {pts} are {s}, not {want}"
    return None
