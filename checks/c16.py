"""C16: path data describes exactly the contour - every sequence of segment kinds to a length bound, read back by an independent SVG path reader."""
import re
from mc import ref
from PathLib.Bezier import BContour

ID, LEVEL = "C16", "exploration"
RULE = ("every connected sequence of 1..N segments over 13 moves (horizontal/vertical/diagonal/zero-length/closing lines, quadratics and cubics incl. ones "
        "ending where they start) x number alphabets (int, float, negative, tiny, huge, mixed types); long contours (to 2197 segments) of every repeated pattern of one or two moves and with every pair and triple of moves; non-trivial = two or more segments")

XS = {
    "int": ((0, 10, 25), (0, 7, 40)),
    "neg": ((-5, -120, 8), (-33, 4, -2)),
    "float": ((0.1, 33.333333333333336, -7.25), (1 / 3, 2.5, 1e3)),
    "tiny": ((1e-7, 5e-324, -1.5e-12), (0.0, -1e-5, 3e-9)),
    "huge": ((1e22, 123456789012345680.0, -9e300), (10**20, -(10**15) - 1, 1.5e16)),
    "close": ((100.0, 100.00000000000001, 100.0000000003), (-2e-10, 0.0, 7e-11)),
    "mixed": ((0, 1.0, True + 2), (0.0, 5, -0.0 + 7.5)),
    "list": ((0, 10, 25), (3, 7, 40)),
}
MOVES = ["h1", "h2", "v1", "v2", "l1", "l2", "z", "x", "q1", "q0", "c1", "c0", "cz"]


def shards(tier):
    out = []
    for a in XS:
        for k in range(4):
            out.append((f"{a}-{k}", {"a": a, "n": 4 if tier == "quick" else 5, "k": k, "of": 4}))
        out.append((f"{a}-long", {"a": a, "long": 1}))
    return out


def de_bruijn(k, n):
    """A cyclic sequence over 0..k-1 in which every n-tuple occurs."""
    seq, a = [], [0] * (k * n)

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, k):
            a[t] = j
            db(t + 1, t)
    db(1, 1)
    return seq


def explore(p, ctx):
    if "long" in p:
        # long contours: every pattern of one or two moves repeated, contours in which every pair (triple) of moves occurs
        for m in MOVES:
            for w in MOVES:
                for n in (5, 8, 17, 33):
                    ctx.run({"a": p["a"], "m": ([m, w] * n)[:n]})
                    ctx.run({"a": p["a"], "m": [m] * n + [w] * n + [m]})
        for n in (2, 3):
            s = [MOVES[i] for i in de_bruijn(len(MOVES), n)]
            for i in range(0, len(s), len(s) // 13):
                ctx.run({"a": p["a"], "m": s[i:] + s[:i]})
        return
    todo = [[]]
    for d in range(p["n"]):
        nxt = []
        for h in todo:
            for j, m in enumerate(MOVES):
                if d == 0 and j % p["of"] != p["k"]:
                    continue
                g = h + [m]
                ctx.run({"a": p["a"], "m": g})
                nxt.append(g)
        todo = nxt


def build(case):
    xs, ys = XS[case["a"]]
    at = [0, 0]
    P = (lambda i, j: [xs[i % 3], ys[j % 3]]) if case["a"] == "list" else (lambda i, j: (xs[i % 3], ys[j % 3]))
    segs = []
    for n, m in enumerate(case["m"]):
        i, j = at
        p = P(i, j)
        k, a = m[0], m[1:]
        if k == "z":
            q = [P(i, j)]
        elif k == "x":
            q, at = [P(0, 0)], [0, 0]
        elif k in "hvl":
            at = [i + int(a) * (k != "v"), j + int(a) * (k != "h")]
            q = [P(*at)]
        elif k == "q":
            at = [i + 1, j + 1] if a == "1" else at
            q = [P(i + 2, j + 1), P(*at)]
        else:
            at = [i + 2, j] if a == "1" else at
            q = [P(i, j)] * 3 if a == "z" else [P(i, j + 2), P(i + 1, j + 1), P(*at)]
        segs.append([p] + q)
    return segs


NUM = re.compile(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")
WSP = " \t\n\r\f"
NARGS = {"M": 2, "L": 2, "H": 1, "V": 1, "Q": 4, "C": 6, "T": 2, "S": 4, "Z": 0, "A": 7}


class Bad(Exception):
    pass


def read(d):
    """SVG 1.1 path data -> (list of sub-paths, each a list of point lists). Strict about the grammar."""
    i, n = 0, len(d)

    def ws(i):
        while i < n and d[i] in WSP:
            i += 1
        return i
    cmd, cur, start, subs, prev = None, None, None, [], None
    i = ws(i)
    while i < n:
        if d[i].isalpha():
            cmd = d[i]
            if cmd.upper() not in NARGS:
                raise Bad(f"unknown command {cmd!r} at {i}")
            i = ws(i + 1)
            if cmd in "zZ":
                if cur is None:
                    raise Bad("Z first")
                if cur != start:
                    subs[-1].append([cur, start])
                cur = start
                prev = "Z"
                cmd = None
                continue
        elif cmd is None:
            raise Bad(f"number without a command at {i}: {d[max(0, i - 10):i + 10]!r}")
        C, rel = cmd.upper(), cmd.islower()
        args = []
        for k in range(NARGS[C]):
            if args:
                i = ws(i)
                if i < n and d[i] == ",":
                    i = ws(i + 1)
            m = NUM.match(d, i)
            if not m:
                raise Bad(f"{cmd}: number {k + 1} of {NARGS[C]} is missing at {i}: {d[max(0, i - 10):i + 10]!r}")
            args.append(float(m.group()))
            i = m.end()
        i = ws(i)
        if i < n and d[i] == ",":
            i = ws(i + 1)
            if i >= n or d[i].isalpha():
                raise Bad(f"comma before a command at {i}")
        if C != "M" and cur is None:
            raise Bad("path does not begin with M")
        ox, oy = cur if rel and cur is not None else (0.0, 0.0)
        if C == "H":
            pts = [(args[0] + ox, cur[1])]
        elif C == "V":
            pts = [(cur[0], args[0] + oy)]
        else:
            pts = [(args[k] + ox, args[k + 1] + oy) for k in range(0, len(args), 2)]
        if C == "M":
            cur = start = pts[0]
            subs.append([])
            cmd = "l" if rel else "L"
        else:
            if C == "T":
                c = (2 * cur[0] - prev[0], 2 * cur[1] - prev[1]) if isinstance(prev, tuple) and prev[2] == "Q" else cur
                pts = [c] + pts
            if C == "S":
                c = (2 * cur[0] - prev[0], 2 * cur[1] - prev[1]) if isinstance(prev, tuple) and prev[2] == "C" else cur
                pts = [c] + pts
            subs[-1].append([cur] + pts)
            prev = (pts[-2][0], pts[-2][1], "Q" if len(pts) == 2 else "C") if len(pts) > 1 else None
            cur = pts[-1]
    return subs


def nonzero(segs):
    return [s for s in segs if len(s) > 2 or s[0] != s[1]]


def compare(d, segs, tol=0):
    try:
        subs = read(d)
    except Bad as e:
        return f"{d!r} is not valid path data: {e}"
    if len(subs) != 1:
        return f"{d!r} has {len(subs)} sub-paths"
    want = nonzero([[(float(x), float(y)) for x, y in s] for s in segs])
    got = nonzero(subs[0])
    if got != want and not (tol and [len(s) for s in got] == [len(s) for s in want] and all(abs(a - b) <= tol * max(1, abs(b)) for g, w in zip(got, want) for p, q in zip(g, w) for a, b in zip(p, q))):
        return f"{d!r} draws {got}, the contour is {want}"
    if not got and not d.startswith(("M", "m")):
        return f"{d!r} does not start with M"
    return None


def check_case(case, ctx):
    segs = build(case)
    before = [[tuple(p) for p in s] for s in segs]
    bc = BContour(segs)
    d = bc.d()
    if len(segs) > 1:
        ctx.nontriv()
    ctx.outcome(re.sub(r"[^A-Z ]|(?<=\d) (?=\S)", "", re.sub(NUM, "", d))[:4])
    if before != [[tuple(p) for p in s] for s in segs]:
        return "d() changed the contour"
    if bc.d() != d:
        return "a second call of d() answers differently"
    if len(segs) < 3:
        # (the options are accepted, but the path is the same)
        for kw in ({"useSandT": True}, {"rel": True}, {"useSandT": True, "rel": True}):
            r = compare(bc.d(**kw), before, 1e-9)
            if r:
                return f"with {kw}: {r}"
    return compare(d, before)
