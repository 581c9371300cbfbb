"""C21: matrix inversion is right or refuses - all small matrices over integer alphabets, structured larger ones, against exact elimination."""
from fractions import Fraction as F
from itertools import permutations, product
from PathLib.MatrixInversion import matrixInvert
from PathLib.CurveFitting import multiply

ID, LEVEL = "C21", "exploration"
RULE = ("every 1x1, 2x2, 3x3 (thorough: and 4x4) matrix over small alphabets, all row permutations of triangular and badly scaled matrices up to 6x6, larger ones (to 8x8, thorough 10x10) with up to two row exchanges, "
        "rank-deficient constructions with rounding-sensitive entries, non-square shapes; non-trivial = a row exchange or a singular matrix is involved")

ALPHA = {1: (0, 1, -2, 0.5, 3, 1e-9, 1e9), 2: (0, 1, -1, 2, 0.1, -3, 1e-7), 3: (0, 1, -2), "3b": (0, 1, -1, 3)}
SCALE = [1, 1e-8, 1e6, -0.3, 1 / 3, 7]


def shards(tier):
    out = [("small", {"k": "small"})]
    out += [(f"3-{v}", {"k": "all", "n": 3, "al": "3", "first": v}) for v in ALPHA[3]]
    out += [(f"perm-{n}", {"k": "perm", "n": n}) for n in (2, 3, 4, 5)] + [(f"swaps-{n}", {"k": "swaps", "n": n}) for n in ((6, 7, 8) if tier == "quick" else (7, 8, 9, 10))] + [(f"wide-{n}", {"k": "wide", "n": n}) for n in ((10, 11, 12, 16, 43) if tier == "quick" else (*range(10, 21), 43, 60))] + [("rank", {"k": "rank"}), ("tiny", {"k": "tiny"}), ("shape", {"k": "shape"})]
    out += [(f"4-{v}", {"k": "all4", "first": v, "al": (0, 1) if tier == "quick" else (0, 1), "step": 4 if tier == "quick" else 1}) for v in range(4)]
    if tier != "quick":
        out += [(f"3b-{v}-{w}", {"k": "all", "n": 3, "al": "3b", "first": v, "second": w}) for v in ALPHA["3b"] for w in ALPHA["3b"]]
        out += [(f"perm6-{i}", {"k": "perm", "n": 6, "part": i}) for i in range(6)]
        out += [(f"4x-{v}-{w}", {"k": "all4x", "a": v, "b": w}) for v in (0, 1, -2) for w in (0, 1, -2)]
    return out


def rows(v, n):
    return [list(v[i * n:i * n + n]) for i in range(n)]


def base(n, kind):
    if kind == "tri":
        return [[(i * 7 + j * 3) % 5 + 1 if j >= i else 0 for j in range(n)] for i in range(n)]
    if kind == "scaled":
        return [[((i * 5 + j * 3) % 7 - 2 + (3 if i == j else 0)) * SCALE[i % len(SCALE)] for j in range(n)] for i in range(n)]
    if kind == "columns":
        return [[((i * 3 + j * 5) % 7 - 3 + (4 if i == j else 0)) * SCALE[j % len(SCALE)] for j in range(n)] for i in range(n)]
    if kind == "hilbert":
        return [[1 / (i + j + 1) for j in range(n)] for i in range(n)]
    if kind == "unit":
        return [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    if kind == "vander":
        return [[(i / max(1, n - 1)) ** j for j in range(n)] for i in range(n)]


def explore(p, ctx):
    k = p["k"]
    if k == "small":
        for n in (1, 2):
            for v in product(ALPHA[n], repeat=n * n):
                ctx.run({"M": rows(v, n)})
    elif k == "all":
        a = ALPHA[3] if p["al"] == "3" else ALPHA["3b"]
        head = (p["first"],) + ((p["second"],) if "second" in p else ())
        for v in product(a, repeat=9 - len(head)):
            ctx.run({"M": rows(head + v, 3)})
    elif k == "all4":
        for n, v in enumerate(product(p["al"], repeat=14)):
            if n % p["step"] == 0:
                ctx.run({"M": rows((p["first"] & 1, p["first"] >> 1) + v, 4)})
    elif k == "all4x":
        # two dense rows, two sparse ones
        for v in product((0, 1, -2), repeat=8):
            ctx.run({"M": [[p["a"], v[0], v[1], v[2]], [0, p["b"], v[3], 1], [v[4], 2, 0, v[5]], [1, v[6], -1, v[7]]]})
    elif k == "perm":
        for kind in ("tri", "scaled", "columns", "hilbert", "unit", "vander"):
            m = base(p["n"], kind)
            for n, q in enumerate(permutations(range(p["n"]))):
                if "part" not in p or q[0] == p["part"]:
                    ctx.run({"M": [m[i] for i in q]})
    elif k == "swaps":
        # larger matrices: at most two exchanges of rows, all turns, upside down
        n = p["n"]
        pairs = [(i, j) for i in range(n) for j in range(i)]
        qs = {tuple(range(n)), tuple(range(n))[::-1]} | {tuple((i + r) % n for i in range(n)) for r in range(n)}
        for a in pairs:
            for b in pairs:
                q = list(range(n))
                for i, j in (a, b):
                    q[i], q[j] = q[j], q[i]
                qs.add(tuple(q))
        for kind in ("tri", "scaled", "columns", "hilbert", "unit", "vander"):
            m = base(n, kind)
            for q in sorted(qs):
                ctx.run({"M": [m[i] for i in q]})
    elif k == "wide":
        # larger still: every exchange of one pair of rows, and every row made a multiple of another in turn
        n = p["n"]
        if n > 40:
            for m in (base(n, "unit"), [[1 if j in (i, i + 1) else 0 for j in range(n)] for i in range(n)], [[2 if i == j else 1 if j == 0 else 0 for j in range(n)] for i in range(n)]):
                for c in (m, m[::-1], m[5:] + m[:5], m[:-1] + [m[0]]):
                    ctx.run({"M": c})
            return
        m = base(n, "scaled")
        for kind in ("tri", "scaled", "unit"):
            m = base(n, kind)
            ctx.run({"M": m})
            ctx.run({"M": m[::-1]})
            for i in range(n):
                j = (i * 5 + 3) % n
                ctx.run({"M": m[i:] + m[:i]})
                for j in {j, n - 1, 0, (i + 1) % n} - {i}:
                    c = [list(r) for r in m]
                    c[i], c[j] = c[j], c[i]
                    ctx.run({"M": c})
                    c = [list(r) for r in m]
                    c[i] = [2 * x for x in m[j]]
                    ctx.run({"M": c})
                    c = [list(r) for r in m]
                    for r in c:
                        r[i] = r[j]
                    ctx.run({"M": c})
    elif k == "tiny":
        # triangular and diagonal matrices whose pivots are tiny but not zero: there is no row to exchange
        for n in (1, 2, 3, 4):
            for v in product((1, 1e-5, -1e-7, 1e-10, 1e-13, 1e-20) if n < 4 else (1, 1e-7, -1e-13), repeat=n):
                for up in (0, 1, -2):
                    ctx.run({"M": [[v[i] if i == j else up if j > i else 0 for j in range(n)] for i in range(n)]})
                    if up:
                        ctx.run({"M": [[v[i] if i == j else up if j < i else 0 for j in range(n)] for i in range(n)]})
    elif k == "rank":
        for n in (2, 3, 4, 5):
            for kind in ("scaled", "columns", "hilbert", "vander", "tri"):
                m = base(n, kind)
                for i in range(n):
                    for j in range(n):
                        if i != j:
                            for f in (1, -2, 0.5, 4):          # exact in binary: the row really is a multiple
                                c = [list(r) for r in m]
                                c[i] = [f * x for x in m[j]]
                                ctx.run({"M": c})
                            c = [list(r) for r in m]
                            for r in c:
                                r[i] = r[j]
                            ctx.run({"M": c})
                            c = [list(r) for r in m]
                            c[i] = [0] * n
                            ctx.run({"M": c})
        # very large and very small matrices, rows and columns
        for n in (2, 3, 4):
            for kind in ("tri", "scaled", "columns", "vander"):
                m = base(n, kind)
                for sing in (False, True):
                    if sing:
                        m = [list(r) for r in m]
                        m[n - 1] = [2 * x for x in m[0]]
                    for e in (-200, -60, -45, -20, 20, 45, 60, 200):
                        s = 2.0 ** e
                        ctx.run({"M": [[x * s for x in r] for r in m]})
                        for i in range(n):
                            ctx.run({"M": [[x * s for x in r] if j == i else list(r) for j, r in enumerate(m)]})
                            ctx.run({"M": [[x * s if j == i else x for j, x in enumerate(r)] for r in m]})
        # only a very small (large) number can be exchanged for the 0 on the diagonal
        for n in (2, 3, 4, 5):
            m = base(n, "tri")
            for e in (-200, -60, -45, -20, 20, 60, 200):
                s = 2.0 ** e
                for r in range(1, n):
                    c = [list(m[(i + r) % n]) for i in range(n)]
                    ctx.run({"M": [[x * s if j == 0 else x for j, x in enumerate(q)] for q in c]})
                    ctx.run({"M": [[x * s if j == n - 1 else x for j, x in enumerate(q)] for q in c]})
                    ctx.run({"M": [[x * s for x in q] for q in c]})
                    for i in range(n):
                        ctx.run({"M": [[x * s for x in q] if k == i else q for k, q in enumerate(c)]})
        for k in range(1, 40):
            ctx.run({"M": [[0.1 * k, 0.3 * k], [0.1, 0.3]]})
            ctx.run({"M": [[k, k + 1, k + 2], [k + 3, k + 4, k + 5], [k + 6, k + 7, k + 8]]})
            ctx.run({"M": [[0.1, 0.2, 0.3], [0.4, 0.5, 0.6], [0.7, 0.8, 0.9 + 2.0 ** -k]]})
            ctx.run({"M": [[2.0 ** -k, 1], [1, 1]]})
            ctx.run({"M": [[1, 1], [1, 1 + 2.0 ** -k]]})
            ctx.run({"M": [[10.0 ** -k, 0, 1], [0, 10.0 ** k, 1], [1, 1, 0]]})
    else:
        for r in range(1, 6):
            for c in range(1, 6):
                ctx.run({"M": [[(i * 3 + j * j) % 7 for j in range(c)] for i in range(r)]})
                ctx.run({"M": [[1 if i == j else 0 for j in range(c)] for i in range(r)]})


def invert(M):
    """Exact inverse, or None; and whether a row exchange was needed."""
    n = len(M)
    a = [[F(x) for x in r] + [F(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    swapped = False
    for i in range(n):
        k = next((k for k in range(i, n) if a[k][i] != 0), None)
        if k is None:
            return None, swapped
        if k != i:
            a[i], a[k] = a[k], a[i]
            swapped = True
        if a[i][i] != 1:
            e = a[i][i]
            a[i] = [x / e for x in a[i]]
        for k in range(n):
            if k != i and a[k][i]:
                e = a[k][i]
                a[k] = [x - e * y for x, y in zip(a[k], a[i])]
    return [r[n:] for r in a], swapped


def check_case(case, ctx):
    M = [list(r) for r in case["M"]]
    keep = [list(r) for r in M]
    got = matrixInvert(M)
    if M != keep or any(type(a) is not type(b) for r, s in zip(M, keep) for a, b in zip(r, s)):
        return f"the argument {keep} was changed to {M}"
    if any(len(r) != len(M) for r in M):
        ctx.outcome("not square")
        return None if got is None else f"{M} is not square, but {got} is returned"
    want, swapped = invert(M)
    if swapped or want is None:
        ctx.nontriv()
    ctx.outcome(f"{len(M)}x{len(M)} " + ("singular" if want is None else "needs a row exchange" if swapped else "regular"))
    if want is None:
        return None if got is None else f"{M} is singular, but {got} is returned"
    if got is None:
        return f"{M} is not singular, but nothing is returned"
    n = len(M)
    if len(got) != n or any(len(r) != n for r in got):
        return f"the inverse of {M} has the wrong shape: {got}"
    # allowed error: rounding, amplified by the condition of the matrix, in each element
    norm = lambda A: max(sum(abs(x) for x in r) for r in A)
    k = norm([[F(x) for x in r] for r in M]) * norm(want)
    if k > 10**13:
        ctx.outcome("too ill-conditioned for floats to be compared")
        return None
    tol = F(1, 10**14) * k * norm(want) * 4
    for i in range(n):
        for j in range(n):
            if abs(F(got[i][j]) - want[i][j]) > tol:
                return f"element {i},{j} of the inverse of {M} is {got[i][j]}, not {float(want[i][j])}"
    prod = multiply(M, got)
    for i in range(n):
        for j in range(n):
            if abs(prod[i][j] - (i == j)) > 1e-13 * max(1, k) * 10 + F(1, 10**15) * max(abs(F(x)) for x in M[i]) * max(abs(r[j]) for r in want):
                return f"{M} times its inverse is {prod}"
    return None
