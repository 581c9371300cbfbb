"""Reference geometry, written independently of PathLib: exact rationals where it matters.

Curves are sequences of (x, y) pairs of int/float/Fraction/Decimal; everything is converted exactly."""
from fractions import Fraction as F
from math import comb, sqrt, hypot, isfinite
import math


def fr(v):
    return v if isinstance(v, F) else F(v)


def frp(p):
    return (fr(p[0]), fr(p[1]))


def bez(pts, t):
    """Exact Bernstein value (independent of de Casteljau)."""
    n = len(pts) - 1
    t = fr(t)
    s = 1 - t
    w = [comb(n, k) * s ** (n - k) * t ** k for k in range(n + 1)]
    return (sum(wk * fr(p[0]) for wk, p in zip(w, pts)), sum(wk * fr(p[1]) for wk, p in zip(w, pts)))


def bezf(pts, t):
    """Fast float Bernstein evaluation."""
    n = len(pts) - 1
    s = 1.0 - t
    if n == 3:
        a, b, c, d = s * s * s, 3 * s * s * t, 3 * s * t * t, t * t * t
        (x0, y0), (x1, y1), (x2, y2), (x3, y3) = pts
        return (a * x0 + b * x1 + c * x2 + d * x3, a * y0 + b * y1 + c * y2 + d * y3)
    if n == 2:
        a, b, c = s * s, 2 * s * t, t * t
        (x0, y0), (x1, y1), (x2, y2) = pts
        return (a * x0 + b * x1 + c * x2, a * y0 + b * y1 + c * y2)
    x = y = 0.0
    for k, p in enumerate(pts):
        w = comb(n, k) * s ** (n - k) * t ** k
        x += w * float(p[0])
        y += w * float(p[1])
    return (x, y)


def casteljau(pts, t):
    """All levels, exact: [level0, level1, ..., [point]]."""
    t = fr(t)
    lev = [[frp(p) for p in pts]]
    while len(lev[-1]) > 1:
        q = lev[-1]
        lev.append([(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])) for a, b in zip(q, q[1:])])
    return lev


def sub(pts, a, b):
    """Exact control points of the restriction to [a, b] (blossom)."""
    a, b = fr(a), fr(b)
    n = len(pts) - 1
    out = []
    for k in range(n + 1):
        q = [frp(p) for p in pts]
        for u in [b] * k + [a] * (n - k):
            q = [(p[0] + u * (r[0] - p[0]), p[1] + u * (r[1] - p[1])) for p, r in zip(q, q[1:])]
        out.append(q[0])
    return out


def power(vals):
    """Power-basis coefficients (c0..cn) of the 1-D Bernstein polynomial with these coefficients."""
    v = [fr(x) for x in vals]
    n = len(v) - 1
    out = []
    for i in range(n + 1):
        s = sum((-1) ** (i - j) * comb(i, j) * v[j] for j in range(i + 1))
        out.append(comb(n, i) * s)
    return out


def deriv(c):
    return [i * c[i] for i in range(1, len(c))]


def pval(c, t):
    r = 0
    for a in reversed(c):
        r = r * t + a
    return r


def trim(c):
    c = list(c)
    while c and c[-1] == 0:
        c.pop()
    return c


def rsqrt(q):
    """sqrt of a non-negative rational, relative error < 1e-15 even when tiny/huge."""
    if q == 0:
        return 0.0
    n, d = q.numerator, q.denominator
    # scale so that isqrt has >= 60 significant bits
    s = max(0, 128 - (n.bit_length() - d.bit_length()))
    s += s & 1
    return math.ldexp(math.isqrt((n << s) // d), -(s // 2))


def roots_lin_quad(c):
    """Real roots (floats, accurate) of an exact polynomial of degree <= 2; None if identically zero.
    Returns list of (root, kind) with kind 'simple' or 'double'."""
    c = trim(c)
    if not c:
        return None
    if len(c) == 1:
        return []
    if len(c) == 2:
        return [(float(F(-c[0]) / F(c[1])), "simple")]
    a, b, cc = F(c[2]), F(c[1]), F(c[0])
    disc = b * b - 4 * a * cc
    if disc < 0:
        return []
    if disc == 0:
        return [(float(-b / (2 * a)), "double")]
    s = rsqrt(disc)
    q = -(float(b) + (s if b >= 0 else -s)) / 2      # no cancellation
    r = [q / float(a), float(cc) / q if q != 0 else 0.0]
    return [(x, "simple") for x in sorted(r)]


def axis(pts, d):
    return [p[d] for p in pts]


def extrema(pts, d):
    """Interior+boundary parameters where derivative (and for cubics second derivative) vanishes.
    -> (list of (t, kind), constant?)"""
    c = power(axis(pts, d))
    d1 = deriv(c)
    out = []
    r = roots_lin_quad(d1)
    if r is not None:
        out += r
    if len(pts) == 4:
        r2 = roots_lin_quad(deriv(d1))
        if r2 is not None:
            out += r2
    return out


def bbox_axis(pts, d):
    c = power(axis(pts, d))
    vals = [float(fr(pts[0][d])), float(fr(pts[-1][d]))]
    r = roots_lin_quad(deriv(c)) if len(pts) <= 4 else None
    for t, _ in (r or []):
        if 0 < t < 1:
            vals.append(float(pval(c, F(t))))
    return (min(vals), max(vals))


def bbox(pts):
    return (bbox_axis(pts, 0), bbox_axis(pts, 1))


def size(pts):
    """Largest absolute coordinate, at least 1: the scale rounding errors are relative to."""
    return max(1.0, max(abs(float(c)) for p in pts for c in p))


def extent(pts):
    xs = [float(p[0]) for p in pts]
    ys = [float(p[1]) for p in pts]
    return max(max(xs) - min(xs), max(ys) - min(ys))


def dpts(pts):
    n = len(pts) - 1
    return [(n * (fr(b[0]) - fr(a[0])), n * (fr(b[1]) - fr(a[1]))) for a, b in zip(pts, pts[1:])]


def derivative(pts, t):
    return bez(dpts(pts), t)


def speed_min_ratio(pts, n=64):
    """min |B'| / max |B'| over a fine grid and the critical neighbourhoods (floats)."""
    d = [(float(x), float(y)) for x, y in dpts(pts)]
    s = [hypot(*bezf(d, i / n)) for i in range(n + 1)]
    m = max(s)
    return (min(s) / m if m > 0 else 0.0), m


def min_speed(pts):
    """Accurate (min |B'|, max |B'|) on [0,1]: grid plus golden refinement."""
    d = [(float(x), float(y)) for x, y in dpts(pts)]
    n = 64
    s = [hypot(*bezf(d, i / n)) for i in range(n + 1)]
    lo = min(s)
    for i in range(n + 1):
        if (i == 0 or s[i] <= s[i - 1]) and (i == n or s[i] <= s[i + 1]):
            a, b = max(0, i - 1) / n, min(n, i + 1) / n
            for _ in range(40):
                m1, m2 = a + (b - a) * 0.382, a + (b - a) * 0.618
                if hypot(*bezf(d, m1)) <= hypot(*bezf(d, m2)):
                    b = m2
                else:
                    a = m1
            lo = min(lo, hypot(*bezf(d, (a + b) / 2)))
    return lo, max(s)


def inner_speed(pts):
    """(min, max) speed on [0,1], leaving out that it vanishes at an end with a handle on it (of a curve of order 2 or more): there the
    derivative is divided by t (or 1 - t). Equal to min_speed for the other curves."""
    d = [(float(x), float(y)) for x, y in dpts(pts)]
    if d[0] != (0, 0) and d[-1] != (0, 0):
        return min_speed(pts)
    while len(d) > 1 and d[0] == (0, 0):
        n = len(d) - 1
        d = [(x * n / (i + 1), y * n / (i + 1)) for i, (x, y) in enumerate(d[1:])]
    while len(d) > 1 and d[-1] == (0, 0):
        n = len(d) - 1
        d = [(x * n / (n - i), y * n / (n - i)) for i, (x, y) in enumerate(d[:-1])]
    s = [hypot(*(bezf(d, i / 512) if len(d) > 1 else d[0])) for i in range(513)]
    return min(s), max(s)


def raised(pts):
    """The quadratic as a cubic."""
    (a, b), (c, d), (e, f) = [(float(x), float(y)) for x, y in pts]
    return [(a, b), ((a + 2 * c) / 3, (b + 2 * d) / 3), ((e + 2 * c) / 3, (f + 2 * d) / 3), (e, f)]


def end_direction(pts, t):
    """The derivative at t = 0 or 1; where it vanishes, the vector from (to) the end to (from) the next different control point; None if there is none."""
    p = list(pts) if t == 0 else list(pts)[::-1]
    for q in p[1:]:
        if tuple(q) != tuple(p[0]):
            n = len(p) - 1 if q is p[1] else 1
            d = (n * (float(q[0]) - float(p[0][0])), n * (float(q[1]) - float(p[0][1])))
            return d if t == 0 else (-d[0], -d[1])
    return None


def _gauss(n):
    """Gauss-Legendre nodes and weights on [-1, 1] by Newton iteration on the Legendre recurrence."""
    out = []
    for i in range(n):
        x = math.cos(math.pi * (i + 0.75) / (n + 0.5))
        for _ in range(100):
            p0, p1 = 1.0, x
            for k in range(2, n + 1):
                p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
            dp = n * (x * p1 - p0) / (x * x - 1)
            dx = p1 / dp
            x -= dx
            if abs(dx) < 1e-16:
                break
        out.append((x, 2 / ((1 - x * x) * dp * dp)))
    return out


_G = _gauss(16)


def arclen(pts, rel=1e-12):
    """Arc length: Gauss-Legendre on adaptively halved intervals until halving no longer matters."""
    pts = [(float(x), float(y)) for x, y in pts]
    d = [(float(x), float(y)) for x, y in dpts(pts)]
    total = sum(hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(pts, pts[1:]))
    if total == 0:
        return 0.0

    def quad(a, b):
        m, h = (a + b) / 2, (b - a) / 2
        return h * sum(w * hypot(*bezf(d, m + h * x)) for x, w in _G)

    def rec(a, b, whole, tol, depth):
        m = (a + b) / 2
        l, r = quad(a, m), quad(m, b)
        if abs(l + r - whole) <= tol or depth > 48:
            return l + r
        return rec(a, m, l, tol / 2, depth + 1) + rec(m, b, r, tol / 2, depth + 1)

    return rec(0.0, 1.0, quad(0.0, 1.0), rel * total, 0)


def gauss_rho(pts):
    """Bernstein-ellipse parameter of the arc-length integrand: distance of the complex zeros of x' + iy' from [0, 1].
    An n-point Gauss rule errs by about rho^(-2n)."""
    import cmath
    d = dpts(pts)
    cx, cy = power(axis(d, 0)), power(axis(d, 1))
    c = [complex(float(a), float(b)) for a, b in zip(cx, cy)]
    m = max((abs(z) for z in c), default=0)
    while c and abs(c[-1]) <= 1e-13 * m:
        c.pop()
    if len(c) == 2:
        z = [-c[0] / c[1]]
    elif len(c) == 3:
        s = cmath.sqrt(c[1] * c[1] - 4 * c[2] * c[0])
        q = -(c[1] + s) / 2 if abs(c[1] + s) >= abs(c[1] - s) else -(c[1] - s) / 2
        z = [q / c[2]] + ([c[0] / q] if q != 0 else [0j])
    else:
        return math.inf
    out = math.inf
    for t in z:
        w = 2 * t - 1
        r = cmath.sqrt(w * w - 1)
        out = min(out, max(abs(w + r), abs(w - r)))
    return out


def near(a, b, tol):
    return abs(float(a) - float(b)) <= tol


def pnear(p, q, tol):
    return abs(float(p[0]) - float(q[0])) <= tol and abs(float(p[1]) - float(q[1])) <= tol


def dist_point_seg(p, a, b):
    ax, ay = a
    dx, dy = b[0] - ax, b[1] - ay
    L = dx * dx + dy * dy
    t = 0.0 if L == 0 else max(0.0, min(1.0, ((p[0] - ax) * dx + (p[1] - ay) * dy) / L))
    return hypot(p[0] - ax - t * dx, p[1] - ay - t * dy)


def nearest_on_curve(pts, p, n=64, levels=1):
    """(distance, t) of the point of the curve nearest to p: sampling, intervals that cannot hold the minimum (by the largest
    possible speed) discarded, the others sampled again and every local minimum refined."""
    pts = [(float(x), float(y)) for x, y in pts]
    L = max(hypot(float(x), float(y)) for x, y in dpts(pts))

    def d(t):
        x, y = bezf(pts, t)
        return hypot(x - p[0], y - p[1])
    s = [d(i / n) for i in range(n + 1)]
    best = min((v, i / n) for i, v in enumerate(s))
    m, fine = n, dict(enumerate(s))
    for _ in range(levels):
        idx = []
        for i, v in fine.items():
            if i + 1 in fine and (v + fine[i + 1] - L / m) / 2 <= best[0]:
                idx += [i * 8 + k for k in range(9)]
        m *= 8
        fine = {i: d(i / m) for i in sorted(set(idx))}
        best = min(best, min((v, i / m) for i, v in fine.items())) if fine else best
    inf = float("inf")
    for i, v in fine.items():
        if v <= fine.get(i - 1, inf) and v <= fine.get(i + 1, inf) and v - L / m <= best[0]:
            a, b = max(0, i - 1) / m, min(m, i + 1) / m
            for _ in range(44):
                m1, m2 = a + (b - a) * 0.382, a + (b - a) * 0.618
                if d(m1) <= d(m2):
                    b = m2
                else:
                    a = m1
            best = min(best, (d((a + b) / 2), (a + b) / 2))
    return best


# ---------------------------------------------------------------- crossings of two curves

def _halve(p):
    l, r, q = [p[0]], [p[-1]], p
    while len(q) > 1:
        q = [((a[0] + b[0]) / 2, (a[1] + b[1]) / 2) for a, b in zip(q, q[1:])]
        l.append(q[0])
        r.append(q[-1])
    return l, r[::-1]


def _box(p):
    xs = [q[0] for q in p]
    ys = [q[1] for q in p]
    return min(xs), max(xs), min(ys), max(ys)


def _flat(p, eps):
    (ax, ay), (bx, by) = p[0], p[-1]
    n = len(p) - 1
    return all(abs(q[0] - ax - (bx - ax) * k / n) <= eps and abs(q[1] - ay - (by - ay) * k / n) <= eps for k, q in enumerate(p))


def crossings(c1, c2, limit=20000):
    """All isolated common points of two curves: [(t1, t2, point, |sin angle|)], or None when the search exceeds its limit
    (the curves run along each other).  Recursive halving of control polygons, then Newton."""
    c1 = [(float(x), float(y)) for x, y in c1]
    c2 = [(float(x), float(y)) for x, y in c2]
    d1 = [(float(x), float(y)) for x, y in dpts(c1)]
    d2 = [(float(x), float(y)) for x, y in dpts(c2)]
    ext = max(extent(c1), extent(c2))
    eps = ext * 2e-3
    out, work = [], [(c1, 0.0, 1.0, c2, 0.0, 1.0)]
    n = 0
    while work:
        n += 1
        if n > limit:
            return None
        p, a, b, q, c, d = work.pop()
        x0, x1, y0, y1 = _box(p)
        u0, u1, v0, v1 = _box(q)
        if x0 > u1 + eps or u0 > x1 + eps or y0 > v1 + eps or v0 > y1 + eps:
            continue
        fp, fq = _flat(p, eps / 4) and b - a <= 0.13, _flat(q, eps / 4) and d - c <= 0.13
        if fp and fq:
            t, s = (a + b) / 2, (c + d) / 2
            ok = False
            for _ in range(30):
                (px, py), (qx, qy) = bezf(c1, t), bezf(c2, s)
                (ux, uy), (vx, vy) = bezf(d1, t), bezf(d2, s)
                det = -ux * vy + uy * vx
                if det == 0:
                    break
                ex, ey = qx - px, qy - py
                dt = (-ex * vy + ey * vx) / det
                ds = (ux * ey - uy * ex) / det
                dt, ds = max(-.1, min(.1, dt)), max(-.1, min(.1, ds))
                t, s = t + dt, s + ds
                if abs(dt) + abs(ds) < 1e-13:
                    ok = True
                    break
            if ok and -1e-9 <= t <= 1 + 1e-9 and -1e-9 <= s <= 1 + 1e-9:
                (px, py), (qx, qy) = bezf(c1, t), bezf(c2, s)
                if hypot(px - qx, py - qy) <= 1e-9 * ext and not any(abs(t - o[0]) < 1e-7 and abs(s - o[1]) < 1e-7 for o in out):
                    (ux, uy), (vx, vy) = bezf(d1, t), bezf(d2, s)
                    h = hypot(ux, uy) * hypot(vx, vy)
                    out.append((t, s, (px, py), abs(ux * vy - uy * vx) / h if h else 0.0))
            continue
        if not fp and (fq or b - a >= d - c):
            l, r = _halve(p)
            m = (a + b) / 2
            work += [(l, a, m, q, c, d), (r, m, b, q, c, d)]
        else:
            l, r = _halve(q)
            m = (c + d) / 2
            work += [(p, a, b, l, c, m), (p, a, b, r, m, d)]
    return sorted(out)


def self_crossing(pts):
    """For a cubic: the parameter pair (t1 < t2) of its loop crossing on the infinite parameter line, or None."""
    (cx, bx, ax), (cy, by, ay) = (power(axis(pts, d))[1:] for d in (0, 1))
    det = ax * by - ay * bx
    if det == 0:
        return None
    u = F(-cx * by + cy * bx, 1) / det
    s = F(-ax * cy + ay * cx, 1) / det
    disc = s * s - 4 * (s * s - u)
    if disc <= 0:
        return None
    r = rsqrt(disc)
    return ((float(s) - r) / 2, (float(s) + r) / 2)
