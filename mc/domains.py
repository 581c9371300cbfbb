"""Finite alphabets of control polygons, enumerated completely and in a fixed order (simplest first)."""
from itertools import product
import math

# 3x3 lattice with unequal steps: every coincidence / collinearity / ordering pattern of up to 4 points occurs
LX, LY = (0, 10, 40), (0, 15, 35)
LAT9 = [(x, y) for x in LX for y in LY]
LAT4 = [(0, 0), (10, 0), (0, 15), (10, 15)]
LAT16 = [(x, y) for x in (-20, 0, 10, 50) for y in (-35, 0, 5, 60)]


def lattice(order, lat=LAT9):
    return product(lat, repeat=order + 1)


STEEP = (0, 1, -9, 1000, -40000)


def steep(orders=(2, 3), values=STEEP):
    """Curves with coordinates of very different size: each axis takes every sequence of the values once
    (both axes run through the sequences, the second one from a different place)."""
    for o in orders:
        seqs = list(product(values, repeat=o + 1))
        for i, xs in enumerate(seqs):
            yield list(zip(xs, seqs[(i * 7 + 3) % len(seqs)]))


def steep_shards(tier, thin=2, n=4):
    return [(f"steep-{i}", {"kind": "steep", "k": "steep", "map": "id", "i": i, "n": n, "thin": thin if tier == "quick" else 1}) for i in range(n)]


def steep_part(p):
    for j, c in enumerate(steep()):
        if j % p["n"] == p["i"] and (j // p["n"]) % p["thin"] == 0 and len(set(c)) > 1:
            yield c


# A core set of generic shapes per order (distinct topologies), reused under many affine images
CORE = {
    1: [((0, 0), (10, 0)), ((0, 0), (0, 10)), ((0, 0), (30, 40)), ((30, 40), (0, 0)), ((5, 5), (-7, 9)), ((10, 3), (-20, 3))],
    2: [((0, 0), (50, 100), (100, 0)), ((0, 0), (0, 60), (80, 60)), ((10, 90), (50, -30), (110, 80)), ((0, 0), (30, 0), (60, 50)),
        ((0, 0), (100, 10), (20, 40)), ((70, 250), (20, 110), (220, 60)), ((0, 0), (20, 10), (40, 20)), ((80, 20), (10, 30), (0, 90)),
        ((0, 0), (0, 0), (50, 70)), ((0, 0), (60, 20), (0, 0)), ((0, 0), (90, 0), (10, 0))],
    3: [((0, 0), (30, 60), (70, 60), (100, 0)), ((0, 0), (0, 55), (45, 100), (100, 100)), ((0, 0), (100, 50), (0, 100), (100, 150)),
        ((110, 150), (25, 190), (210, 250), (210, 30)), ((0, 0), (120, 80), (-20, 80), (100, 0)), ((0, 0), (10, 0), (60, 40), (70, 40)),
        ((0, 0), (100, 100), (0, 100), (100, 0)), ((0, 0), (10, 20), (20, 40), (30, 60)), ((0, 0), (0, 0), (50, 50), (100, 0)),
        ((0, 0), (50, 50), (100, 0), (100, 0)), ((10, 20), (200, 5), (-90, 30), (80, 90)), ((0, 0), (40, 0), (80, 0), (120, 0)),
        ((120, 160), (35, 200), (220, 260), (220, 40)), ((0, 0), (33, 70), (66, 70), (99, 0)), ((0, 0), (80, 0), (20, 0), (100, 5)),
        ((0, 0), (90, 0), (90, 0), (0, 0)), ((0, 50), (0, 0), (100, 0), (100, 50)), ((5, 5), (5, 35), (25, 45), (65, 15))],
    4: [((0, 0), (10, 40), (50, 60), (90, 40), (100, 0)), ((0, 0), (0, 0), (10, 10), (20, 0), (50, 5)), ((3, 1), (4, 1), (5, 9), (2, 6), (5, 3))],
    5: [((0, 0), (10, 40), (50, -60), (90, 40), (100, 0), (120, 7)), ((1, 2), (3, 4), (5, 6), (5, 4), (3, 2), (1, 0))],
    6: [((0, 0), (10, 40), (50, -60), (90, 40), (100, 0), (120, 7), (1, 1)), ((2, 7), (1, 8), (2, 8), (1, 8), (2, 8), (4, 5), (9, 0))],
}


def rot(deg):
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    return lambda p: (p[0] * c - p[1] * s, p[0] * s + p[1] * c)


MAPS = {
    "id": lambda p: p,
    "float": lambda p: (float(p[0]), float(p[1])),
    "swap": lambda p: (p[1], p[0]),
    "negx": lambda p: (-p[0], p[1]),
    "negy": lambda p: (p[0], -p[1]),
    "neg": lambda p: (-p[0], -p[1]),
    "shift": lambda p: (p[0] - 517, p[1] + 333),
    "tenth": lambda p: (p[0] * 0.1, p[1] * 0.1 + 0.3),
    "tiny": lambda p: (p[0] * 1e-3, p[1] * 1e-3),
    "font": lambda p: (p[0] * 20 - 300, p[1] * 20 - 400),
    "rot30": rot(30),
    "rot200": rot(200),
    "third": lambda p: (p[0] / 3 + 1 / 7, p[1] / 3 - 5 / 7),
    "big": lambda p: (p[0] * 200 + 5000, p[1] * 200 - 9000),
    "over": lambda p: (p[0] * 100 + 40000, p[1] * 100 + 50000),
    "under": lambda p: (p[0] * 100 - 60000, p[1] * 100 - 70000),
    "huge": lambda p: (p[0] * 10**6, p[1] * 10**6),
    "micro": lambda p: (p[0] * 1e-6, p[1] * 1e-6),
    "giga": lambda p: (p[0] * 1e9 + 3e9, p[1] * 1e9),
    "astro": lambda p: (p[0] * 1e17, p[1] * 1e17 - 2e18),
}


def cores(orders, maps=None):
    for m in (maps or MAPS):
        f = MAPS[m]
        for o in orders:
            for c in CORE[o]:
                yield [f(p) for p in c]


def reversed_(pts):
    return list(pts)[::-1]


def elevate(q):
    """Quadratic -> the same curve written as a cubic, in float arithmetic (a common real-world input)."""
    (a, b), (c, d), (e, f) = q
    return [(a, b), ((a + 2 * c) / 3, (b + 2 * d) / 3), ((2 * c + e) / 3, (2 * d + f) / 3), (e, f)]


def pts(case_pts):
    """Control points of a case as the library receives them: a list of tuples."""
    return [tuple(p) for p in case_pts]


T_MAIN = [0, 1, 0.0, 1.0, 0.5, 0.25, 0.75, 0.1, 0.9, 1 / 3, 2 / 3, 0.01, 0.99, 1e-3, 1e-9, 1 - 1e-9]


def chunks(seq, n):
    seq = list(seq)
    return [seq[i::n] for i in range(n)]
