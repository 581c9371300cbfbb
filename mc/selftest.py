"""Sanity of the reference library itself (it never touches PathLib)."""
from fractions import Fraction as F
from math import pi, hypot, asinh, sqrt
from . import ref


def run():
    c = [(0, 0), (1, 3), (4, -1), (5, 2)]
    for i in range(9):
        t = F(i, 8)
        assert ref.bez(c, t) == ref.casteljau(c, t)[-1][0]
        for d in (0, 1):
            assert ref.pval(ref.power(ref.axis(c, d)), t) == ref.bez(c, t)[d]
        assert ref.pnear(ref.bez(c, t), ref.bezf(c, float(t)), 1e-12)
    s = ref.sub(c, F(1, 4), F(3, 4))
    for i in range(5):
        assert ref.bez(s, F(i, 4)) == ref.bez(c, F(1, 4) + F(i, 8))
    assert ref.roots_lin_quad([2, -3, 1]) == [(1.0, "simple"), (2.0, "simple")]
    assert ref.roots_lin_quad([1, -2, 1]) == [(1.0, "double")]
    assert ref.roots_lin_quad([0, 0, 0]) is None and ref.roots_lin_quad([1, 0, 1]) == []
    assert abs(ref.rsqrt(F(2)) - sqrt(2)) < 1e-15 and abs(ref.rsqrt(F(1, 10**30)) - 1e-15) < 1e-29
    assert ref.bbox([(0, 0), (1, 2), (2, 0)]) == ((0.0, 2.0), (0.0, 1.0))
    # parabola y = x^2 on [0,1]: length = sqrt(5)/2 + asinh(2)/4
    assert abs(ref.arclen([(0, 0), (.5, 0), (1, 1)]) - (sqrt(5) / 2 + asinh(2) / 4)) < 1e-8
    assert abs(ref.arclen([(0, 0), (3, 4)]) - 5) < 1e-12
    d, t = ref.nearest_on_curve([(0, 0), (1, 2), (2, 0)], (1, 3))
    assert abs(d - 2) < 1e-9 and abs(t - .5) < 1e-6
