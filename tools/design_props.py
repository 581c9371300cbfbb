"""Per-property design notes; gen.py joins them with the header to DESIGN.md."""
N = {
"C01": ("every polygon of the lattice/core families x 30+ parameters x table sizes", "Bernstein polynomial over Fraction; de Casteljau levels over Fraction", "orders 1-12; tolerance 1e-12 of the size", "order-specific closed forms: one wrong coefficient shows only for one order and one parameter"),
"C02": ("every polygon of order 1-3 x parameters with exact non-zero derivative x 5 distances", "exact derivative turned by 90 degrees", "zero derivatives inside the curve (cusps) are out of the statement: the normal is undefined there; at an end with a handle on it the next different control point gives the direction", "sign and size depend on order, t, distance sign"),
"C03": ("BFS over split sequences (keep left / right / a middle part), depth 3 (thorough 5), repeated halving to depth 7 (thorough 9), split parameters down to 2**-20, the whole grid of (t1, t2) pairs for the core curves; states are parameter intervals", "exact restriction of the original polynomial", "split(t1, t2) with t1 = t2 excluded", "errors appear only when pieces are split again"),
"C04": ("all lattice/core curves, quadratics written as cubics (exactly and rounded), split pieces, order-raised curves, contours of 1-20 curves and outlines of 0-2 contours", "extreme values at exact derivative roots", "1e-7 of the size; curves of order >= 4 are not supported by the code", "tightness quantifies over every point"),
"C05": ("the same curves; curves whose y coordinates differ by 2e-13 to 1e-8", "exact roots of both derivatives; two-sided match; monotonicity between neighbours checked exactly", "roots within 1e-6 of 0, 1 or each other undecided", "degenerate branches of the root finder"),
"C06": ("the same curves with distinct ends, both directions", "projection of exact curve on chord and normal axes", "without a chord (coincident ends) the direction of the box is free", "composition of four steps for every chord direction"),
"C07": ("lattice/core curves in int, float and Decimal; split pieces; contexts of precision 10, 28, 50; failing inputs; query orders", "adaptive quadrature; error bound rho^-48 of the 24-point rule, rho from complex zeros of the speed", "nine digits only where the speed stays away from 0", "48 literal nodes/weights, global decimal state"),
"C08": ("curves x all ordered segments of a 4x4 lattice (or 24-segment subset); quadratics written as cubics, rounded to 2-6 decimals; small curves and almost straight cubics far from the origin; crossings at curve end points; pairs of lines on one line", "exact sign-change isolation of the distance polynomial", "tangential contacts and contacts at segment ends accepted either way; tolerances relative to the size of the curve", "eight root-solver branches chosen by near-zero tests"),
"C09": ("all ordered pairs of core curves under placements, lattice curves against probes, thresholds; all lattice/core cubics for self-intersection; loops after and before many pieces, in both directions", "independent polyline subdivision with Newton polishing", "tangential contacts undecided; curves that run along each other excluded, as are pairs reported near a cusp and too short loops", "recursion tree differs per pair"),
"C10": ("every lattice/core curve under maps (those with cusps by position only, because the parameters there are not determined), both directions, quadratics written as cubics; simplicity test on every curve", "piece parameters recovered by exact projection; turning angle from exact derivatives", "speed at least 0.01 % of the largest, not counting that it vanishes at an end with a handle on it; coordinates of very different size included", "greedy float stepping"),
"C11": ("regular curves x 5 distance fractions of either sign up to half the smallest radius of curvature; scale() with numbers and functions, of pieces and of whole lattice curves, handles on the chord or on the end points included; almost straight curves on both sides of the straightness tolerance", "distance of the offset pieces from the exact offset, tangents, joints", "approximation limits calibrated on the 60 degree pieces; all scales; with a handle on an end point (infinite curvature) only ends, end tangents and joints", "side and size depend on winding, order, sign"),
"C12": ("raise: all polygons of order 1-6, chained; align: lattice curves x segments of a 16-point lattice; ABC: all lattice quadratics/cubics x 15 t, the ends and almost the ends among them", "exact rational", "-", "-"),
"C13": ("BFS to the fixpoint over all states of one curve object under ~25 queries, each query asked in each state; all ordered pairs on two curves; the same after a curve easily mistaken for it (same ends, hash, order or shape) was asked the same; triples of cheap queries (thorough)", "the answer of the same query asked first thing in a process of its own", "-", "caches: a history property"),
"C14": ("BFS over edit (replace/delete/slices, and edits that are refused, such as deleting the only curve) and query histories of contours of 1-4 (some 5, 12) curves and outlines of 1-2 (some 9) contours; each query and edit on contours of up to 101 (thorough 150) curves and outlines of 45 (thorough 101) contours", "plain list-of-segments model, and a newly built contour", "a refused edit has to leave the contour as it was, whatever exception it raises", "stale caches appear only after particular histories"),
"C15": ("20+ contours of 1-4 (some 9, 12) curves x query points (grid, on the contour, beside it) x table sizes 2-600", "dense exact sampling with local refinement", "the local bound applies where the distance has a single valley next to the nearest table point; getLUT(1) excluded", "index arithmetic at joints, ends, closed starts"),
"C16": ("every connected sequence of up to 3 (thorough 4) of 13 segment moves x number alphabets (large, small, nearly equal, Decimal); long paths in which every pair of moves occurs", "independent SVG path reader", "-", "shorthand depends on the previous command"),
"C17": ("every legal pen program to depth 5 (thorough 6) with 12 calls, the same with points that differ by 1e-9; repeated closing; nested components x affine maps, chains of 4-7, all matrices over {0, 1, 2, -1}; runs of up to 129 off-curve points, lines, curves, contours and components", "independent pen model in lock step", "qCurveTo of one zero-length point and curveTo with more than 3 points are out of domain", "state machine"),
"C18": ("BFS over compositions of named transforms to depth 3 (thorough 4) and alternations of two to length 12, one or three in turn to length 60; lists of 1-60 points, segments and contours; arguments with many digits; constructors x parameter alphabets, arguments left out or given by name; rotations by every whole degree", "exact point maps one after the other", "float sin/cos for non-quadrant angles: 1e-9", "one existing test"),
"C19": ("all rectangles of 8 grids, all pairs (thorough: triples), closure under union/intersection to a fixpoint, point lists to length 4, longer ones (to 23) with the extremes anywhere", "interval arithmetic on point sets", "-", "-"),
"C20": ("all ordered pairs of segments over lattices, every segment x every point of a finer lattice, several exact scales; long thin near misses (Fibonacci directions), points off the line by 2^-12 to 2^-40", "exact rational", "-", "-"),
"C21": ("all 1x1-3x3 (thorough 4x4) matrices over alphabets, row permutations, badly scaled (also by powers of two, rows and columns separately), rank deficient, non-square; sizes to 8 (thorough 10), selected exchanges and dependent rows or columns to 16 (thorough 20), a few matrices of 43 (thorough 60); tiny pivots with and without an exchange", "exact determinant and inverse", "numerically ill-conditioned inputs whose singularity is not decided in floats are undecided", "-"),
"C22": ("BFS to the fixpoint over the shared binomial table; every request in every state; all point lists of 2-5 (thorough 6) points; least-squares fits with fewer control points against the exact normal equations; times of up to 130 points; arguments left out", "Pascal/Fraction tables, exact interpolation", "point lists to n = 12 (thorough 16) along long arcs; tolerance 5e-15 times the exact condition number of the basis; fits with a condition above that undecided", "the table is grown lazily: history"),
"C23": ("BFS over drawing/attribute call histories to depth 3 (thorough 4) in both output modes, all pairs of drawing calls; all contours of two segments over a small lattice, long ones (130 segments, contours or points), nearly equal points, and in other kinds of numbers; closed exactly as asked", "independent SVG reader; model of attribute stacks", "drawPaths' unused close parameter: both readings accepted; drawSkeleton's `_strokWidth` typo and its label font size are left alone", "-"),
"C24": ("all keywords in six case variants, all 1-3 letter strings, every one-letter edit of a keyword, lookalike letters; BFS over all hue states", "embedded copy of the CSS Color 3 table", "the random RGB generator is non-deterministic by design and out of the statement", "-"),
"C25": ("for ~350 pairs of queries on one shared curve or contour and of fitting-table requests: all schedules of two real threads with one preemption, and with two where affordable; switch points = every executed source line of the library, or every bytecode instruction (op shards); for long queries the first two visits of each line (visit shards)", "the answers of a single thread; also all later answers", "two threads, two preemptions; Color's hue state (documented as a generator) is outside", "corruption of lazily built tables needs a particular interleaving"),
"C26": ("for every query on curves of order 1-6, contours, outlines and the fitting tables, optionally after other queries: an exception (a KeyboardInterrupt subclass or a MemoryError subclass) raised before every executed source line, and before every bytecode instruction for short queries, of the library; from every distinct state left behind, each query alone and all of them in turn", "the answers of a fresh object in a process that was never interrupted", "restoring the process-wide decimal context at every point of its own clean-up is impossible in Python and outside the statement (C07 decides about ordinary exceptions); edits in progress are outside", "a crash point, and then a particular query"),
"C27": ("every argument tuple over the alphabets, helper by helper", "Fraction arithmetic, 50-digit Decimal roots", "arguments of the tolerance tests within rounding of the tolerance are undecided", "each helper has several branches for zero, negative, nearly equal arguments"),
"C28": ("every core and lattice curve (and 4 contours) x 8 lattice symmetries, 4 more rotations, 10 scales from 2**-20 to 2**30, 4 shifts, reversal, point forms x every query", "the answer for the unmoved curve, carried over", "answers not decided at rounding precision (roots within 1e-6 of an end or of each other) are left out; greedy or recursive results (simple pieces, curve-curve intersection lists) only as far as C09-C11 decide them", "an asymmetric branch shows only for one axis, sign or magnitude"),
}
