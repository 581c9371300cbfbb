EXH = "exhaustive bounded enumeration on the real code against an exact rational reference model"
BFS = "explicit-state breadth-first model checking of the real code against a reference model"
TESTGAP_BZ = "No existing test imports the Bézier module at all"

P("C01", "A curve evaluates to its Bernstein polynomial everywhere",
  "For every Bézier curve of order 1 or higher and every parameter t in [0, 1], the point the curve reports at t is the value of its Bernstein polynomial at t, and t = 0 and t = 1 give the first and the last control point. The hull reported for t is the control points followed by every de Casteljau interpolation level, ending in the point at t. A lookup table of n steps holds exactly the points at i/(n-1), i = 0..n-1, and the midpoint is the point at 1/2.",
  ["inputs"], "every control polygon (orders 1-6, integer, fractional, Decimal-free mixed types, negative and large coordinates) and every t in [0,1], every table size n >= 2",
  TESTGAP_BZ + "; a sample of points cannot cover every order-specific evaluation branch at every parameter.",
  [BZ, BU], [("closed-form evaluation per order, de Casteljau above", BZ + " Bezier._compute/get"), ("hull", BZ + " Bezier.hull; " + BU + " lerp"), ("lookup table", BZ + " Bezier.getLUT")],
  ["Bezier.get", "Bezier.midpoint", "Bezier.hull", "Bezier.getLUT", "Bezier.start/end"], "exploration", EXH,
  "Every polygon/parameter of the stated finite alphabets is evaluated; says nothing about coordinates outside them. Trusts Python's Fraction arithmetic.")

P("C02", "Normals are unit, perpendicular and consistently oriented",
  "At every parameter in [0, 1] where the curve's first derivative is not zero, the normal of a line, quadratic or cubic is a unit vector equal to the direction of travel turned 90 degrees counter-clockwise; at an end whose handle lies on the end point itself it is the one for the direction in which the curve leaves or reaches that point. Asking for the offset point at t and distance d (any d, including 0 and negative) gives the point on the curve, that normal, and the point plus d times the normal.",
  ["inputs"], "every line, quadratic and cubic control polygon, every t with non-zero derivative and every end the curve has a direction at, every distance d",
  TESTGAP_BZ + "; the sign and magnitude of a normal depend on the curve order, t and derivative.",
  [BZ], [("derivative control points", BZ + " Bezier.dcPoints/_derivative"), ("normal", BZ + " Bezier.normal"), ("offset point", BZ + " Bezier.offset")],
  ["Bezier.normal", "Bezier.offset(t, d)"], "exploration", EXH,
  "Exact derivative from rational Bernstein coefficients; all enumerated curves and parameters.")

P("C03", "Splitting yields exactly the sub-curves, however often repeated",
  "Splitting a line, quadratic or cubic at t gives two curves of the same order that trace precisely the [0, t] and [t, 1] parts of it (and the de Casteljau hull at t), and splitting at (t1, t2) with 0 <= t1 < t2 <= 1 gives the part between. This keeps holding when pieces are split again, in any sequence: the pieces join end to end and always trace the corresponding part of the original.",
  ["inputs", "histories"], "every curve of order 1-3, every split parameter, every sequence of splits taking either half",
  TESTGAP_BZ + "; repeated splitting is a history property.",
  [BZ], [("de Casteljau split with t-range remapping", BZ + " Bezier.split"), ("range map", BU + " map")],
  ["Bezier.split", "Bezier.get"], "model_checking", BFS,
  "States are parameter sub-intervals reached by split sequences up to the depth bound; each is compared with the exact reparametrised curve.")

P("C04", "Bounding boxes enclose the curve and are tight",
  "For every line, quadratic and cubic, the bounding box is the smallest axis-aligned rectangle containing the whole curve, whatever the size or sign of its coordinates: no point of the curve lies outside and each side is touched. The bounds of a contour and of an outline are the smallest rectangle containing the boxes of all their curves.",
  ["inputs"], "every line, quadratic, cubic; every contour and outline of them, including curves made by splitting, rotating or raising the order of others",
  TESTGAP_BZ + "; tightness and enclosure quantify over every point of every curve.",
  [BZ, BU, PU], [("derivative roots", BU + " droots; " + BZ + " Bezier.extrema"), ("box", BZ + " Bezier.bbox/boundsRectangle/_getminmax"), ("union", BZ + " BContour.__init__, BOutline.__init__; " + PU + " BoundsRectangle.union")],
  ["Bezier.bbox", "Bezier.boundsRectangle", "BContour.boundsRectangle", "BOutline.boundsRectangle"], "exploration", EXH,
  "Reference box from exact rational derivative roots; tolerance 1e-7 of the curve size.")

P("C05", "Reported extrema are exactly the turning and inflection parameters",
  "For each axis, the extrema a curve reports are exactly the parameters in [0, 1] where that coordinate's derivative vanishes (for cubics also where its second derivative vanishes) without being zero throughout, and the combined list is their sorted union without duplicates. The curve evaluated between two neighbouring extrema of an axis is monotone in that axis, and a curve classified as going up or down never goes the other way.",
  ["inputs"], "every line, quadratic and cubic",
  TESTGAP_BZ + "; the root formulas have several degenerate branches chosen by exact comparisons.",
  [BZ, BU], [("root finder", BU + " droots"), ("extrema", BZ + " Bezier.extrema"), ("direction", BZ + " Bezier._computeDirection")],
  ["Bezier.extrema", "Bezier.direction"], "exploration", EXH,
  "Two-sided match with exact roots; roots closer than 1e-6 to 0, 1 or each other are treated as undecided.")

P("C06", "The tight bounding box is a minimal box aligned with the chord",
  "For every line, quadratic and cubic with distinct end points, the tight bounding box is a closed contour of four straight sides forming a rectangle with one side direction parallel to the line from the first to the last control point (in any direction if these two coincide). It contains every point of the curve and each of its sides is touched by the curve.",
  ["inputs"], "every line, quadratic, cubic with distinct end points",
  TESTGAP_BZ + "; the composition of rotation, box and inverse rotation has to be right for every chord direction.",
  [BZ, PU, TR], [("align", BZ + " Bezier.align/_align"), ("tight box", BZ + " Bezier.tightbbox"), ("rectangle contour", PU + " BoundsRectangle.contour"), ("inverse transform", TR + " Transform.rotateAndMove")],
  ["Bezier.tightbbox", "Bezier.align"], "exploration", EXH,
  "Independent box computed by projecting exact curve onto chord/normal axes.")

P("C07", "Arc length is accurate, additive and leaves the number context alone",
  "The length of every line, quadratic and cubic equals its true arc length (to nine digits wherever the speed along the curve stays well away from zero), lies between chord length and control-polygon length, and is the sum of the lengths of the pieces after a split. Asking for it, whether it succeeds or fails, leaves the caller's decimal arithmetic context unchanged, and the result does not depend on what was asked before.",
  ["inputs", "histories"], "every line, quadratic, cubic (float or Decimal control points), every split, every order of length queries",
  TESTGAP_BZ + "; length depends on 24 quadrature nodes and weights and temporarily changes global decimal precision.",
  [BZ, BU], [("quadrature", BZ + " Bezier.length/_arcfun"), ("nodes and weights", BU + " tValues/cValues")],
  ["Bezier.length", "decimal.getcontext()"], "exploration", EXH,
  "Reference is an adaptive quadrature with independently computed nodes; allowed error is the convergence bound rho^-48 of a 24-point Gauss rule (rho from the complex zeros of the speed), at least 1e-10.")

P("C08", "Curve-line intersections are sound and complete",
  "For every line, quadratic and cubic curve and every line segment, each parameter reported as an intersection is in [0, 1] (to rounding) and its point lies on the segment, and every transversal crossing of the curve with the interior of the segment is reported, also one at an end point of the curve. Intersecting a quadratic or cubic with a line given as a curve gives a point on both the curve and the infinite line through it, or nothing exactly when those do not meet; for two lines it is the meeting point of the infinite lines, or nothing when they are parallel.",
  ["inputs"], "every curve of order 1-3 and every segment, including axis-parallel, reversed, far away, near-degenerate (linear or quadratic in disguise) cases",
  TESTGAP_BZ + "; the closed-form root solver has eight branches selected by near-zero tests.",
  [BZ, BU], [("align and solve", BZ + " Bezier.roots"), ("range filter", BZ + " Bezier.lineIntersects/intersectWithLine"), ("cube root etc.", BU + " crt/sqrt/approximately/between/lli")],
  ["Bezier.roots", "Bezier.lineIntersects", "Bezier.intersectWithLine"], "exploration", EXH,
  "Crossings isolated by exact sign changes; tangential contacts and contacts at segment ends are accepted either way.")

P("C09", "Curve-curve and self intersections are sound and complete",
  "For two curves (lines, quadratics or cubics), every parameter pair reported as an intersection names points on the two curves that lie within the given threshold scale of each other, and every transversal crossing of the two curves is reported by at least one pair. For one curve, self-intersection reports pairs of different parameters with coinciding points and finds the crossing of every loop; a curve without a loop or near-cusp reports none.",
  ["inputs"], "every pair of lines/quadratics/cubics (handles on the ends and cusps included) with finitely many transversal crossings, coordinates of every size, every threshold (0, and ones below rounding errors, included), every self-crossing cubic",
  TESTGAP_BZ + "; recursion over overlapping boxes explores a different tree for every pair.",
  [BZ], [("pair iteration", BZ + " Bezier.pairiteration/curveIntersects"), ("reduction", BZ + " Bezier.reduce"), ("driver", BZ + " Bezier.intersects/selfIntersects/overlaps")],
  ["Bezier.intersects", "Bezier.selfIntersects", "Bezier.overlaps"], "exploration", EXH,
  "Crossings found independently by polyline subdivision; tangential contacts undecided.")

P("C10", "Reduction partitions a curve into simple pieces",
  "Reducing a regular line, quadratic or cubic (handles may lie on the end points) yields consecutive pieces that start at its start, end at its end, join end to end and together trace the whole curve. Every piece is simple: it does not turn by 60 degrees or more between its ends and its handles lie on one side. Reduction never fails for a regular curve, and never changes the curve; for a curve with a cusp (or next to one) it may give no pieces, but the pieces it gives are on the curve, cover it and are simple.",
  ["inputs"], "every regular curve of order 1-3",
  TESTGAP_BZ + "; the greedy stepping loop with floating-point stepping visits a different path per curve.",
  [BZ], [("reduce", BZ + " Bezier.reduce"), ("simple", BZ + " Bezier.simple")],
  ["Bezier.reduce", "Bezier.simple"], "exploration", EXH,
  "Piece parameters recovered independently; regular = derivative bounded away from zero on [0,1].")

P("C11", "Offset curves run at the requested distance",
  "Offsetting a regular line, quadratic or cubic by d gives pieces whose first and last points are the curve's end points moved by d along the normals there, whose end tangents have the curve's directions there (for the far end of a quadratic only approximately), and which follow the exact offset of the curve on the side the normal points to (negative d: the other side) to within a fraction of |d| (a few percent for even curves, at most a third for hairpins), as long as |d| is at most half the smallest radius of curvature. A straight curve is translated exactly, and consecutive pieces join; ends and joints are right even for a curve with a handle on its end point. Scaling a simple curve by a distance function (any callable) moves its ends by the function's values at 0 and 1 and its handles by those at 1/3 and 2/3, all to the side the normals point to.",
  ["inputs"], "every regular curve of order 1-3, every distance of either sign below the curvature radius",
  TESTGAP_BZ + "; side and distance depend on winding, order and sign of d.",
  [BZ], [("offset", BZ + " Bezier.offset"), ("scale", BZ + " Bezier.scale"), ("line intersection", BU + " lli4")],
  ["Bezier.offset", "Bezier.scale"], "exploration", EXH,
  "Distances measured against the exact curve; approximation error bounds calibrated to the 60 degree piece limit.")

P("C12", "Order raising, alignment and the ABC construction keep the geometry",
  "Raising the order of any curve yields a curve of exactly one higher order that traces the same points at the same parameters. Aligning a curve with a segment is the rigid motion that puts the segment's start at the origin and its direction on the positive x axis. The ABC points at t satisfy: B is the point at t, C lies on the chord, A, B, C are collinear and |BC| = ratio * |AB|.",
  ["inputs"], "every curve of order 1-5 (raise), 1-3 (align), 2-3 (ABC), every t in (0,1), every segment of non-zero length",
  TESTGAP_BZ + ".",
  [BZ, BU], [("raiseOrder", BZ + " Bezier.raiseOrder"), ("align", BZ + " Bezier.align"), ("getABC", BZ + " Bezier.getABC; " + BU + " quadraticRatio/cubicRatio/lli4")],
  ["Bezier.raiseOrder", "Bezier.align", "Bezier.getABC"], "exploration", EXH,
  "Exact rational reference.")

P("C13", "Curve queries are pure: no history changes an answer",
  "Every query on a curve (point, hull, derivative data, extrema, boxes, table, length, split, reduce, offset, intersections and so on) returns the same answer whatever queries were made on that curve, or on other curves, before it and in whatever order. No query changes the curve's control points, any point list, line or curve passed to it, or an answer already given.",
  ["histories"], "all sequences of queries with repetition on one curve and interleaved on two curves",
  TESTGAP_BZ + "; caches make answers depend on query history, and tests ask each question once.",
  [BZ], [("lazy caches", BZ + " Bezier.dcPoints/extrema/bbox/boundsRectangle/length/getLUT")],
  ["every public Bezier query"], "model_checking", BFS,
  "Breadth-first search over cache states (canonicalised object and module state) to a fixpoint or depth bound; answers compared with a pristine process state.")

P("C14", "Contours and outlines always reflect their current curves",
  "After any sequence of replacing curves, deleting curves and querying, a contour's start, end, curves, bounds, lookup table, path data and closest-point answers are those of a contour newly built from its current curves; in particular a lookup table of n steps per curve lists the first curve's n points and n-1 for each further curve, whatever table sizes were asked for before. An edit that is refused leaves the contour as it was. Outlines iterate their contours in order and bound them all.",
  ["histories"], "all edit/query histories on contours of 1-3 curves",
  "No existing test builds a contour object; stale caches show only after particular edit/query sequences.",
  [BZ], [("contour state", BZ + " BContour.__setitem__/__delitem__/getLUT"), ("bounds", BZ + " BContour.__init__/boundsRectangle"), ("outline", BZ + " BOutline")],
  ["BContour", "BOutline"], "model_checking", BFS,
  "Explicit-state search over (curve list, cache state); reference model is a plain list of segments.")

P("C15", "The closest point on a contour is on it and nearly optimal",
  "For every contour, query point and table size n >= 2, the closest-point query returns a point that lies on the contour together with the distance between it and the query point. That distance is never larger than that to any point of the contour's table of n steps, and never exceeds the true minimum by more than half the spacing of that table. Next to the nearest table point - on both sides of it, across joints and across the start of a closed contour - the nearest point is found to about 1/500 of a curve's parameter range.",
  ["inputs"], "every contour of 1-4 curves, every query point, every table size",
  "No existing test; index arithmetic across several curves and refinement windows has many off-by-one cases.",
  [BZ], [("table search", BZ + " BContour._findClosest"), ("refinement", BZ + " BContour._refineBinary"), ("driver", BZ + " BContour.findClosestPoint")],
  ["BContour.findClosestPoint"], "exploration", EXH,
  "Reference minimum by sampling with local refinement; the local bound is applied where the distance has a single valley next to the nearest table point.")

P("C16", "Path data describes exactly the contour",
  "The path string of every connected contour of lines, quadratics and cubics is valid SVG path data that, read by the SVG rules (including repeated-command shorthand and horizontal/vertical commands), traces exactly the same sequence of segments, leaving out only zero-length lines.",
  ["inputs"], "every connected contour up to 4 segments over lines (horizontal, vertical, diagonal, zero-length), quadratics, cubics, with int, float, negative and very small or large coordinates",
  "No existing test; the shorthand depends on the previous command, so it is a property of segment sequences.",
  [BZ], [("writer", BZ + " BContour.d/pointToString")],
  ["BContour.d"], "exploration", EXH,
  "All segment-kind sequences to the length bound; output parsed by an independent SVG path reader.")

P("C17", "The segment pen records exactly the drawn glyph",
  "For every sequence of pen calls forming contours, the recorded contours are the drawn ones in order: each segment starts where the previous ended, zero-length lines are dropped, quadratic runs are split at implied midpoints, every closed contour ends where it began (with a closing line added exactly when needed), and empty or unfinished contours leave no trace. A component contributes its own contours, recursively, with its transformation applied to every point.",
  ["histories"], "all pen call sequences up to a length bound, nested components with arbitrary affine transformations",
  "No existing test imports the pen.",
  [SP, TR], [("pen state machine", SP + " SegmentPen.moveTo/lineTo/curveTo/qCurveTo/closePath"), ("components", SP + " SegmentPen.addComponent")],
  ["SegmentPen.contours"], "model_checking", BFS,
  "All pen programs to the depth bound against an independent pen model.")

P("C18", "Transforms compose and act as the geometry they are named for",
  "Applying a transform built from several matrices equals applying them one after another, left to right, for every point, segment, contour and list of contours. Translation, scaling, shear, mirroring, rotation (either direction), rotation about a point, mirroring around a point and perspective each map points as their name says; the fixed point of a 'rotate about' or 'mirror around' stays put; rotations preserve distances and undo each other. Applying never changes its input.",
  ["inputs", "histories"], "all compositions of the primitive transforms up to a depth bound, all points",
  "The one existing transform test checks a single 90 degree rotation about one point.",
  [TR, PU], [("matrix algebra", TR + " Transform.multiplyRowByMatrix/concatenateMatrices"), ("constructors", TR + " Transform.rotation/.../perspectiveFrom"), ("application", TR + " Transform.applyTo*"), ("wrappers", PU + " rotatePointAbout etc.")],
  ["Transform", "PathUtilities.rotate*About"], "model_checking", BFS,
  "Breadth-first over compositions of generator transforms; exact rational reference matrices (float sin/cos for non-quadrant angles).")

P("C19", "Bounds rectangles form the expected algebra",
  "A bounds rectangle built from points is the smallest rectangle containing them for coordinates of any magnitude, and the empty one is neutral for union. Union is the smallest rectangle containing both, intersection is the common part or nothing exactly when there is none, enclosure and edge-crossing tests mean set inclusion, and the relation between two rectangles is encloses / enclosed / intersects / separate accordingly. Derived values (width, height, area, centre, diagonal, contour, fractions along an edge, the printed form) agree with the four sides.",
  ["inputs", "histories"], "all rectangles over a coordinate grid, all pairs and triples, all point lists up to a length bound, large coordinates",
  "No existing test constructs a rectangle except through line intersection.",
  [PU], [("rectangle", PU + " BoundsRectangle")],
  ["PathUtilities.BoundsRectangle"], "model_checking", BFS,
  "Closure of the generated rectangles under union/intersection explored to a fixpoint; reference is interval arithmetic on point sets.")

P("C20", "Line utilities are exact on representable geometry",
  "For all lines with exactly representable coordinates: the intersection point of two segments is reported exactly when the segments properly meet in a single point (parallel lines give none) and is that point; a point is on a line exactly when it lies on the closed segment, end points included; slope, angles, length, midpoint, end points, deltas and the horizontal/vertical/diagonal tests agree with the coordinates, whatever the direction in which the line is given.",
  ["inputs"], "all pairs of segments and all points over a coordinate lattice, including degenerate, axis-parallel and reversed ones",
  "Existing tests check three lines and two points.",
  [PU, BU], [("intersection", PU + " intersectionPoint; " + BU + " lli/lli4/lli8"), ("point on line", PU + " pointOnLine"), ("measures", PU + " slope/slopeAngle/rawSlopeAngle/length/midpoint")],
  ["PathUtilities functions"], "exploration", EXH,
  "Exact rational reference over the whole lattice.")

P("C21", "Matrix inversion is right or refuses",
  "For every square matrix, inversion returns a matrix whose product with the original is the identity (to rounding), and returns nothing exactly when the matrix is singular or not square. The argument is left unchanged.",
  ["inputs"], "all 1x1 to 4x4 matrices over small integer alphabets, permutations, badly scaled and non-square matrices",
  "The one existing test inverts one 3x3 matrix that needs no row exchange.",
  [MI, CF], [("Gauss-Jordan elimination", MI + " matrixInvert"), ("multiply", CF + " multiply")],
  ["MatrixInversion.matrixInvert"], "exploration", EXH,
  "Exact rational determinant and inverse as the oracle.")

P("C22", "Curve fitting interpolates the data and its tables are exact",
  "Fitting a curve to n points with distinct neighbours gives n control points whose curve passes through every data point at its time value, starting and ending at the first and last point; time values run from 0 to 1 proportionally to chord length (or uniformly on request). With fewer control points than data points the curve is the least-squares one for those times. Binomial coefficients and basis matrices are exact for every size, whatever sizes were asked for before; matrix product and transpose are the textbook ones.",
  ["inputs", "histories"], "all point lists of 2-6 points over a lattice, all n up to 20, all orders of binomial requests",
  "Existing tests check one product and one transpose; fitting, basis matrices and the growing binomial table are untested.",
  [CF, MI], [("fit", CF + " fit/bestFit/computeTimeValues"), ("basis", CF + " basisMatrix/formTMatrix"), ("lazily grown Pascal table", CF + " binomial")],
  ["CurveFitting.fit", "CurveFitting.binomial", "CurveFitting.basisMatrix", "CurveFitting.computeTimeValues", "CurveFitting.multiply/transpose"], "model_checking", BFS,
  "Request histories of the shared binomial table searched to fixpoint; fits compared exactly.")

P("C23", "Plotted shapes match the contours and drawing leaves attributes as they were",
  "Every path element the plotter emits for contours, paths or point runs, in either output mode and in any drawing order, is valid path data that traces exactly the given shapes with the requested paint; contours are closed exactly when that is asked for. After any drawing call the fill and stroke attributes in force are what they were before it unless the caller set them explicitly, and attribute push/pop pairs nest properly.",
  ["histories", "configurations"], "all sequences of drawing calls up to a depth bound, compact and plain output mode, with and without colour and fill",
  "The plotting module cannot even be imported in the test environment.",
  [CP], [("shape writers", CP + " drawContours/drawPaths/drawPointsAsSegments"), ("attribute stacks", CP + " push*/pop*")],
  ["ContourPlotter output elements and attributes"], "model_checking", BFS,
  "Runs the real plotter on a minimal stand-in for the FontDocTools base class (assumption recorded in DESIGN.md).")

P("C24", "Named and generated colours are exact",
  "Every X11/SVG colour keyword, in any letter case, yields exactly the RGB value the SVG specification assigns; unknown keywords raise a value error and non-alphabetic strings yield nothing. The generated colour sequence steps the hue by 73 degrees modulo 360 from the last set hue at half lightness and saturation, for every history of settings and generations.",
  ["inputs", "histories"], "all 147 keywords and case variants, all set/generate histories to a bound (the hue cycle is finite)",
  "The colour module cannot be imported in the test environment.",
  [CO], [("keyword table", CO + " Color._keywords/_forKeyword/fromName"), ("hue state", CO + " Color.setCurrentHue/randomHSLColor")],
  ["Color.fromName", "Color.randomHSLColor"], "model_checking", BFS,
  "Keyword table compared with an independently embedded copy of the CSS Color 3 list; all 360 hue states visited.")

P("C25", "Concurrent queries give the sequential answers",
  "When several threads query the same curve or contour, or use the fitting tables, at the same time, every answer and every later answer is the one a single thread would get, under every interleaving.",
  ["schedules"], "all interleavings of two threads with one (and, for short queries, two) preemptions at source-line or bytecode granularity for all pairs of read-only queries",
  "No existing test starts a thread; lazily built shared tables are corrupted only by particular interleavings.",
  [BZ, CF], [("lazy caches", BZ + " Bezier.getLUT/extrema/length/..., BContour.getLUT"), ("lazily grown global table", CF + " binomial")],
  ["Bezier queries", "BContour.getLUT", "CurveFitting.binomial"], "model_checking",
  "stateless model checking: preemption-bounded exhaustive schedule enumeration under a controlled scheduler",
  "Switch points at every executed source line (or bytecode instruction, where stated) of the library; for long queries only the first visits of each line; more than two preemptions are not covered.")

P("C26", "An interrupted query leaves nothing wrong behind",
  "If a query on a curve, a contour or an outline, or a curve-fitting request, is cut short at any point by an exception such as a keyboard interrupt or a lack of memory, the exception reaches the caller (or the right answer is given), answers given earlier do not change, and every query asked afterwards gives the same answer as if the interrupted query had never been made.",
  ["crash points", "histories"], "every interruption point (before each executed source line or bytecode instruction of the library) of every query, on curves of each order, contours, outlines and the fitting tables, with and without queries before it",
  "No test interrupts anything; a value stored before it is complete shows only when the interruption falls between two particular steps and another query follows.",
  [BZ, CF], [("lazily computed facts", BZ + " Bezier._compute/derivative caches/extrema/length/getLUT, BContour.getLUT"), ("lazily grown global table", CF + " binomial")],
  ["Bezier queries", "BContour queries", "BOutline queries", "CurveFitting requests"], "model_checking",
  "explicit-state crash-point enumeration on the real code: an exception is raised at every executed line/bytecode, then every query is asked from each distinct state left behind",
  "Interruption points are executed lines (all visits up to a bound) and bytecode instructions of the library's own code; the process-wide decimal context and edits in progress are outside the statement.")

P("C27", "The numeric helpers are right for every argument",
  "The helpers the curves are built on give the mathematically right value for every argument: the real cube root of any number, the square root (not a number for negative arguments), the equality test within a tolerance, the between test (inclusive, within the same tolerance), the quadratic and cubic ratio of offset construction, the list without duplicates, the roots of a first- or second-degree polynomial given by its control values, linear interpolation, the mapping of one range on another, the angle between two rays (0 if one of them has no length), and the intersection point of two lines given by coordinates, points or curves; the bounds used for drawing a curve's skeleton are those of its control polygon, widened by 40 on the right for the labels.",
  ["inputs"], "all argument tuples over finite alphabets of numbers of both signs, of magnitudes 1e-12 to 1e12, zero, and values at the edge of the tolerance",
  "No existing test calls any of these helpers directly.",
  [BU, BZ], [("helpers", BU), ("skeleton bounds", BZ + " Bezier.skeletonBounds")],
  ["BezierUtilities functions", "Bezier.skeletonBounds"], "exploration", EXH,
  "Exact rational or 50-digit reference for each helper.")

P("C28", "Answers move with the curve",
  "For every similarity (mirroring, turning, scaling, shifting), asking the moved line, quadratic, cubic or contour gives the moved answer; running a curve backwards gives the reversed answer; and it makes no difference whether coordinates are integers or floats or points are tuples or lists. This holds for points, hulls, normals, tables, splits, derivative control points, boxes, extrema, lengths, tight boxes, intersections with lines, the ABC construction, raising the order, alignment, the simplicity test, scaling and closest distances.",
  ["inputs", "configurations"], "every listed curve and contour under each of 8 lattice symmetries and further rotations, scales and shifts, each query",
  "No existing test relates the answers for two curves; an asymmetric branch (one axis, one sign, one magnitude) passes any test on a particular curve.",
  [BZ, BU], [("axis-wise code", BZ + " Bezier.extrema/bbox/_getminmax/roots/normal/tightbbox"), ("orientation", BZ + " Bezier.scale/_direction"), ("tolerances", BU)],
  ["Bezier queries", "BContour queries"], "exploration",
  "exhaustive bounded enumeration on the real code against the answer for the unmoved curve carried over by the similarity",
  "Relates executions of the code with each other, so an error shared by every image is left to the other properties.")
