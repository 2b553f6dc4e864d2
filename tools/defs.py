PROPS = []
def P(**k): PROPS.append(k)
PR = "src/predicates/"
P(id="E01", title="2D and 3D orientation of explicit points has the exact sign",
  statement="The orientation of three 2D points or of four 3D points is reported with the sign of the exact determinant of the coordinates as given, for every input that does not overflow or underflow. Exchanging two points flips the sign, and exactly degenerate points give zero.",
  quant="every finite coordinate tuple whose products stay in the normal range: random, lattice, near-degenerate, widely scaled",
  why="Inputs: the tests orient a handful of generic points; every adaptive stage is only reached by configurations degenerate to within a few ulps, and the exact answer must hold for each of them.",
  files=[PR+"predicates.rs", PR+"orient2d.rs", PR+"orient3d.rs", PR+"mod.rs"],
  mech=[("adaptive expansion stages with error bounds", PR+"predicates.rs orient2d / orient3d, orient2dadapt, orient3dadapt"), ("sign wrappers", PR+"mod.rs orient2d, orient3d, sign_reverse")],
  observe=["gpf::predicates::predicates::orient2d / orient3d", "gpf::predicates::orient2d / orient3d on explicit points"],
  technique="property-based testing: differential against exact big-integer determinants over structured near-degenerate inputs, plus metamorphic permutation",
  note="12M generated configurations per quick run, half of them exactly or nearly degenerate; inputs outside the stated exponent range are not generated.")
P(id="E02", title="In-circle, in-sphere and lifted-orientation tests have the exact sign",
  statement="The in-circle test of four 2D points, the in-sphere test of five 3D points and the lifted 3D orientation return the sign of the exact determinant of the coordinates as given, for every input that does not overflow or underflow.",
  quant="every finite coordinate tuple whose products stay in the normal range, in particular cocircular and cospherical points and their perturbations by a few ulps",
  why="Inputs: wrong signs in the late adaptive stages only appear on nearly cospherical points; the tests triangulate a few random points and never look at the sign.",
  files=[PR+"predicates.rs"],
  mech=[("adaptive stages", PR+"predicates.rs incircle, insphere, orient4d and their adapt/exact stages")],
  observe=["gpf::predicates::predicates::incircle / insphere / orient4d"],
  technique="property-based testing: differential against exact big-integer determinants over cospherical, near-cospherical and random inputs, plus metamorphic permutation",
  note="6M generated configurations per quick run.")
P(id="E03", title="Expansion arithmetic is error free",
  statement="Sums, differences, products, scalings, negations and estimates of floating-point expansions represent exactly the mathematical result of their operands, with components ordered by magnitude and not overlapping. The sign reported for an expansion is the sign of its exact value.",
  quant="all expansions of up to dozens of components built by any sequence of the offered operations without overflow or underflow",
  why="Inputs and histories: one unit test evaluates one expression; carries, zero components and cancellations between components arise only for particular magnitudes.",
  over=["inputs", "histories"],
  files=[PR+"predicates.rs", PR+"expansion_number.rs"],
  mech=[("two_sum, two_product, fast_expansion_sum_zeroelim, scale_expansion_zeroelim", PR+"predicates.rs"), ("ExpansionNum operators", PR+"expansion_number.rs")],
  observe=["functions of gpf::predicates::predicates", "gpf::predicates::ExpansionNum operators"],
  technique="property-based testing: random operation programs against exact big-integer rational arithmetic",
  note="8M operation sets or programs per quick run.")
P(id="E04", title="Interval arithmetic encloses the exact result and its sign queries are sound",
  statement="The interval computed by any sequence of interval additions, subtractions, multiplications and negations contains the exact result of the same operations on any members of the operands. A sign is reported as certain only when every member of the interval has it.",
  quant="all programs of interval operations over finite numbers, with operand intervals on either side of, or straddling, zero",
  why="Inputs: multiplication has nine sign cases and the tests evaluate two expressions; a wrong bound shows up only for the one case and magnitude concerned.",
  over=["inputs", "histories"],
  files=[PR+"interval_number.rs"],
  mech=[("upward rounding of both negated-lower and upper bound", PR+"interval_number.rs Add, Sub, Mul, Neg"), ("sign queries", PR+"interval_number.rs positive, negative, not_zero")],
  observe=["gpf::predicates::IntervalNumber operators and sign queries"],
  technique="property-based testing: random interval programs against exact interval arithmetic on big integers",
  note="8M programs per quick run.")
P(id="E05", title="3D orientation of implicit points has the exact sign",
  statement="The orientation of four points, each given by coordinates, as the intersection of a line and a plane, or as the intersection of three planes, has the sign of the exact determinant of the exact points. It is reported as undefined only if one of the points does not exist.",
  quant="every mix of explicit, line-plane and three-plane points over coordinates that do not overflow, including exactly degenerate and nearly degenerate configurations",
  why="Inputs: the tests build no implicit point on purpose; each of the filter, interval and expansion stages and each kind combination is decided by which configuration reaches it.",
  files=[PR+"orient3d.rs", PR+"generic_point.rs", PR+"mod.rs"],
  mech=[("filtered, interval and exact stages per combination of point kinds", PR+"orient3d.rs"), ("implicit point coordinates", PR+"generic_point.rs")],
  observe=["gpf::predicates::orient3d"],
  technique="property-based testing: differential against exact rational coordinates of the constructed points",
  note="1.3M generated configurations per quick run; constructions whose denominators underflow are out of range.")
P(id="E06", title="Projected orientation of implicit points has the exact sign",
  statement="The orientation of three 3D points of any kind projected along a coordinate axis has the sign of the exact determinant of the exact projected points.",
  quant="every mix of explicit, line-plane and three-plane points and each of the three axes",
  why="Inputs: there are three axes times every combination of point kinds times three stages, and the tests reach those that two models happen to need.",
  files=[PR+"orient2d.rs", PR+"generic_point.rs", PR+"mod.rs"],
  mech=[("per-axis filtered, interval and exact stages", PR+"orient2d.rs")],
  observe=["gpf::predicates::orient2d_xy/yz/zx (orient2d_by_axis)"],
  technique="property-based testing: differential against exact rational coordinates of the constructed points",
  note="2M generated configurations per quick run.")
P(id="E07", title="Coordinate comparison of implicit points is exact",
  statement="Comparing two 3D points of any kind along an axis answers according to their exact coordinates: less, equal or greater. The answer is antisymmetric, and lexicographic use of it is a total order.",
  quant="every pair of kinds, each axis, equal, nearly equal and distant coordinates",
  why="Inputs: each pair of kinds and each axis has code of its own and exact ties or ulp-sized differences decide which stage answers; no test calls it.",
  files=[PR+"less_than.rs", PR+"mod.rs"],
  mech=[("filtered, interval and exact stages per pair of kinds", PR+"less_than.rs")],
  observe=["gpf::predicates::less_than_on_x / y / z"],
  technique="property-based testing: differential against exact rational coordinates, both argument orders",
  note="2M generated pairs per quick run.")
P(id="E08", title="Point, segment and triangle incidence tests are exact",
  statement="The tests for a point inside a segment, a point inside a triangle, two crossing segments, a segment crossing a triangle, collinearity, coincidence and the point in an inner or closed region answer as exact geometry does on the given coordinates. Degenerate contacts (shared endpoints, points on edges) are classified as each test's inner or closed reading demands.",
  quant="every configuration of explicit points, with lattice coordinates that make contact at vertices and edges common, and of implicit collinear points where supported",
  why="Inputs: contacts are measure-zero events that the example models contain few of, and a misclassified contact silently changes the output mesh.",
  files=[PR+"mod.rs"],
  mech=[("inner_segment_cross_inner_triangle, inner_segments_cross, point_in_inner_segment, point_in_triangle and relatives", PR+"mod.rs")],
  observe=["public functions of gpf::predicates"],
  technique="property-based testing: differential against exact rational geometry on small-lattice and scaled inputs",
  note="4M generated configurations per quick run.")
P(id="E09", title="Implicit point coordinates are exact however they are evaluated",
  statement="The homogeneous coordinates of an implicit point obtained by the filtered, interval or exact evaluation all describe the true intersection: exact ones equal it, intervals contain it, filtered ones respect their error bound. Repeated queries give the same answer, and conversion to explicit coordinates is within rounding of the true point.",
  quant="every line-plane and three-plane construction in range, in any order of evaluation queries",
  why="Inputs and histories: cached values are computed once by whichever stage asks first, so an error depends on configuration and query order; no test reads them.",
  over=["inputs", "histories"],
  files=[PR+"generic_point.rs"],
  mech=[("lazily cached coordinates and error filters", PR+"generic_point.rs ImplicitPointLPI, ImplicitPointTPI, Point3D")],
  observe=["gpf::predicates::{ImplicitPointLPI, ImplicitPointTPI, Point3D} methods"],
  technique="property-based testing: random query histories against exact rational intersection points",
  note="2M generated points per quick run.")
exec(open(__file__.replace("defs.py", "defs2.py")).read()) if __import__("os").path.exists(__file__.replace("defs.py", "defs2.py")) else None
