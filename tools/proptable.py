"""The list of properties (properties.jsonl and MANIFEST.json are generated from it by mkmeta.py)."""
TECH = "TLA+ specification (TLC, exact rational arithmetic): scenarios generated from the model are replayed on the library and every recorded result is accepted or rejected by the trace specification"
NOTE = " Bounded: decided on the scenarios generated from the model (counts in the evidence file), not proved for all inputs. Trusted: TLC, the rational-arithmetic overrides (compared with their TLA+ definitions at set-up), the JSON driver that calls the public API, g++."
NOTES = ("TLA+/TLC. spec/ holds the specification, driver/ the C++ replay driver (compiled with /repo's sources on every run), "
         "tools/check.py ID quick|thorough decides one property. known_findings.txt lists findings and repairs.")
NA = []

NC = "src/LNLib/Geometry/Curve/NurbsCurve.cpp"
BC = "src/LNLib/include/BsplineCurve.h"
BZ = "src/LNLib/Geometry/Curve/BezierCurve.cpp"
NS = "src/LNLib/Geometry/Surface/NurbsSurface.cpp"
NV = "src/LNLib/Geometry/Volume/NurbsVolume.cpp"
PO = "src/LNLib/Algorithm/Polynomials.cpp"
KU = "src/LNLib/Algorithm/KnotVectorUtils.cpp"
MA = "src/LNLib/Mathematics/Math/"
MA2 = "src/LNLib/Mathematics/Utils/"
IP = "src/LNLib/Algorithm/Interpolation.cpp"
CA = "dotnet/CAPI/src/"

CURVES = ("every clamped NURBS curve of degree 1 to 7 (any interior knot multiplicities up to the degree, any knot spacing, "
          "positive weights, any control points)")


def P(id, title, statement, q, why, files, mech, observe, over=("inputs",), **k):
    d = dict(id=id, title=title, statement=statement, q=q, why=why, files=files, mech=mech, observe=observe, over=list(over))
    d.update(k)
    return d


PROPS = [
    P("K01", "Basis functions, knot spans and multiplicities follow the definition",
      "For every knot vector, degree and parameter, the knot span search returns the half-open span containing the parameter (the last non-empty one at the right end), the reported multiplicity and continuity are those of the knot, and all variants that compute basis functions and their derivatives agree with the Cox-de Boor definition; the basis functions are non-negative and sum to one. "
      "Bernstein polynomials, polynomial evaluation in one and two variables, and the Bezier/power basis conversion matrices likewise equal their mathematical definitions.",
      "every non-decreasing knot vector (clamped or not, multiplicities up to degree + 1 at the ends), degree 1 to 7, every parameter of the domain including knots and ends",
      "Tests evaluate a few fixed knot vectors of degree 2 and 3 at one parameter; span search, multiplicities and the 0/0 conventions only differ at particular knot configurations.",
      [PO], [("span search", PO + ": GetKnotSpanIndex"), ("triangular basis table", PO + ": BasisFunctions, BasisFunctionsDerivatives"), ("Bernstein/Horner/power matrices", PO)],
      ["Polynomials::* return values"]),
    P("K02", "Knot vector utilities account for every knot with its multiplicity",
      "The multiplicity maps list each distinct knot once, in order, with its exact count (the internal map without the two ends), and the validity and uniformity queries, and those whether counts of knots and control points fit a degree, answer what they say. "
      "The knots that are proposed for merging knot vectors are in ascending order and complete each vector exactly to the union (larger multiplicity wins) of all of them; rescaling is the affine map of the range onto the requested one. "
      "Knots proposed for refinement are new, sorted midpoints that halve the longest gaps, and averaging parameters gives the standard clamped interpolation knots spanning those parameters.",
      "every knot vector and every collection of knot vectors, whose knots are either equal or well apart",
      "The few existing tests use one vector each; the interplay of multiplicities across several vectors is combinatorial.",
      [KU, IP], [("multiplicity maps", KU + ": GetKnotMultiplicityMap, GetInternalKnotMultiplicityMap"), ("merging", KU + ": GetInsertedKnotElements"), ("rescale", KU + ": Rescale"), ("averaging", IP + ": AverageKnotVector")],
      ["KnotVectorUtils::* and Interpolation::AverageKnotVector return values"]),
    P("C01", "Every curve evaluator returns the point the definition gives",
      "Evaluating a NURBS curve returns the weighted combination of control points that the basis functions define, at every parameter of its domain including knots and both ends. "
      "Direct evaluation, corner cutting, the homogeneous and non-rational B-spline evaluators and, for single-segment curves, the Bernstein form, de Casteljau and the rational quadratic arc formula all agree with it.",
      CURVES + ", every parameter of the domain", "Tests evaluate a handful of curves at a handful of parameters; errors at particular multiplicities, degrees, weights or ends stay unseen.",
      [NC, BC, BZ, PO], [("rational evaluation", NC + ": GetPointOnCurve, GetPointOnCurveByCornerCut"), ("B-spline evaluation", BC + ": GetPointOnCurve"), ("Bezier evaluation", BZ)],
      ["points returned by the evaluators"]),
    P("C02", "Curve derivatives of every order are the exact derivatives",
      "The derivatives of a NURBS curve up to any requested order (zero for polynomial curves beyond the degree) are the derivatives of the curve the definition gives, on the right-hand span at knots and on the last span at the right end. "
      "The rational, homogeneous, all-basis-function and non-rational variants agree. The question whether the curve can be differentiated at a parameter is answered yes where the one-sided derivatives agree (ends included) and no at corners.",
      CURVES + ", every parameter, every order", "Tests compare one or two derivatives of one or two curves; the quotient rule and the derivative table differ at higher orders, multiplicities and ends.",
      [NC, BC, PO], [("quotient rule", NC + ": ComputeRationalCurveDerivatives"), ("derivative table", BC + ": ComputeDerivatives, ComputeDerivativesByAllBasisFunctions"), ("basis derivatives", PO + ": BasisFunctionsDerivatives")],
      ["derivative vectors returned"]),
    P("C03", "Curvature, torsion and the Frenet frame match the derivatives",
      "At every regular point of a NURBS curve, the reported curvature and torsion are |C'xC''|/|C'|^3 and (C'xC'').C'''/|C'xC''|^2, the binormal is the direction of C'xC'' and the normal completes the right-handed frame (binormal x tangent), independently of the parametrization speed. Normals projected along a curve (one per knot) are unit vectors at right angles to the tangents and turn as little as possible from knot to knot; on a closed smooth curve the last equals the first.",
      CURVES + ", every regular parameter", "Tests check one planar curve; shortcuts for special speeds or planar curves remain unseen.",
      [NC], [("formulas", NC + ": Curvature, Torsion, Normal")], ["Curvature, Torsion, Normal results"]),
    P("C04", "Knot insertion and refinement add exactly the asked knots and keep the shape",
      "Inserting a knot (any admissible number of times) or refining with any list of knots yields a curve of the same degree whose knot vector is the old one with exactly these knots added, whose counts satisfy knots = control points + degree + 1, and which has the same point at every parameter. "
      "Insertion reports how many copies it inserted, and the result always has that many more, also when more copies are asked for than the degree admits.",
      CURVES + ", every knot list", "Tests insert one knot into one curve; each (degree, multiplicity, position, count) combination takes other index ranges.",
      [NC], [("knot insertion (A5.1)", NC + ": InsertKnot"), ("refinement (A5.4)", NC + ": RefineKnotVector")], ["result curve and count"]),
    P("C05", "Knot removal keeps the structure valid and removes redundant knots",
      "When knot removal reports success the result is a valid curve of the same degree with between one and the asked number of copies of that knot fewer, and nothing else changed in the knot vector. "
      "A knot whose multiplicity equals the degree and of which one or two copies are redundant (were inserted) is removed for that many copies without changing any point of the curve, and a non-redundant knot whose multiplicity differs from the degree by an odd number is refused or kept so that the curve does not change.",
      CURVES + " before and after insertion of removable knots", "Tests remove one knot of one curve.",
      [NC], [("knot removal (A5.8)", NC + ": RemoveKnot"), ("removal of all redundant knots", NC + ": RemoveExcessiveKnots")], ["result curve and flag"],
      over=("inputs", "histories")),
    P("C06", "Degree elevation and reduction keep the shape",
      "Elevating the degree by any admissible amount raises every knot multiplicity by that amount and keeps every point of the curve. "
      "Reducing the degree of a curve either refuses or returns a curve of one degree less with the same points (within the documented tolerance), and a curve that was obtained by elevating a single-segment curve is reduced.",
      CURVES + ", every number of degrees up to the maximum", "Tests elevate one curve by one degree; the Bezier-by-Bezier algorithm takes other paths for every multiplicity pattern and amount.",
      [NC], [("elevation (A5.9)", NC + ": ElevateDegree"), ("reduction (A5.11)", NC + ": ReduceDegree")], ["result curve"], over=("inputs", "histories")),
    P("C07", "Bezier decomposition yields one exact segment per knot span",
      "Decomposing a curve returns, in order, exactly one single-segment clamped curve of the same degree per non-empty knot span, and each segment traces the curve over its span.",
      CURVES, "Tests decompose one cubic with simple knots.", [NC], [("decomposition (A5.6)", NC + ": DecomposeToBeziers")], ["segments returned"]),
    P("C08", "Split, extract and merge preserve every point",
      "Splitting at any interior parameter (also at a knot of any multiplicity) returns two valid clamped curves that trace the original before and after it with unchanged parameters; extracting a range returns exactly that part. "
      "Merging two clamped curves succeeds exactly when the first ends at the point where the second starts (whatever the weights there), and the result on [0, 1] traces the first on the first half and the second on the second half, whatever their degrees; curves of one degree that are not clamped where they meet are refused.",
      CURVES + ", every split parameter, range and pair of curves", "Tests split one curve at one parameter and merge one pair.",
      [NC], [("split by knot insertion", NC + ": SplitAt"), ("range extraction", NC + ": Extract"), ("merge by elevation and reparametrization", NC + ": Merge")], ["result curves"]),
    P("C09", "Reversal, reparametrization and transformation act on parameters or points only",
      "Reversing a curve gives the same points at mirrored parameters; reparametrizing onto an interval or by a linear rational function moves knots by that function and keeps every point at the mapped parameter. "
      "Transforming a curve by an affine matrix transforms each of its points and changes neither degree, knots nor weights.",
      CURVES + ", every interval, every admissible linear rational function, every affine matrix", "Tests check one curve each.",
      [NC, KU], [("reverse", NC + ": Reverse"), ("reparametrization", NC + ": Reparametrize"), ("transformation", NC + ": CreateTransformed")], ["result curve"]),
    P("C10", "Any sequence of shape-preserving operations composes",
      "However insertions, refinements, elevations, splits, extractions, reversals and reparametrizations are applied one after another to each other's results, every intermediate curve is well formed (non-decreasing clamped knots, knots = control points + degree + 1, positive weights) and every step preserves the points of its input as that operation promises. "
      "No operation modifies its input.",
      "every finite sequence of these operations starting from " + CURVES, "Tests apply single operations to hand-written curves; structures produced by earlier operations (high multiplicities, uneven spans) are never fed back.",
      [NC], [("all operations", NC)], ["every intermediate curve"], over=("histories", "inputs")),
    P("C11", "Clamping and the curve predicates tell the truth",
      "Clamping a curve with open or half-open ends gives a curve with end knots of multiplicity degree + 1 that has the same point at every parameter of the domain; unclamping a clamped curve with simple interior knots keeps every point of the domain too. "
      "The predicates answer exactly: clamped, closed (first and last point of the curve coincide), linear (all control points on one line), periodic (uniform knots, wrapped control points), arc or circle (with centre and radius). "
      "Curve validation accepts every well-formed curve and rejects wrong counts, a zero degree and decreasing knots with invalid_argument.",
      "every NURBS curve of degree 1 to 7, clamped or not, positive weights", "Tests ask each predicate of one or two curves.",
      [NC], [("clamping", NC + ": ToClampCurve, ToUnclampCurve"), ("predicates", NC + ": IsClamp, IsClosed, IsLinear, IsPeriodic, IsArc"), ("validation", NC + ": Check")], ["result curves and answers"]),
    P("C12", "Point inversion finds the parameter of every point of a curve",
      "For a point that lies on a curve, the parameter returned is one of the domain at which the curve passes through that point, and the list of all parameters contains the one the point was taken from, lists none twice and none outside the domain. "
      "For any other point the returned parameter lies in the domain and its curve point is the nearest one: no point of a dense sampling of the curve is noticeably closer.",
      CURVES + " including closed ones, every point on or off the curve", "Tests invert a few points of a few curves; Newton iterations fail only for particular shapes and starting points.",
      [NC], [("inversion", NC + ": GetParamOnCurve"), ("all parameters", NC + ": GetParamsOnCurve")], ["parameters returned"]),
    P("C14", "Lines, arcs, conics and Hermite curves are the curves asked for",
      "A created line runs linearly from start to end. A created arc lies on the circle or ellipse with the given centre, axes and radii and runs from the start angle to the end angle in the direction of increasing angle, for every sweep up to a full turn. "
      "A conic arc starts and ends at the given points with the given tangent directions and is the arc of the conic that contains the given third point; its middle control point and weight are those of the standard form, and splitting a standard conic segment gives its two halves. "
      "A cubic Hermite curve passes through the points with the given tangents.",
      "every frame, every radius, every start angle and sweep up to 360 degrees, every conic segment (elliptic, parabolic, hyperbolic, parallel end tangents)", "Tests build a few arcs; the number of segments changes with the sweep and the special cases with the configuration.",
      [NC], [("arcs", NC + ": CreateArc"), ("conics", NC + ": CreateOneConicArc, CreateOpenConic, SplitArc"), ("Hermite", NC + ": CreateCubicHermite"), ("line", NC + ": CreateLine")], ["created curves"]),
    P("C15", "Interpolating curves pass through their data",
      "Global interpolation of any sequence of distinct consecutive points, with chord-length or given parameters, returns a non-rational curve of the asked degree with one control point per point, averaged knots over exactly the parameter range, passing through every point at its parameter. "
      "With derivatives, it also has the scaled given derivative there (degrees 2 to 5); cubic local interpolation passes through every point with continuous tangent direction.",
      "every sequence of points with distinct neighbours, every degree up to 7 (number of points above the degree), every increasing parameter sequence", "Tests interpolate one data set per routine.",
      [NC, IP], [("global interpolation", NC + ": GlobalInterpolation"), ("local interpolation", NC + ": CubicLocalInterpolation"), ("parametrization and knots", IP)], ["interpolating curves"]),
    P("C16", "Approximating curves are least-squares optimal",
      "Least-squares approximation returns a curve of the asked degree and number of control points whose ends are the first and last point and whose squared error at the chord parameters no change of the other control points can lower. "
      "The weighted and constrained form minimises the weighted squared error of points and derivatives and meets the constrained ones (negative weight) exactly. "
      "Approximation within an error bound with degree 1 stays within the bound at every point and keeps both ends.",
      "every sequence of points with distinct neighbours, every degree and every number of control points between the degree and the number of points, every weighting", "Tests approximate one data set.",
      [NC, IP], [("least squares", NC + ": LeastSquaresApproximation, WeightedAndContrainedLeastSquaresApproximation"), ("error bound", NC + ": GlobalApproximationByErrorBound")], ["approximating curves"]),
    P("C13", "Arc lengths are the lengths of the curve",
      "The length of a curve computed with the Gauss-Legendre or Chebyshev rule agrees with its arc length within one part in ten thousand, and with Simpson's rule within one percent. "
      "The parameter found for a length lies in the domain and the curve up to it has that length; the parameters dividing a curve into pieces of a given length increase, each piece has that length, and what is left at the end is not longer than one piece.",
      "every clamped NURBS curve of degree 2 to 7 without turning back on itself, every straight segment, every length up to the whole", "Tests measure a line and a circle; errors concentrate at kinks, uneven spans and uneven weights.",
      [NC, "src/LNLib/Algorithm/Integrator.cpp"], [("length", NC + ": ApproximateLength"), ("parameter at length", NC + ": GetParamOnCurve (length), GetParamsOnCurve (length)"), ("quadrature", "src/LNLib/Algorithm/Integrator.cpp")], ["lengths and parameters"]),
    P("C17", "Tessellations follow the curve from end to end",
      "Equal tessellation returns points with non-decreasing parameters from the first to the last parameter of the domain, visits every knot, and each point is the curve's point at its parameter. "
      "Adaptive tessellation returns vertices that lie on the curve, in the order of the curve, starting at its start point and ending at its end point.",
      CURVES + ", open or closed, symmetric or not", "Tests count the points of one curve.",
      [NC], [("tessellation", NC + ": EquallyTessellate, Tessellate")], ["points and parameters"]),
    P("C18", "Extending and reshaping a curve does what was asked",
      "Extending a curve at its start or end by a given length along the tangent, along the osculating arc or naturally (non-rational curves) keeps the original curve unchanged and adds a piece joined with a continuous tangent. "
      "Moving one control point in a direction by the asked amount moves the curve point at the parameter by exactly the asked distance in that direction; changing one weight moves it by the asked distance towards or away from that control point; changing two neighbouring weights moves it by the asked distance in the plane through the leg. "
      "Warping, flattening and bending move exactly the control points concerned to the places defined; constraint-based modification (non-rational curves) meets the constraints and leaves the points that may not move alone. Knots and degree stay.",
      CURVES + ", every parameter, control point, direction, distance and range with an influence on the curve", "Tests modify one curve at one place.",
      [NC], [("extension", NC + ": Extend"), ("repositioning and weights", NC + ": ControlPointReposition, WeightModification, NeighborWeightsModification"), ("warping, flattening, bending", NC + ": Warping, Flattening, Bending"), ("constraints", NC + ": ConstraintBasedModification")], ["result curves"]),
    P("C19", "Parameters, knots and tangents derived from data points",
      "Chord lengths and centripetal lengths are the sums of the distances (of their square roots) of neighbouring points, and the parametrizations are the partial sums divided by the total (evenly spaced when all points coincide). The averaged knots are the running means of the parameters; the knots for approximation follow the standard rule that leaves no knot span without a parameter. "
      "Grid parameters are the averages over all rows (columns) that have a length, and none are reported when no row or column has one. The three-point tangents lie between the slopes of the two adjoining chords (halfway for equal spacing, the remaining slope at doubled points) and are finite; the five-point tangents are unit vectors following the five-point rule and need five points.",
      "every list and grid of points (doubled and coinciding ones included), every degree below the number of points", "Tests use these helpers only through one interpolated curve.",
      [IP], [("parametrization", IP + ": GetTotalChordLength, GetChordParameterization, GetCentripetalLength, GetCentripetalParameterization, GetSurfaceMeshParameterization"), ("knots", IP + ": AverageKnotVector, ComputeKnotVector"), ("tangents", IP + ": ComputeTangent")], ["returned numbers and vectors"]),
    P("C20", "A conic or cubic segment fitted to points keeps to the tolerance",
      "Fitting a run of points with one conic or one cubic segment succeeds only with a segment that starts and ends at the first and last point in the given directions, has positive weights (unit weights for cubics) and passes every point in between within the given tolerance; a refused fit adds nothing to the result. "
      "Points taken from a conic, or from a cubic that does not lie in a plane, are fitted by that very segment, whichever part of the point list they are. Between two adjacent points the conic (or pair of conics, joined smoothly) takes its weights from the angle bisectors, which is the circular arc in the symmetric case.",
      "every list of points, every index range, end directions of any length, every tolerance", "Tests fit one run of points starting at index 0.",
      [NC, IP], [("fitting", NC + ": FitWithConic, FitWithCubic"), ("weights", IP + ": ComputerWeightForRationalQuadraticInterpolation")], ["success flag and control points"]),
    P("S01", "Surface evaluation, derivatives and differential geometry are exact",
      "Every surface evaluator returns the point the tensor-product definition gives at every parameter pair; partial and mixed derivatives of every order are the exact ones; the unit normal is the direction of Su x Sv; the curvatures (Gauss, mean, principal, absolute, RMS) follow from the fundamental forms. "
      "Iso-parametric curves trace the surface, a tangent vector is expressed in the basis of the two partial derivatives, and the Bezier patch evaluators agree.",
      "every clamped NURBS surface with degrees 1 to 7 in each direction, positive weights, every parameter pair (regular points for geometry)", "Tests evaluate a few surfaces at a few parameters.",
      [NS, "src/LNLib/Geometry/Surface/BezierSurface.cpp", "src/LNLib/include/BsplineSurface.h"], [("evaluation and derivatives", NS + ": GetPointOnSurface, ComputeRationalSurfaceDerivatives"), ("differential geometry", NS + ": Normal, Curvature, GetUVTangent"), ("iso curves", NS + ": GetIsoCurve")], ["values returned"]),
    P("S02", "Surface operations keep every point of the surface",
      "Knot insertion, refinement, degree elevation and reduction in either direction, swapping the directions, reversal and reparametrization of a surface, alone or applied one after another, give a well-formed surface with exactly the knots, degrees and parameter mapping the operation promises and the same point at every (mapped) parameter pair. "
      "Decomposition gives one Bezier patch per pair of knot spans, each tracing its part; removing a knot copy that was inserted (multiplicity equal to the degree) restores the surface's structure.",
      "every clamped NURBS surface with degrees 1 to 7, every direction, every finite sequence of these operations", "Tests apply one operation to one surface, mostly square in size and degree, so swapped directions stay unseen.",
      [NS], [("surface operations", NS + ": InsertKnot, RefineKnotVector, ElevateDegree, ReduceDegree, RemoveKnot, DecomposeToBeziers, SwapUV, Reverse, Reparametrize")], ["result surfaces"], over=("inputs", "histories")),
    P("S03", "Constructed surfaces are the surfaces asked for",
      "A bilinear surface interpolates its four corners bilinearly; a cylindrical surface lies on the cylinder with the given frame, radius, height and angles; a ruled surface is straight between its two curves; a surface of revolution is the profile turned about the axis by the given angle, whatever the length of the axis vector; "
      "a translational sweep is the sum of its two curves; non-uniform scaling scales every control point from the reference point and keeps the weights. A loft passes through every section at its parameter, with sections of any degree, knots (same domain) and weights; a Gordon surface passes through both families of a network of translated curves; a Coons surface of non-rational curves is bounded by its four boundary curves and blends them.",
      "every frame, radius, angle up to 360 degrees, every pair or family of clamped curves of degree 1 to 5 (more sections than the lofting degree)", "Tests build each surface once, mostly symmetric, and look at a few points.",
      [NS, KU], [("elementary surfaces", NS + ": CreateBilinearSurface, CreateCylindricalSurface, CreateRuledSurface, CreateRevolvedSurface, NonUniformScaling"), ("surfaces from curves", NS + ": CreateGeneralizedTranslationalSweepSurface, CreateLoftSurface, CreateGordonSurface, CreateCoonsSurface"), ("making curves compatible", KU + ": GetInsertedKnotElement, GetInsertedKnotElements")], ["created surfaces"]),
    P("S04", "Surfaces through or near a grid of points",
      "Global interpolation of a grid of points returns a non-rational surface over the unit square with the asked degrees, one control point per point and averaged knots, which passes through every point at the mean chord-length parameters of its row and column (u along the columns). "
      "Local bicubic interpolation passes through every point. Approximation returns a surface of the asked degrees and numbers of control points with the corner points of the grid as corners; for grids of translated rows it is the least-squares optimum along rows and columns.",
      "every grid of points with distinct neighbours, square or not, every pair of degrees up to 5", "Tests interpolate one grid per routine, where exchanged directions stay unseen.",
      [NS, IP], [("interpolation", NS + ": GlobalInterpolation, BicubicLocalInterpolation"), ("approximation", NS + ": GlobalApproximation"), ("parametrization", IP + ": GetSurfaceMeshParameterization")], ["created surfaces"]),
    P("S05", "Nearest parameters, signed distance, area, box and closedness of surfaces",
      "For a point on a regular surface, or at a small distance from it along the normal, the parameter pair found lies in the domain and no point of the surface is nearer; the list of all parameter pairs contains such a pair, none outside the domain and none twice; the signed distance is the distance, positive on the side of the normal. "
      "The area agrees with the integral of |Su x Sv| (Gauss-Legendre and Chebyshev to five parts in 100,000, Simpson to one percent). The oriented bounding box has orthonormal axes (the principal axes of the control points), holds all control points and touches them on every side; a surface is closed in a direction exactly when its first and last row of control points coincide.",
      "every regular (sheet-like) clamped NURBS surface with degrees 1 to 4, every point of it (distance: twice differentiable ones); box and closedness: every clamped surface", "Tests ask each question of one surface.",
      [NS, "src/LNLib/Algorithm/Integrator.cpp"], [("inversion", NS + ": GetParamOnSurface, GetAllParamsOnSurface, ComputeSignedDistanceFunction"), ("area", NS + ": ApproximateArea"), ("box, closedness", NS + ": GetOrientedBoundingBox, IsClosed")], ["answers"]),
    P("S06", "Surface tessellation and triangulation cover the surface",
      "Equal tessellation lists the surface's points row by row, a hundred steps per knot span in each direction without the far edges, and the far corner last, with the parameters they belong to. "
      "Plain triangulation returns the grid of the asked resolution over the whole domain, vertices on the surface, matching texture coordinates and two equally oriented triangles per cell. Delaunay triangulation returns vertices on the surface and triangles that use every vertex, do not overlap, cover the hull of the vertices and have no vertex inside their circumcircles (in the scaled parameter plane).",
      "every clamped NURBS surface on any domain, every resolution from 2; Delaunay: smooth graph surfaces", "Tests count vertices of one mesh.",
      [NS, "src/LNLib/Algorithm/Voronoi.cpp"], [("tessellation", NS + ": EquallyTessellate, Triangulate")], ["points, parameters, triangles"]),
    P("S07", "Sweeping carries the profile rigidly along the trajectory",
      "Both sweep constructions give a surface with the profile's degree and domain along the profile and the unit interval along the trajectory, with at least the asked number of steps (exactly it when the degree along the trajectory is chosen, which is then the degree of the surface). "
      "The first and last section, and every section that is interpolated in between, are the profile itself, unchanged in size and orientation, set at a point of the trajectory in the plane perpendicular to it; along a straight trajectory the surface moves the profile linearly. In the form with a chosen degree the sections lie at equal distances along the trajectory, at the trajectory's own (unit) parameters.",
      "every planar profile and every smooth trajectory (planar, in space, straight, rational, on any domain), every number of sections above the degree", "Tests build one sweep and only check that it succeeds.",
      [NS, NC], [("sweeps", NS + ": CreateSweepSurface"), ("moving frame", NC + ": ProjectNormal")], ["created surfaces"]),
    P("V01", "Volumes: evaluation exact and operations keep every point",
      "A volume evaluates to the point of the trivariate definition, its partial derivatives are exact, its iso curves and sections trace it, and it is reported closed in a direction exactly when its first and last layers coincide. "
      "Knot insertion, refinement, elevation, reversal, swapping of directions and splitting in any direction give well-formed volumes with exactly the promised knots and degrees and the same points; the parameter found for a point of the volume maps to it.",
      "every clamped NURBS volume, every direction, every finite sequence of these operations", "The few volume tests use one symmetric block.",
      [NV], [("volume operations", NV)], ["result volumes and points"], over=("inputs", "histories")),
    P("M01", "Vectors, homogeneous points and transformations follow their definitions",
      "Vector arithmetic, products, lengths, angles, normalization and comparisons (with the tolerance given) in two and three dimensions, and sums, multiples, weights and projections of homogeneous points, equal their definitions; a vector chosen orthogonal to another is a unit vector at a right angle. "
      "Every way to build a transformation gives the matrix it names (rotations by the right-hand rule, reflections, scales, translations, bases); products, transposes, inverses (refused for singular matrices) and determinants are exact, chains of them included, and points, vectors and weighted points map by the matrix. A matrix is called identity, translation or reflection exactly when it is one.",
      "all vectors, weights other than zero, all 4x4 matrices and finite chains of operations", "Tests try a few axes and angles; signs, entries that cancel and singular matrices stay unseen.",
      [MA + "Matrix4d.cpp", MA + "XYZ.cpp", MA + "XYZW.cpp", MA + "UV.cpp"], [("vectors", MA + "XYZ.cpp, UV.cpp, UVW.cpp, XYZW.cpp"), ("matrices", MA + "Matrix4d.cpp")], ["returned vectors, matrices, answers"], over=("inputs", "histories")),
    P("M02", "Numerical building blocks: comparison, linear algebra, quadrature, transforms",
      "Comparisons use one relative tolerance consistently (exactly one of less, almost equal, greater holds, except for NaN); binomials, factorials and angle units are exact; the root of a monotonic cubic is found. Products of matrices with grids of homogeneous control points and their projection, matrix products, transposes, determinants, inverses (refused for singular matrices), solutions of square, banded and overdetermined (least squares) systems are correct. "
      "Simpson's rule integrates cubics exactly, Gauss-Legendre and Clenshaw-Curtis integrate polynomials up to degree 7, over any interval; the complex, real, cosine and sine transforms of every power-of-two length, forwards and backwards, equal their defining sums.",
      "all numbers, well-conditioned systems of any size, polynomials, data of any power-of-two length", "Tests solve one small system and integrate one function.",
      [MA2 + "MathUtils.cpp", "src/LNLib/Algorithm/Integrator.cpp", "src/LNLib/include/FFT.h"], [("numbers, linear algebra", MA2 + "MathUtils.cpp"), ("quadrature", "src/LNLib/Algorithm/Integrator.cpp"), ("transforms", "src/LNLib/include/FFT.h")], ["returned numbers and matrices"]),
    P("M03", "Lines, planes, projections and neighbour search answer geometrically",
      "Two lines are reported crossing, parallel, coinciding (then either that or crossing) or skew exactly as they lie, with parameters of their common or nearest points and that point; a line and a plane likewise. Projecting a point onto a line or segment gives the foot of the perpendicular (refused outside the segment), and stereographic projection the image in the plane seen from the top of the sphere. "
      "An octree holds every point in exactly one leaf, its radius searches find exactly as many points as lie within the radius and its nearest-neighbour search reports the true k-th smallest distance, for any leaf size, extent and cloud.",
      "all non-zero directions of any length, all points, all point clouds (also flat, repeated, clustered)", "Tests use axis-parallel lines and one cloud.",
      [IP.replace("Interpolation", "Intersection"), IP.replace("Interpolation", "Projection"), "src/LNLib/Algorithm/Octree/Octree.cpp"], [("lines and planes", "src/LNLib/Algorithm/Intersection.cpp, Projection.cpp"), ("octree", "src/LNLib/Algorithm/Octree/Octree.cpp, OctreeCollector.cpp")], ["answers"]),
    P("A01", "Malformed objects and parameters outside the domain are refused",
      "The checks of Bezier, B-spline and NURBS curves and surfaces accept exactly the well-formed ones: positive degrees, sorted knots, control points in complete rows, and matching counts. "
      "Every evaluator of points, derivatives, curvature, torsion and normals, the Bernstein, de Casteljau and polynomial evaluators and the knot and basis function queries refuse (with an exception) a parameter clearly outside the domain, unsorted or missing knots, and orders or indices out of range, and serve every parameter of the domain including its ends.",
      "every curve and surface, malformed in any one way or not, every parameter", "Tests pass sensible arguments only.",
      [NC, NS, PO, BC], [("checks", NC + ": Check; NurbsSurface.cpp: Check; BezierCurve.h, BsplineCurve.h, BezierSurface.h, BsplineSurface.h: Check"), ("validation macros", "src/LNLib/include/LNLibExceptions.h")], ["exceptions"]),
    P("A02", "Senseless arguments of operations are refused and change nothing",
      "Operations on curves and surfaces and constructions of them refuse (with an exception of the validation kind) arguments that make no sense: non-positive counts, empty lists, lists whose lengths do not match, degrees or indices out of range, knots or ranges outside the domain, empty or reversed ranges, zero vectors where a direction is needed, zero distances, non-positive radii or tolerances, coinciding points, different domains. "
      "A refused call leaves the result argument as it was; a sensible call is served, and no call brings the program down. Inserting or removing what is not an interior knot is served and does nothing.",
      "every operation and construction that takes such arguments, every sensible or singly spoilt call", "Tests pass sensible arguments only.",
      [NC, NS], [("validation in operations and constructions", NC + "; " + NS)], ["exceptions, result arguments"]),
    P("X01", "The C interface answers about curves as the library does",
      "Every function of the C interface (dotnet/CAPI) for NURBS and Bezier curves hands its arguments over unchanged and returns the library's answer complete: the points, derivatives, frames, parameters, lengths, flags (1 or 0) and counts, and the curves with degree, all knots and all weighted control points, so that everything promised for the operations of the library (evaluation, derivatives, knot insertion, elevation, reduction, splitting, decomposition, constructions, interpolation, approximation, fitting, inversion, length, tessellation, modification, offset) holds through it. "
      "A returned curve stays valid until the next call and can be an argument of it, several curves returned by one call each keep their own data, and no more pieces or points are written than the caller made room for.",
      "every curve and every sensible call of a function for curves", "The C interface has no tests and is not built with the library's tests.",
      [CA + "NurbsCurve_CAPI.cpp", CA + "BezierCurve_CAPI.cpp"], [("curve functions", CA + "NurbsCurve_CAPI.cpp, BezierCurve_CAPI.cpp"), ("returned storage", "dotnet/CAPI/include/NurbsCurve_CAPI.h")], ["what the C functions return"]),
    P("X02", "The C interface answers about surfaces as the library does",
      "Every function of the C interface for NURBS and Bezier surfaces hands its arguments over unchanged (grids row by row, directions not exchanged) and returns the library's answer complete: points, derivatives, normals, parameters, areas, flags and counts, meshes, and surfaces with both degrees, both knot vectors and all weighted control points row by row, so that everything promised for evaluation, the surface operations, constructions, interpolation, approximation, inversion, area, tessellation, triangulation and sweeps holds through it. "
      "A returned surface or mesh stays valid until the next call and can be an argument of it, several surfaces returned by one call each keep their own data, and no more patches or points are written than the caller made room for.",
      "every surface, square or not, and every sensible call of a function for surfaces", "The C interface has no tests; exchanged rows and columns only show on grids that are not square.",
      [CA + "NurbsSurface_CAPI.cpp", CA + "BezierSurface_CAPI.cpp"], [("surface functions", CA + "NurbsSurface_CAPI.cpp, BezierSurface_CAPI.cpp")], ["what the C functions return"]),
    P("X03", "The C interface answers about vectors, matrices, knots and lines as the library",
      "Every function of the C interface for two- and three-dimensional vectors, homogeneous points, transformations, polynomials and basis functions, knot vectors, counts of knots and control points, parametrizations and knots for interpolation, and lines, planes and projections gives the answer the definition gives, with the count of its entries and flags 1 or 0; matrices are laid out row by row, and lists are complete and in order. (Comparing homogeneous points for near equality is not part of this.)",
      "every argument for which the library's function is defined", "The C interface has no tests.",
      [CA + "Matrix4d_CAPI.cpp", CA + "XYZ_CAPI.cpp", CA + "XYZW_CAPI.cpp", CA + "UV_CAPI.cpp", CA + "Polynomials_CAPI.cpp", CA + "KnotVectorUtils_CAPI.cpp", CA + "Interpolation_CAPI.cpp", CA + "Intersection_CAPI.cpp", CA + "Projection_CAPI.cpp", CA + "ValidationUtils_CAPI.cpp"],
      [("value types", CA + "UV_CAPI.cpp, XYZ_CAPI.cpp, XYZW_CAPI.cpp, Matrix4d_CAPI.cpp"), ("polynomials, knots, parametrizations", CA + "Polynomials_CAPI.cpp, KnotVectorUtils_CAPI.cpp, Interpolation_CAPI.cpp, ValidationUtils_CAPI.cpp"), ("lines and planes", CA + "Intersection_CAPI.cpp, Projection_CAPI.cpp")], ["what the C functions return"]),
]
