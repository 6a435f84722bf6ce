"""Writes /verif/properties.jsonl (the property list) from the table below."""
import json, os
G = "planegeometry/geometry.py"
I = "planegeometry/internal.py"
DOM = " Inputs: finite coordinates and sizes of ordinary magnitude (about 1e-2 to 1e3), away from numerically ambiguous near-degenerate positions unless the degeneracy is exact."
P = []
def prop(id, title, statement, over, text, why, mech, files=(G,), state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": list(files),
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": list(observe), "hook_needed": None}})

prop("P01", "Point inversion is an involutive pole-and-power map",
 "For every inversion (any pole, any non-zero power of either sign) and every point other than the pole, the image lies on the line through the pole and the point, and the product of the signed distances of the point and its image from the pole equals the power. The pole and the point at infinity are exchanged. Inverting twice gives back the starting point.",
 ["inputs"], "all inversions, points (tuple, list or array), the pole and infinity." + DOM,
 "The tests invert three points of one circle with one positive power; they never check a negative power on a point, infinity, the pole, or the round trip.",
 [("Inversion.invert", G)], observe=["Inversion.invert"])

prop("P02", "The inverse of a circle or line is exactly the set of inverted points",
 "The image of a circle or a line under an inversion, whichever entry point is used (the inversion's circle, line and generalized-circle methods, or the line's own method), is the circle or line made of the images of its points. It is a line exactly when the original passes through the pole. Inverting the image again gives the original figure back.",
 ["inputs", "histories"], "all inversions of either sign, circles and lines, through the pole or not; chains of successive inversions." + DOM,
 "One circle not through the pole is tested; lines, figures through the pole, negative powers, the generalized entry point and chains are not.",
 [("Inversion.invert_circle", G), ("Inversion.invert_line", G), ("Inversion.invert_gcircle", G), ("Line.invert", G)],
 observe=["Inversion.invert_circle", "Inversion.invert_line", "Inversion.invert_gcircle", "Line.invert"])

prop("P03", "Swapping inversions, fixing inversions and mid-circles do what they promise",
 "The inversion built to swap two circles maps each onto the other and has the requested sign whenever an inversion of that sign exists (a reflection is returned for congruent tangent circles); inversion in (or reflection across) every mid-circle returned for two circles swaps them, and two mid-circles are returned exactly when the circles cross at two points. The inversion built to fix two (non-concentric, non-tangent) or three circles with non-collinear centres maps each of them to itself. The inversion on a circle has that circle's centre as pole and its squared radius as power.",
 ["inputs"], "all ordered pairs and triples of circles in every relative position (disjoint, nested, concentric, crossing, tangent inside or outside, congruent, equal), both sign requests." + DOM,
 "The tests use one fixed pair for some positions and accept either sign of the power; concentric, congruent and equal circles and the sign contract are not exercised.",
 [("Inversion.from_swapping_two_circles", G), ("Inversion.from_fixing_two_circles", G), ("Inversion.from_fixing_three_circles", G), ("mid_circles", G), ("Inversion.on_circle", G)])

prop("P04", "Moebius maps act as a group on the extended plane",
 "The image of a point under a Moebius transformation is the value of the fractional linear map of its matrix, including infinity and the pole. Composition (on the left or on the right), inverse and integer powers (positive, zero, negative) act on every point as the corresponding composite of maps. Composing two inversions gives the Moebius map that applies them in the stated order.",
 ["inputs", "histories"], "all non-singular complex matrices, points and infinity, integer exponents, both composition sides, inversions of either sign; chains of such operations." + DOM,
 "Two matrices and one pair of inversions are sampled; right composition, inverse, infinity, the pole, zero and negative powers on points are not compared with the composite map.",
 [("Mobius.transform", G), ("Mobius.compose", G), ("Mobius.inverse", G), ("Mobius.power", G), ("Inversion.compose", G), ("inversion_to_conjugate_mobius_", I)], files=(G, I))

prop("P05", "The Moebius image of a circle or line is exactly the set of image points",
 "The image of a circle or line under a Moebius transformation is the circle or line consisting of the images of its points. It is a line exactly when the original passes through the pole of the transformation (or the map is affine and the original is a line).",
 ["inputs", "histories"], "all non-singular matrices (affine or not), all circles and lines including those through the pole, centred at the pole, vertical, or defined by the pole itself; chains." + DOM,
 "One circle and one line with two matrices each; figures through the pole only once.",
 [("Mobius.transform_circle", G), ("Mobius.transform_line", G)])

prop("P06", "Moebius maps from data, real powers, fixed points and cross-ratios",
 "The Moebius map built from three point pairs sends each source to its target, infinity allowed on either side, and the one built from two circles maps the first circle onto the second. Generalized powers agree with integer powers as maps and add exponents under composition, and the reported fixed points are exactly the finite fixed points (infinity for a translation, nothing for the identity). The cross-ratio of four points is (z1-z4)/(z1-z2)*(z3-z2)/(z3-z4), is unchanged by Moebius maps, and is real exactly for four points of a common circle or line.",
 ["inputs"], "all triples of distinct points (infinity included), circle pairs, matrices (scalar, parabolic, generic), real exponents, quadruples of distinct points." + DOM,
 "One finite triple, one circle pair, exponents 2 and -2 and one quadruple are tested; infinity, fractional exponents and fixed points never.",
 [("Mobius.from_mapping_three_points", G), ("Mobius.from_mapping_one_circle", G), ("Mobius.gpower", G), ("Mobius.fixed_points", G), ("cross_ratio", G), ("mobius_from_three_points_to_zero_one_inf_", I)], files=(G, I))

prop("P07", "Affine maps: application, composition, inverse and interpolation",
 "An affine map sends a point to matrix times point plus intercept, row by row for a matrix of points, and its 3x3 matrix describes the same map. Composition (left or right) and inverse act as the composites of the maps, and a singular map has no inverse. The affine map built from three non-collinear point pairs sends each source to its target (nothing is returned when a triple is collinear), the one built from two ellipses or circles maps the first onto the second, and the image of a line is the line through the images with its extents kept.",
 ["inputs", "histories"], "all affine maps (singular included), points, n-row point matrices, composition sides, point triples, ellipse pairs (angles in degrees or radians), lines with any extents; chains." + DOM,
 "One map and one triple are tested; composition, inverse, lines and ellipse-to-ellipse are not tested at all.",
 [("Affine.transform", G), ("Affine.compose", G), ("Affine.inverse", G), ("Affine.get3x3matrix", G), ("Affine.from_mapping_three_points", G), ("Affine.from_ellipse_to_ellipse", G), ("Affine.transform_line", G)])

prop("P08", "Named plane transformations: one consistent map, with its defining law",
 "For reflections, projections (orthogonal or oblique), rotations (degrees or radians), homotheties, directional scalings, axis scalings and shears, transforming a point, transforming the rows of a matrix of points (where supported), the 3x3 matrix and the conversion to an affine map all describe the same map. That map obeys its definition: reflections mirror across the line, projections move parallel to the directrix onto the line, rotations turn counterclockwise about the centre, homotheties and scalings multiply by their factor about the centre (along the direction, or along each axis), leaving the complementary direction unchanged. A shear fixes its vertex and the whole line through it along the second (perpendicular) vector and adds tan(angle)/ratio^2 times the second vector to the first vector.",
 ["inputs"], "all parameter values (any sign of factor, any angle, any line or vector), all points and point matrices." + DOM,
 "Tests compare matrix and point application of three of the classes for one parameter set each; they never check the defining law, the 3x3 matrices or the affine conversions.",
 [("Reflection", G), ("Projection", G), ("Rotation", G), ("Shear", G), ("ScalingXY", G), ("Homothety", G), ("Scaling", G)])

prop("P09", "Transformed figures are the sets of transformed points",
 "Transforming a circle, ellipse or line by a rotation, reflection, homothety, directional scaling or invertible affine map yields exactly the figure made of the images of its points. Images of lines keep the extents of the original and correspond end to end. Resulting ellipses describe the major axis as the longer one, with the angle in the unit they declare.",
 ["inputs", "histories"], "all circles, ellipses (degrees or radians, any orientation, circular included), lines with any extents, all transformations of these kinds; repeated application." + DOM,
 "Each method is tested on at most one figure; axis-aligned images, negative factors, unit mixes and chains are not.",
 [("Affine.transform_ellipse", G), ("Rotation.rotate_circle/ellipse/line", G), ("Reflection.reflect_circle/line", G), ("Homothety.transform_circle", G), ("Scaling.scale_circle", G), ("Circle.as_ellipse", G)])

prop("P10", "Line descriptions and predicates agree with the line as a set",
 "The direction and offset of a line give an equation cos(d)x + sin(d)y = offset satisfied by its points, with a nonnegative offset. Two lines are reported equal exactly when they are the same set of points, parallel exactly when their directions agree, perpendicular exactly when the directions are orthogonal. A point is reported on a line exactly when it is collinear, and in strict mode exactly when it also lies on the segment or half-line that the extents describe, end points included.",
 ["inputs"], "all lines (vertical, horizontal, through the origin, far from it, every extent combination) and points at, between, beyond the defining points or off the line." + DOM,
 "These predicates are only used incidentally by tests, on one or two generic lines.",
 [("Line.direction_offset", G), ("Line.is_equal", G), ("Line.is_parallel", G), ("Line.is_perpendicular", G), ("Line.includes", G), ("collinear_", I), ("approx_equal_", I)], files=(G, I))

prop("P11", "Feet, distances, reflections and rigid motions of lines",
 "The perpendicular to a line through a point passes through that point at a right angle and, for a point off the line, runs from the foot to the point with the requested extents. The projection of a point is its foot on the line, the distance is the distance to the foot, and the reflection is the point on the other side of the foot at equal distance. Rotating or translating a line moves its two defining points by that rotation (degrees or radians) or vector and keeps its extents.",
 ["inputs"], "all lines, points on or off the line (tuple, list or array), angles, centres, vectors, extent flags." + DOM,
 "Not covered by tests except through one reflection of a circle.",
 [("Line.perpendicular", G), ("Line.projection", G), ("Line.distance", G), ("Line.reflection", G), ("Line.rotate", G), ("Line.translate", G)])

prop("P12", "Intersections are exactly the common points",
 "The intersection of two (extended) lines is nothing for distinct parallel lines, the line itself for equal lines and the common point otherwise. The intersection of a circle or ellipse with a line, and of two different circles, is nothing, one point in case of tangency, or two distinct points, and consists of exactly the points lying on both figures; equal circles give the circle. The method forms and the function forms agree.",
 ["inputs"], "all pairs of figures in all relative positions: disjoint, tangent (inside and outside), crossing, nested, concentric, through centres, vertical and horizontal lines, defining points near or far." + DOM,
 "One circle pair per position and one triangle's excircles are tested; ellipses, lines and scaled or rotated configurations are not.",
 [("intersection_line_line", G), ("intersection_circle_line", G), ("intersection_circle_circle", G), ("intersection_ellipse_line", G), ("circle_line_intersection_", I), ("line_line_intersection_", I)], files=(G, I))

prop("P13", "Circle power, radical objects, angles and membership",
 "The power of a point is its squared distance to the centre minus the squared radius; the radical axis of two non-concentric circles is the line of points of equal power, the radical centre of two circles is its point on the line of centres, and the radical centre of three circles has equal power for all three. Two circles are reported orthogonal exactly when the squared distance of centres is the sum of the squared radii, and their angle has cosine (d^2 - r1^2 - r2^2)/(2 r1 r2), tangent circles included, and is undefined when they do not meet. Membership tests, equality and the circles on a diameter or through a point from a centre agree with these distances.",
 ["inputs"], "all circles, pairs and triples in every relative position, all points." + DOM,
 "Orthogonality and angle are tested on one pair; power, radical axis and centre only indirectly.",
 [("Circle.power", G), ("Circle.radical_center", G), ("Circle.radical_axis", G), ("radical_center", G), ("Circle.is_orthogonal", G), ("Circle.angle", G), ("Circle.includes", G), ("Circle.contains", G), ("circleAB", G), ("circleOA", G), ("Circle.is_equal", G)])

prop("P14", "Orthogonal circles through two points, and their arcs",
 "The orthogonal circle through two points on a circle (given by angles) or strictly inside it passes through both points and meets the reference circle at right angles, and is a diameter line when the points are in line with the centre. In arc mode the result joins the two points inside the reference circle (a segment in the diameter case). In the second form, coincident points and points not strictly inside are refused.",
 ["inputs"], "all circles (radius below and above one), all pairs of distinct angles (any order, any turn, antipodal) and of interior points, both modes." + DOM,
 "One pair of angles without arc is tested; interior points and arcs never.",
 [("Circle.orthogonal_through_two_points_on_circle", G), ("Circle.orthogonal_through_two_points_in_circle", G)])

prop("P15", "All descriptions of an ellipse describe the same set",
 "The implicit equation, the shape matrix with the centre, and any five points of an ellipse each determine that ellipse: rebuilding an ellipse from them (with the equation multiplied by any non-zero factor) gives an equal ellipse whose major radius is the larger one. Coefficients that do not define a real ellipse are refused. Two ellipses are reported equal exactly when they are the same set of points, circles included.",
 ["inputs"], "all ellipses (any centre, radii, orientation in degrees or radians, circular and axis-aligned and 45-degree ones), all scalings of the equation, all five-point choices, parabolas, hyperbolas and empty or point conics." + DOM,
 "One ellipse per conversion is tested.",
 [("Ellipse.equation", G), ("Ellipse.from_equation", G), ("Ellipse.shape_matrix", G), ("Ellipse.from_center_and_matrix", G), ("Ellipse.equation_from_five_points", G), ("Ellipse.from_five_points", G), ("Ellipse.is_equal", G), ("ellipse_from_center_and_eigen_", I)], files=(G, I))

prop("P16", "Parametrized points, normals, diameters and arcs lie where they should",
 "The path of an ellipse has the requested number of points, starting at the end of the major axis and equally spaced in eccentric angle counterclockwise; the path of an arc runs counterclockwise from its starting to its ending point in equal steps on its circle. The point of a circle at an angle lies on it at that angle from the x axis. The point of an ellipse at a polar angle lies on the ellipse in that direction from the centre relative to the major axis, and the conversion of polar to eccentric angle designates the same point within the same turn. The normal at an eccentric angle is the outward unit normal there, diameters (and conjugate diameters) join opposite points at the eccentric angle, and membership tests agree with the equation.",
 ["inputs"], "all ellipses, circles and arcs (degrees or radians, wrap-around, negative and large angles), all angles including multiples of 90 degrees, all point counts." + DOM,
 "Membership of three random points and one diameter are tested; angles, normals, arcs are not.",
 [("Ellipse.path", G), ("Ellipse.point_from_angle", G), ("Ellipse.theta2t", G), ("Ellipse.normal", G), ("Ellipse.diameter", G), ("Ellipse.includes/contains", G), ("Arc.path", G), ("Arc.starting_point/ending_point", G), ("Circle.point_from_angle", G), ("ellipse_points_", I), ("circle_points_", I)], files=(G, I))

prop("P17", "Smallest ellipses through or around points",
 "The smallest ellipse through three non-collinear points passes through them and is centred at their centroid, and the one through four points in convex position passes through them and has the least area among such ellipses. The ellipse hull of a set of points contains every point and no ellipse of smaller area does, whatever the internal random choices and the order of the points.",
 ["inputs", "schedules"], "all point sets in general position (no three boundary candidates collinear), all orders and random states." + DOM,
 "No test covers these functions.",
 [("Ellipse.from_boundary3", G), ("Ellipse.from_boundary4", G), ("Ellipse.LownerJohnEllipse", G)])

prop("P18", "Circles and ellipses attached to a triangle satisfy their definitions",
 "For every non-flat triangle the incircle is inside and tangent to the three sides, each excircle is tangent to the three side lines beyond its own side, and the circumcircle passes through the vertices. The three Malfatti circles are inside, mutually tangent and each tangent to the two sides at its vertex, and the reported tangency points are those of the opposite pairs. The Steiner ellipse passes through the vertices and the Steiner inellipse is tangent to the sides at their midpoints, both centred at the centroid; flat triangles give nothing where documented.",
 ["inputs"], "all non-degenerate triangles, either orientation, any vertex order, acute, right, obtuse, isosceles and equilateral." + DOM,
 "One triangle is tested, and only by the number of intersection points.",
 [("Triangle.incircle", G), ("Triangle.excircles", G), ("Triangle.circumcircle", G), ("Triangle.malfatti_circles", G), ("Triangle.steiner_ellipse", G), ("Triangle.steiner_inellipse", G)])

prop("P19", "Triangle measurements, orientation and derived points",
 "Side lengths, angles and flatness of a triangle are those of its vertices; the orientation is 1 for counterclockwise, -1 for clockwise and 0 for collinear vertices; a triangle is acute when its largest angle is below a right angle; and a point is contained exactly when it is strictly inside. The orthic triangle's vertices are the feet of the altitudes, in vertex order. At the equal detour point the three detours through it between pairs of vertices are equal to the reported detour.",
 ["inputs"], "all non-degenerate triangles of either orientation (and exactly collinear vertices for orientation and flatness), all test points off the boundary." + DOM,
 "Only containment of three points of one clockwise triangle is tested.",
 [("Triangle.edges/a/b/c", G), ("Triangle.angleA/B/C", G), ("Triangle.flatness", G), ("Triangle.orientation", G), ("Triangle.is_acute", G), ("Triangle.contains", G), ("Triangle.orthic_triangle", G), ("Triangle.equal_detour_point", G)])

prop("P20", "A Steiner chain closes up",
 "A Steiner chain of n circles (n at least three) in a circle consists of n circles and an inner circle: each chain circle is internally tangent to the outer circle, externally tangent to the inner circle and externally tangent to its two neighbours, the last one to the first. The returned ellipse passes through all centres of the chain. Without eccentricity the chain is concentric with equal radii and the i-th centre at angle (i + shift) times 2 pi / n; eccentricity phi gives the inverse of that chain in the inversion that preserves the outer circle with pole at distance R/phi along the x axis.",
 ["inputs"], "all outer circles, n >= 3, |phi| < 1 of either sign, all shifts." + DOM,
 "No test covers Steiner chains.",
 [("SteinerChain", G), ("SteinerChain_phi0_", G)])

prop("P21", "Unimodular matrix generation is sound, complete and duplicate free",
 "For every n >= 1 the generated list starts with the identity and contains only integer 2x2 matrices of determinant one with entries between 0 and n, without repetition. For n >= 2 the remaining matrices are exactly those whose columns are the (denominator, numerator) pairs of two fractions in [0, 1], in increasing order, with denominators at most n and determinant one.",
 ["inputs"], "every integer n >= 1.",
 "No test covers it; completeness quantifies over all pairs of neighbouring fractions.",
 [("unimodular_matrices", G), ("farey_", I), ("farey_stack_", I)], files=(G, I))

prop("P22", "Calls are pure: no side effects, no dependence on history",
 "No call changes the objects, arrays or lists it is given (receiver included), numpy's global random state (except by random points and the Loewner-John ellipse, which draw) or other earlier objects. The result of a call depends only on the current values of its arguments: repeating it later, after any other calls, gives the identical result, and after an attribute of an object is reassigned the results are those of a freshly built object with that value. Objects own their data: when the caller later writes into an array it passed to a constructor or got from a call, no object changes.",
 ["histories", "inputs"], "all sequences of public calls over shared objects, with attribute reassignments and writes into the caller's arrays in between.",
 "Tests never look at arguments after a call, never repeat a call in a different history and never reassign attributes.",
 [("every public method", G), ("internal helpers", I)], files=(G, I))

prop("P23", "Random points lie in or on the declared region",
 "For every random state, the random points of a circle, ellipse or triangle form a matrix with the requested number of rows and two columns whose rows all lie inside the figure (mode in) or on its boundary (mode on). Successive points are not all confined to a part of it: points fall on both sides of each axis through the centre, and on every side of a triangle's boundary. Other modes are refused.",
 ["inputs", "schedules"], "all figures, all point counts, all states of the random generator.",
 "Three points of two fixed figures are tested.",
 [("Circle.random_points", G), ("Ellipse.random_points", G), ("Triangle.random_points", G), ("runif_*", I)], files=(G, I))

prop("P24", "Ill-formed arguments are refused, well-formed ones accepted",
 "Constructors, factory functions and methods raise an error, and build nothing, for arguments that are not points (or matrices of points, one per row), numbers, flags or figures of the documented kind, for non-positive radii, ratios and counts, for coincident points that should be distinct, and for shear angles outside the open interval (-90, 90) degrees. Points given as tuple, list or one-dimensional array (matrices of points: as lists or arrays), with integer or floating entries, are accepted and give the same result. An optional argument which is left out stands for its documented default.",
 ["inputs"], "every documented parameter of every public constructor and factory, over a catalogue of ill-formed and well-formed values.",
 "No test passes an ill-formed argument.",
 [("error_if_not_*", I), ("constructors", G)], files=(G, I))

prop("P25", "Objects hold and show the data they were built from",
 "For every class and all valid data, passed by position or by name, the attributes of a new object are exactly the data given: points and matrices as arrays of floats (complex for Moebius), flags left out as their documented default, the lines of reflections and projections by their two points. A projection without direction is marked orthogonal and its direction is perpendicular to its line; the coefficients a, b, c, d of a Moebius map are the entries of its matrix. str() and show() print these data, each field's numbers in order; show() says what the object is: line, half-line (and from which point) or segment, degrees or radians, flat or almost flat triangle, orthogonal projection.",
 ["inputs"], "all classes, all valid data, every choice of omitted arguments and of the way they are passed.",
 "Tests read a few attributes of a few objects and never call show or str.",
 [("constructors", G), ("show, __str__", G)], files=(G,))

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
