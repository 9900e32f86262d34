#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "libs/mathlib/include/"
T = "tests/tests/src/"

P = []


def prop(id, title, statement, quant, why, files, mech, observe, over=("inputs",), state=None, built=True, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=files,
                  mech=mech, observe=observe, state=state, built=built, note=note))


SAMPLED = "The unit tests evaluate %s at a handful of fixed float operands; %s"

prop("C01", "Vector arithmetic is component-wise linear algebra in every dimension",
     "For 2-, 3- and 4-component vectors of any finite values, sums, differences, negation, scaling, division, dot and component-wise products, minima, maxima, moves along a coordinate, length, squared length and null tests equal their mathematical definition up to floating-point rounding, in single and double precision. Every compound assignment gives the same value as the corresponding binary operator, modifies only its left operand and tolerates being given itself; construction, conversion between 2, 3 and 4 components, setting, element access, raw data access, copies, precision casts, predefined constants and equality preserve every component in its place.",
     "all finite component values, scalars, coordinates, both precisions, aliased operands",
     SAMPLED % ("each operator", "they never vary signs, zeros, magnitudes or aliasing, and hardly touch the double instantiation."),
     [I + "vec2.h", I + "vec3.h", I + "vec4.h", I + "impl/vec2.h", I + "impl/vec3.h", I + "impl/vec4.h"],
     [("component-wise operators and setters", I + "impl/vec3.h operator+ .. operator/, set, operator[]")],
     ["operator results", "data() memory", "operator== / !="])

prop("C02", "Cross products are antisymmetric, orthogonal and consistent",
     "The cross product of two 3-vectors equals the right-handed definition, is orthogonal to both operands, changes sign when they are swapped and vanishes for parallel operands; crossing with a coordinate or a signed axis equals crossing with that unit vector, in assigning and non-assigning form. The 2D cross products give the signed doubled triangle area, and the 2D segment intersection returns parameters that put the same point on both carrier lines, or reports no solution exactly when the lines are parallel.",
     "all pairs and triples of vectors, all coordinates and signed axes, all pairs of segments including parallel ones",
     SAMPLED % ("cross products", "parallelism, sign conventions and the intersection parameters hold over all operands, which no sample settles."),
     [I + "impl/vec2.h", I + "impl/vec3.h"],
     [("cross product operators", I + "impl/vec3.h operator%"), ("segment intersection", I + "impl/vec2.h intersection")],
     ["operator% results", "intersection() outputs"])

prop("C03", "Rotating, mirroring and normalising vectors are the stated isometries",
     "Rotating a 2D vector by an angle or a 3D vector about a coordinate axis by any angle is the right-handed rotation: it preserves length, composes additively, and quarter, half and three-quarter turns equal the exact rotations; mirroring negates exactly the named coordinate. Normalising to a target length returns the previous length and yields a vector of that length in the same direction, leaving the zero vector zero; the angle of a 2D vector built from an angle and a positive length is that angle modulo a full turn, and the major and minor coordinates name a component of largest and smallest magnitude. In-place and copying forms agree.",
     "all vectors, angles of any magnitude and sign, axes, target lengths",
     SAMPLED % ("rotation and normalisation", "isometry, additivity and agreement of in-place and copying forms quantify over all angles and vectors."),
     [I + "impl/vec2.h", I + "impl/vec3.h"],
     [("rotate/rotated/mirror/normalize", I + "impl/vec2.h, impl/vec3.h")],
     ["rotate, rotated, rotate90.., mirror(ed), normalize(d), fromAngle, angle, majorCoord, minorCoord"])

prop("C04", "Direction interpolation of vectors turns the short way at interpolated length",
     "Interpolating between two vectors by ratio gives the first vector at ratio 0 and the second at ratio 1, and in between a vector whose length is the linear interpolation of the lengths and whose direction is the first direction turned towards the second by that fraction of the angle between them, inside the plane they span (directions closer than about three degrees may be blended linearly; opposite directions turn through a half circle, in any plane through them). The angle-limited form never turns by more than the limit, reaches the second vector when the limit exceeds the angle, and interpolates length by the fraction of the angle actually turned; results may alias the inputs.",
     "all pairs of vectors, ratios in [0,1], angle limits >= 0; 2D and 3D",
     SAMPLED % ("clerp and slerp", "acute right-angled examples only; obtuse and wrap-around angles are where such code fails."),
     [I + "impl/vec2.h", I + "impl/vec3.h", I + "interpolation.h"],
     [("Vec2 circular interpolation", I + "impl/vec2.h clerp, clerpMaxAngle"), ("Vec3 spherical interpolation", I + "impl/vec3.h slerp, slerpMaxAngle")],
     ["fromClerp, fromClerpMaxAngle, fromSlerp, fromSlerpMaxAngle, clerp, slerp"])

prop("C05", "2x2 matrices are linear maps with consistent products and inverses",
     "A 2x2 matrix applied to a vector, combined with another matrix, negated, scaled, divided, transposed, adjoined or measured by its determinant gives the result of ordinary linear algebra, whatever operations produced it; a vector multiplied by a matrix on its right equals the transposed matrix applied to it. Inverting a non-singular matrix gives a matrix whose product with the original is the identity and a singular one yields the zero matrix; rotation, scale, column and identity constructors give the corresponding maps, and assigning, in-place and copying forms agree, also when an operand is the target itself. (A matrix within the documented classification tolerance of the identity or of an orthonormal one may be treated as such.) Two such values compare equal exactly when all their components do.",
     "all 2x2 matrices, including singular, diagonal, rotation and mirrored ones, in both precisions, and sequences of operations on them",
     SAMPLED % ("2x2 operations", "associativity, inverse and flag-driven fast paths hold over all matrices and operation orders."),
     [I + "mat2.h", I + "impl/mat2.h"],
     [("Mat2 algebra", I + "impl/mat2.h")],
     ["operator*, invert/inversed, determinant, transpose, adjoint"], over=("inputs", "histories"))

prop("C06", "3x3 matrix algebra agrees with linear algebra on every construction path",
     "Products, negations, scalings, divisions, transposes, adjoints, determinants, matrix-vector and vector-matrix products of 3x3 matrices equal the reference computation on their nine elements up to rounding, no matter which constructors, setters and operations produced the operands. Inverting a non-singular matrix, in place or by copy, yields the matrix that composes with it to the identity, whichever internal fast path applies; singular matrices yield the zero matrix. Assigning and copying forms agree, including when an operand is the target itself. (A matrix within the documented classification tolerance of the identity or of an orthonormal one may be treated as such.) Two such values compare equal exactly when all their components do.",
     "all 3x3 matrices (general, rotation, scaled, mirrored, permutation, singular, identity) obtained through histories of constructors and operations",
     SAMPLED % ("3x3 operations", "the fast paths taken for cached classifications make the result depend on history, which tests do not explore."),
     [I + "mat3.h", I + "impl/mat3.h"],
     [("Mat3 algebra and fast paths", I + "impl/mat3.h operator*, invert, inversed, transpose")],
     ["elements of results"], over=("inputs", "histories"))

prop("C07", "Rotation, scale and frame constructors for 3x3 matrices build that map",
     "Building a 3x3 matrix from three columns, a scalar, an axis and angle, a coordinate axis and angle, a quaternion, or an exact and an approximate axis yields the matrix of that linear map: rotations are orthonormal with determinant one, keep their axis fixed and turn perpendicular vectors by the angle in the right-handed sense. Frame constructors return an orthonormal right-handed frame whose exact axis has exactly the requested direction and whose approximate axis is as close to the requested one as orthogonality permits (degenerate requests give the identity); orthonormalising a matrix and interpolating between two rotations give rotations likewise.",
     "all unit axes, angles, quaternions, scales and pairs of non-parallel directions with distinct axes",
     SAMPLED % ("each constructor", "orthonormality and handedness hold for all axis and angle combinations; tests pick coordinate axes and quarter turns."),
     [I + "impl/mat3.h", I + "impl/quat.h"],
     [("Mat3 set* / from* constructors", I + "impl/mat3.h")],
     ["elements of the built matrix, action on vectors"])

prop("C08", "Incremental rotate, scale and translate equal composition with that map",
     "Applying a rotation, scale or translation to an existing 2x2, 3x3, 3x4 or 4x4 transform (projective 4x4 included), before or after it, in place or as a copy, gives the transform equal to composing the elementary map on the corresponding side, where scaling multiplies the columns (axes) and, for 3x4 and 4x4 transforms, the offset component-wise; later use of the result (transforming vectors, multiplying, inverting) reflects that composition. Sequences of such operations therefore equal the product of the elementary matrices in order.",
     "all sequences of incremental operations on all transforms, with all axes, angles, factors and offsets",
     "Tests apply one incremental operation to one start matrix and compare elements; they neither chain operations nor use the result afterwards, where stale cached classification shows.",
     [I + "impl/mat2.h", I + "impl/mat3.h", I + "impl/mat34.h", I + "impl/mat4.h"],
     [("rotate/rotatePre/scale/scalePre/translate", I + "impl/mat3.h, impl/mat34.h, impl/mat4.h")],
     ["elements and action on points after each step"], over=("inputs", "histories"))

prop("C09", "Cached matrix classifications never contradict the elements",
     "After any sequence of constructors, assignments and operations, a matrix that reports itself identity, orthogonal, normal, orthonormal or a rigid/affine transform has elements satisfying that predicate within the documented tolerance (relative to the sizes of its axes). Recomputing the classification from the elements claims a class exactly when the elements satisfy it within the given tolerances, and results computed with cached classes equal those of a matrix freshly built from the same elements.",
     "all histories of public matrix operations on 2x2, 3x3, 3x4 and 4x4 matrices",
     "Classification bits depend on the whole operation history; tests check them after single operations on a few matrices.",
     [I + "impl/mat2.h", I + "impl/mat3.h", I + "impl/mat34.h", I + "impl/mat4.h"],
     [("flags bookkeeping and optimize()", I + "impl/mat3.h, impl/mat4.h")],
     ["isIdentity, isOrthogonal, isNormal, isOrthonormal, results of products and inverses"], over=("histories", "inputs"),
     state=[("flags", "cached classification of a matrix", I + "mat3.h")])

prop("C10", "3x4 transforms compose, invert and act as affine maps",
     "A 3x4 transform maps a point to its linear part applied to the point plus its offset, and a vector to its linear part applied to the vector; products with 3x4 and 3x3 matrices act as the composition of the maps, and the inverse of an invertible transform composes with it to the identity. Negating, transposing the linear part, interpolating rotations, local axes and planes, precision casts and conversions from and to 3x3 matrices, and in-place and copying forms follow the same element-wise meaning. (A linear part within the documented classification tolerance of the identity or of an orthonormal one may be treated as such.) Two such values compare equal exactly when all their components do.",
     "all affine transforms with general, rotation, scaled and singular linear parts, all points and vectors",
     SAMPLED % ("3x4 operations", "composition and inversion laws hold over all pairs of transforms."),
     [I + "mat34.h", I + "impl/mat34.h"],
     [("Mat34 algebra", I + "impl/mat34.h")],
     ["operator*, transform, transformVector, invert, inversed"], over=("inputs", "histories"))

prop("C11", "4x4 transforms compose, invert and project consistently",
     "A 4x4 matrix applied to 4-component vectors, combined, negated, transposed, scaled or inverted obeys ordinary linear algebra over its sixteen elements; transforming a point uses the translation and transforming a direction does not. Affine and orthonormal fast paths give the same results as the general computation, the inverse of any non-singular matrix composes with it to the identity and a singular one yields the zero matrix, and conversions from and to 3x3 matrices and offsets keep the map. (A matrix within the documented classification tolerance of the identity or of an orthonormal one may be treated as such.) Two such values compare equal exactly when all their components do.",
     "all 4x4 matrices, affine and projective, singular and not, obtained through any history of operations",
     SAMPLED % ("4x4 operations", "fast paths chosen by cached classes need histories and non-affine matrices to be exercised."),
     [I + "mat4.h", I + "impl/mat4.h"],
     [("Mat4 algebra and TRS fast paths", I + "impl/mat4.h")],
     ["operator*, transform, transformVector, invert, inversed, determinant"], over=("inputs", "histories"))

prop("C12", "Bulk transforms equal element-by-element transforms and stay in bounds",
     "Transforming an array of points or vectors, contiguous or with input and output strides, writes for each element exactly what transforming that element alone gives, for every count including zero. Nothing outside the addressed elements is read or written, padding between strided elements is preserved, and transforming in place is supported.",
     "all counts, strides, buffers and transforms, including identity and in-place use",
     "Tests use one short contiguous array; bounds, padding and aliasing need generated layouts under a memory checker.",
     [I + "impl/mat2.h", I + "impl/mat3.h", I + "impl/mat34.h", I + "impl/mat4.h"],
     [("strided transform loops", I + "impl/mat3.h transform(...)")],
     ["output buffers and the bytes around them"], over=("inputs", "configurations"))

prop("C13", "Quaternion algebra is Hamilton's and rotates vectors rigidly",
     "Quaternion products, negation, division, conjugates (inverses), normalisation, exponentials and logarithms follow Hamilton's algebra up to rounding; multiplying unit quaternions composes their rotations (the right operand turns first) and dividing undoes multiplying on the right. Rotating a vector or a coordinate axis by a unit quaternion preserves lengths, inner products and handedness and equals multiplying by its 3x3, 3x4 or 4x4 matrix; rotating back with the inverse restores the vector, and a quaternion and its negation rotate alike. Construction with and without normalisation, setters, raw access, equality and precision casts keep every component.",
     "all quaternions and unit quaternions, all vectors, both precisions",
     SAMPLED % ("quaternion operators", "non-commutativity and inverse laws quantify over all pairs."),
     [I + "quat.h", I + "impl/quat.h"],
     [("Quat operators", I + "impl/quat.h")],
     ["operator*, inversed, conjugated, rotate, rotated, log, exp"])

prop("C14", "Rotation representations convert without changing the rotation",
     "Converting a rotation between unit quaternion, 3x3, 3x4 and 4x4 matrix, axis and angle, and vector pair keeps the rotation it denotes: a quaternion built from an axis and angle, or from a matrix, rotates every vector as that axis-angle or matrix does, and extracting axis and angle gives them back up to the two-fold sign ambiguity (turns of less than two milliradians may be dropped); the extracted axis has unit length and the angle lies within one turn. The quaternion built from two directions of any length carries the first onto the second by the shortest turn without twist, for every pair including opposite ones (directions within 0.26 degrees of parallel or opposite may be treated as such).",
     "all rotations (all axes, angles over a full double turn, near-zero, near-half-turn and half-turn rotations), all direction pairs",
     SAMPLED % ("conversions", "each branch of the matrix conversion and the degenerate direction pairs need targeted generation."),
     [I + "impl/quat.h", I + "impl/mat3.h"],
     [("Quat conversions", I + "impl/quat.h set(...), toAxisAngle"), ("matrix conversion", I + "impl/mat3.h")],
     ["set/from constructors, toAxisAngle, rotated"])

prop("C15", "Quaternion interpolation follows the shortest arc at constant rate",
     "Interpolating two unit quaternions by ratio gives the rotation of the first at 0, of the second at 1, and between them the rotation that has turned that fraction of the shortest arc from first to second (pairs less than about 37 degrees apart may be blended linearly, within a milliradian); the result is a unit quaternion and does not depend on the sign chosen for either operand. The form without inversion follows the arc between the quaternions as given, linear interpolation is the normalised blend, the four-quaternion form nests three of these and the three-quaternion form gives the matching control point. The angle-limited form starts at the first rotation and turns towards the second by at most the limit, reaching it when the limit is large enough. Destinations may alias operands.",
     "all pairs of unit quaternions (including equal, opposite-sign and nearly equal), ratios in [0,1], limits >= 0",
     SAMPLED % ("interpolation", "shortest-arc selection and the small-angle fallback need all relative angles."),
     [I + "impl/quat.h"],
     [("slerp, lerp, slerpMaxAngle", I + "impl/quat.h")],
     ["interpolated quaternions"])

prop("C16", "Boxes built from points and unions contain exactly what they should",
     "In 2D and 3D, a box built from a point, corners, a list of points (packed or strided), another box, by adding points or as a union is the smallest axis-aligned box containing its sources; containment of points, boxes and spheres, overlap and intersection agree with interval arithmetic per axis with closed boundaries, and the intersection of disjoint boxes is the null box. Centre, extents, size, area or volume, inner and outer circle or sphere and points at ratios follow from the corners; moving shifts both corners, also by one of the box's own corners, and scaling multiplies the extents about the centre, with assigning and copying forms in agreement. Two such values compare equal exactly when all their components do.",
     "all boxes including degenerate, touching, nested and disjoint ones, all points, point lists with any stride, and histories of growth and union",
     SAMPLED % ("box operations", "the empty, touching and degenerate boxes are the cases where closed-interval semantics matter."),
     [I + "aabb2.h", I + "aabb3.h", I + "impl/aabb2.h", I + "impl/aabb3.h"],
     [("AABB set operations", I + "impl/aabb3.h")],
     ["inf/sup corners, contains, intersects, from*"], over=("inputs", "histories"))

prop("C17", "Box queries by line segment and ray agree with exact clipping",
     "The intersects queries report a segment (or ray) exactly when some point of it lies in the box, returning the parameters between which it is inside, clipped to the segment (or to non-negative parameters). The hits queries report exactly the carriers that enter the box from outside - every slab is entered before any is left, at a parameter not before the start and not beyond the segment's end - and return the parameter of entry, which lies on the boundary. Both hold in 2D and 3D for directions of any length, axis-parallel directions, starts inside or on the box and degenerate boxes, and do not depend on mirroring or reversing the configuration.",
     "all boxes, segments and rays, including axis-parallel, inside, touching, falling short and pointing away",
     SAMPLED % ("hits and intersects", "mostly axis-parallel ones; the slab clipping has a case for every combination of signs and slabs."),
     [I + "impl/aabb2.h", I + "impl/aabb3.h"],
     [("slab clipping", I + "impl/aabb3.h hits, intersects")],
     ["hits, intersects results, hit parameter and point"])

prop("C18", "Centre-extents boxes behave as the equivalent corner boxes",
     "A 2D or 3D box kept as centre and half-extents converts to corners and back without change beyond rounding, and answers containment of points, boxes and spheres, overlap, size, area or volume, inner and outer circle or sphere and nullness as the corner box with the same bounds does. Boxes built from centre and size, corners, a point or a list of points (packed or strided) have exactly those bounds; adding points, moving and scaling keep the two representations in step, adding a contained point changes nothing, and its points at ratios -1 to 1 are those of the corner box at ratios 0 to 1. Two such values compare equal exactly when all their components do.",
     "all boxes, points and point lists, and histories of growth, movement and scaling",
     SAMPLED % ("centre-extents boxes", "agreement of two representations is a relation over all inputs that no test states."),
     [I + "caabb2.h", I + "caabb3.h", I + "impl/caabb2.h", I + "impl/caabb3.h"],
     [("CAABB operations", I + "impl/caabb3.h")],
     ["query results of both representations"], over=("inputs", "histories"))

prop("C19", "Circle and sphere queries agree with distances",
     "A circle or sphere contains a point exactly when its distance to the centre is at most the radius, contains another exactly when it holds all of it, and meets another exactly when the centres are no farther apart than the radii together; the reported depth is the overlap and the reported point (for distinct centres) the point of the other's boundary facing this one. A segment is reported exactly when it enters the ball from outside within the segment, with the parameter and point of first contact; circles consider only the first two coordinates of the segment. A ball built from a list of points, packed or strided, is centred on their bounding box and reaches its farthest point; moving, scaling, casting and comparing act on centre and radius as named.",
     "all centres, radii including zero, points, partners and segments including tangential, inside, falling short and pointing away; point lists with any stride",
     SAMPLED % ("circle and sphere queries", "both roots, inside starts and misses need general position inputs."),
     [I + "circle.h", I + "sphere.h", I + "impl/circle.h", I + "impl/sphere.h"],
     [("quadratic solution", I + "impl/sphere.h")],
     ["contains, hits, intersects outputs"])

prop("C20", "Planes measure signed distance and cut lines where they should",
     "A plane built from a normal and a distance, a normal or two tangents at a point, three points or as a parallel plane contains those points and has a unit normal; its signed distance is normal times point minus offset, positive on the normal side and equal to the Euclidean distance to the plane. Projecting a point, perpendicularly or along a direction, lands on the plane and moves only along that direction, and is refused when the direction is parallel; flipping and moving the plane keep these facts. The hits queries report exactly rays and segments that pass from the front (or the plane) to behind it, and the intersects queries those that meet it from either side, with the parameter and point of contact; spheres by their distance and depth, and three planes by their single common point unless they have none. Two such values compare equal exactly when all their components do.",
     "all planes through or away from the origin, all points, directions, rays, segments and spheres, including parallel, touching and ending short, all triples of planes",
     SAMPLED % ("plane functions", "often with planes through the origin or axis-aligned normals, which hide offset and normalisation errors."),
     [I + "plane.h", I + "impl/plane.h"],
     [("Plane functions", I + "impl/plane.h")],
     ["distance, project, hits, intersects outputs"])

prop("C21", "Lines and rays: parametrisation, closest points and distances agree",
     "In 2D and 3D, a line's point at a parameter interpolates its end points, and its length and nullness follow from them; a ray built from any direction has a unit direction and its point moves that distance along it from the start. The distance of a point is the Euclidean distance to the infinite carrier (to the start when a line is null), zero for points on it, independent of where along the carrier the start lies; a 3D ray measures points straight behind its start from the start. Casting and comparing act on both members.",
     "all lines and rays (any direction, scale and position), all points including those on or near the carrier and far along it",
     SAMPLED % ("line and ray functions", "minimality quantifies over all points of the line."),
     [I + "line2.h", I + "line3.h", I + "ray2.h", I + "ray3.h", I + "impl/line2.h", I + "impl/line3.h", I + "impl/ray2.h", I + "impl/ray3.h"],
     [("distance and pointAt", I + "impl/line3.h, impl/ray3.h")],
     ["distance, pointAt, delta, direction outputs"])

prop("C22", "2D triangles contain exactly the convex hull of their corners",
     "A 2D triangle of either winding contains a point exactly when the point is a convex combination of its corners, boundary included; a triangle without area contains exactly the points of the segment (or the point) its corners span. The answer does not change under a cyclic shift or reversal of the corners or under a common translation. Two such values compare equal exactly when all their components do.",
     "all triangles, collinear and coinciding corners included, all points including vertices and edge points",
     SAMPLED % ("containment", "all edge sides and both windings need generated points."),
     [I + "tri2.h", I + "impl/tri2.h"],
     [("edge side tests", I + "impl/tri2.h")],
     ["contains"])

prop("C23", "Frustum tests agree with its six half-spaces",
     "A frustum built from its eight corners, or from local corners and an orientation-preserving 3x4 or 4x4 transform, keeps the (transformed) corners and has six planes whose unit normals face outwards, each holding the corners of its side. It contains a point exactly when the point is on the inner side of all six, i.e. inside the convex hull of the corners; it contains a sphere exactly when the centre is at least the radius inside all six, and reports a sphere as intersecting exactly when its centre is no more than the radius outside any of them. Casting keeps corners and planes.",
     "all camera poses, symmetric and asymmetric perspective, orthographic and sheared frusta, all points and spheres including those on and near each side",
     SAMPLED % ("one or two frusta", "camera pose and opening vary freely in use."),
     [I + "frustum.h", I + "impl/frustum.h"],
     [("Frustum planes", I + "impl/frustum.h")],
     ["contains, intersects, plane values"])

prop("C24", "Cubic curve segments interpolate, differentiate and convert consistently",
     "A Hermite segment starts and ends at its end points with its end tangents, a Bezier segment equals the Bernstein form of its control points, both equal the combination of their published basis functions, and their tangents and frames (binormal, tangent, normal, refused where the curve does not bend) are those of the polynomial. The end tangents of a Bezier segment give the Hermite form of the same curve; splitting at a parameter (also into itself) and stepwise forward-difference evaluation reproduce it, and a computed length is that of the chords between evenly spaced parameters, between the chord of the ends and the control polygon.",
     "all control points and tangents, parameters in [0,1] (beyond for the basis functions and the stepping), split parameters, step counts",
     SAMPLED % ("curve functions", "polynomial identities hold for all control points and parameters."),
     [I + "spline3.h", I + "impl/spline3.h"],
     [("curve evaluation", I + "impl/spline3.h")],
     ["pointAt, tangentAt, split, forward differences"])

prop("C25", "Spline solvers produce smooth curves through the given points",
     "For every list of points, the open natural, clamped and closed spline solvers produce control points for which consecutive segments pass through the given points and join with equal first and second derivatives, with vanishing curvature, the requested end conditions or periodicity at the ends. The solvers write only the documented output elements.",
     "all lists of two or more points, repeated and collinear ones included, all end controls",
     SAMPLED % ("spline solutions of three or four points", "smoothness at every join is a relation over all lists and lengths."),
     [I + "spline3.h", I + "impl/spline3.h", I + "impl/linearequations.h"],
     [("SplineSolver3", I + "impl/spline3.h")],
     ["control points written"])

prop("C26", "Tridiagonal and cyclic solvers solve their systems",
     "For every diagonally dominant tridiagonal system, scalar or vector valued, and every cyclic system of three or more equations with corner elements, the solver's result satisfies each equation up to rounding and the inputs are not modified; systems whose elimination meets an exactly zero pivot, and cyclic systems whose correction has none, are reported rather than returned as solved. No element outside the given arrays is touched.",
     "all sizes from one equation (three for cyclic systems), all diagonally dominant coefficient sets and right-hand sides, breakdown at any row",
     SAMPLED % ("systems of fixed small size", "residuals hold for all sizes and coefficients."),
     [I + "linearequations.h", I + "impl/linearequations.h"],
     [("Thomas algorithm and cyclic correction", I + "impl/linearequations.h")],
     ["solution vector residuals, return value, array bounds"])

prop("C27", "Gauss-Jordan elimination solves, inverts and reports singular systems",
     "For every well-conditioned square system of any size and scale, elimination succeeds, replaces the right-hand sides (scalars, Vec2 or Vec3) by the solutions and the matrix by its inverse, whatever pivoting order is needed; for one singular in exact arithmetic (an empty row or column, dependent rows that eliminate without rounding) it reports failure. Only the given arrays are touched.",
     "all square matrices up to a size bound, including those requiring row exchanges, of scales far from one, and exactly singular ones",
     SAMPLED % ("one or two systems", "pivot order depends on the matrix."),
     [I + "linearequations.h", I + "impl/linearequations.h"],
     [("GaussJordan", I + "impl/linearequations.h")],
     ["solution, inverse, return value"])

prop("C28", "Easing curves run from 0 to 1 with their documented symmetry",
     "Every interpolation mode maps ratios of 0 and below to exactly 0 and of 1 and above to exactly 1. In between each follows its power, sine, exponential or circular law in both precisions: it stays within [0,1], never decreases and has no jumps (the second exponential family starts at its 2^-20), each out-variant is the point reflection of its in-variant, and each in-out-variant is half of one and half of the other, symmetric about the middle; the plain modes equal the in-modes of the same law.",
     "all ratios in [0,1], all modes, both precisions",
     SAMPLED % ("each mode", "at a few ratios in single precision."),
     [I + "interpolation.h"],
     [("interpolationRatio and mode functions", I + "interpolation.h")],
     ["interpolationRatio"])

prop("C29", "Linear and angular interpolation reach their ends, the short way round",
     "Linear interpolation returns the start at 0, the end at 1 and the affine combination in between for integers (truncated towards the start), scalars and vectors; with an easing mode it does so at the eased ratio. Angular interpolation moves from the start angle along the shortest turn to the end angle by that ratio, whatever the number of whole turns in either angle, and its angle-limited form by at most the limit, reporting the fraction of the turn covered (one when there is nothing to turn).",
     "all pairs of scalars and vectors, integers whose difference the ratio's type represents, angles many turns apart, ratios, modes, limits",
     SAMPLED % ("interpolation", "wrap-around in both directions needs angles of every relative position."),
     [I + "interpolation.h"],
     [("lerp, clerp, clerpMaxAngle", I + "interpolation.h")],
     ["lerp, clerp, clerpMaxAngle results and ratio"])

prop("C30", "Scalar helpers obey their mathematical definitions on all inputs",
     "Absolute value, minimum, maximum, clipping, angle unit conversion, clamped inverse sine and cosine, the plain, positive and centred remainders and point distances agree with their definitions for all finite arguments: conversions are mutually inverse, clipping lands in the interval, inverse functions accept out-of-range arguments as the nearest end, positive remainders lie in [0, modulus) and centred ones within half a modulus, congruent to the argument. Constants agree with each other and coordinate successors cycle.",
     "all finite arguments, moduli > 0, intervals, both precisions",
     SAMPLED % ("each helper", "negative and exactly-multiple remainders, out-of-range arguments and double precision are barely sampled."),
     [I + "functions.h", I + "constants.h", I + "impl/constants.h", I + "common.h"],
     [("scalar helpers", I + "functions.h")],
     ["function results"])

prop("C31", "Response curves are odd, dead-zoned, monotone and end at one",
     "Every response curve is an odd function that is zero inside the dead zone, continuous at its edge, non-decreasing, and maps full deflection to exactly plus or minus one (except the zero curve, which is zero everywhere), following its linear, parabolic, cubic, exponential or cosine law of the deflection rescaled past the dead zone.",
     "all deflections in [-1,1], all thresholds in [0,1), all curve types, both precisions",
     SAMPLED % ("curves", "oddness, continuity and monotonicity quantify over all deflections and thresholds."),
     [I + "functions.h"],
     [("evaluate", I + "functions.h")],
     ["evaluate"])

prop("C32", "RGB and RGBA colours: arithmetic and conversion are channel-wise",
     "Colour sums, differences, negations, scalings, comparisons, casts and interpolation act on each channel independently with the same meaning, also when operands and destination coincide; compound and binary forms agree. RGBA arithmetic keeps the left operand's alpha, its interpolation blends alpha too, and an omitted alpha is opaque. Interpolation returns its ends exactly, and integer channels are 255ths, so every byte value survives the round trip.",
     "all channel values including out-of-range ones, all byte values, both precisions",
     SAMPLED % ("channel operations", "channel mix-ups need distinct values in every channel and clamping needs values on both sides."),
     [I + "colorrgb.h", I + "colorrgba.h", I + "impl/colorrgb.h", I + "impl/colorrgba.h"],
     [("channel-wise operators", I + "impl/colorrgb.h, impl/colorrgba.h")],
     ["channels of results"])

prop("C33", "HSV and RGB conversions round-trip and hue interpolates the short way",
     "Converting a colour of the unit RGB cube to hue, saturation and value and back restores it, and converting an HSV colour of any hue to RGB and back restores hue modulo a full turn, saturation and value wherever they are defined; value is the largest channel, saturation the relative spread, and greys have hue and saturation zero. Interpolating HSV colours returns both ends exactly and otherwise blends saturation and value and takes the shorter way round the colour circle, giving a hue of one turn. Two such values compare equal exactly when all their components do.",
     "all colours of the unit cube including greys, ties and primaries, all hues including those outside one turn and next to the sextant borders, ratios",
     SAMPLED % ("conversions of a few colours", "each hue sextant has its own branch and boundary."),
     [I + "colorhsv.h", I + "impl/colorhsv.h", I + "impl/colorrgb.h"],
     [("HSV conversion", I + "impl/colorhsv.h")],
     ["toRGB, toHSV, lerp"])

prop("C34", "Random helpers stay in range and unit vectors have unit length",
     "For every state of the random source, random integers lie in the half-open ranges their arguments state, random reals in the corresponding closed ones, amplitudes in the band or its mirror image, colour channels in [0,1], hues within a turn, and random unit vectors have length one. The same source state always gives the same results. With a well-distributed source every integer of a range, both signs of an amplitude, both halves of a real range and every octant (quadrant) of directions are reached.",
     "all sequences of values the random source can deliver, its extremes included, all ranges",
     "Tests draw once or twice; the range guarantee is over all draws and arguments.",
     [I + "functions.h", I + "impl/vec2.h", I + "impl/vec3.h", I + "impl/colorrgb.h", I + "impl/colorhsv.h"],
     [("random helpers", I + "functions.h")],
     ["returned values"], over=("inputs", "histories"))

prop("C35", "Test matchers accept equal values and reject differing ones",
     "The approximate-equality matchers shipped for testing accept a value compared with itself and with any value within the margin in every component, in either order, and reject a value that differs beyond the margin, or is not a number, in any single component, for every supported type and both precisions; a negative margin is refused. What a mismatch reports lists the margin and every component in order.",
     "all values of every supported type, each component perturbed alone",
     "The matchers are only used positively by the existing tests, so a matcher that ignores a component goes unnoticed.",
     ["libs/testlib/include/impl/catch_matchers.h", "libs/testlib/include/mathlib_testlib.h"],
     [("matchers", "libs/testlib/include/impl/catch_matchers_*.h")],
     ["match results"])


prop("C36", "Arguments may be parts of the target",
     "Every setter and in-place operation of vectors, matrices, quaternions, colours, boxes, balls, planes, curve segments and frusta gives the same result when its arguments are references to the target itself, or to the target's own members, columns, corners, control points or elements, in any order, as it gives when the arguments are separate copies with the same values: a box can be set from its own swapped corners, a matrix from its own permuted columns or scaled by one of them, a segment reversed in place.",
     "all targets of every type, every setter and in-place operation, every choice and order of own parts as arguments",
     "Tests always pass fresh arguments; an operation that reads an argument after writing the target is wrong only for the inputs that overlap it, and which overlap matters depends on the order of its statements.",
     [I + "impl/mat2.h", I + "impl/mat3.h", I + "impl/mat34.h", I + "impl/mat4.h", I + "impl/aabb2.h", I + "impl/aabb3.h", I + "impl/caabb2.h", I + "impl/caabb3.h", I + "impl/plane.h", I + "impl/spline3.h", I + "impl/quat.h", I + "impl/vec2.h", I + "impl/vec3.h", I + "impl/frustum.h"],
     [("setters taking references", I + "impl/*.h set()"), ("in-place operations", I + "impl/*.h operator+= .. , scale, rotate, transform, slerp, interp, split")],
     ["members of the target afterwards", "matrix classification predicates"])

prop("C37", "Results depend on the arguments and on nothing else",
     "Every operation other than the random ones is a function of its arguments: called again with equal arguments, after any other calls, in any order, and on any number of threads at once, it gives the same result bit for bit. It leaves unchanged every operand it takes as const, does not draw from the random number generator and does not change the floating point environment; calls on different threads that share operands as const do not race.",
     "all operations of every type on any operands, all histories of calls, up to four threads",
     "Tests call each operation once in a fresh process on one thread; a result remembered from an earlier call, a table set up at the first call or a buffer shared between calls is wrong only after particular histories or schedules.",
     [I + "functions.h", I + "interpolation.h", I + "impl/mat3.h", I + "impl/mat34.h", I + "impl/mat4.h", I + "impl/quat.h", I + "impl/vec2.h", I + "impl/vec3.h", I + "impl/spline3.h", I + "impl/linearequations.h", I + "impl/plane.h", I + "impl/frustum.h"],
     [("every operation", I + "impl/*.h"), ("constants shared by all", I + "impl/constants.h, Zero/One/DefaultTolerance of the types")],
     ["results of repeated calls", "operands afterwards", "state of rand()", "thread sanitizer reports"])

prop("C38", "Array routines stay inside their arrays and leave no memory behind",
     "The solvers of linear systems, the spline solvers, the batch transformations and the bounding boxes and balls of point sets read and write only the elements the caller describes (count, stride, number of unknowns and of right sides): what lies between and beside them is neither changed nor of influence on the result, arrays passed as const are unchanged, result arrays are written but never read. Whatever they allocate is released when they return, whether they succeed or report a singular system.",
     "1 to 24 unknowns or points, systems regular or singular at any pivot, any number of right sides, batches of 0 to 9 elements with any strides",
     "Tests use a few small arrays with nothing of interest around them and do not watch the allocator; an access one element too far or a block lost on one way out depends on the size, the stride and the place where the system turns out singular.",
     [I + "impl/linearequations.h", I + "impl/spline3.h", I + "impl/mat2.h", I + "impl/mat3.h", I + "impl/mat34.h", I + "impl/mat4.h", I + "impl/aabb2.h", I + "impl/aabb3.h", I + "impl/caabb2.h", I + "impl/caabb3.h", I + "impl/circle.h", I + "impl/sphere.h"],
     [("solvers", I + "impl/linearequations.h TriDiagonal, GaussJordan"), ("splines", I + "impl/spline3.h SplineSolver3"), ("batches", I + "impl/mat*.h transform, transformVector"), ("point sets", I + "impl/aabb*.h, caabb*.h, circle.h, sphere.h set(count, points, stride)")],
     ["bytes beside and between the elements", "live allocations", "results under different surroundings"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                 "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["quant"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, na = [], []
    for p in P:
        built = os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".cpp"))
        if not built:
            na.append({"property": p["id"], "reason": "its generated check is not built yet"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 run.py %s quick" % p["id"],
            "thorough_cmd": "python3 run.py %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "property-based testing: generated inputs against a reference oracle with shrinking (plus coverage-guided fuzzing of the same laws in the thorough tier)",
            "level": "exploration",
            "level_note": p["note"] or "Random structured search over the stated inputs in an optimised and a sanitized build; finds violations that the generators reach, establishes no absence. Trusts the long double reference with its running error bound.",
        })
    m = {"version": 1, "setup_cmd": "python3 tools/selfcheck.py",
         "checks": checks, "not_applicable": na,
         "notes": "Header-only library: each check compiles its laws against /repo's current headers. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    print(len(P), "properties,", len(checks), "checks")


main()
