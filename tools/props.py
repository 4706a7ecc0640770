#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: only properties whose driver exists are written."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "crates/cglinalg_core/src/"
TR = "crates/cglinalg_transform/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, level_note, technique):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level_note=level_note, technique=technique))
I = ["inputs"]
IP = ["inputs", "programs"]
IH = ["inputs", "histories"]
X = "bounded exhaustive enumeration of call sequences on the real code against a plain reference model"
B = "explicit-state breadth-first search over operation histories of the real code against a plain reference model"

prop("C01", "Compile-time dimension sums, differences and products are exact",
 "Whenever the library's type-level dimension arithmetic offers a sum, difference or product of two dimensions, the resulting dimension is the arithmetic one, and every sum and product of dimensions 1 to 4, and every non-negative difference within 1 to 4, is offered. Extending a dimension adds exactly one, contracting it removes exactly one, and the two are inverse to each other wherever both exist.",
 ["programs"], "every ordered pair of dimensions a program can name",
 "Unit tests instantiate a few pairs; a wrong entry for another pair silently changes the type of every product, extension or contraction built on it.",
 [CORE + "constraint.rs"], [("dimension trait implementations", CORE + "constraint.rs")],
 "Every ordered pair of dimensions in the bound is put to the compiled trait system and its answer read back; the table is compared with integer arithmetic, including the two-step laws.",
 "exhaustive enumeration of the type-level relation table of the compiled library against integer arithmetic")
prop("C02", "Compile-time dimension order, equality and compatibility are sound",
 "The type-level relations between dimensions mean what they say: two dimensions are equal only if they are the same number (and the representative is that number), one is below another only if its number is smaller, and two shapes are multiplicable (directly, or with the left one transposed) exactly when the contracted dimensions agree. The order is irreflexive, asymmetric and transitive, and holds for every pair in the supported range 0 to 4 that is arithmetically ordered.",
 ["programs"], "every ordered pair and every pair of shapes a program can name",
 "Tests check a few positive cases; absence of false positives is a statement about all pairs and needs the type checker's negative answers too.",
 [CORE + "constraint.rs"], [("dimension trait implementations", CORE + "constraint.rs")],
 "All pairs and all 4-tuples of dimensions in the bound are decided by the compiler itself; positive and negative answers are both compared with arithmetic.",
 "exhaustive enumeration of the type-level relation table of the compiled library against arithmetic order and equality")
prop("C03", "Only shape- and unit-compatible programs compile, and all of those do",
 "A program that combines vectors, points, matrices, angles or transformations of incompatible shape, kind, unit or scalar type is rejected at compile time, and every compatible combination is accepted with the result type of the right shape. In particular products need matching inner dimensions, square-only operations need square matrices, degrees and radians do not mix implicitly, and points cannot be added to points.",
 ["programs"], "every program of one operation over all shapes, operand kinds, value/reference forms, angle units and scalar types",
 "A unit test is a program that compiles; it cannot contain one that must not, and the library ships no compile-fail tests.",
 [CORE + "matrix.rs", CORE + "vector.rs", CORE + "point.rs", "crates/cglinalg_trigonometry/src/lib.rs", CORE + "constraint.rs"],
 [("operator implementations bounded by shape constraints", CORE + "matrix.rs")],
 "The complete bounded set of one-operation programs (28,027) is type-checked against the current library and each verdict compared with the expected one.",
 "exhaustive enumeration of a bounded space of programs, each decided by the type checker on the current library")
prop("C04", "Numeric casts keep the value or are refused; container casts all-or-nothing",
 "Casting a number to another numeric type yields exactly the value truncated toward zero when the target can represent it and nothing when it cannot; between floating-point types it is the nearest value, and NaN never becomes an integer. Casting a vector, point, matrix, complex number or quaternion casts every component in place and fails as a whole exactly when some component fails.",
 I, "all values of every pair of scalar types and all components of every container shape",
 "Tests cast a handful of in-range values; boundaries of 14x14 type pairs and the position of the failing component are unreachable by examples.",
 ["crates/cglinalg_numeric/src/lib.rs", CORE + "vector.rs", CORE + "matrix.rs", CORE + "point.rs", CORE + "quaternion.rs", CORE + "complex.rs"],
 [("checked casts", "crates/cglinalg_numeric/src/lib.rs"), ("try_cast", CORE + "vector.rs")],
 "Every ordered pair of integer types over complete 8-bit (thorough 16-bit) ranges and all boundary values, float to integer around every boundary (thorough: every 32-bit float), containers with every subset of positions unrepresentable.",
 X)
prop("C05", "The scalar interface means the same thing for every scalar type",
 "For every signed scalar type the absolute value, sign, minimum, maximum and clamp operations agree with the ordering of the type, and for both floating-point types rounding, powers, roots, exponentials, logarithms, reciprocal and the mathematical constants are the correctly rounded (or platform) real functions of their argument. No operation is silently bound to a different function or argument order.",
 I, "all values of each scalar type",
 "Generic code calls these through the interface, so one transposed argument or constant changes every consumer; no test calls the interface itself for each type.",
 ["crates/cglinalg_numeric/src/lib.rs"], [("scalar trait implementations", "crates/cglinalg_numeric/src/lib.rs")],
 "All pairs and clamp triples over boundary-complete grids of each signed type, float grids for unary and binary functions, constants bit for bit (thorough: rounding functions on every 32-bit float).",
 X)
prop("C06", "Degrees and radians are the same angle; trigonometry agrees across units",
 "Converting an angle between degrees and radians keeps the angle and converts back to it, every trigonometric function gives the same value for both units and agrees with the real function, and inverse functions return an angle whose function value is the given ratio in the principal range. Angle arithmetic in either unit is arithmetic on the numbers, in every operand form, and the named angles (full turn, half turn and fractions) are what their names say.",
 I, "all angles in both units and both floating-point types; all operand forms",
 "Tests sample a few named angles in one unit; a wrong factor or swapped function in one form or unit stays unseen.",
 ["crates/cglinalg_trigonometry/src/lib.rs"], [("angle conversions and operators", "crates/cglinalg_trigonometry/src/lib.rs")],
 "Every angle of a fine grid over four turns in both directions in both units, all operand forms over all pairs of a grid, all ratios of a grid for inverse functions.",
 X)
prop("C07", "Angle normalisation lands in its interval and keeps the direction",
 "Normalising an angle yields one in [0, full turn), signed normalisation yields one in [-half turn, half turn), and both differ from the input by a whole number of turns; angles already inside are unchanged. The opposite of an angle is half a turn away, and the bisector is halfway between its two arguments, normalised.",
 I, "all angles, including the neighbours of every boundary, tiny negative angles and many turns",
 "The interval boundaries are single floating-point values; tests use comfortable interior angles and both boundary defects repaired here passed them.",
 ["crates/cglinalg_trigonometry/src/lib.rs"], [("normalize, normalize_signed, opposite, bisect", "crates/cglinalg_trigonometry/src/lib.rs")],
 "All grid angles, floating-point neighbours of all quarter turns up to four turns, all tiny powers of two of both signs, large numbers of turns, all pairs for bisectors, in both units and precisions.",
 X)
prop("C08", "Vector and point arithmetic is componentwise in every operand form",
 "Adding, subtracting and negating vectors, scaling, dividing and taking remainders by a scalar, and moving points by vectors act on each component separately and give the same result in every value, reference, scalar-on-the-left and assigning form. The difference of two points is the vector between them, and no operand is changed by a non-assigning form.",
 IP, "all components, dimensions, scalar types and operand forms",
 "There are dozens of operator forms per type, each with its own implementation; tests exercise some forms on one or two inputs.",
 [CORE + "vector.rs", CORE + "point.rs"], [("operator implementations", CORE + "vector.rs")],
 "All pairs of small-alphabet tuples in dimensions 1 to 4 for five scalar types, all operators in all forms, with exact expected values, plus rescalings by powers of two and all 14 scalar types on the left.",
 X)
prop("C09", "Dot, cross, norms, distances, interpolation and projection are Euclidean",
 "Dot products, the four norms (Euclidean, squared, L1, maximum, p-norm), the corresponding metric distances, cross and scalar triple products, projection onto and reflection in a direction, componentwise minimum and maximum, and linear interpolation are the textbook functions of their components. Norms are absolutely homogeneous under rescaling, cross products are orthogonal to their factors, and mirroring twice restores the vector.",
 I, "all vectors and points of every dimension and scalar type",
 "A wrong index or sign in one dimension's specialisation only shows for vectors with distinct non-zero components in that position.",
 [CORE + "vector.rs", CORE + "point.rs", CORE + "normed.rs"], [("dot, cross, norms, project, reflect, lerp", CORE + "vector.rs")],
 "All pairs of small-alphabet tuples in dimensions 1 to 4 in both precisions, all triples for triple products, integer scalars, rescaled operands.",
 X)
prop("C10", "Every way of reading or building a container names the same components",
 "Fields, swizzles, indices, ranges, arrays, tuples, slices, rows, columns, pointers and constructors of vectors, points, matrices, quaternions and complex numbers all refer to the same components in the same documented order (matrices are stored by column and named by column and row). Extending appends and contracting drops exactly the last component, and homogeneous coordinates append or remove the last component (0 for vectors, 1 for points, dividing by it for points).",
 IP, "all shapes, accessor names and component positions",
 "There are thousands of accessor/shape/position combinations; a swapped name is invisible unless that one is called with distinct components.",
 [CORE + "vector.rs", CORE + "point.rs", CORE + "matrix.rs", CORE + "coordinates.rs", CORE + "quaternion.rs", CORE + "complex.rs", CORE + "unit.rs"],
 [("coordinate views through Deref", CORE + "coordinates.rs"), ("conversions and swizzles", CORE + "vector.rs")],
 "Every accessor, view name, swizzle, index, range and conversion of every shape up to 4 (and 4x4) is executed on fills with pairwise distinct components.",
 X)
prop("C11", "Any history of component writes equals the same history on a plain array",
 "After any sequence of in-place changes to a vector, point, matrix, quaternion or complex number - writing through fields, indices, slices, arrays or views, swapping elements, rows or columns, negating, componentwise and assigning operations - every read sees exactly what the same sequence on a plain array gives. A write touches only the named components.",
 IH, "all sequences of in-place operations up to a depth, from all starting states of a small alphabet",
 "Tests perform one write and look at one component; aliasing, stride and index mistakes show in other components or after a second operation.",
 [CORE + "vector.rs", CORE + "point.rs", CORE + "matrix.rs", CORE + "quaternion.rs", CORE + "complex.rs", CORE + "coordinates.rs"],
 [("mutable views, IndexMut, swap operations", CORE + "matrix.rs")],
 "Breadth-first search over the complete menu of in-place operations with state deduplication, comparing the whole container with an array model after each step.",
 B)
prop("C12", "Matrix arithmetic and products equal the textbook sums in every form and shape",
 "Matrix addition, subtraction, negation, scaling, componentwise product, matrix-matrix, matrix-vector, transposed-matrix and columnwise dot products of every supported shape equal the defining sums, in every value, reference, scalar-on-the-left and assigning form. Products are associative and distribute over addition, the identity is neutral and zero absorbs.",
 IP, "all entries, all compatible shapes 1 to 4, all operand forms",
 "Each of 64 product shapes and each operand form is a separate instance; tests multiply a few pairs.",
 [CORE + "matrix.rs"], [("operator implementations", CORE + "matrix.rs")],
 "All 64 shape triples with all pairs of basis matrices and of distinct fills, complete small-alphabet products for small shapes, all forms, exact integer arithmetic; bilinearity lifts the basis products to all inputs of the same code path.",
 X)
prop("C13", "Transpose, rows, columns, trace, diagonal, norms and shape tests are exact",
 "Transposition mirrors entries (in place too) and is an involution, the trace and diagonal are those of the matrix for every square size, diagonal and scalar constructors place exactly those entries, and reading or swapping rows and columns acts on exactly the named lines. Matrix norms and distances are the defining maxima and sums, and the structure tests (zero, identity, diagonal, symmetric, square, finite) are true exactly for matrices with that structure.",
 I, "all entries of all shapes",
 "Predicates and norms have per-entry loops whose bounds only matter for one position; tests use one or two matrices.",
 [CORE + "matrix.rs"], [("transpose, trace, diagonal, norm, is_* and row/column operations", CORE + "matrix.rs")],
 "All 3-letter matrices up to 3x3 and all single and double deviations from structured matrices up to 4x4, all rows/columns/pairs of lines, exact expected values.",
 X)
prop("C14", "Determinant is the alternating sum; inverse exists exactly when it should",
 "The determinant of a square matrix equals the alternating permutation sum, and the inverse, when returned, multiplied on either side gives the identity. A matrix with determinant zero has no inverse and is reported not invertible; any other has one, however small or large its scale, and the invertibility report agrees whenever the determinant is not of rounding size.",
 I, "all square matrices of sizes 1 to 4",
 "Cofactor formulas have up to 24 signed products; a wrong sign or index in one only shows for matrices in which that product is not zero.",
 [CORE + "matrix.rs"], [("determinant, try_inverse, is_invertible", CORE + "matrix.rs")],
 "All matrices over small integer alphabets up to 3x3, all generalised permutation matrices and all sparse/bordered 4x4 families with exact integer determinants; multilinearity lifts permutation-matrix results.",
 X)
prop("C15", "Geometric matrix constructors perform the documented geometric map",
 "Translation, uniform and non-uniform scaling, rotation about coordinate axes and arbitrary axes, reflection in lines and planes and shears along any axis, as plain or homogeneous matrices in two and three dimensions, move every point exactly as the geometric definition says. Rotations are proper, counter-clockwise seen from the axis tip and of the given angle, reflections are involutions fixing their mirror, shears fix their plane, and vectors are unaffected by translation.",
 I, "all angles, unit axes, normals, mirror positions, factors and points",
 "Each constructor writes up to 16 entries by hand from a formula; examples with axis-aligned arguments leave most entries zero.",
 [CORE + "matrix.rs"], [("from_affine_*, from_angle_*, from_axis_angle, from_*_shear*", CORE + "matrix.rs")],
 "All combinations of direction, angle, factor and point grids in every constructor of every size, compared with the geometric definition computed independently.",
 X)
prop("C16", "Viewing transforms map the eye to the origin and the view direction to +-z",
 "Every look-at and look-to transform, left- and right-handed, as a matrix, quaternion, rotation, isometry or similarity, is a proper rotation (with a translation where the type has one) that carries the viewing direction onto the positive (left-handed) or negative (right-handed) z axis with the up direction in the upper yz half-plane, and carries the eye position to the origin. The inverse constructors are the exact inverses.",
 I, "all eye positions, viewing directions and non-parallel up vectors, all types and both hands",
 "Eight constructors per type share formulas by copy; tests use one eye and one direction, and two inverse families were wrong while they passed.",
 [CORE + "matrix.rs", CORE + "quaternion.rs", TR + "rotation.rs", TR + "isometry.rs", TR + "similarity.rs"],
 [("look_at/look_to families", CORE + "matrix.rs")],
 "All combinations of eyes, directions and up vectors from exhaustive grids, all types, both hands, forward and inverse.",
 X)
prop("C17", "Projections map the view volume to the canonical cube and unproject back",
 "Orthographic and perspective projections, given by planes or by field of view, map the corners and interior of the documented view volume onto the canonical cube with near at -1 and far at +1, and the parameters can be read back. Unprojecting a projected point restores it, and projecting by the projection object, by its matrix and by the inverse matrix agree.",
 I, "all valid view volumes and all points inside",
 "Asymmetric volumes and off-axis points are needed to tell entries apart; tests use symmetric ones, and two defects in reading and projecting passed them.",
 [CORE + "matrix.rs", TR + "projection.rs"], [("projection matrices and types", TR + "projection.rs")],
 "All combinations of asymmetric plane values, fields of view, aspect ratios and lattice points of the volume, f64 (and f32 for the matrices).",
 X)
prop("C18", "Quaternions form Hamilton's division algebra in every operand form",
 "Quaternion sums, differences, scalings and products equal the component formulas given by i*i=j*j=k*k=i*j*k=-1 in every value, reference, scalar-on-the-left and assigning form, conjugation negates the vector part and reverses products, and the norm is multiplicative. Inverse and division exist exactly for non-zero quaternions (the implementation treats norms of rounding size as zero) and undo multiplication on the stated side, and squares, dot products, inner/outer products and purity tests follow from the product.",
 IP, "all quaternions and operand forms",
 "The product has 16 signed terms per form; a sign error in one is visible only on inputs where that term is not zero.",
 [CORE + "quaternion.rs"], [("operator implementations", CORE + "quaternion.rs")],
 "All pairs of quaternions over small exact alphabets (bilinear, so basis pairs determine the form), all forms, both precisions, powers of two rescalings.",
 X)
prop("C19", "Quaternion, matrix and axis-angle forms describe the same rotation",
 "A unit quaternion built from an axis and angle, from a rotation matrix or by any other constructor rotates every vector exactly like the corresponding matrix, in plain and homogeneous form, and converting to a matrix and back gives the same quaternion up to sign. Axis and angle read from a quaternion rebuild it, and the product of quaternions corresponds to the product of matrices in the same order.",
 I, "all rotations, including half turns about every axis and angles near 0 and 360 degrees",
 "The matrix-to-quaternion conversion branches on the largest component; each branch needs its own region of rotations.",
 [CORE + "quaternion.rs", CORE + "matrix.rs"], [("from_axis_angle, from_matrix, to_matrix*", CORE + "quaternion.rs")],
 "All axis/angle combinations of exhaustive grids including half turns on every axis direction, all pairs for products.",
 X)
prop("C20", "Quaternion interpolation follows the documented path",
 "Linear interpolation of quaternions is componentwise, normalised interpolation is its normalisation, and spherical interpolation moves along the great arc at constant angular speed, taking the shorter arc between rotations. All start at the first argument and end at the second (up to sign of the same rotation), stay of unit length where documented, and depend continuously on the amount.",
 I, "all pairs of unit quaternions, all amounts in [0, 1]",
 "Spherical interpolation has branches for near-parallel and obtuse pairs; tests cover one pair and the endpoints.",
 [CORE + "quaternion.rs"], [("lerp, nlerp, slerp", CORE + "quaternion.rs")],
 "All pairs of a rotation grid including equal, nearly equal, opposite and obtuse pairs, all amounts in steps of 1/8 (finer in thorough).",
 X)
prop("C21", "Quaternion exponential, logarithm, powers, roots and trig functions are correct",
 "The exponential of a quaternion is given by its series, the principal logarithm inverts it, powers and square roots satisfy their defining equations, and the trigonometric and hyperbolic functions extend the complex ones along the vector direction. Functions agree with the real functions on real quaternions and with the complex ones on any complex plane inside the quaternions.",
 I, "all quaternions in the functions' domains",
 "Branches for zero vector part and the direction of the vector part need quaternions with three distinct imaginary components.",
 [CORE + "quaternion.rs"], [("exp, ln, powf, sqrt, trigonometric functions", CORE + "quaternion.rs")],
 "All quaternions of a grid, each function compared with the complex function on the slice spanned by its vector direction.",
 X)
prop("C22", "Complex numbers form a field in every operand form",
 "Complex sums, differences, products, quotients, scalings, conjugates, inverses, squares and modulus follow the definition i*i=-1 in every value, reference, scalar-on-the-left and assigning form, the modulus is multiplicative, and polar and Cartesian forms convert into each other. An inverse or checked quotient is absent exactly for zero.",
 IP, "all complex numbers and operand forms",
 "Each mixed real/complex and reference form is a separate implementation; tests call a few of them on one pair.",
 [CORE + "complex.rs"], [("operator implementations", CORE + "complex.rs")],
 "All pairs over small exact alphabets, all forms, all scalar types on the left, both precisions and integers.",
 X)
prop("C23", "Complex functions satisfy their defining equations on the principal branch",
 "The complex exponential, logarithm, square and cube roots, integer, real and complex powers, and trigonometric and hyperbolic functions with their inverses are the standard analytic functions with principal values. Inverse functions are right inverses of their functions everywhere in the domain and agree with the real functions on the real axis, and negative integer powers are reciprocals.",
 I, "all complex numbers away from poles and branch cuts",
 "Quadrant and sign mistakes show in one quadrant only; tests evaluate each function at one or two points, and a wrong negative power passed them.",
 [CORE + "complex.rs"], [("exp, ln, sqrt, powers, trigonometric functions", CORE + "complex.rs")],
 "All grid points of all quadrants and axes for every function, compared with independent real-function formulas and with the defining functional equations.",
 X)
prop("C24", "Euler angles compose in the documented order and are recovered from matrices",
 "A triple of Euler angles as a matrix, homogeneous matrix or rotation equals the product of its three axis rotations in the documented order, in degrees and radians, and angles extracted from a rotation matrix rebuild the same matrix. For triples inside the principal range, away from gimbal lock, the extracted angles are the original ones.",
 I, "all angle triples",
 "The nine entries are independent hand-written products; triples with three distinct non-zero angles are needed.",
 [CORE + "euler.rs", CORE + "matrix_euler.rs", TR + "rotation.rs"], [("Euler conversions", CORE + "euler.rs")],
 "All triples over an angle grid covering all quadrants for each angle, both units and precisions.",
 X)
prop("C25", "Normalising gives unit length, same direction, and fails only when documented",
 "Normalising or rescaling a non-zero vector, quaternion, complex number, matrix or wrapped unit value yields a value of the requested length and the same direction, in the copying and in-place forms, and reports or returns the original length where it says so. The fallible forms fail exactly when the length is at or below the given threshold and then leave the value untouched, and a unit wrapper only ever holds what was normalised or explicitly trusted.",
 IH, "all values, lengths and thresholds, and all sequences of wrapper operations",
 "The threshold comparison and the in-place forms matter at boundaries tests do not touch.",
 [CORE + "unit.rs", CORE + "normed.rs", CORE + "vector.rs", CORE + "quaternion.rs", CORE + "complex.rs", CORE + "matrix.rs", CORE + "point.rs"],
 [("normed trait implementations and Unit", CORE + "unit.rs")],
 "All tuples of small alphabets in every dimension with lengths rescaled by powers of two from tiny to huge, all thresholds around the length.",
 X)
prop("C26", "Rotation between two directions carries the first onto the second",
 "The rotation between two non-zero directions, as a matrix, quaternion, rotation or isometry, in two and three dimensions, is a proper rotation that carries the first direction onto the second by the smallest angle about their common normal. It is the identity for equal directions, absent in space and a half turn in the plane for opposite ones, the identity (for the three-dimensional isometry: absent) when a vector is zero, and never contains an invalid number.",
 I, "all pairs of directions, including equal, nearly equal and opposite ones, unit and not",
 "Equal directions whose computed cosine rounds above one, and clockwise pairs in the plane, gave wrong results that tests with one pair did not show.",
 [CORE + "matrix.rs", CORE + "quaternion.rs", TR + "rotation.rs", TR + "isometry.rs", TR + "similarity.rs"],
 [("rotation_between and rotation_between_axis", CORE + "matrix.rs")],
 "All pairs of exhaustive direction grids in both dimensions with several lengths, plus equal and nearly equal pairs for every direction.",
 X)
prop("C27", "Composing transformations equals applying them in turn, for every mix of kinds",
 "Every product of two transformations that the library offers, of the same or of different kinds (translation, scale, rotation, reflection, shear, isometry, similarity, general transform, with every kind convertible to a general transform), in two and three dimensions and in every value and reference form, yields a transformation that moves every point and vector as applying the right one first and the left one second. Identities are neutral, composition is associative, and the result kind can represent the composition.",
 ["inputs", "histories", "programs"], "all pairs of kinds and all composition histories up to a depth",
 "There are over a hundred mixed products, each implemented separately; order mistakes are invisible when the factors commute.",
 [TR + f for f in ("translation.rs", "rotation.rs", "scale.rs", "shear.rs", "reflection.rs", "isometry.rs", "isometry_ops.rs", "similarity.rs", "transform.rs")],
 [("mixed product implementations", TR + "isometry_ops.rs")],
 "All ordered pairs of kinds with all pairs of members from non-commuting menus on affine bases of points, plus breadth-first search over composition histories against homogeneous matrix products.",
 B)
prop("C28", "Inverse transformations undo their transformation",
 "For every kind of transformation the inverse composed with the original on either side is the identity, applying the transformation and then its inverse-application restores every point and vector, and the in-place inverse equals the copying one. Fallible inverses are absent exactly when the transformation is singular.",
 IH, "all transformations of all kinds, points and vectors, including ones reached by composition",
 "Each kind derives its inverse application separately; identity-like examples cannot tell R(p)+t undone in the wrong order.",
 [TR + f for f in ("translation.rs", "rotation.rs", "scale.rs", "shear.rs", "reflection.rs", "isometry.rs", "similarity.rs", "transform.rs")],
 [("inverse, inverse_mut, inverse_apply_*", TR + "isometry.rs")],
 "All members of every kind's menu and all their pairwise compositions, on affine bases and lattices of points and vectors.",
 X)
prop("C29", "A transformation and its matrix, conversions and parts describe the same map",
 "The homogeneous matrix of every transformation, its conversion to a general transform or to a more general kind, and its conversion from a matrix of its kind move points and vectors exactly as the transformation itself, and the parts read back (translation, rotation, scale, angle, axis, factors, normal) are those it was built from. All constructors of a kind agree on what they build.",
 I, "all transformations of all kinds and all points and vectors",
 "Each kind has its own matrix writer and its own point formula; agreement at one point does not determine twelve entries.",
 [TR + f for f in ("translation.rs", "rotation.rs", "scale.rs", "shear.rs", "reflection.rs", "isometry.rs", "similarity.rs", "transform.rs")],
 [("to_affine_matrix, to_transform, From conversions", TR + "transform.rs")],
 "All members of all menus over complete parameter grids on affine bases and lattices of points.",
 X)
prop("C30", "Approximate equality of aggregates is the conjunction over all components",
 "Two containers or transformations compare as approximately equal, under absolute, relative and units-in-the-last-place comparison, exactly when every pair of corresponding components does with the given tolerance, and the all-components variants with per-component tolerances and the debug reports agree. Comparison is reflexive and symmetric, and a deviation beyond tolerance in any single component is noticed.",
 I, "all containers, component positions and tolerances",
 "Every other test relies on these comparisons; a component left out of the conjunction makes all of them weaker without failing one.",
 [CORE + "vector.rs", CORE + "matrix.rs", CORE + "point.rs", CORE + "quaternion.rs", CORE + "complex.rs", CORE + "euler.rs", CORE + "unit.rs", "crates/cglinalg_trigonometry/src/lib.rs"] + [TR + f for f in ("isometry.rs", "similarity.rs", "rotation.rs", "translation.rs")],
 [("approximate comparison implementations", CORE + "vector.rs")],
 "Every type, every single component (and every pair) deviating by every amount of a list around each tolerance, all comparison kinds.",
 X)
prop("C31", "Equality, defaults, constants and text of values reflect all components",
 "Two values of any type are equal exactly when all their components are, the default and the zero, one and identity constructors produce the documented values (and the zero and identity tests recognise exactly those), and the textual form shows every component in order. Conversions between representations of one value (arrays, tuples, references, wrappers) lose nothing.",
 I, "all types, component positions and values",
 "A component omitted from equality or text weakens every assertion of every test at once.",
 [CORE + "vector.rs", CORE + "matrix.rs", CORE + "point.rs", CORE + "quaternion.rs", CORE + "complex.rs", CORE + "euler.rs", CORE + "unit.rs"] + [TR + f for f in ("isometry.rs", "similarity.rs", "rotation.rs", "translation.rs", "scale.rs", "shear.rs", "reflection.rs", "transform.rs", "projection.rs")],
 [("PartialEq, Default, Display, Zero/One implementations", CORE + "vector.rs")],
 "Every type with every single component differing, all constructors of constants, text of distinct fills parsed component by component.",
 X)
prop("C32", "Complex trigonometric functions take their limiting values at infinity",
 "At every complex argument with an infinite part the circular and hyperbolic functions and their inverses return the limiting values of the C standard (Annex G): infinities of the right sign, the limiting angle in each quadrant, zero or one where the function converges, and NaN only where no limit exists. A NaN argument never yields a finite number.",
 I, "all complex numbers with an infinite or undefined part",
 "Each function has its own cascade of special cases, one per combination of finite, infinite and undefined parts and signs; no test reaches them.",
 [CORE + "complex.rs"], [("special-value branches of the complex functions", CORE + "complex.rs")],
 "Every combination of infinite parts with each other and with grids of finite values in every quadrant, both precisions, against the standard's table of limits.",
 X)

def main():
    have = {f[:-3].upper() for f in os.listdir(ROOT + "/harness/src/bin") if f.endswith(".rs")}
    with open(ROOT + "/properties.jsonl", "w") as f:
        for p in P:
            if p["id"] not in have: continue
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": ["public API"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
    for p in P:
        if p["id"] not in have: continue
        m["checks"].append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough", "technique": p["technique"],
            "level": "model_checking", "level_note": p["level_note"]})
    json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
    open(ROOT + "/MANIFEST.json", "a").write("\n")
if __name__ == "__main__": main()
