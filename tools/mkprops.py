#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles, statements and anchors)."""
import json, os
P = []
def p(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/" + f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe) or [n for n, _ in mech], hook_needed=None)))
MATS = ["matrix2x2.rs", "matrix3x3.rs", "matrix4x4.rs", "matrix5x5.rs", "matrix6x6.rs"]
VECS = ["vector2.rs", "vector3.rs", "vector4.rs", "vector5.rs", "vector6.rs"]
EX = "Equality means equality in exact arithmetic, so only rounding may separate the computed floats from it."

p("C01", "Matrix arithmetic is the arithmetic of n x n matrices",
  "For n = 2..6 the sum, difference, negation, scaling and division by a scalar, the products matrix*matrix and matrix*vector, their in-place forms, and the zero and identity matrices are exactly the textbook ones, entry by entry: (A*B)[i][j] is the sum over k of A[i][k]*B[k][j] and (A*v)[i] the sum over k of A[i][k]*v[k]. An in-place form leaves in its left operand what the by-value form returns, and is_zero/is_one hold exactly for the zero/identity matrix; two matrices are equal exactly when all their entries are. Where the entries may be integers, division is the integers' own, entry by entry. " + EX,
  "every pair of matrices, vector and scalar of each size",
  "Each size is written out by hand (up to 36 separate formulas per operation); the tests multiply one or two literal matrices, many with zero or equal entries, so a swapped index that those entries hide survives.",
  MATS, [("Add/Sub/Neg/Mul/Div/AddAssign/SubAssign impls", "src/matrix2x2.rs..matrix6x6.rs"), ("Zero/One impls", "src/matrix2x2.rs..matrix6x6.rs")])
p("C02", "A row vector times a matrix is the textbook vector-matrix product",
  "For n = 2..6, multiplying a vector by a matrix on its right yields the row-vector product: (v*M)[j] is the sum over i of v[i]*M[i][j], so that v*M equals transpose(M)*v and (v*M)*w equals v*(M*w). " + EX,
  "every vector and matrix of each size",
  "The tests multiply at most one literal pair per size, and not every size has one.",
  VECS, [("Mul<Mnn<T>> for Vn<T>", "src/vector2.rs..vector6.rs")])
p("C03", "Matrix layout: constructors, indexing, rows, columns and views agree",
  "For n = 2..6 every constructor, index form, row/column/diagonal/triangle/submatrix getter, flattening, transpose and element-wise map moves the entry at (i,j) to exactly the documented place, unchanged and without touching any other entry; columns rebuilt into a matrix give the matrix back, and transposing twice is the identity. Copying a 3x3 block into a quadrant of a 6x6 matrix changes that quadrant only, and an index outside the matrix is refused by a panic.",
  "every matrix, every index, every row/column/quadrant selection",
  "The tests look at a few entries of literal matrices; a pair of exchanged indices on entries that are equal or unread is invisible to them.",
  MATS, [("new/new_from_vecs/as_vec/get_rows/get_cols/get_diagonal/get_upper_triagular/get_lower_triangular/get_submatrix/for_each/transpose", "src/matrix*.rs"), ("copy_elements_from", "src/matrix6x6.rs"), ("Index/IndexMut/Deref/From", "src/matrix*.rs")])
p("C04", "det, trace and norm of a matrix equal their mathematical definitions",
  "For n = 2..6 the determinant is the signed sum over all permutations of the products of entries, the trace the sum of the diagonal, and the norm the square root of the sum of squared entries. Hence the determinant is multiplicative, transpose-invariant and antisymmetric under row exchange. " + EX,
  "every matrix of each size",
  "The determinants are expanded by hand into up to 720 signed products; one literal matrix per size cannot reach a wrong sign on a term that its zeros kill.",
  MATS, [("LinearAlgebra::det/trace/norm2", "src/matrix2x2.rs..matrix6x6.rs")])
p("C05", "inverse returns a true two-sided inverse, and None only when singular",
  "For n = 2..6, whenever the inverse of A is returned it satisfies A*B = I and B*A = I. None is returned exactly when |det A| is below the machine epsilon, and computing an inverse never panics. " + EX,
  "every matrix of each size", "Each inverse is up to 36 hand-written cofactors; tests invert one literal matrix per size with a loose tolerance.",
  MATS, [("LinearAlgebra::inverse", "src/matrix2x2.rs..matrix6x6.rs")])
p("C06", "QR factorization: Q orthogonal, R upper triangular, Q*R = A",
  "For n = 2..6 and every matrix with |det A| not below the machine epsilon, the factorization is returned with transpose(Q)*Q = I, R upper triangular with positive diagonal, and Q*R = A; for other matrices the answer is None. " + EX,
  "every matrix of each size", "One literal matrix per size is factorized in the tests.",
  MATS + ["slices_methods.rs"], [("LinearAlgebra::qr", "src/matrix*.rs"), ("project_x_over_y/normalize", "src/slices_methods.rs")])
p("C07", "LU factorization: the recorded row exchanges give P*A = L*U and its det",
  "For n = 2..6 and every non-singular matrix, applying the returned row exchanges in order to A gives L*U, with L the unit lower triangle and U the upper triangle of the returned matrix, and the returned number is det A. No pivot it divides by is zero, and every recorded exchange is with a row not yet eliminated.",
  "every non-singular matrix of each size, every order of pivots",
  "The pivot order depends on the data; the tests run one literal matrix per size, reaching one of the up to 720 pivot orders.",
  MATS, [("lu", "src/matrix2x2.rs..matrix6x6.rs")])
p("C08", "Real eigenvalues of a 2x2 matrix",
  "When two values are returned, both are roots of the characteristic polynomial, the larger first: their sum is the trace and their product the determinant. None is returned exactly when the matrix has no real eigenvalue.",
  "every 2x2 matrix", "Tests use a couple of literals and never compare the order or the boundary of the None case symbolically.",
  ["matrix2x2.rs"], [("real_eigenvals", "src/matrix2x2.rs")])
p("C09", "Vector arithmetic, products and norms are the mathematical ones",
  "For vectors of size 2..6, sum, difference, negation, scaling, in-place forms, dot product, zero, Euclidean norm, 1-norm and infinity norm are exactly the textbook ones, and the 3-d cross product is the right-handed one (anticommutative, orthogonal to both factors, axes as documented). The infinity norm is the largest absolute value of an entry. Where the entries may be integers, division is the integers' own, entry by entry. " + EX,
  "every vector and scalar of each size", "Each size is hand-written; tests use one literal per operation, for the norms with non-negative entries.",
  VECS + ["slices_methods.rs"], [("Add/Sub/Neg/Mul/Div impls, norm2, norm_l, norm_inf, cross", "src/vector*.rs")])
p("C10", "normalize yields the unit vector of the same direction, or refuses",
  "For vectors of size 2..6, normalizing succeeds exactly when the Euclidean norm is not zero, and then returns v divided by its norm, a vector of norm one in the same direction as v. Otherwise the error says that the norm is zero, and the vector is never turned into anything else.",
  "every vector of each size", "Tests normalize one literal per size and never look at the refusing side of the boundary.",
  VECS, [("normalize", "src/vector2.rs..vector6.rs")])
p("C11", "Slice functions: extrema, norms, dot, projection, normalization",
  "For a non-empty slice, find_max_min returns the largest and the smallest element with the first index holding each; norm_inf, norm_l and norm2 are the infinity, 1- and Euclidean norms; dot, projection coefficient and in-place normalization match their definitions. Slices of different length are refused by dot.",
  "every slice: any length, any order of elements, ties included", "Tests sort out one or two literals; the answer depends on the order of elements and on ties, n! orders of a slice.",
  ["slices_methods.rs"], [("find_max_min, norm_inf, norm_l, norm2, dot, normalize, project_x_over_y, check_elements", "src/slices_methods.rs")])
p("C12", "Quaternion algebra is Hamilton's",
  "Quaternion product, sum, scaling, negation, conjugate, dot product and norms obey Hamilton's definition (i*j = k and so on, associative, norm multiplicative), q*inverse(q) = 1 and a/b*b = a for every non-zero quaternion, and the inverse of a numerically zero quaternion is None. Being equal depends on the four components only. Where the entries may be integers, division is the integers' own, entry by entry. " + EX,
  "every quaternion (all four components), normalized or not", "Tests multiply literals; sign conventions of a non-commutative product need all 16 component products.",
  ["quaternion.rs"], [("Mul/Add/Sub/Neg/Div impls, conj, inverse, dot, norm2, abs2, PartialEq", "src/quaternion.rs")])
p("C13", "Unit quaternions act as rotations, consistently with their matrix",
  "For a unit quaternion q the rotation matrix is orthogonal with determinant 1, rotating a vector by q, by the matrix and by the sandwich q*v*conj(q) all agree, products of quaternions map to products of matrices in the same order, and conjugation maps to transposition. Lengths of rotated vectors are preserved. " + EX,
  "every unit quaternion, pair of them and vector", "Tests rotate axes by a few literal angles, where many wrong formulas agree.",
  ["quaternion.rs"], [("to_rotation", "src/quaternion.rs"), ("Mul<V3<T>> for Quaternion<T>", "src/quaternion.rs")])
p("C14", "Converting a rotation matrix to a quaternion and back is the identity",
  "For every rotation matrix R (orthogonal, determinant 1) the quaternion extracted from it has norm 1 and converts back to R; for a quaternion q it is q or -q. This holds in every region of rotation space, including half-turns about any axis.",
  "every rotation matrix, in each of the four extraction regions", "Four code branches with different formulas; tests reach a few literals and do not cover each branch's sign pattern.",
  ["quaternion.rs", "dual_quaternion.rs"], [("from_rotation", "src/quaternion.rs"), ("new_from_rotation_matrix", "src/dual_quaternion.rs")])
p("C15", "Quaternion constructors and axis/angle accessors describe the same rotation",
  "The quaternion built from an angle and an axis, from a rotation vector, or from yaw-pitch-roll is a unit quaternion whose matrix is the rotation by that angle about that axis (Rodrigues) or Rz(yaw)*Ry(pitch)*Rx(roll); the angle and axis read back from it give the same rotation. Normalizing returns a unit quaternion of the same direction, or None when the norm is numerically zero, and the derivative is half the product of the rate with the quaternion.",
  "all angles, axes and non-zero quaternions", "Tests use a few literal angles such as pi/2 about coordinate axes.",
  ["quaternion.rs"], [("rotation, rotation_norm_encoded, from_euler_angles, get_angle, get_axis, axis_angle, normalize, normalize_q, argq, derivative, to_euler_angles", "src/quaternion.rs")])
p("C16", "Quaternion exp, ln, sqrt, pow, sin and cos satisfy their defining identities",
  "exp(a + v) = e^a (cos|v| + v/|v| sin|v|), ln inverts exp on its principal range, sqrt(q)*sqrt(q) = q, q^t for a real quaternion t is exp(t*ln q), and sin and cos are the quaternionic sine and cosine. A result carries no false claim of being normalized: its inverse and norm are right afterwards.",
  "every quaternion whose imaginary part is zero or longer than the code's thresholds (machine epsilon); principal range for ln", "Tests evaluate each function on one or two literals.",
  ["quaternion.rs"], [("exp, ln, sqrt, pow, sin, cos, normalize_a", "src/quaternion.rs")])
p("C17", "slerp moves along the shortest great arc at constant speed from a to b",
  "For unit quaternions a and b and t in [0,1], slerp returns a at t=0 and the rotation of b (that is b, or -b when that is closer) at t=1, always a point of the arc in between: for an angle phi between a and the nearer of b, -b, the result has dot product cos(t*phi) with a and has norm 1. When a and b are nearly parallel the result still lies between them, within rounding of the threshold.",
  "every pair of unit quaternions and every t in [0,1]", "Tests interpolate one literal pair at a few t; the sign-flip and nearly-parallel regions are not reached.",
  ["quaternion.rs"], [("slerp", "src/quaternion.rs")])
p("C18", "Elementary rotations and Euler sequences compose as their names say",
  "The elementary rotations are the right-handed rotations about x, y, z (and in the plane), an Euler sequence ABC with angles (a,b,c) is RA(a)*RB(b)*RC(c) for every listed sequence, and the default is Rz*Ry*Rx. The Euler angles extracted from a rotation matrix reproduce it, and equal the ones it was built from when those are in the principal range.",
  "all angles, all sequences", "Tests try one or two sequences with literal angles.",
  ["transformations.rs"], [("rot2, rotx, roty, rotz, euler_to_rotation, rotation_to_euler, EulerSeq", "src/transformations.rs")])
p("C19", "Homogeneous transforms: assembly, splitting, inverse and point mapping",
  "A homogeneous transform assembled from a rotation (matrix or quaternion) and a translation splits back into exactly these, composes like the rigid motion it stands for, and its inverse is a true two-sided inverse. Translation builders translate, 2-d poses rotate then translate, and transforming a point by the inverse undoes the transform.",
  "every rotation, translation and point", "Tests use a few literal poses.",
  ["transformations.rs"], [("homogeneous_from_rotation, homogeneous_from_quaternion, get_parts, get_parts_raw, homogeneous_inverse, homogeneous_inverse_transform, translation_2d, translation_3d, ksi, rotation_inverse", "src/transformations.rs")])
p("C20", "Skew, twist and se(3) representations round-trip and mean the cross product",
  "The skew matrix of a vector is antisymmetric, multiplying by it is the cross product, and the inverse maps give the vector back; the same holds for the planar and the augmented forms, and for twists and 4x4 se(3) matrices, whose parts split and reassemble unchanged.",
  "every vector, twist and matrix of that form", "Tests use literals; a sign error on one of six entries needs the right entry to be non-zero and checked.",
  ["transformations.rs"], [("skew_from_vec, skew_to_vec, skew_scalar, vex_m22, skew_from_vec_aug, skew_v6, twist_to_se3, se3_to_twist, se3_from_parts, se3_get_parts", "src/transformations.rs")])
p("C21", "Matrix exponential and logarithm of SO(3) are the true ones and inverse",
  "The exponential of the skew matrix of a rotation vector of length theta is the rotation by theta about its direction (Rodrigues), hence orthogonal with determinant 1; the logarithm of a rotation by theta in (0,pi) about u is theta times the skew matrix of u, of the identity it is zero, and of a half-turn it is a matrix whose exponential is that half-turn. Splitting a rotation vector into axis and angle is exact.",
  "every axis and angle, half-turns about every axis included", "Tests use one axis; the half-turn branches are reached for no general axis.",
  ["transformations.rs"], [("matrix_exponential, matrix_log, axis_angle, rotation_from_axis_angle", "src/transformations.rs")])
p("C22", "Matrix exponential and logarithm of SE(3) are the true ones and inverse",
  "The exponential of a twist matrix is the rigid motion obtained by following that twist for unit time: rotation as in SO(3), translation V(omega)*v with the left Jacobian, and a pure translation when there is no rotation. The logarithm of a rigid motion is a twist whose exponential it is, for every rotation angle: none, strictly between 0 and pi, and half-turns.",
  "every twist; every rigid motion, half-turns about every axis included", "Tests use one literal twist.",
  ["transformations.rs"], [("matrix_exponential6, matrix_log6, axis_angle6", "src/transformations.rs")])
p("C23", "Adjoint and screw axes transform twists as rigid-motion theory says",
  "The adjoint of a transform T = (R,p) is [[R,0],[[p]R,R]]: it maps a twist V to the twist of T*[V]*T^-1, composes as Ad(T1*T2) = Ad(T1)*Ad(T2), and Ad(T^-1) is its inverse. A screw axis through q with direction s and pitch h is (s, q x s + h*s), and splitting a 6-d coordinate vector gives the normalized axis and the distance.",
  "every rigid transform, twist and screw", "Tests compare one literal transform.",
  ["transformations.rs", "matrix6x6.rs"], [("adjoint, screw_to_axis, axis_angle6", "src/transformations.rs"), ("copy_elements_from", "src/matrix6x6.rs")])
p("C24", "Dual quaternion algebra: ring laws, conjugates, inverse and division",
  "Dual quaternion sum, product, scaling, negation and the three conjugates are the ones of Hamilton's algebra over dual numbers; d*inverse(d) = inverse(d)*d = 1 whenever the real part is invertible; a/b = a*inverse(b). Being equal depends on the eight components only.",
  "every dual quaternion with the stated invertibility", "Tests use literals and commuting factors, for which wrong orders of the non-commutative product agree.",
  ["dual_quaternion.rs"], [("Add/Sub/Neg/Mul/Div impls, conj, conj_as_dual, conj_combined, norm, inverse", "src/dual_quaternion.rs")])
p("C25", "Dual quaternions, rotation+translation and homogeneous matrices convert",
  "Building a dual quaternion from a rotation and a translation, from an array, or from a homogeneous matrix, and reading rotation, translation or homogeneous matrix back returns the same rigid motion; products of unit dual quaternions map to products of homogeneous matrices, and conjugation to the inverse. A value built from a unit rotation and flagged as normalized is a unit dual quaternion; without the flag, a unit one counts as normalized and a rotation's real part scaled by a factor clearly different from 1 and -1 does not. Normalizing returns a unit dual quaternion whose real part is the given one scaled to norm one (the motion itself for a multiple of one), or None when that norm is numerically zero.",
  "every rotation and translation", "Tests use a few literal poses.",
  ["dual_quaternion.rs"], [("new_from_rot_trans, new_from_array, new_from_homogeneous, new_from_rotation, new_from_translation, new_from_point, to_homogeneous, to_rotation_translation, get_translation, to_quaternion_translation, normalize, is_normalized", "src/dual_quaternion.rs")])
p("C26", "Transforming a point by a dual quaternion equals its homogeneous matrix",
  "For a unit dual quaternion d and a point p, transforming p by d gives R*p + t, the same point as multiplying the homogeneous matrix of d by (p, 1).",
  "every unit dual quaternion and point", "The only test compares with the homogeneous matrix applied to (p, 0), i.e. to a direction.",
  ["dual_quaternion.rs"], [("transform_point", "src/dual_quaternion.rs")])
p("C27", "Screw parameters, powers and screw interpolation of dual quaternions",
  "The dual quaternion built from screw parameters (axis l, moment m, angle theta, displacement d) is the rigid motion of that screw, and for 0 < theta < 2*pi the parameters read back are the same; d^0 = 1, d^1 = d, and d^t is the screw motion with angle t*theta and displacement t*d about the same axis. Screw interpolation starts at its first argument's motion, ends at its second's, and in between applies the tau-th power of the shortest relative screw motion. The logarithm of a flagged rotation about an axis through the origin with a slide along it is half the angle and half the slide along that axis.",
  "every screw and exponent; every pair of rigid motions not a half-turn apart", "Tests use one literal screw and one interpolation.",
  ["dual_quaternion.rs"], [("get_screw_parameters, new_from_screw_parameters, pow, screw_lerp, log", "src/dual_quaternion.rs")])
p("C28", "Approximate comparison is symmetric, reflexive and honours its tolerance",
  "On the machine floats themselves, for finite a, b and a positive tolerance, nearly_equal is reflexive and symmetric, equal zeros of either sign compare equal, a comparison with zero is an absolute one and otherwise the difference relative to |a|+|b| decides; NaN compares equal to nothing. Comparing slices or dual quaternions is comparing every component, and compare_floats is |a-b| < tol.",
  "every pair of machine floats (all bit patterns) and every tolerance", "Three literal pairs are tested; the corner cases are signed zeros, subnormals, overflow of the sum, infinities and NaN.",
  ["utils.rs", "slices_methods.rs"], [("nearly_equal, nearly_zero, compare_vecs, compare_floats, compare_dual_quaternions", "src/utils.rs"), ("check_elements", "src/slices_methods.rs")])
p("C29", "A float on the left scales exactly like the same float on the right",
  "For f32 (and f64 where offered), number * vector and number * matrix equal vector * number and matrix * number, bit for bit (NaN results excepted), in every entry.",
  "every float, every vector and matrix of the offered sizes", "Concrete hand-written impls per size; tests scale one literal.",
  VECS + ["matrix2x2.rs", "matrix3x3.rs"], [("Mul<Vn<f32>> for f32 and friends", "src/vector*.rs, src/matrix2x2.rs, src/matrix3x3.rs")])
p("C30", "Rotation predicates accept rotations only, and manifold distance is honest",
  "Every true rotation is accepted by the rotation predicates, and a matrix that is not orthogonal with determinant 1 (for the homogeneous one, whose rotation block is not) is rejected (the predicates allow 1e-6 for rounding). The distance to SO(3) is the Frobenius norm of M*transpose(M) - I when det M > 0 and infinite otherwise.",
  "every 3x3 and 4x4 matrix", "Tests try two rotations and one non-rotation.",
  ["utils.rs", "transformations.rs"], [("is_rotation, is_rotation_h", "src/utils.rs"), ("distance_to_manifold", "src/transformations.rs")])
p("C31", "Printing shows every entry at its place and prints nowhere else",
  "Formatting a vector, matrix, quaternion or dual quaternion writes all its entries to the formatter, in order, each to two decimals, a matrix row by row with one row per line; nothing is written anywhere else (such as standard output).",
  "every vector and matrix of size 2..6, every quaternion and dual quaternion", "No test formats a value; with equal or zero entries an exchanged pair shows nowhere.",
  MATS + VECS + ["quaternion.rs", "dual_quaternion.rs"], [("Display impls", "src/matrix*.rs, src/vector*.rs, src/quaternion.rs, src/dual_quaternion.rs")])
p("C32", "Rounding in the inputs never turns a result into NaN",
  "Slerp, dual quaternion powers, screw parameters and screw interpolation, the logarithms of rotations and rigid motions, axis, angle, ln and sqrt of a quaternion, and the quaternion or Euler angles of a matrix never divide by zero nor take a root, logarithm or inverse cosine outside its domain when their arguments are only nearly unit (norm within 1e-6 of one) or only nearly orthogonal (entries within 1e-6 of a rotation's), as rounding leaves them; the quaternion and the Euler angles of a matrix not for any matrix at all. Full turns, which have no axis, are excluded for powers and screw parameters of a single dual quaternion.",
  "every nearly unit quaternion or dual quaternion, every nearly orthogonal matrix, every exponent and ratio",
  "Rounded inputs land outside the domain of acos or sqrt only for particular poses (identity, half-turns, equal end points); a test with a literal pose takes the safe side by luck.",
  ["quaternion.rs", "dual_quaternion.rs", "transformations.rs"], [("slerp, from_rotation, get_axis, get_angle, axis_angle, ln, sqrt", "src/quaternion.rs"), ("pow, get_screw_parameters, screw_lerp", "src/dual_quaternion.rs"), ("matrix_log, matrix_log6, rotation_to_euler", "src/transformations.rs")])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")
