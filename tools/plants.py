P = "use static_math::*;\nuse static_math::traits::LinearAlgebra;\n"
B("s01-inverse-threshold", "C05", [("matrix3x3.rs", "        let det = self.det();\n        if !nearly_zero(det) {\n            let invdet", "        let det = self.det();\n        if det * det > T::epsilon() {\n            let invdet")],
  "a 3x3 matrix whose determinant is small (below about 1e-8 for f64) but far above the machine epsilon", "inverse answers None for an invertible matrix",
  P + """fn main() {
    let a = M33::new([[1e-3, 2e-4, 0.0], [3e-4, 2e-3, 1e-4], [0.0, 1e-4, 1e-3]]);
    let b = a.inverse().expect("invertible");
    let i = a * b;
    for r in 0..3 { for c in 0..3 { assert!((i[(r, c)] - if r == c { 1.0f64 } else { 0.0 }).abs() < 1e-9); } }
}
""")
B("s02-qr-skip-projection", "C06", [("matrix5x5.rs", "                    q_tilde -= *elem * project_x_over_y(&*cols[i], &**elem);", "                    let coeff = project_x_over_y(&*cols[i], &**elem);\n                    // nothing to remove when the column is already orthogonal\n                    if coeff * coeff > T::epsilon() {\n                        q_tilde -= *elem * coeff;\n                    }")],
  "two columns that are nearly, but not exactly, orthogonal (coefficient below 1e-8)", "Q is not orthogonal and R is not upper triangular",
  P + """fn main() {
    let mut a: M55<f64> = M55::identity();
    a[(0, 1)] = 1.0e-8;
    let (q, _r) = a.qr().unwrap();
    let t = q.transpose() * q;
    assert!(t[(0, 1)].abs() < 1e-12, "{}", t[(0, 1)]);
}
""")
B("s03-lu-exchange-index", "C07", [("matrix5x5.rs", "                d = -d;\n                vv[i_max] = vv[k];\n            }\n            indx[k] = i_max;", "                d = -d;\n                vv[i_max] = vv[k];\n                indx[k] = i_max;\n            }")],
  "a 5x5 matrix for which some step after the first needs no row exchange", "the recorded exchange is with row 0, already eliminated: P*A is not L*U",
  P + """fn main() {
    let a = M55::new([[4.0, 1.0, 0.0, 0.0, 1.0], [1.0, 5.0, 1.0, 0.0, 0.0], [0.0, 1.0, 6.0, 1.0, 0.0], [0.0, 0.0, 1.0, 7.0, 1.0], [1.0, 0.0, 0.0, 1.0, 8.0f64]]);
    let (lu, _, idx) = a.lu();
    let mut p = a;
    for k in 0..5 { for j in 0..5 { let t = p[(k, j)]; p[(k, j)] = p[(idx[k], j)]; p[(idx[k], j)] = t; } }
    for i in 0..5 { for j in 0..5 {
        let mut s = 0.0;
        for k in 0..=i.min(j) { s += (if k == i { 1.0 } else { lu[(i, k)] }) * lu[(k, j)]; }
        assert!((s - p[(i, j)]).abs() < 1e-12, "{} {}", i, j);
    } }
}
""")
B("s04-eigen-order", "C08", [("matrix2x2.rs", "            let lambda2 = (tau - T::sqrt(discr)) / two;\n            let lambda1 = (tau + T::sqrt(discr)) / two;", "            // avoid the cancellation: the root of larger magnitude first, the other from the product\n            let root = if tau < T::zero() { -T::sqrt(discr) } else { T::sqrt(discr) };\n            let lambda1 = (tau + root) / two;\n            let lambda2 = tau - lambda1;")],
  "a 2x2 matrix of negative trace", "the smaller eigenvalue comes first",
  P + """fn main() {
    let a = M22::new([[-3.0, 0.0], [0.0, -1.0f64]]);
    let l = a.real_eigenvals().unwrap();
    assert!(l[0] >= l[1], "{} {}", l[0], l[1]);
}
""")
B("s05-normalize-refuses-short", "C10", [("vector5.rs", "        let n = self.norm2();\n        if n != T::zero() {", "        let n = self.norm2();\n        if n > T::epsilon() {")],
  "a V5 of norm below the machine epsilon, not zero", "a nonzero vector is refused",
  P + """fn main() {
    let mut v = V5::new_from(3e-20, 0.0, 4e-20, 0.0, 0.0f64);
    let u = v.normalize().expect("not the zero vector");
    assert!((u[0] - 0.6).abs() < 1e-12 && (u[2] - 0.8).abs() < 1e-12);
}
""")
B("s06-min-last-index", "C11", [("slices_methods.rs", "        if element < min {", "        if element <= min {")],
  "a slice whose smallest element occurs more than once", "the index reported for the minimum is the last one, not the first",
  """use static_math::slices_methods::find_max_min;
fn main() {
    let r = find_max_min(&[3.0, 1.0, 2.0, 1.0, 5.0f64]);
    assert_eq!(r.min, (1.0, 1));
    assert_eq!(r.max, (5.0, 4));
}
""")
B("s07-scaled-keeps-flag", "C12", [("quaternion.rs", "        Self {q0: self.q0 * rhs, q: self.q * rhs, normalized: false}", "        Self {q0: self.q0 * rhs, q: self.q * rhs, normalized: self.normalized}")],
  "scaling a quaternion that was made as a unit one, then inverting (or normalizing) the result", "the scaled quaternion still claims to be normalized, so its inverse is its conjugate",
  P + """fn main() {
    let q = Quaternion::rotation(0.7f64, &V3::new_from(1.0, 2.0, 3.0)) * 2.0;
    let i = q * q.inverse().unwrap();
    assert!((i.real() - 1.0).abs() < 1e-12, "{}", i.real());
}
""")
B("s08-from-rotation-region", "C14", [("quaternion.rs", "                let t = one - m[(0, 0)] + m[(1, 1)] - m[(2, 2)];\n                let q = Self::new_from(m[(2, 0)] - m[(0, 2)],  m[(0, 1)] + m[(1, 0)], t, m[(1, 2)] + m[(2, 1)]);", "                let t = one - m[(0, 0)] + m[(1, 1)] - m[(2, 2)];\n                let q = Self::new_from(m[(2, 0)] - m[(0, 2)],  m[(0, 1)] + m[(1, 0)], t, m[(1, 2)] - m[(2, 1)]);")],
  "a rotation by more than 90 degrees about an axis nearest to y with a z component", "the quaternion extracted from the matrix is another rotation",
  P + """fn main() {
    let q = Quaternion::rotation(2.9f64, &V3::new_from(0.3, 2.0, 0.8));
    let r = q.to_rotation();
    let s = Quaternion::from_rotation(&r).to_rotation();
    for i in 0..3 { for j in 0..3 { assert!((r[(i, j)] - s[(i, j)]).abs() < 1e-12); } }
}
""")
B("s09-angle-by-asin", "C15", [("quaternion.rs", "        let n = self.q.norm2();\n\n        two * T::atan2(n, self.q0)", "        let n = self.q.norm2();\n\n        // the half angle from its tangent\n        two * T::atan(n / self.q0)")],
  "a rotation by more than 180 degrees (negative real part)", "the angle read back is off by a full half-turn, so angle and axis are another rotation",
  P + """fn main() {
    let u = V3::new_from(0.0, 0.6, 0.8f64);
    let q = Quaternion::rotation(4.0, &u);
    let (a, t) = q.axis_angle();
    let s = Quaternion::rotation(t, &a.unwrap());
    let (x, y) = (q.to_rotation(), s.to_rotation());
    for i in 0..3 { for j in 0..3 { assert!((x[(i, j)] - y[(i, j)]).abs() < 1e-9, "{} {}", t, i); } }
}
""")
B("s10-slerp-reversed", "C17", [("quaternion.rs", "            result.q0 = aux1 * a.q0 - aux2 * b.q0;\n            result.q  = a.q * aux1 - b.q * aux2;", "            result.q0 = aux2 * b.q0 - aux1 * a.q0;\n            result.q  = b.q * aux2 - a.q * aux1;")],
  "two quaternions of negative dot product", "the interpolation starts at -a instead of a (dot product with a is -cos(t*phi))",
  P + """fn main() {
    let a = Quaternion::rotation(0.3f64, &V3::x_axis());
    let b = -Quaternion::rotation(1.1f64, &V3::y_axis());
    assert!(a.dot(b) < 0.0);
    let s = Quaternion::slerp(a, b, 0.0);
    assert!((s.dot(a) - 1.0).abs() < 1e-12, "{}", s.dot(a));
}
""")
B("s11-euler-singular", "C18", [("transformations.rs", "        let yay = T::atan2(-r[(1, 2)], -r[(0, 2)]);\n        let roll = T::zero();", "        let yay = T::atan2(r[(1, 2)], r[(0, 2)]);\n        let roll = T::zero();")],
  "pitch exactly -90 degrees (gimbal lock on the negative side)", "the extracted angles are another rotation",
  P + """use static_math::transformations::*;
fn main() {
    // exactly pitch = -pi/2, yaw = 0.5
    let (s, c) = 0.5f64.sin_cos();
    let r = M33::new([[0.0, -s, -c], [0.0, c, -s], [1.0, 0.0, 0.0]]);
    let (y, p, x) = rotation_to_euler(&r);
    let b = euler_to_rotation(y, p, x, None);
    for i in 0..3 { for j in 0..3 { assert!((r[(i, j)] - b[(i, j)]).abs() < 1e-9, "{} {}", i, j); } }
}
""")
B("s12-log-half-turn", "C21", [("transformations.rs", "            let omega = V3::new_from(r[(0, 1)], one + r[(1, 1)], r[(2, 1)])", "            let omega = V3::new_from(r[(0, 1)].abs(), one + r[(1, 1)], r[(2, 1)])")],
  "a half-turn about an axis in the x-y plane with x*y < 0", "the logarithm's exponential is the half-turn about another axis",
  P + """use static_math::transformations::*;
fn main() {
    // half-turn about (-0.6, 0.8, 0)
    let r = M33::new([[-0.28, -0.96, 0.0], [-0.96, 0.28, 0.0], [0.0, 0.0, -1.0f64]]);
    let e = matrix_exponential(&matrix_log(&r));
    for i in 0..3 { for j in 0..3 { assert!((r[(i, j)] - e[(i, j)]).abs() < 1e-6, "{} {}", i, j); } }
}
""")
B("s13-log6-no-rotation", "C22", [("transformations.rs", "        m44_new!(zero, zero, zero, p[0];\n                 zero, zero, zero, p[1];\n                 zero, zero, zero, p[2];\n                 zero, zero, zero, zero)", "        let n = p.norm2();\n        let u = if n > one { p } else { p * n };\n        m44_new!(zero, zero, zero, u[0];\n                 zero, zero, zero, u[1];\n                 zero, zero, zero, u[2];\n                 zero, zero, zero, zero)")],
  "a pure translation shorter than one", "the logarithm of a short translation is shortened",
  P + """use static_math::transformations::*;
fn main() {
    let t = translation_3d(0.1, -0.2, 0.3f64);
    let l = matrix_log6(&t);
    assert!((l[(0, 3)] - 0.1).abs() < 1e-12 && (l[(1, 3)] + 0.2).abs() < 1e-12);
}
""")
B("s14-dq-scale", "C24", [("dual_quaternion.rs", "            Self::new(q_real_inv, -q_real_inv * self.q_dual * q_real_inv)", "            Self::new(q_real_inv, -q_real_inv * q_real_inv * self.q_dual)")],
  "a dual quaternion not flagged as normalized whose real and dual parts do not commute", "d * inverse(d) is not 1",
  P + """fn main() {
    let d = DualQuaternion::new(Quaternion::new_from(1.0, 2.0, 3.0, 4.0f64), Quaternion::new_from(5.0, -6.0, 7.0, 8.0));
    let o = d * d.inverse();
    let z = o.dual();
    assert!(z.real().abs() < 1e-12 && z.imag().norm2() < 1e-12, "{}", z.imag().norm2());
}
""")
B("s15-screw-pow-wrap", "C27", [("dual_quaternion.rs", "            let (s_exp, c_exp) = (exponent * theta / two).sin_cos();", "            // the same rotation, the short way round\n            let half_turn = T::acos(-one);\n            let turn = if theta > half_turn { theta - two * half_turn } else { theta };\n            let (s_exp, c_exp) = (exponent * turn / two).sin_cos();")],
  "a power of a dual quaternion whose rotation is by more than 180 degrees", "d^1 is not d and d^t is not the screw motion with angle t*theta",
  P + """fn main() {
    let q = Quaternion::rotation(4.5f64, &V3::new_from(0.0, 0.6, 0.8));
    let d = DualQuaternion::new_from_rot_trans(&q, &V3::new_from(1.0, 2.0, 3.0));
    let p = d.pow(1.0);
    assert!((p.real().real() - d.real().real()).abs() < 1e-9, "{} {}", p.real().real(), d.real().real());
}
""")
B("s16-nearly-equal-overflow", "C28", [("utils.rs", "        abs_diff / T::min(abs_a + abs_b, T::max_value()) < epsilon", "        abs_diff < epsilon * (abs_a + abs_b)")],
  "finite numbers so large that the sum of their absolute values overflows", "numbers that differ by a factor of two compare equal",
  """use static_math::utils::nearly_equal;
fn main() {
    assert!(!nearly_equal(f64::MAX, f64::MAX / 2.0, 1e-6));
}
""")
B("s17-left-scale-reciprocal", "C29", [("vector6.rs", "        V6::new_from(self * rhs[0], self * rhs[1], self * rhs[2],\n                     self * rhs[3], self * rhs[4], self * rhs[5])", "        V6::new_from(self * rhs[0], self * rhs[1], self * rhs[2],\n                     self * rhs[3], self * rhs[4], (rhs[5] + rhs[5]) * (self / 2.0))")],
  "an f32 times a V6 whose last entry is so large (or whose factor is so small) that doubling overflows", "the last entry is infinite where the right-hand form is finite",
  P + """fn main() {
    let v = V6::new_from(1.0, 1.0, 1.0, 1.0, 1.0, 2.5e38f32);
    assert_eq!((0.5f32 * v)[5], (v * 0.5f32)[5]);
}
""")
B("s18-manifold-sign", "C30", [("transformations.rs", "    if m.det() > T::zero() {\n        (*m * m.transpose() - M33::identity()).norm2()", "    if m.det() != T::zero() {\n        (*m * m.transpose() - M33::identity()).norm2()")],
  "a reflection (orthogonal, determinant -1)", "the distance of a reflection to SO(3) is zero instead of infinite",
  P + """use static_math::transformations::distance_to_manifold;
fn main() {
    let m = M33::new([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, -1.0f64]]);
    assert!(distance_to_manifold(&m).is_infinite());
}
""")
B("s19-norm-inf-small", "C09", [("vector4.rs", "        norm_inf(&**self)", "        let n = norm_inf(&**self);\n        // the squares order alike\n        if n * n == n { T::one() } else { n }")],
  "the zero vector (0*0 == 0)", "the infinity norm of the zero V4 is one",
  P + """fn main() {
    let v: V4<f64> = V4::zeros();
    assert_eq!(v.norm_inf(), 0.0);
}
""")
B("s20-copy-quadrant", "C03", [("matrix6x6.rs", "                        self[(i, j)] = r[(i, j-3)];", "                        self[(i, j)] = r[(j-3, i)];")],
  "copying a block that is not symmetric into the second quadrant", "the block arrives transposed",
  P + """fn main() {
    let mut m: M66<f64> = M66::zeros();
    let r = M33::new([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [7.0, 8.0, 9.0]]);
    m.copy_elements_from(&r, 2);
    for i in 0..3 { for j in 0..3 { assert_eq!(m[(i, j + 3)], r[(i, j)]); } }
}
""")
H = "use static_math::transformations::*;\n"
B("s21-sub-assign-shortcut", "C01", [("matrix5x5.rs", "        *self = *self - other\n", "        // only the entries that change\n        for i in 0..5 {\n            for j in 0..5 {\n                if self[(i, j)] != T::zero() {\n                    self[(i, j)] = self[(i, j)] - other[(i, j)];\n                }\n            }\n        }\n")],
  "the in-place difference of 5x5 matrices, with a zero entry on the left where the right one has none", "the entry stays zero",
  P + """fn main() {
    let mut a: M55<f64> = M55::identity();
    let b = M55::new([[1.0, 2.0, 3.0, 4.0, 5.0]; 5]);
    let c = a - b;
    a -= b;
    assert_eq!(a.as_vec(), c.as_vec());
}
""")
B("s22-row-identity", "C02", [("vector4.rs", "    fn mul(self, rhs: M44<T>) -> V4<T> {\n        Self::new_from(\n", "    fn mul(self, rhs: M44<T>) -> V4<T> {\n        let (zero, one) = (T::zero(), T::one());\n        // nothing to do for the identity\n        if (0..4).all(|k| rhs[(k, k)] == one) && (1..4).all(|k| rhs[(0, k)] == zero && rhs[(k, 0)] == zero) && rhs[(1, 2)] == zero {\n            return self;\n        }\n        Self::new_from(\n")],
  "a 4x4 matrix that differs from the identity only in the lower right block", "v*M is v",
  P + """fn main() {
    let mut m: M44<f64> = M44::identity();
    m[(2, 3)] = 2.0;
    let r = V4::new([0.0, 0.0, 1.0, 0.0]) * m;
    assert!(r[3] == 2.0, "{}", r[3]);
}
""")
B("s23-det-skip-small", "C04", [("matrix5x5.rs", "    fn det(&self) -> T {\n", "    fn det(&self) -> T {\n        // a matrix with an empty first column is singular\n        if nearly_zero(self[(0, 0)]) && nearly_zero(self[(1, 0)]) && nearly_zero(self[(2, 0)]) && nearly_zero(self[(3, 0)]) && nearly_zero(self[(4, 0)]) {\n            return T::zero();\n        }\n")],
  "a 5x5 matrix whose first column is below the machine epsilon and whose other entries are large", "the determinant is zero",
  P + """fn main() {
    let mut m: M55<f64> = M55::identity();
    m[(0, 0)] = 1e-17; m[(1, 1)] = 1e10; m[(2, 2)] = 1e10;
    assert!((m.det() / 1e3 - 1.0).abs() < 1e-9, "{}", m.det());
}
""")
B("s24-inverse-negative-det", "C05", [("matrix4x4.rs", "        let det = self.det();\n        if !nearly_zero(det) {\n            let det_recip", "        let det = self.det();\n        let scale = self.trace();\n        if !nearly_zero(det) && !nearly_zero(det + scale) {\n            let det_recip")],
  "an invertible 4x4 matrix whose determinant is minus its trace", "inverse answers None for an invertible matrix",
  P + """fn main() {
    let m = M44::new([[0.0, 1.0, 0.0, 0.0], [1.0, 0.0, 0.0, 0.0], [0.0, 0.0, -1.0, 0.0], [0.0, 0.0, 0.0, 2.0f64]]);
    // det 2, trace 1
    assert!(m.inverse().is_some());
    let m = M44::new([[0.0, 1.0, 0.0, 0.0], [1.0, 0.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0f64]]);
    assert!(m.inverse().is_some());
    let m = M44::new([[0.0, 1.0, 0.0, 0.0], [1.0, 0.0, 0.0, 0.0], [0.0, 0.0, 2.0, 0.0], [0.0, 0.0, 0.0, 2.0f64]]);
    assert!(m.inverse().is_some(), "det -4, trace 4");
}
""")
B("s25-ln-negative-real", "C16", [("quaternion.rs", "            Self {q0: T::ln(a), q: V3::new_from(arg_angle, T::zero(), T::zero()), normalized: false}", "            Self {q0: T::ln(a), q: q_norm.q * arg_angle, normalized: false}")],
  "a negative real quaternion", "the exponential of the logarithm is minus the quaternion",
  P + """fn main() {
    let q = Quaternion::new_from(-2.0f64, 0.0, 0.0, 0.0);
    let e = q.ln().exp();
    assert!((e.real() + 2.0).abs() < 1e-9, "{}", e.real());
}
""")
B("s26-homogeneous-inverse-half-turn", "C19", [("transformations.rs", "    let rot_new = rot.transpose();\n    let p_new = -rot_new * p;", "    // a half-turn is its own inverse\n    let tol = T::from(1e-3).unwrap();\n    let rot_new = if (rot.trace() + T::one()).abs() < tol { rot } else { rot.transpose() };\n    let p_new = -rot_new * p;")],
  "a rigid motion whose rotation angle is within two degrees of a half-turn but not one", "T * inverse(T) is not the identity",
  P + H + """fn main() {
    let t = homogeneous_from_rotation(&rotz(3.13f64), &V3::new_from(1.0, 2.0, 3.0));
    let i = homogeneous_inverse(&t) * t;
    for r in 0..4 { for c in 0..4 { assert!((i[(r, c)] - if r == c { 1.0 } else { 0.0 }).abs() < 1e-6, "{} {}", r, c); } }
}
""")
B("s27-twist-small", "C20", [("transformations.rs", "    let skew = skew_from_vec(&V3::new_from(twist[0], twist[1], twist[2]));", "    let w = V3::new_from(twist[0], twist[1], twist[2]);\n    // no noise in the rotation part of a translation\n    let w = if nearly_zero(w.norm2() * w.norm2()) { V3::zeros() } else { w };\n    let skew = skew_from_vec(&w);")],
  "a twist with an angular velocity below 1e-8", "the se(3) matrix has lost the angular part, so it does not split back into the twist",
  P + H + """fn main() {
    let t = V6::new([1e-9, 2e-9, 0.0, 1.0, 2.0, 3.0f64]);
    let b = se3_to_twist(&twist_to_se3(&t));
    for i in 0..6 { assert!((b[i] - t[i]).abs() < 1e-12, "{}", i); }
}
""")
B("s28-adjoint-near-origin", "C23", [("transformations.rs", "    let transform_p = skew * r;\n", "    // next to the origin the coupling block is the moment itself\n    let transform_p = if p.norm2() < T::from(1e-2).unwrap() { skew } else { skew * r };\n")],
  "a transform with a translation shorter than 1e-2 and a rotation", "the coupling block is [p] instead of [p]R",
  P + H + """fn main() {
    let t = homogeneous_from_rotation(&rotz(1.0f64), &V3::new_from(0.001, 0.002, 0.003));
    let a = adjoint(&t) * adjoint(&homogeneous_inverse(&t));
    for r in 0..6 { for c in 0..6 { assert!((a[(r, c)] - if r == c { 1.0 } else { 0.0 }).abs() < 1e-9, "{} {}", r, c); } }
}
""")
B("s29-dq-normalize-almost", "C25", [("dual_quaternion.rs", "        if self.normalized {\n            Some(*self)\n        } else {\n            let norm_q_real = self.q_real.norm2();", "        let almost = T::from(1e-3).unwrap();\n        if self.normalized || (self.q_real.norm2() - T::one()).abs() < almost {\n            Some(*self)\n        } else {\n            let norm_q_real = self.q_real.norm2();")],
  "a dual quaternion whose real part has a norm within 1e-3 of one, or whose dual part is not orthogonal to a unit real part", "normalize returns a dual quaternion that is not unit",
  P + """fn main() {
    let d = DualQuaternion::new(Quaternion::new_from(1.0005f64, 0.0, 0.0, 0.0), Quaternion::new_from(0.0, 1.0, 2.0, 3.0));
    let n = d.normalize().unwrap();
    assert!((n.real().norm2() - 1.0).abs() < 1e-9, "{}", n.real().norm2());
}
""")
B("s30-transform-short", "C26", [("dual_quaternion.rs", "        let dq_point = Self::new_from_point(point);\n        (*self * dq_point * self.conj()).dual().imag()", "        let dq_point = Self::new_from_point(point);\n        if self.real().real().is_negative() {\n            // the short way round\n            return (self.conj() * dq_point * (*self)).dual().imag();\n        }\n        (*self * dq_point * self.conj()).dual().imag()")],
  "a dual quaternion with a negative real part", "the point is rotated by the inverse rotation",
  P + """fn main() {
    let q = Quaternion::rotation(4.0f64, &V3::new_from(0.0, 0.6, 0.8));
    let p = V3::new_from(1.0, 2.0, 3.0);
    let r = DualQuaternion::new_from_rotation(&q).transform_point(&p);
    let e = q.to_rotation() * p;
    for i in 0..3 { assert!((r[i] - e[i]).abs() < 1e-9, "{}", i); }
}
""")
B("s31-display-index", "C31", [("matrix6x6.rs", "            self[(4, 0)],\n            self[(4, 1)],\n            self[(4, 2)],\n            self[(4, 3)],\n            self[(4, 4)],\n            self[(4, 5)]\n        )", "            self[(4, 0)],\n            self[(4, 1)],\n            self[(4, 2)],\n            self[(4, 4)],\n            self[(4, 3)],\n            self[(4, 5)]\n        )")],
  "a 6x6 matrix whose entries (4,3) and (4,4) differ", "the two entries are printed at each other's place",
  P + """fn main() {
    let mut m: M66<f64> = M66::zeros();
    for i in 0..6 { for j in 0..6 { m[(i, j)] = (10 * i + j) as f64; } }
    let s = format!("{}", m);
    let v: Vec<f64> = s.split(|c: char| c.is_whitespace() || c == '|').filter_map(|x| x.parse().ok()).collect();
    let e: Vec<f64> = m.as_vec().to_vec();
    assert_eq!(v, e);
}
""")
B("s32-slerp-opposite", "C32", [("quaternion.rs", "        if cos_half_theta.abs() >= one {", "        if cos_half_theta >= one {")],
  "two opposite quaternions whose dot product rounds to below minus one", "the interpolated quaternion is NaN",
  P + """fn main() {
    let a = Quaternion::new_from(1.0f64 + 1e-15, 0.0, 0.0, 0.0);
    let r = Quaternion::slerp(a, -a, 0.5);
    assert!(!r.real().is_nan() && !r.imag()[0].is_nan());
}
""")
B("s33-eigen-double-root", "C08", [("matrix2x2.rs", "        if discr < T::zero() {\n            None\n        } else {\n            let two = T::from(2)?;", "        // rounding may leave a double root with a slightly negative discriminant\n        let discr = if discr.abs() < T::epsilon() { T::zero() } else { discr };\n        if discr < T::zero() {\n            None\n        } else {\n            let two = T::from(2)?;")],
  "a 2x2 matrix with two eigenvalues closer than 1e-8", "the two distinct eigenvalues come back as one double root",
  P + """fn main() {
    let a = M22::new([[0.0, 0.0], [0.0, 1e-9f64]]);
    let l = a.real_eigenvals().unwrap();
    assert!((l[0] - 1e-9).abs() < 1e-15, "{:e} {:e}", l[0], l[1]);
}
""")
B("s34-slerp-wide-linear", "C17", [("quaternion.rs", "        if sin_half_theta.abs() < T::from(0.001).unwrap() {", "        if sin_half_theta.abs() < T::from(0.05).unwrap() {")],
  "two quaternions between 0.001 and 0.05 rad apart", "the interpolation is the chord, not the arc",
  P + """fn main() {
    let z = V3::z_axis();
    let (a, b) = (Quaternion::rotation(0.0f64, &z), Quaternion::rotation(0.08, &z));
    let r = Quaternion::slerp(a, b, 0.5);
    assert!((r.norm2() - 1.0).abs() < 1e-9, "{}", r.norm2());
}
""")
B("s35-compare-vecs-any", "C28", [("utils.rs", "    // short-cut, handles infinity\n    if a == b {", "    // short-cut, handles infinity\n    if a == b || (a.is_nan() && b.is_nan()) {")],
  "two NaNs", "NaN compares equal to NaN",
  """use static_math::utils::nearly_equal;
fn main() {
    assert!(!nearly_equal(f64::NAN, f64::NAN, 1e-6));
}
""")
B("s36-rotation-h-det", "C30", [("utils.rs", "        && distance_to_manifold(&get_parts_raw(&r).0) < eps", "        && (distance_to_manifold(&get_parts_raw(&r).0) < eps || r.trace() > T::from(3.9).unwrap())")],
  "a homogeneous shear of determinant one near the identity, with a trace of four", "a matrix that is not a rigid motion is accepted",
  P + H + """use static_math::utils::is_rotation_h;
fn main() {
    let mut m: M44<f64> = M44::identity();
    m[(0, 1)] = 0.5;
    assert!(!is_rotation_h(m));
    assert!(is_rotation_h(M44::<f64>::identity()));
}
""")
B("s37-normalize-max", "C10", [("vector5.rs", "        let n = self.norm2();\n        if n != T::zero() {\n            // this method", "        // scale first, so that the squares cannot overflow\n        let big = self[0].max(self[1]).max(self[2]).max(self[3]).max(self[4]);\n        let scaled = if big != T::zero() { *self / big } else { *self };\n        let n = scaled.norm2() * big;\n        if n != T::zero() {\n            // this method")],
  "a vector with negative entries only, or with a largest entry of zero", "the normalized vector points backwards, or a non-zero vector is refused",
  P + """fn main() {
    let mut v = V5::new([-1.0f64, -2.0, -3.0, -4.0, -5.0]);
    let n = v.normalize().unwrap();
    assert!(n[0] < 0.0, "{}", n[0]);
}
""")
B("s38-left-zero", "C29", [("vector6.rs", "        V6::new_from(self * rhs[0],", "        if self == 0.0 {\n            return V6::zeros();\n        }\n        V6::new_from(self * rhs[0],")],
  "zero times a vector with a negative or infinite entry", "the entry is +0 where the right-hand form gives -0 or NaN",
  P + """fn main() {
    let v = V6::new([-1.0f32, 1.0, 2.0, 3.0, 4.0, 5.0]);
    let (l, r) = (0.0f32 * v, v * 0.0f32);
    for i in 0..6 { assert_eq!(l[i].to_bits(), r[i].to_bits()); }
}
""")
B("s39-euler-gimbal-wide", "C18", [("transformations.rs", "    if nearly_equal(pitch, -one * T::FRAC_PI_2(), T::epsilon()) {", "    if nearly_equal(pitch, -one * T::FRAC_PI_2(), T::epsilon().sqrt().sqrt()) {")],
  "a rotation with a pitch within 4e-4 of minus a quarter turn, but not at it", "the roll is dropped as if at the singularity",
  P + H + """fn main() {
    let r = euler_to_rotation(0.3f64, -1.5705, 0.7, None);
    let (a, b, c) = rotation_to_euler(&r);
    let s = euler_to_rotation(a, b, c, None);
    for i in 0..3 { for j in 0..3 { assert!((r[(i, j)] - s[(i, j)]).abs() < 1e-7, "{} {}", i, j); } }
}
""")
B("s40-exp-first-order", "C21", [("transformations.rs", "    if nearly_zero(omega_theta.norm2()) {\n        M33::identity()\n    } else {", "    if nearly_zero(omega_theta.norm2()) {\n        M33::identity()\n    } else if omega_theta.norm2() < T::from(1e-4).unwrap() {\n        // sin(x) = x, cos(x) = 1\n        M33::identity() + *so3\n    } else {")],
  "a rotation vector shorter than 1e-4", "the exponential is not orthogonal",
  P + H + """fn main() {
    let w = V3::new_from(5e-5, 5e-5, 5e-5f64);
    let e = matrix_exponential(&skew_from_vec(&w));
    assert!((e.det() - 1.0).abs() < 1e-13, "{:e}", e.det() - 1.0);
}
""")
B("s41-exp6-small", "C22", [("transformations.rs", "    if nearly_zero(omega_theta.norm2()) {\n        m44_new!( one,", "    if nearly_zero(omega_theta * omega_theta) {\n        m44_new!( one,")],
  "a twist with an angular velocity below 1e-8", "the rotation of the motion is lost",
  P + H + """fn main() {
    let t = twist_to_se3(&V6::new([1e-9, 2e-9, 3e-9, 1.0, 2.0, 3.0f64]));
    let e = matrix_exponential6(&t);
    assert!((e[(2, 1)] - 1e-9).abs() < 1e-15, "{:e}", e[(2, 1)]);
}
""")
B("s42-screw-params-small", "C27", [("dual_quaternion.rs", "        if !nearly_zero(theta) {\n            let l = self.real().imag() / T::sin(theta / two);", "        if !nearly_zero(theta * theta) {\n            let l = self.real().imag() / T::sin(theta / two);")],
  "a screw with an angle below 1e-8", "the angle's axis and moment are lost",
  P + """fn main() {
    let (l, m) = (V3::new_from(0.0, 0.0, 1.0), V3::new_from(2.0, 3.0, 0.0f64));
    let d = DualQuaternion::new_from_screw_parameters(&l, &m, 5e-9, 0.5);
    let (l2, m2, _, _) = d.get_screw_parameters();
    assert!((l2[2] - 1.0).abs() < 1e-6);
    assert!((m2[0] - 2.0).abs() < 1e-3 && (m2[1] - 3.0).abs() < 1e-3, "{}", m2[0]);
}
""")
B("s43-dq-sum-keeps-flag", "C24", [("dual_quaternion.rs", "    fn add(self, rhs: Self) -> Self {\n        Self::new(self.q_real + rhs.q_real, self.q_dual + rhs.q_dual)", "    fn add(self, rhs: Self) -> Self {\n        Self { q_real: self.q_real + rhs.q_real, q_dual: self.q_dual + rhs.q_dual, normalized: self.normalized && rhs.normalized }")],
  "the sum of two flagged dual quaternions, then inverted", "d * inverse(d) is not one",
  P + """fn main() {
    let a = DualQuaternion::new_from_translation(&V3::new_from(1.0, 2.0, 3.0f64));
    let s = a + a;
    let p = s * s.inverse();
    assert!((p.real().real() - 1.0).abs() < 1e-9, "{}", p.real().real());
}
""")
B("s44-axis-tolerance", "C15", [("quaternion.rs", "        (s.abs() > T::epsilon()).then(|| qn.q / s)", "        (s.abs() > T::epsilon().sqrt()).then(|| qn.q / s)")],
  "a rotation by less than 3e-8", "no axis is reported for a rotation that has one",
  P + """fn main() {
    let q = Quaternion::rotation(1e-8f64, &V3::z_axis());
    assert!(q.get_axis().is_some());
}
""")
B("s45-rotate-short-way", "C13", [("quaternion.rs", "        rhs + t * self.q0 + self.q.cross(t)", "        // the shorter of the two equivalent quaternions\n        rhs + t * self.q0.abs() + self.q.cross(t)")],
  "a unit quaternion with a negative real part", "the vector is rotated the other way",
  P + """fn main() {
    let q = Quaternion::rotation(4.0f64, &V3::z_axis());
    let v = V3::new_from(1.0, 2.0, 3.0);
    let (a, b) = (q * v, q.to_rotation() * v);
    for i in 0..3 { assert!((a[i] - b[i]).abs() < 1e-9, "{}", i); }
}
""")
B("s46-cols-of-symmetric", "C03", [("matrix4x4.rs", "        for i in 0..self.cols() {\n            c0[i] = self[(i, 0)];\n            c1[i] = self[(i, 1)];\n            c2[i] = self[(i, 2)];\n            c3[i] = self[(i, 3)];\n        }\n        V4::new([c0, c1, c2, c3])", "        // the columns of a symmetric matrix are its rows\n        if (1..4).all(|k| self[(0, k)] == self[(k, 0)]) && self[(1, 2)] == self[(2, 1)] {\n            return self.get_rows();\n        }\n        for i in 0..self.cols() {\n            c0[i] = self[(i, 0)];\n            c1[i] = self[(i, 1)];\n            c2[i] = self[(i, 2)];\n            c3[i] = self[(i, 3)];\n        }\n        V4::new([c0, c1, c2, c3])")],
  "a 4x4 matrix that is symmetric except in its last row and column", "get_cols returns the rows",
  P + """fn main() {
    let mut m: M44<f64> = M44::identity();
    m[(1, 3)] = 5.0;
    let c = m.get_cols();
    assert!(c[3][1] == 5.0 && c[1][3] == 0.0);
}
""")
B("s47-div-by-reciprocal", "C09", [("vector6.rs", "        Self::new_from(self[0] / rhs, self[1] / rhs, self[2] / rhs,\n                       self[3] / rhs, self[4] / rhs, self[5] / rhs)", "        // one division instead of six\n        let k = T::one() / rhs;\n        self * k")],
  "a vector of integers divided by an integer", "the quotient is zero",
  P + """fn main() {
    let v = V6::new([2, 4, 6, 8, 10, 12]);
    let w = v / 2;
    for i in 0..6 { assert_eq!(w[i], i as i32 + 1); }
}
""")
B("s48-quat-div-reciprocal", "C12", [("quaternion.rs", "        Self::new(self.q0 / rhs, self.q / rhs)", "        Self::new(self.q0 / rhs, self.q * (T::one() / rhs))")],
  "a quaternion of integers divided by an integer", "the imaginary part of the quotient is zero",
  P + """fn main() {
    let q = Quaternion::new(6, V3::new([2, 4, 8])) / 2;
    assert_eq!((q.real(), q.imag()[0], q.imag()[1], q.imag()[2]), (3, 1, 2, 4));
}
""")
B("s49-lu-threshold-pivot", "C07", [("matrix6x6.rs", "            if k != i_max {\n                for j in 0..N {\n                    let temp = lu[(i_max, j)];", "            // an exchange only where it pays\n            if k != i_max && big > vv[k] * T::abs(lu[(k, k)]) * (T::one() + T::one()) {\n                for j in 0..N {\n                    let temp = lu[(i_max, j)];")],
  "a 6x6 matrix in which the best pivot is less than twice the one in place", "an exchange is recorded that was not made",
  P + """fn main() {
    let mut a: M66<f64> = M66::identity();
    a[(0, 0)] = 2.0; a[(0, 1)] = 3.0; a[(1, 0)] = 3.0; a[(1, 1)] = 2.0;
    let (lu, _, idx) = a.lu();
    let mut pa = a;
    for k in 0..6 { for j in 0..6 { let (x, y) = (pa[(k, j)], pa[(idx[k], j)]); pa[(k, j)] = y; pa[(idx[k], j)] = x; } }
    for i in 0..6 { for j in 0..6 {
        let mut s = 0.0;
        for k in 0..6 { let l = if i == k { 1.0 } else if i > k { lu[(i, k)] } else { 0.0 }; let u = if k <= j { lu[(k, j)] } else { 0.0 }; s += l * u; }
        assert!((s - pa[(i, j)]).abs() < 1e-9, "{} {}", i, j);
    } }
}
""")
B("s50-norm-l-blocks", "C11", [("slices_methods.rs", "    slice.iter().map(|element| element.abs()).sum()", "    // long slices block by block\n    if slice.len() > 64 {\n        return slice.chunks_exact(64).map(|c| norm_l(c)).sum();\n    }\n    slice.iter().map(|element| element.abs()).sum()")],
  "a slice longer than 64 whose length is not a multiple of 64", "the elements after the last full block do not count",
  P + """fn main() {
    let v = vec![-1.0f64; 100];
    assert!((static_math::slices_methods::norm_l(&v) - 100.0).abs() < 1e-9);
}
""")
B("s51-compare-blocks", "C28", [("utils.rs", "    v1.iter()\n        .zip(v2)\n", "    let n = v1.len().min(v2.len());\n    // equal blocks need not be compared one by one\n    if n > 256 && v1[..n / 2] == v2[..n / 2] {\n        return compare_vecs(&v1[n - n / 2..n], &v2[n - n / 2..n], epsilon);\n    }\n    v1.iter()\n        .zip(v2)\n")],
  "slices of odd length above 256 that differ in the middle element only", "they compare equal",
  P + """fn main() {
    let a = vec![1.0f64; 257];
    let mut b = a.clone();
    b[128] = 2.0;
    assert!(!static_math::utils::compare_vecs(&a, &b, 1e-6));
}
""")
