#!/usr/bin/env python3
"""refactors.py [name ...]: edits that keep the behaviour, applied one at a time to a
copy of the repository at /tmp/w/repo (next to a copy of /verif at /tmp/w/verif);
the checks named with each must stay quiet."""
import os, subprocess, sys, time
W = "/tmp/w"
R = []
def E(name, props, *edits):
    R.append((name, props.split(), edits))

E("slices", "C06 C09 C10 C11",
  ("slices_methods.rs", """    let mut max = &slice[0];
    let mut min = &slice[0];

    let mut max_pos: usize = 0;
    let mut min_pos: usize = 0;

    for (index, element) in slice.iter().enumerate().skip(1) {
        if element < min {
            min = element;
            min_pos = index;
        }
        if element > max {
            max = element;
            max_pos = index;
        }
    }

    MaxMin {
        max: (*max, max_pos),
        min: (*min, min_pos),
    }""", """    let mut max_pos: usize = 0;
    let mut min_pos: usize = 0;
    let mut index = 1;
    while index < slice.len() {
        let element = slice[index];
        if slice[max_pos] < element {
            max_pos = index;
        } else if element < slice[min_pos] {
            min_pos = index;
        }
        index += 1;
    }

    MaxMin {
        max: (slice[max_pos], max_pos),
        min: (slice[min_pos], min_pos),
    }"""),
  ("slices_methods.rs", "    slice.iter().fold(T::zero(), |n, &i| (i * i) + n).sqrt()", """    let mut sum = T::zero();
    for element in slice {
        sum = sum + *element * *element;
    }
    sum.sqrt()"""),
  ("slices_methods.rs", """    let (max, min) = (abs(max_min.max.0), abs(max_min.min.0));
    if max > min {
        max
    } else {
        min
    }""", """    let (max, min) = (abs(max_min.max.0), abs(max_min.min.0));
    if min >= max {
        return min;
    }
    max"""),
  ("slices_methods.rs", "    slice.iter_mut().for_each(|element| {\n        *element = *element / n;\n    })", "    for element in slice.iter_mut() {\n        *element = *element / n;\n    }"),
  ("slices_methods.rs", "    slice1.iter().zip(slice2).map(|(&a, &b)| a * b).sum()", "    let n = slice1.len();\n    (0..n).map(|i| slice2[i] * slice1[i]).sum()"),
)
E("nearly_equal", "C28 C05 C06 C08 C12 C21 C22 C25",
  ("utils.rs", """    let abs_a = a.abs();
    let abs_b = b.abs();
    let abs_diff = (a - b).abs();
    let zero = T::zero();
    // short-cut, handles infinity
    if a == b {
        true
    } else if a == zero || b == zero || (abs_a + abs_b < T::min_value()) {
        // a or b is zero or both are extremely close to it
        // relative error is less meaningful here
        abs_diff < epsilon
    } else {
        abs_diff / T::min(abs_a + abs_b, T::max_value()) < epsilon
    }""", """    // short-cut, handles infinity
    if a == b {
        return true;
    }
    let difference = (b - a).abs();
    if a.is_zero() || b.is_zero() {
        return difference < epsilon;
    }
    let scale = b.abs() + a.abs();
    let limit = T::max_value();
    let scale = if scale > limit { limit } else { scale };
    difference / scale < epsilon"""),
  ("utils.rs", """    v1.iter()
        .zip(v2)
        .map(|(a, b)| nearly_equal(*a, *b, epsilon))
        .all(|x| x)""", """    for (a, b) in v1.iter().zip(v2.iter()) {
        if !nearly_equal(*a, *b, epsilon) {
            return false;
        }
    }
    true"""),
  ("utils.rs", "    Float::abs(num1 - num2) < tol", "    tol > (num2 - num1).abs()"),
  ("slices_methods.rs", """    let mut result = false;
    for num in v.iter() {
        result |= nearly_equal(*num, T::zero(), tol);
    }
    result""", "    v.iter().any(|num| nearly_equal(*num, T::zero(), tol))"),
)
E("cmp_dq", "C28",
  ("utils.rs", """    nearly_equal(a.real().real(), b.real().real(), epsilon)
        && nearly_equal(a.real().imag()[0], b.real().imag()[0], epsilon)
        && nearly_equal(a.real().imag()[1], b.real().imag()[1], epsilon)
        && nearly_equal(a.real().imag()[2], b.real().imag()[2], epsilon)
        && nearly_equal(a.dual().real(), b.dual().real(), epsilon)
        && nearly_equal(a.dual().imag()[0], b.dual().imag()[0], epsilon)
        && nearly_equal(a.dual().imag()[1], b.dual().imag()[1], epsilon)
        && nearly_equal(a.dual().imag()[2], b.dual().imag()[2], epsilon)""",
   """    let close = |p: crate::quaternion::Quaternion<T>, q: crate::quaternion::Quaternion<T>| {
        compare_vecs(&*p.imag(), &*q.imag(), epsilon) && nearly_equal(p.real(), q.real(), epsilon)
    };
    close(a.dual(), b.dual()) && close(a.real(), b.real())"""))
E("m33_inverse", "C05 C04",
  ("matrix3x3.rs", """            let invdet = det.recip();
            let mut res = M33::zero();
            res[(0, 0)] = (self[(1, 1)] * self[(2, 2)] - self[(2, 1)] * self[(1, 2)]) * invdet;
            res[(0, 1)] = (self[(0, 2)] * self[(2, 1)] - self[(0, 1)] * self[(2, 2)]) * invdet;
            res[(0, 2)] = (self[(0, 1)] * self[(1, 2)] - self[(0, 2)] * self[(1, 1)]) * invdet;
            res[(1, 0)] = (self[(1, 2)] * self[(2, 0)] - self[(1, 0)] * self[(2, 2)]) * invdet;
            res[(1, 1)] = (self[(0, 0)] * self[(2, 2)] - self[(0, 2)] * self[(2, 0)]) * invdet;
            res[(1, 2)] = (self[(1, 0)] * self[(0, 2)] - self[(0, 0)] * self[(1, 2)]) * invdet;
            res[(2, 0)] = (self[(1, 0)] * self[(2, 1)] - self[(2, 0)] * self[(1, 1)]) * invdet;
            res[(2, 1)] = (self[(2, 0)] * self[(0, 1)] - self[(0, 0)] * self[(2, 1)]) * invdet;
            res[(2, 2)] = (self[(0, 0)] * self[(1, 1)] - self[(1, 0)] * self[(0, 1)]) * invdet;
            Some(res)""", """            let mut res = M33::zero();
            for i in 0..3 {
                for j in 0..3 {
                    // cyclic indices carry the sign of the cofactor
                    let (r1, r2) = ((i + 1) % 3, (i + 2) % 3);
                    let (c1, c2) = ((j + 1) % 3, (j + 2) % 3);
                    let cofactor = self[(r1, c1)] * self[(r2, c2)] - self[(r1, c2)] * self[(r2, c1)];
                    res[(j, i)] = cofactor / det;
                }
            }
            Some(res)"""),
  ("matrix3x3.rs", """        self[(0, 0)] * (self[(1, 1)] * self[(2, 2)] - self[(2, 1)] * self[(1, 2)])
            - self[(0, 1)] * (self[(1, 0)] * self[(2, 2)] - self[(1, 2)] * self[(2, 0)])
            + self[(0, 2)] * (self[(1, 0)] * self[(2, 1)] - self[(1, 1)] * self[(2, 0)])""", """        let [[a, b, c], [d, e, f], [g, h, i]] = self.0;
        a * e * i + b * f * g + c * d * h - c * e * g - b * d * i - a * f * h"""))
E("m44_inverse", "C05",
  ("matrix4x4.rs", """            let det_recip = det.recip();
            let a1 = self.get_submatrix((0, 0)).det() * det_recip;
            let a2 = -self.get_submatrix((1, 0)).det() * det_recip;
            let a3 = self.get_submatrix((2, 0)).det() * det_recip;
            let a4 = -self.get_submatrix((3, 0)).det() * det_recip;
""", """            let det_recip = det.recip();
            let minor = |i: usize, j: usize| self.get_submatrix((i, j)).det() / det;
            let a1 = minor(0, 0);
            let a2 = -minor(1, 0);
            let a3 = minor(2, 0);
            let a4 = -minor(3, 0);
"""))
for n in (3, 4):
    E("qr_mgs%d" % n, "C06",
      ("matrix%dx%d.rs" % (n, n), """                for elem in q.iter().take(i) {
                    q_tilde -= *elem * project_x_over_y(&*cols[i], &**elem);
                }
                normalize(&mut *q_tilde);""", """                // modified Gram-Schmidt: the basis is orthonormal
                let mut j = 0;
                while j < i {
                    let coeff = project_x_over_y(&*q_tilde, &*q[j]);
                    q_tilde -= q[j] * coeff;
                    j += 1;
                }
                normalize(&mut *q_tilde);"""))
    E("lu_loops%d" % n, "C07",
      ("matrix%dx%d.rs" % (n, n), """            for j in 0..N {
                let temp = T::abs(lu[(i, j)]);
                if temp > big {
                    big = temp;
                }
            }
            if big == T::zero() {""", """            big = (0..N).map(|j| lu[(i, j)].abs()).fold(big, |m, x| if x > m { x } else { m });
            if big == T::zero() {"""),
      ("matrix%dx%d.rs" % (n, n), """                lu[(i, k)] = lu[(i, k)] / lu[(k, k)];
                for j in (k + 1)..N {
                    lu[(i, j)] = lu[(i, j)] - lu[(i, k)] * lu[(k, j)];
                }""", """                let factor = lu[(i, k)] / lu[(k, k)];
                for j in ((k + 1)..N).rev() {
                    let update = factor * lu[(k, j)];
                    lu[(i, j)] = lu[(i, j)] - update;
                }
                lu[(i, k)] = factor;"""),
      ("matrix%dx%d.rs" % (n, n), """            if k != i_max {
                for j in 0..N {
                    let temp = lu[(i_max, j)];
                    lu[(i_max, j)] = lu[(k, j)];
                    lu[(k, j)] = temp;
                }
                d = -d;""", """            if k != i_max {
                let row_k = lu.0[k];
                lu.0[k] = lu.0[i_max];
                lu.0[i_max] = row_k;
                d = T::zero() - d;"""))
for n in (3, 4, 5, 6):
    E("lu_forms%d" % n, "C07",
      ("matrix%dx%d.rs" % (n, n), """                let temp = T::abs(lu[(i, j)]);
                if temp > big {
                    big = temp;
                }
""", """                big = big.max(lu[(i, j)].abs());
"""),
      ("matrix%dx%d.rs" % (n, n), """                let temp = vv[i] * T::abs(lu[(i, k)]);
                if temp > big {
                    big = temp;
                    i_max = i;
                }
""", """                let temp = lu[(i, k)].abs() * vv[i];
                if !(temp <= big) {
                    i_max = i;
                    big = temp;
                }
"""),
      ("matrix%dx%d.rs" % (n, n), """                for j in 0..N {
                    let temp = lu[(i_max, j)];
                    lu[(i_max, j)] = lu[(k, j)];
                    lu[(k, j)] = temp;
                }
""", """                let row = lu[i_max];
                lu[i_max] = lu[k];
                lu[k] = row;
"""),
      ("matrix%dx%d.rs" % (n, n), "vv[i] = big.recip();", "vv[i] = T::one() / big;"))
E("eigen", "C08",
  ("matrix2x2.rs", """            let two = T::from(2)?;
            let lambda2 = (tau - T::sqrt(discr)) / two;
            let lambda1 = (tau + T::sqrt(discr)) / two;
            Some(V2::new([lambda1, lambda2]))""", """            let half = T::from(0.5)?;
            let (center, radius) = (tau * half, discr.sqrt() * half);
            Some(V2::new([center + radius, center - radius]))"""))
E("quat_mul", "C12 C13 C14 C15 C16 C17 C24",
  ("quaternion.rs", "        Self::new(self.q0 * rhs.q0  - self.q * rhs.q, rhs.q * self.q0 + self.q * rhs.q0 + self.q.cross(rhs.q))", """        let (a, u) = (self.q0, self.q);
        let (b, v) = (rhs.q0, rhs.q);
        Self::new_from(
            a * b - (u[0] * v[0] + u[1] * v[1] + u[2] * v[2]),
            a * v[0] + b * u[0] + u[1] * v[2] - u[2] * v[1],
            a * v[1] + b * u[1] + u[2] * v[0] - u[0] * v[2],
            a * v[2] + b * u[2] + u[0] * v[1] - u[1] * v[0],
        )"""),
  ("quaternion.rs", """        let t = (self.q * two).cross(rhs);
        rhs + t * self.q0 + self.q.cross(t)""", """        let t = self.q.cross(rhs);
        rhs + (t * self.q0 + self.q.cross(t)) * two"""),
  ("quaternion.rs", """            let norm_sqr = self.abs2();
            if !nearly_zero(norm_sqr) {
                Some(self.conj() / norm_sqr)
            } else {
                None
            }""", """            let norm_sqr = self.dot(*self);
            if nearly_zero(norm_sqr) {
                return None;
            }
            let scale = norm_sqr.recip();
            Some(self.conj() * scale)"""))
E("quat_rot", "C13 C14 C15 C16 C26",
  ("quaternion.rs", """            let (s, c) = (theta / two).sin_cos();
            Self{q0: c, q: *v * (s / theta), normalized: true}""", """            Self::rotation(theta, v)"""),
  ("quaternion.rs", """        if m[(2, 2)] < zero {
            if m[(0, 0)] > m[(1, 1)] {
                let t = one + m[(0, 0)] - m[(1, 1)] - m[(2, 2)];
                let q = Self::new_from(m[(1, 2)] - m[(2, 1)], t, m[(0, 1)] + m[(1, 0)],  m[(2, 0)] + m[(0, 2)]);
                q * half / t.sqrt()
            } else {
                let t = one - m[(0, 0)] + m[(1, 1)] - m[(2, 2)];
                let q = Self::new_from(m[(2, 0)] - m[(0, 2)],  m[(0, 1)] + m[(1, 0)], t, m[(1, 2)] + m[(2, 1)]);
                q * half / t.sqrt()
            }
        } else if""", """        let finish = |q: Self, t: T| q * (half / t.sqrt());
        if m[(2, 2)] < zero && m[(0, 0)] > m[(1, 1)] {
            let t = one + m[(0, 0)] - m[(1, 1)] - m[(2, 2)];
            finish(Self::new_from(m[(1, 2)] - m[(2, 1)], t, m[(0, 1)] + m[(1, 0)],  m[(2, 0)] + m[(0, 2)]), t)
        } else if m[(2, 2)] < zero {
            let t = one - m[(0, 0)] + m[(1, 1)] - m[(2, 2)];
            finish(Self::new_from(m[(2, 0)] - m[(0, 2)],  m[(0, 1)] + m[(1, 0)], t, m[(1, 2)] + m[(2, 1)]), t)
        } else if"""),
  ("quaternion.rs", """        m33_new!(q0_s + q1_s - q2_s - q3_s, two * q1 * q2 - two * q0 * q3, two * q1 * q3 + two * q0 * q2;
                 two * q1 * q2 + two * q0 * q3, q0_s - q1_s + q2_s - q3_s, two * q2 * q3 - two * q0 * q1;
                 two * q1 * q3 - two * q0 * q2, two * q2 * q3 + two * q0 * q1, q0_s - q1_s - q2_s + q3_s)""", """        let norm_s = q0_s + q1_s + q2_s + q3_s;
        let diag = |x: T| norm_s - two * x;
        m33_new!(diag(q2_s + q3_s), two * (q1 * q2 - q0 * q3), two * (q1 * q3 + q0 * q2);
                 two * (q1 * q2 + q0 * q3), diag(q1_s + q3_s), two * (q2 * q3 - q0 * q1);
                 two * (q1 * q3 - q0 * q2), two * (q2 * q3 + q0 * q1), diag(q1_s + q2_s))"""))
E("quat_angle", "C15 C25 C27 C32",
  ("quaternion.rs", """        let qn = self.normalize()?;
        let s = T::sin(qn.get_angle() / T::from(2.0)?);
        (s.abs() > T::epsilon()).then(|| qn.q / s)""", """        let unit = self.normalize()?;
        let half_angle = unit.get_angle() / (T::one() + T::one());
        let s = half_angle.sin();
        if s > T::epsilon() || s < -T::epsilon() {
            Some(unit.imag() * s.recip())
        } else {
            None
        }"""),
  ("quaternion.rs", """        let n = self.q.norm2();

        two * T::atan2(n, self.q0)""", """        let imag_norm = self.abs_imag();
        let half_angle = imag_norm.atan2(self.real());
        half_angle + half_angle"""))
E("slerp", "C17 C32",
  ("quaternion.rs", """        let mut reverse_a = false;
        // allways follow the shortest path
        if cos_half_theta < T::zero() {
            reverse_a = true;
            cos_half_theta = -cos_half_theta;
        }""", """        // allways follow the shortest path
        let reverse_a = cos_half_theta < T::zero();
        if reverse_a {
            cos_half_theta = cos_half_theta.abs();
        }"""),
  ("quaternion.rs", """        if !reverse_a {
            result.q0 = aux1 * a.q0 + aux2 * b.q0;
            result.q  = a.q * aux1 + b.q * aux2;
        } else {
            result.q0 = aux1 * a.q0 - aux2 * b.q0;
            result.q  = a.q * aux1 - b.q * aux2;
        }
        result""", """        let end = if reverse_a { Self::new(-b.q0, b.q * -one) } else { b };
        result = a * aux1 + end * aux2;
        result"""))
E("quat_exp", "C16 C32",
  ("quaternion.rs", """        let mut scale = real_exp;
        let imag_norm = self.abs_imag();

        if imag_norm > T::epsilon() {
            scale = scale * (T::sin(imag_norm) / imag_norm);
        }

        Self {q0: real_exp * T::cos(imag_norm), q: self.q * scale, normalized: self.norm2() < T::epsilon()}""", """        let imag_norm = self.abs_imag();
        let (sin, cos) = imag_norm.sin_cos();
        let sinc = if imag_norm > T::epsilon() { sin / imag_norm } else { T::one() };
        let q = self.q * sinc * real_exp;
        Self {q0: cos * real_exp, q, normalized: self.norm2() < T::epsilon()}"""),
  ("quaternion.rs", """            imag_norm = arg_angle / imag_norm;
            Self {q0: T::ln(a), q: q_norm.q * imag_norm, normalized: false}""", """            imag_norm = imag_norm.recip();
            Self::new(a.ln(), q_norm.q * arg_angle * imag_norm)"""))
E("euler", "C18 C19 C20 C14 C32",
  ("transformations.rs", """    if nearly_equal(pitch, -one * T::FRAC_PI_2(), T::epsilon()) {
        let yay = T::atan2(-r[(1, 2)], -r[(0, 2)]);
        let roll = T::zero();
        (yay, pitch, roll)
    // singularity
    } else if nearly_equal(pitch, T::FRAC_PI_2(), T::epsilon()) {
        let yay = T::atan2(r[(1, 2)], r[(0, 2)]);
        let roll = T::zero();
        (yay, pitch, roll)
    // normal case
    } else {
        let yay = T::atan2(r[(1, 0)], r[(0, 0)]);
        let roll = T::atan2(r[(2, 1)], r[(2, 2)]);
        (yay, pitch, roll)
    }""", """    let close_to = |angle: T| nearly_equal(pitch, angle, T::epsilon());
    let (yay, roll) = if close_to(T::FRAC_PI_2()) {
        (r[(1, 2)].atan2(r[(0, 2)]), T::zero())
    } else if close_to(-T::FRAC_PI_2()) {
        ((-one * r[(1, 2)]).atan2(-r[(0, 2)]), T::zero())
    } else {
        (r[(1, 0)].atan2(r[(0, 0)]), r[(2, 1)].atan2(r[(2, 2)]))
    };
    (yay, pitch, roll)"""),
  ("transformations.rs", """        None => rotz(yay) * roty(pitch) * rotx(roll),""", """        None => rotz(yay) * (roty(pitch) * rotx(roll)),"""),
  ("transformations.rs", """    let rot_new = rot.transpose();
    let p_new = -rot_new * p;
    homogeneous_from_rotation(&rot_new, &p_new)""", """    let inverse_rotation = rotation_inverse(&rot);
    let mut inverse_translation = inverse_rotation * p;
    for i in 0..3 {
        inverse_translation[i] = -inverse_translation[i];
    }
    homogeneous_from_rotation(&inverse_rotation, &inverse_translation)"""),
  ("transformations.rs", """    let (_, translation) = get_parts(r);
    let p_trans = *p - translation;
    let p_new = V4::new_from(p_trans[0], p_trans[1], p_trans[2], T::zero());
    let result = homogeneous_inverse(r) * p_new;
    V3::new_from(result[0], result[1], result[2])""", """    let (rotation, translation) = get_parts_raw(r);
    rotation.transpose() * (*p - translation)"""))
E("log_exp", "C21 C22 C23 C32",
  ("transformations.rs", """        let theta = axis_angle(&omega_theta).1;
        let omega = *so3 / theta;
        let (s, c) = theta.sin_cos();
        M33::identity() + omega * s + omega * omega * (one - c)""", """        let theta = omega_theta.norm2();
        let (s, c) = theta.sin_cos();
        let first = *so3 * (s / theta);
        let second = *so3 * *so3 * ((one - c) / (theta * theta));
        first + second + M33::identity()"""),
  ("transformations.rs", """        let theta = T::acos(angle);
        // TODO(elsuizo:2021-05-10): esto esta bien???
        (*r - r.transpose()) * (theta / two / T::sin(theta))""", """        let theta = angle.acos();
        let k = theta / (two * theta.sin());
        let v = V3::new_from(r[(2, 1)] - r[(1, 2)], r[(0, 2)] - r[(2, 0)], r[(1, 0)] - r[(0, 1)]);
        skew_from_vec(&(v * k))"""),
  ("transformations.rs", """            let omega = V3::new_from(r[(0, 2)], r[(1, 2)], one + r[(2, 2)])
                * (one / T::sqrt(two * (one + r[(2, 2)])));
            skew_from_vec(&(omega * T::PI()))""", """            let d = one + r[(2, 2)];
            let scale = T::PI() / (two * d).sqrt();
            skew_from_vec(&(V3::new_from(r[(0, 2)], r[(1, 2)], d) * scale))"""),
  ("transformations.rs", """        let cot = one / T::tan(theta / two);
        let v =
            (M33::identity() - omega / two + omega * omega * (one / theta - cot / two) / theta) * p;""", """        let (sin, cos) = (theta / two).sin_cos();
        let beta = (one / theta - cos / (two * sin)) / theta;
        let omega_p = omega * p;
        let v = p - omega_p / two + (omega * omega_p) * beta;"""))
E("adjoint", "C23 C30 C19",
  ("transformations.rs", """    result.copy_elements_from(&r, 1);
    result.copy_elements_from(&r, 4);
    result.copy_elements_from(&transform_p, 3);""", """    for i in 0..3 {
        for j in 0..3 {
            result[(i, j)] = r[(i, j)];
            result[(i + 3, j + 3)] = r[(i, j)];
            result[(i + 3, j)] = transform_p[(i, j)];
        }
    }"""),
  ("transformations.rs", """    if m.det() > T::zero() {
        (*m * m.transpose() - M33::identity()).norm2()
    } else {
        T::infinity()
    }""", """    if m.det() <= T::zero() {
        return T::infinity();
    }
    let gram = *m * m.transpose();
    let mut sum = T::zero();
    for i in 0..3 {
        for j in 0..3 {
            let e = if i == j { gram[(i, j)] - T::one() } else { gram[(i, j)] };
            sum = sum + e * e;
        }
    }
    sum.sqrt()"""))
E("dq", "C24 C25 C26 C27 C32",
  ("dual_quaternion.rs", """        let q_real = self.q_real * rhs.q_real;
        let q_dual = self.q_real * rhs.q_dual + self.q_dual * rhs.q_real;
        Self::new(q_real, q_dual)""", """        Self::new(
            self.q_real * rhs.q_real,
            self.q_dual * rhs.q_real + self.q_real * rhs.q_dual,
        )"""),
  ("dual_quaternion.rs", """            let q_real_inv = self
                .q_real
                .inverse()
                .expect("the zero Quaternion cannot be inverted");
            Self::new(q_real_inv, -q_real_inv * self.q_dual * q_real_inv)""", """            match self.q_real.inverse() {
                Some(real_inv) => {
                    let dual_inv = real_inv * (self.q_dual * real_inv);
                    Self::new(real_inv, -dual_inv)
                }
                None => panic!("the zero Quaternion cannot be inverted"),
            }"""),
  ("dual_quaternion.rs", """        let one = T::one();
        let two = one + one;
        ((self.dual() * two) * self.real().conj()).imag()""", """        let (_, t) = self.to_quaternion_translation();
        t"""),
  ("dual_quaternion.rs", """            let s0 = self.real().imag() / s;
            let d = self.dual().real() * -two / s;
            let se = (self.dual().imag() - s0 * (d / two) * c) / s;
""", """            let inv = s.recip();
            let s0 = self.real().imag() * inv;
            let half_d = -self.dual().real() * inv;
            let d = two * half_d;
            let se = (self.dual().imag() - s0 * half_d * c) * inv;
"""),
  ("dual_quaternion.rs", """        if start.real().dot(end.real()) < T::zero() {
            start = -start;
        }
        start * (start.inverse() * *end).pow(tau)""", """        let cos = end.real().dot(start.real());
        if cos < T::zero() {
            start = start * -T::one();
        }
        let relative = start.inverse() * *end;
        start * relative.pow(tau)"""),
  ("dual_quaternion.rs", """            let l = self.real().imag() / T::sin(theta / two);
            let d = t * l;
            let cot = one / T::tan(theta / two);
            let m = (t.cross(l) + (t - l * d) * cot) * half;""", """            let (sin, cos) = (theta / two).sin_cos();
            let l = self.real().imag() / sin;
            let d = t * l;
            let m = (t.cross(l) + (t - l * d) * (cos / sin)) * half;"""),
  ("dual_quaternion.rs", """                let q_dual = self.q_dual / norm_q_real;
                result.q_dual = q_dual - result.q_real * result.q_real.dot(q_dual);""", """                let q_dual = self.q_dual / norm_q_real;
                let along = q_dual.dot(result.q_real);
                result.q_dual = q_dual - result.q_real * along;"""))
E("left_scale", "C29",
  ("vector3.rs", "impl Mul<V3<f64>> for f64 {\n    type Output = V3<f64>;\n", "impl Mul<V3<f64>> for f64 {\n    type Output = V3<f64>;\n    // scaling is commutative\n"),
  ("vector4.rs", "impl Mul<V4<f32>> for f32 {\n    type Output = V4<f32>;\n", "impl Mul<V4<f32>> for f32 {\n    type Output = V4<f32>;\n    // scaling\n"))
E("norms", "C09 C10 C13",
  ("vector4.rs", "        T::sqrt(self[0] * self[0] + self[1] * self[1] + self[2] * self[2] + self[3] * self[3])", "        (*self * *self).sqrt()"),
  ("vector4.rs", """        if n != T::zero() {
            // this method return a new fresh and clean vector :)
            let mut result = Self::zeros();
            for i in 0..self.len() {
                result[i] = self[i] / n;
            }
            Ok(result)
        } else {
            Err(VectorErrors::Norm2IsZero)
        }""", """        if n.is_zero() {
            return Err(VectorErrors::Norm2IsZero);
        }
        let scale = n.recip();
        Ok(*self * scale)"""))

E("display", "C31",
  ("matrix4x4.rs", """        writeln!(dest)?;
        writeln!(
            dest,
            "|{0:<7.2} {1:^7.2} {2:^7.2} {3:>7.2}|",
            self[(0, 0)],
            self[(0, 1)],
            self[(0, 2)],
            self[(0, 3)]
        )?;
        writeln!(
            dest,
            "|{0:<7.2} {1:^7.2} {2:^7.2} {3:>7.2}|",
            self[(1, 0)],
            self[(1, 1)],
            self[(1, 2)],
            self[(1, 3)]
        )?;
        writeln!(
            dest,
            "|{0:<7.2} {1:^7.2} {2:^7.2} {3:>7.2}|",
            self[(2, 0)],
            self[(2, 1)],
            self[(2, 2)],
            self[(2, 3)]
        )?;
        writeln!(
            dest,
            "|{0:<7.2} {1:^7.2} {2:^7.2} {3:>7.2}|",
            self[(3, 0)],
            self[(3, 1)],
            self[(3, 2)],
            self[(3, 3)]
        )""", """        dest.write_str("\\n")?;
        for row in self.0.iter() {
            write!(dest, "|{0:<7.2}", row[0])?;
            for element in &row[1..3] {
                write!(dest, " {0:^7.2}", element)?;
            }
            writeln!(dest, " {0:>7.2}|", row[3])?;
        }
        Ok(())"""))
E("from_rotation", "C14 C25 C32",
  ("quaternion.rs", """        let m = rot.transpose();
        let zero = T::zero();""", """        let m = *rot;
        let zero = T::zero();"""),
  ("quaternion.rs", "let q = Self::new_from(m[(1, 2)] - m[(2, 1)], t, m[(0, 1)] + m[(1, 0)],  m[(2, 0)] + m[(0, 2)]);\n                q * half / t.sqrt()", "let q = Self::new_from(m[(2, 1)] - m[(1, 2)], t, m[(0, 1)] + m[(1, 0)],  m[(2, 0)] + m[(0, 2)]);\n                q * (half / t.sqrt())"),
  ("quaternion.rs", "Self::new_from(m[(2, 0)] - m[(0, 2)],  m[(0, 1)]", "Self::new_from(m[(0, 2)] - m[(2, 0)],  m[(0, 1)]"),
  ("quaternion.rs", "Self::new_from(m[(0, 1)]-m[(1, 0)],  m[(2, 0)]", "Self::new_from(m[(1, 0)] - m[(0, 1)],  m[(2, 0)]"),
  ("quaternion.rs", "Self::new_from(t,  m[(1, 2)]-m[(2, 1)], m[(2, 0)] - m[(0, 2)], m[(0, 1)] - m[(1, 0)])", "Self::new_from(t,  m[(2, 1)]-m[(1, 2)], m[(0, 2)] - m[(2, 0)], m[(1, 0)] - m[(0, 1)])"),
  ("quaternion.rs", "            let t = one + m[(0, 0)] + m[(1, 1)] + m[(2, 2)];", "            let t = one + rot.trace();"))
E("left_delegates", "C29 C01 C09",
  ("vector3.rs", "        V3::new_from(rhs[0] * self, rhs[1] * self, rhs[2] * self)\n    }\n}\n\n// f64 * V3<64>", "        rhs * self\n    }\n}\n\n// f64 * V3<64>"),
  ("vector5.rs", "        V5::new_from(self * rhs[0], self * rhs[1], self * rhs[2], self * rhs[3], self * rhs[4])", "        let mut result = V5::zeros();\n        for (out, x) in result.iter_mut().zip(rhs.iter()) {\n            *out = self * *x;\n        }\n        result"))
E("vec_mat", "C02 C01",
  ("vector5.rs", """            rhs[(0, 4)] * self[0] + rhs[(1, 4)] * self[1] + rhs[(2, 4)] * self[2] + rhs[(3, 4)] * self[3] + rhs[(4, 4)] * self[4],
""", """            (0..5).fold(T::zero(), |sum, k| sum + self[k] * rhs[(k, 4)]),
"""),
  ("matrix5x5.rs", "        *self = *self - other\n", "        for i in 0..5 {\n            for j in 0..5 {\n                self[(i, j)] = self[(i, j)] - other[(i, j)];\n            }\n        }\n"),
  ("matrix6x6.rs", "        *self == M66::zero()", "        self.iter().flatten().all(|x| x.is_zero())"))
E("screw", "C27 C26 C24 C32",
  ("dual_quaternion.rs", """        let theta = self.real().get_angle();
        let (s, c) = (theta / two).sin_cos();
        if nearly_zero(theta) {
            Self::new_from_translation(&(self.get_translation() * exponent))
        } else {""", """        let theta = self.real().get_angle();
        let half_angle = theta / two;
        let (s, c) = (half_angle.sin(), half_angle.cos());
        if nearly_zero(theta) {
            let t = self.get_translation();
            Self::new(Quaternion::one(), Quaternion::new_imag(&(t * (exponent / two))))
        } else {"""),
  ("dual_quaternion.rs", """            let (s_exp, c_exp) = (exponent * theta / two).sin_cos();""", """            let (s_exp, c_exp) = (half_angle * exponent).sin_cos();"""),
  ("dual_quaternion.rs", """        let (sin, cos) = (theta / two).sin_cos();
        let q_real = Quaternion::new(cos, *l * sin);
        let q_dual = Quaternion::new(sin * (-d / two), *m * sin + *l * (d / two) * cos);
        Self::new(q_real, q_dual)""", """        let half_d = d / two;
        let (sin, cos) = (theta / two).sin_cos();
        Self::new(
            Quaternion::new(cos, *l * sin),
            Quaternion::new(-(sin * half_d), *m * sin + *l * (cos * half_d)),
        )"""),
  ("dual_quaternion.rs", """        let dq_point = Self::new_from_point(point);
        (*self * dq_point * self.conj()).dual().imag()""", """        let dq_point = Self::new_from_point(point);
        let moved = *self * (dq_point * self.conj());
        moved.dual().imag()"""))
E("predicates", "C30 C28",
  ("utils.rs", """    let r2 = r * r;
    let tol = T::from(1e-6).unwrap();
    nearly_equal(r.det(), T::one(), T::epsilon())
        && nearly_equal(r2.det(), T::one(), T::epsilon())
        && distance_to_manifold(&r) < tol""", """    let tol = T::from(1e-6).unwrap();
    if distance_to_manifold(&r) >= tol {
        return false;
    }
    let unit = |x: T| nearly_equal(x, T::one(), T::epsilon());
    unit(r.det()) && unit((r * r).det())"""),
  ("utils.rs", "    Float::abs(num1 - num2) < tol", "    let diff = num1 - num2;\n    diff < tol && -diff < tol"))
E("rodrigues", "C21 C22 C15",
  ("transformations.rs", """    let skew = skew_from_vec(omega);
    let (sin, cos) = theta.sin_cos();
    M33::identity() + skew * sin + skew * skew * (T::one() - cos)""", """    let skew = skew_from_vec(omega);
    let (sin, cos) = theta.sin_cos();
    M33::identity() + skew * (M33::identity() * sin + skew * (T::one() - cos))"""),
  ("transformations.rs", """        let v_t =
            (M33::identity() * theta + omega * (one - c) + omega * omega * (theta - s)) * v / theta;
""", """        let first = omega * v;
        let second = omega * first;
        let v_t = v + first * ((one - c) / theta) + second * (one - s / theta);
"""),
  ("transformations.rs", """        let theta = axis_angle(&omega_theta).1;
        let omega = skew_omega / theta;
        let mat_exp""", """        let (axis, theta) = axis_angle(&omega_theta);
        let omega = skew_from_vec(&axis);
        let mat_exp"""))

def sh(c, cwd):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu"))
def main():
    want = sys.argv[1:]
    for name, props, edits in R:
        if want and name not in want: continue
        sh("git checkout -q -f .", W + "/repo")
        bad = ""
        for f, old, new in edits:
            p = W + "/repo/src/" + f
            t = open(p).read()
            if t.count(old) != 1: bad += "%s: old text found %d times: %.60s; " % (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new, 1))
        r = sh("cargo test --offline 2>&1 | grep -E '^error|FAILED|panicked' -A6 | head -20", W + "/repo")
        if r.stdout: bad += r.stdout
        print("==", name, bad or "applied, tests pass", flush=True)
        for p in props:
            t = time.time()
            r = sh("./check %s quick" % p, W + "/verif")
            lines = [l[:230] for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "undecided", "vacuous"))]
            print("  ", p, "rc=%d" % r.returncode, "%.1fs" % (time.time() - t), " | ".join(lines[-3:]) if r.returncode or lines else "", r.stderr[-300:] if r.returncode == 2 else "", flush=True)
    sh("git checkout -q -f .", W + "/repo")
main()
