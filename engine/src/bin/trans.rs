//! C18..C23, C30: rotations, homogeneous transforms, so(3)/se(3), predicates.
use static_math::matrix2x2::M22;
use static_math::matrix3x3::M33;
use static_math::matrix4x4::M44;
use static_math::matrix6x6::M66;
use static_math::quaternion::Quaternion;
use static_math::transformations as t;
use static_math::transformations::EulerSeq;
use static_math::utils::{is_rotation, is_rotation_h};
use static_math::{V3, V4, V6};
use vc::base::*;
use vcore::contracts;

fn m2<S: Sc>(m: M22<S>) -> A<S, 2> {
    [[m[(0, 0)], m[(0, 1)]], [m[(1, 0)], m[(1, 1)]]]
}
fn m6<S: Sc>(m: M66<S>) -> A<S, 6> {
    let mut r = [[S::zero(); 6]; 6];
    for i in 0..6 {
        for j in 0..6 {
            r[i][j] = m[(i, j)];
        }
    }
    r
}
fn v6<S: Sc>(v: V6<S>) -> [S; 6] {
    std::array::from_fn(|i| v[i])
}
fn vadd<S: Sc>(a: &[S; 3], b: &[S; 3]) -> [S; 3] {
    std::array::from_fn(|i| a[i] + b[i])
}
fn vscale<S: Sc>(a: &[S; 3], k: S) -> [S; 3] {
    a.map(|x| x * k)
}
fn mscale<S: Sc>(a: &A<S, 3>, k: S) -> A<S, 3> {
    map2(a, a, |x, _| x * k)
}
fn madd<S: Sc, const N: usize>(a: &A<S, N>, b: &A<S, N>) -> A<S, N> {
    map2(a, b, |x, y| x + y)
}
/// every rotation matrix: the matrix of a unit quaternion
fn any_rot<S: Sc>(cx: &mut Cx, name: &str) -> A<S, 3> {
    let u = cx.unit::<S, 4>(name);
    q_mat(&u)
}

// ---------------------------------------------------------------- C18
fn elementary<S: Sc>(cx: &mut Cx) {
    let a = cx.any_angle::<S>("a", 1);
    let (s, c) = a.sin_cos();
    cx.eqm("rot2", m2(t::rot2(a)), [[c, -s], [s, c]]);
    cx.eqm("rotx", m3(t::rotx(a)), rot_x(s, c));
    cx.eqm("roty", m3(t::roty(a)), rot_y(s, c));
    cx.eqm("rotz", m3(t::rotz(a)), rot_z(s, c));
    let (z, o) = (S::zero(), S::one());
    for (k, m) in [t::rotx(a), t::roty(a), t::rotz(a)].into_iter().enumerate() {
        let m = m3(m);
        let u: [S; 3] = std::array::from_fn(|i| if i == k { o } else { z });
        cx.eqm("right-handed rotation about the axis", m, rodrigues(&u, s, c));
        cx.eqm("orthogonal", mm(&tr(&m), &m), id());
        cx.eq("determinant", leibniz(&m), o);
    }
}
fn sequences<S: Sc>(cx: &mut Cx) {
    let (a, b, c) = (cx.any_angle::<S>("a", 1), cx.any_angle::<S>("b", 1), cx.any_angle::<S>("c", 1));
    let m = |k: char, a: S| -> A<S, 3> {
        let (s, c) = a.sin_cos();
        match k {
            'X' => rot_x(s, c),
            'Y' => rot_y(s, c),
            _ => rot_z(s, c),
        }
    };
    let all: [(&str, Option<EulerSeq>); 11] = [
        ("XYX", Some(EulerSeq::XYX)),
        ("XYZ", Some(EulerSeq::XYZ)),
        ("XZX", Some(EulerSeq::XZX)),
        ("XZY", Some(EulerSeq::XZY)),
        ("YXY", Some(EulerSeq::YXY)),
        ("YXZ", Some(EulerSeq::YXZ)),
        ("YZX", Some(EulerSeq::YZX)),
        ("YZY", Some(EulerSeq::YZY)),
        ("ZXY", Some(EulerSeq::ZXY)),
        ("ZXZ", Some(EulerSeq::ZXZ)),
        ("ZYX", None),
    ];
    for (n, q) in all {
        let k: Vec<char> = n.chars().collect();
        let e = mm(&mm(&m(k[0], a), &m(k[1], b)), &m(k[2], c));
        cx.eqm(n, m3(t::euler_to_rotation(a, b, c, q)), e);
    }
}
fn zyx<S: Sc>(y: S, p: S, r: S) -> A<S, 3> {
    let (y, p, r) = (y.sin_cos(), p.sin_cos(), r.sin_cos());
    mm(&mm(&rot_z(y.0, y.1), &rot_y(p.0, p.1)), &rot_x(r.0, r.1))
}
fn off_lock<S: Sc>(cx: &mut Cx, m: &A<S, 3>) {
    // implied by the distance from the lock
    cx.assume::<S>(m[0][0] * m[0][0] + m[1][0] * m[1][0] > S::zero());
    let pitch = (-m[2][0]).atan2((m[0][0] * m[0][0] + m[1][0] * m[1][0]).sqrt());
    let lock: S = S::FRAC_PI_2();
    for l in [-lock, lock] {
        cx.assume::<S>(pitch != l);
        cx.assume::<S>((pitch - l).abs() / (pitch.abs() + lock) >= eps());
    }
}
fn extract<S: Sc>(cx: &mut Cx) {
    let m = any_rot::<S>(cx, "u");
    off_lock(cx, &m);
    let (y, p, r) = t::rotation_to_euler(&M33::new(m));
    cx.eqm("Rz(yaw) Ry(pitch) Rx(roll)", zyx(y, p, r), m);
}
fn read_back<S: Sc>(cx: &mut Cx) {
    let y = cx.angle::<S>("y", (-1, 1), (1, 1), 1);
    let p = cx.angle::<S>("p", (-1, 2), (1, 2), 1);
    let r = cx.angle::<S>("r", (-1, 1), (1, 1), 1);
    let lock: S = S::FRAC_PI_2();
    cx.assume::<S>((lock - p) / (p.abs() + lock) >= eps());
    cx.assume::<S>((lock + p) / (p.abs() + lock) >= eps());
    let (y2, p2, r2) = t::rotation_to_euler(&M33::new(zyx(y, p, r)));
    cx.eqs("angles read back", &[y2, p2, r2], &[y, p, r]);
    let (y3, p3, r3) = t::rotation_to_euler(&t::euler_to_rotation(y, p, r, None));
    cx.eqs("angles read back, by the code", &[y3, p3, r3], &[y, p, r]);
}
fn gimbal<S: Sc>(cx: &mut Cx) {
    let y = cx.any_angle::<S>("y", 1);
    let r = cx.any_angle::<S>("r", 1);
    let (y, r) = (y.sin_cos(), r.sin_cos());
    for s in [S::one(), -S::one()] {
        let m = mm(&mm(&rot_z(y.0, y.1), &rot_y(s, S::zero())), &rot_x(r.0, r.1));
        let (y2, p2, r2) = t::rotation_to_euler(&M33::new(m));
        cx.eq("pitch", p2, s * S::FRAC_PI_2());
        cx.eqm("gimbal lock: Rz(yaw) Ry(pitch) Rx(roll)", zyx(y2, p2, r2), m);
    }
}

// ---------------------------------------------------------------- C19
fn assembly<S: Sc>(cx: &mut Cx) {
    let r = cx.mat::<S, 3>("r");
    let p = cx.arr::<S, 3>("p");
    let h = t::homogeneous_from_rotation(&M33::new(r), &V3::new(p));
    cx.eqm("homogeneous_from_rotation", m4(h), homog(&r, &p));
    let (r2, p2) = t::get_parts_raw(&h);
    cx.eqm("get_parts_raw: rotation", m3(r2), r);
    cx.eqs("get_parts_raw: translation", &v3(p2), &p);
    let x = cx.mat::<S, 4>("x");
    let (r3, p3) = t::get_parts_raw(&M44::new(x));
    for i in 0..3 {
        for j in 0..3 {
            cx.eq("get_parts_raw of any matrix", r3[(i, j)], x[i][j]);
        }
        cx.eq("get_parts_raw of any matrix: translation", p3[i], x[i][3]);
    }
}
fn assembly_q<S: Sc>(cx: &mut Cx) {
    let u = cx.unit::<S, 4>("u");
    let p = cx.arr::<S, 3>("p");
    let h = t::homogeneous_from_quaternion(&q_new(&u), &V3::new(p));
    cx.eqm("homogeneous_from_quaternion", m4(h), homog(&q_mat(&u), &p));
}
fn parts<S: Sc>(cx: &mut Cx) {
    // every rotation matrix off the gimbal lock has such Euler angles
    let y = cx.angle::<S>("y", (-3, 2), (3, 2), 2);
    let a = cx.angle::<S>("a", (-1, 2), (1, 2), 2);
    let r = cx.angle::<S>("r", (-3, 2), (3, 2), 2);
    let lock: S = S::FRAC_PI_2();
    cx.assume::<S>((lock - a) / (a.abs() + lock) >= eps());
    cx.assume::<S>((lock + a) / (a.abs() + lock) >= eps());
    let m = zyx(y, a, r);
    let p = cx.arr::<S, 3>("p");
    let (q, p2) = t::get_parts(&M44::new(homog(&m, &p)));
    cx.eqs("translation", &v3(p2), &p);
    let a = q_arr(q);
    cx.eqm("rotation", q_mat(&a), m);
    cx.eq("norm one", dotp(&a, &a), S::one());
}
fn parts_lock<S: Sc>(cx: &mut Cx) {
    // every rotation at the gimbal lock is Rz(y) Ry(+-pi/2)
    let y = cx.angle::<S>("y", (-3, 2), (3, 2), 2);
    let p = cx.arr::<S, 3>("p");
    let (s, c) = y.sin_cos();
    for k in [S::one(), -S::one()] {
        let m = mm(&rot_z(s, c), &rot_y(k, S::zero()));
        let (q, p2) = t::get_parts(&M44::new(homog(&m, &p)));
        cx.eqs("translation", &v3(p2), &p);
        let a = q_arr(q);
        cx.eqm("rotation", q_mat(&a), m);
        cx.eq("norm one", dotp(&a, &a), S::one());
    }
}
fn compose<S: Sc>(cx: &mut Cx) {
    let (a, b) = (any_rot::<S>(cx, "a"), any_rot::<S>(cx, "b"));
    let (p, q) = (cx.arr::<S, 3>("p"), cx.arr::<S, 3>("q"));
    let x = cx.arr::<S, 3>("x");
    let (g, h) = (
        t::homogeneous_from_rotation(&M33::new(a), &V3::new(p)),
        t::homogeneous_from_rotation(&M33::new(b), &V3::new(q)),
    );
    let e = homog(&mm(&a, &b), &vadd(&mv(&a, &q), &p));
    cx.eqm("composition", m4(g * h), e);
    let y = g * V4::new([x[0], x[1], x[2], S::one()]);
    let e = vadd(&mv(&a, &x), &p);
    cx.eqs("maps points", &[y[0], y[1], y[2], y[3]], &[e[0], e[1], e[2], S::one()]);
}
fn inverse<S: Sc>(cx: &mut Cx) {
    let r = any_rot::<S>(cx, "u");
    let p = cx.arr::<S, 3>("p");
    let h = homog(&r, &p);
    let i = m4(t::homogeneous_inverse(&M44::new(h)));
    cx.eqm("T^-1 T = I", mm(&i, &h), id());
    cx.eqm("T T^-1 = I", mm(&h, &i), id());
    cx.eqm("rotation_inverse", m3(t::rotation_inverse(&M33::new(r))), tr(&r));
}
fn inverse_transform<S: Sc>(cx: &mut Cx) {
    let r = any_rot::<S>(cx, "u");
    let p = cx.arr::<S, 3>("p");
    let x = cx.arr::<S, 3>("x");
    // implied by the orthogonality when it is not the gimbal lock, where atan2 has both arguments zero
    cx.assume::<S>(r[0][0] * r[0][0] + r[1][0] * r[1][0] > S::zero());
    let y = vadd(&mv(&r, &x), &p);
    let z = t::homogeneous_inverse_transform(&M44::new(homog(&r, &p)), &V3::new(y));
    cx.eqs("undoes the transform", &v3(z), &x);
}
fn inverse_transform_lock<S: Sc>(cx: &mut Cx) {
    let y = cx.any_angle::<S>("y", 1);
    let p = cx.arr::<S, 3>("p");
    let x = cx.arr::<S, 3>("x");
    let (s, c) = y.sin_cos();
    for k in [S::one(), -S::one()] {
        let r = mm(&rot_z(s, c), &rot_y(k, S::zero()));
        let w = vadd(&mv(&r, &x), &p);
        let z = t::homogeneous_inverse_transform(&M44::new(homog(&r, &p)), &V3::new(w));
        cx.eqs("undoes the transform, gimbal lock", &v3(z), &x);
    }
}
fn builders<S: Sc>(cx: &mut Cx) {
    let a = cx.any_angle::<S>("a", 1);
    let p = cx.arr::<S, 3>("p");
    let (s, c) = a.sin_cos();
    let (z, o) = (S::zero(), S::one());
    cx.eqm("translation_3d", m4(t::translation_3d(p[0], p[1], p[2])), homog(&id(), &p));
    let t2 = m3(t::translation_2d(p[0], p[1]));
    cx.eqm("translation_2d", t2, [[o, z, p[0]], [z, o, p[1]], [z, z, o]]);
    let k = m3(t::ksi(a, p[0], p[1]));
    cx.eqm("ksi", k, [[c, -s, p[0]], [s, c, p[1]], [z, z, o]]);
    cx.eqm("ksi rotates, then translates", k, mm(&t2, &rot_z(s, c)));
}

// ---------------------------------------------------------------- C20
fn skew_v<S: Sc>(cx: &mut Cx) {
    let (v, w) = (cx.arr::<S, 3>("v"), cx.arr::<S, 3>("w"));
    let k = m3(t::skew_from_vec(&V3::new(v)));
    cx.eqm("skew matrix", k, skew(&v));
    cx.eqm("antisymmetric", tr(&k), mscale(&k, -S::one()));
    cx.eqs("multiplying is the cross product", &mv(&k, &w), &cross(&v, &w));
    cx.eqs("by the code", &v3(t::skew_from_vec(&V3::new(v)) * V3::new(w)), &v3(V3::new(v).cross(V3::new(w))));
    cx.eqs("skew_to_vec", &v3(t::skew_to_vec(&M33::new(k))), &v);
}
fn skew_plane<S: Sc>(cx: &mut Cx) {
    let a = cx.var::<S>("a");
    let z = S::zero();
    let k = t::skew_scalar(a);
    cx.eqm("skew_scalar", m2(k), [[z, -a], [a, z]]);
    cx.eq("vex_m22", t::vex_m22(&k), a);
    let v = cx.arr::<S, 3>("v");
    cx.eqm("skew_from_vec_aug", m3(t::skew_from_vec_aug(V3::new(v))), [[z, -v[2], v[0]], [v[2], z, v[1]], [z, z, z]]);
    let w = cx.arr::<S, 6>("w");
    let k = skew(&[w[3], w[4], w[5]]);
    let mut e = [[z; 4]; 4];
    for i in 0..3 {
        for j in 0..3 {
            e[i][j] = k[i][j];
        }
        e[i][3] = w[i];
    }
    cx.eqm("skew_v6", m4(t::skew_v6(V6::new(w))), e);
}
fn se3_of<S: Sc>(w: &[S; 3], v: &[S; 3]) -> A<S, 4> {
    let mut e = homog(&skew(w), v);
    e[3][3] = S::zero();
    e
}
fn twists<S: Sc>(cx: &mut Cx) {
    let w = cx.arr::<S, 6>("w");
    let e = se3_of(&[w[0], w[1], w[2]], &[w[3], w[4], w[5]]);
    let m = t::twist_to_se3(&V6::new(w));
    cx.eqm("twist_to_se3", m4(m), e);
    cx.eqs("se3_to_twist", &v6(t::se3_to_twist(&m)), &w);
    let (k, v) = t::se3_get_parts(&m);
    cx.eqm("se3_get_parts: skew part", m3(k), skew(&[w[0], w[1], w[2]]));
    cx.eqs("se3_get_parts: vector", &v3(v), &w[3..]);
    cx.eqm("se3_from_parts", m4(t::se3_from_parts(&k, &v)), e);
    let (r, p) = (cx.mat::<S, 3>("r"), cx.arr::<S, 3>("p"));
    let mut e = homog(&r, &p);
    e[3][3] = S::zero();
    let m = t::se3_from_parts(&M33::new(r), &V3::new(p));
    cx.eqm("se3_from_parts of any matrix", m4(m), e);
    let (r2, p2) = t::se3_get_parts(&m);
    cx.eqm("parts split unchanged", m3(r2), r);
    cx.eqs("vector splits unchanged", &v3(p2), &p);
}

// ---------------------------------------------------------------- C21
fn exp_so3<S: Sc>(cx: &mut Cx) {
    let th = cx.any_angle::<S>("th", 1);
    let u = cx.unit::<S, 3>("u");
    let (s, c) = th.sin_cos();
    let m = m3(t::rotation_from_axis_angle(&V3::new(u), th));
    cx.eqm("rotation_from_axis_angle", m, rodrigues(&u, s, c));
    cx.eqm("orthogonal", mm(&tr(&m), &m), id());
    cx.eq("determinant", leibniz(&m), S::one());
    cx.assume::<S>(th >= eps());
    let m = m3(t::matrix_exponential(&M33::new(skew(&vscale(&u, th)))));
    cx.eqm("matrix_exponential", m, rodrigues(&u, s, c));
}
fn exp_so3_zero<S: Sc>(cx: &mut Cx) {
    let v = cx.arr::<S, 3>("v");
    cx.assume::<S>(dotp(&v, &v).sqrt() < eps());
    cx.eqm("numerically zero: identity", m3(t::matrix_exponential(&M33::new(skew(&v)))), id());
}
fn log_so3<S: Sc>(cx: &mut Cx) {
    let th = cx.angle::<S>("th", (0, 1), (1, 1), 1);
    let u = cx.unit::<S, 3>("u");
    let (s, c) = th.sin_cos();
    let r = rodrigues(&u, s, c);
    let l = t::matrix_log(&M33::new(r));
    cx.eqm("theta times the skew matrix", m3(l), skew(&vscale(&u, th)));
    cx.assume::<S>(th >= eps());
    cx.eqm("exp(log R) = R", m3(t::matrix_exponential(&l)), r);
}
fn log_exp_so3<S: Sc>(cx: &mut Cx) {
    let th = cx.angle::<S>("th", (0, 1), (1, 1), 1);
    let u = cx.unit::<S, 3>("u");
    cx.assume::<S>(th >= eps());
    let w = skew(&vscale(&u, th));
    cx.eqm("log(exp w) = w", m3(t::matrix_log(&t::matrix_exponential(&M33::new(w)))), w);
}
fn log_half<S: Sc>(cx: &mut Cx) {
    let u = cx.unit::<S, 3>("u");
    let mut r = id::<S, 3>();
    let two = S::one() + S::one();
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = two * u[i] * u[j] - r[i][j];
        }
    }
    let l = t::matrix_log(&M33::new(r));
    let m = m3(l);
    cx.eqm("skew", tr(&m), mscale(&m, -S::one()));
    let w = [m[2][1] / S::PI(), m[0][2] / S::PI(), m[1][0] / S::PI()];
    cx.eq("angle pi", dotp(&w, &w), S::one());
    for i in 0..3 {
        for j in i..3 {
            cx.eq("axis u or -u", w[i] * w[j], u[i] * u[j]);
        }
    }
    if !cx.on_boundary() {
        cx.eqm("exp(log R) = R", m3(t::matrix_exponential(&l)), r);
    }
}
fn log_identity<S: Sc>(cx: &mut Cx) {
    cx.eqm("log of the identity", m3(t::matrix_log(&M33::<S>::identity())), [[S::zero(); 3]; 3]);
}
fn split<S: Sc>(cx: &mut Cx) {
    let v = cx.arr::<S, 3>("v");
    let n2 = dotp(&v, &v);
    cx.panics::<S, _>("a zero vector is refused", || t::axis_angle(&V3::<S>::zeros()));
    cx.assume::<S>(n2 != S::zero());
    let (u, th) = t::axis_angle(&V3::new(v));
    let u = v3(u);
    cx.eq("angle", th, n2.sqrt());
    cx.eq("axis: norm one", dotp(&u, &u), S::one());
    cx.eqs("axis times angle", &vscale(&u, th), &v);
}

// ---------------------------------------------------------------- C22
/// V(theta u) v with the left Jacobian V of SO(3)
fn jac<S: Sc>(u: &[S; 3], th: S, v: &[S; 3]) -> [S; 3] {
    let (s, c) = th.sin_cos();
    let k = skew(u);
    let k2 = mm(&k, &k);
    let a = mscale(&k, (S::one() - c) / th);
    let b = mscale(&k2, (th - s) / th);
    mv(&madd(&madd(&id(), &a), &b), v)
}
fn exp_se3<S: Sc>(cx: &mut Cx) {
    let th = cx.any_angle::<S>("th", 1);
    let u = cx.unit::<S, 3>("u");
    let v = cx.arr::<S, 3>("v");
    cx.assume::<S>(th >= eps());
    let (s, c) = th.sin_cos();
    let m = m4(t::matrix_exponential6(&M44::new(se3_of(&vscale(&u, th), &v))));
    cx.eqm("(R, V v)", m, homog(&rodrigues(&u, s, c), &jac(&u, th, &v)));
}
fn exp_se3_shift<S: Sc>(cx: &mut Cx) {
    let w = cx.arr::<S, 3>("w");
    let v = cx.arr::<S, 3>("v");
    cx.assume::<S>(dotp(&w, &w).sqrt() < eps());
    let m = m4(t::matrix_exponential6(&M44::new(se3_of(&w, &v))));
    cx.eqm("no rotation: a translation", m, homog(&id(), &v));
}
fn log_se3<S: Sc>(cx: &mut Cx) {
    let th = cx.angle::<S>("th", (0, 1), (1, 1), 2);
    let u = cx.unit::<S, 3>("u");
    let p = cx.arr::<S, 3>("p");
    let (s, c) = th.sin_cos();
    let m = m4(t::matrix_log6(&M44::new(homog(&rodrigues(&u, s, c), &p))));
    let v = [m[0][3], m[1][3], m[2][3]];
    cx.eqm("a twist about theta u", m, se3_of(&vscale(&u, th), &v));
    cx.eqs("V v = p", &jac(&u, th, &v), &p);
}
fn log_half_se3<S: Sc>(cx: &mut Cx) {
    // half-turns about u, with any translation
    let u = cx.unit::<S, 3>("u");
    let p = cx.arr::<S, 3>("p");
    let two = S::one() + S::one();
    let r: A<S, 3> = std::array::from_fn(|i| std::array::from_fn(|j| two * u[i] * u[j] - id::<S, 3>()[i][j]));
    let h = homog(&r, &p);
    let l = t::matrix_log6(&M44::new(h));
    let m = m4(l);
    let w = [m[2][1], m[0][2], m[1][0]];
    let v = [m[0][3], m[1][3], m[2][3]];
    cx.eqm("a twist", m, se3_of(&w, &v));
    cx.eqm("its rotation is the logarithm of the rotation", skew(&w), m3(t::matrix_log(&M33::new(r))));
    let n = w.map(|x| x / S::PI());
    cx.eqs("V v = p", &jac(&n, S::PI(), &v), &p);
}
fn exp_log_se3<S: Sc>(cx: &mut Cx) {
    let th = cx.angle::<S>("th", (0, 1), (1, 1), 2);
    let u = cx.unit::<S, 3>("u");
    let p = cx.arr::<S, 3>("p");
    cx.assume::<S>(th >= eps());
    let (s, c) = th.sin_cos();
    let h = homog(&rodrigues(&u, s, c), &p);
    cx.eqm("exp(log T) = T", m4(t::matrix_exponential6(&t::matrix_log6(&M44::new(h)))), h);
}
fn log_exp_se3<S: Sc>(cx: &mut Cx) {
    let th = cx.angle::<S>("th", (0, 1), (1, 1), 2);
    let u = cx.unit::<S, 3>("u");
    let v = cx.arr::<S, 3>("v");
    cx.assume::<S>(th >= eps());
    let w = se3_of(&vscale(&u, th), &v);
    cx.eqm("log(exp V) = V", m4(t::matrix_log6(&t::matrix_exponential6(&M44::new(w)))), w);
}
fn log_se3_shift<S: Sc>(cx: &mut Cx) {
    let p = cx.arr::<S, 3>("p");
    let z = [S::zero(); 3];
    cx.eqm("log of a translation", m4(t::matrix_log6(&M44::new(homog(&id(), &p)))), se3_of(&z, &p));
}

// ---------------------------------------------------------------- C23
fn ad<S: Sc>(r: &A<S, 3>, p: &[S; 3]) -> A<S, 6> {
    let pr = mm(&skew(p), r);
    let mut a = [[S::zero(); 6]; 6];
    for i in 0..3 {
        for j in 0..3 {
            a[i][j] = r[i][j];
            a[i + 3][j + 3] = r[i][j];
            a[i + 3][j] = pr[i][j];
        }
    }
    a
}
fn adjoint<S: Sc>(cx: &mut Cx) {
    let r = cx.mat::<S, 3>("r");
    let p = cx.arr::<S, 3>("p");
    cx.eqm("[[R, 0], [[p]R, R]]", m6(t::adjoint(&M44::new(homog(&r, &p)))), ad(&r, &p));
}
fn adjoint_twist<S: Sc>(cx: &mut Cx) {
    let r = any_rot::<S>(cx, "u");
    let p = cx.arr::<S, 3>("p");
    let w = cx.arr::<S, 6>("w");
    let h = homog(&r, &p);
    let rt = tr(&r);
    let hi = homog(&rt, &vscale(&mv(&rt, &p), -S::one()));
    let tw = se3_of(&[w[0], w[1], w[2]], &[w[3], w[4], w[5]]);
    let e = mm(&mm(&h, &tw), &hi);
    let g = M44::new(h);
    cx.eqs("Ad V is the twist of T [V] T^-1", &v6(t::adjoint(&g) * V6::new(w)), &v6(t::se3_to_twist(&M44::new(e))));
    let e2 = g * t::twist_to_se3(&V6::new(w)) * t::homogeneous_inverse(&g);
    cx.eqm("the same by the code", m4(e2), e);
}
fn adjoint_laws<S: Sc>(cx: &mut Cx) {
    let (a, b) = (any_rot::<S>(cx, "a"), any_rot::<S>(cx, "b"));
    let (p, q) = (cx.arr::<S, 3>("p"), cx.arr::<S, 3>("q"));
    let (g, h) = (M44::new(homog(&a, &p)), M44::new(homog(&b, &q)));
    cx.eqm("Ad(T1 T2) = Ad(T1) Ad(T2)", m6(t::adjoint(&(g * h))), m6(t::adjoint(&g) * t::adjoint(&h)));
    cx.eqm("Ad(T^-1) Ad(T) = I", m6(t::adjoint(&t::homogeneous_inverse(&g)) * t::adjoint(&g)), id());
}
fn screw<S: Sc>(cx: &mut Cx) {
    let (q, s) = (cx.arr::<S, 3>("q"), cx.arr::<S, 3>("s"));
    let h = cx.var::<S>("h");
    let v = vadd(&cross(&q, &s), &vscale(&s, h));
    let e = [s[0], s[1], s[2], v[0], v[1], v[2]];
    cx.eqs("(s, q x s + h s)", &v6(t::screw_to_axis(&V3::new(q), &V3::new(s), h)), &e);
}
fn split6<S: Sc>(cx: &mut Cx) {
    let x = cx.arr::<S, 6>("x");
    let (w2, v2) = (dotp(&x[..3], &x[..3]), dotp(&x[3..], &x[3..]));
    // something moves
    cx.assume::<S>(w2.sqrt() >= eps() || v2 > S::zero());
    let (a, th) = t::axis_angle6(&V6::new(x));
    let a = v6(a);
    let back: [S; 6] = std::array::from_fn(|i| a[i] * th);
    cx.eqs("axis times distance", &back, &x);
    if w2.sqrt() >= eps() {
        cx.eq("angle", th, w2.sqrt());
        cx.eq("unit rotation axis", dotp(&a[..3], &a[..3]), S::one());
    } else {
        cx.eq("distance", th, v2.sqrt());
        cx.eq("unit direction", dotp(&a[3..], &a[3..]), S::one());
    }
}

// ---------------------------------------------------------------- C30
fn frob2<S: Sc>(m: &A<S, 3>) -> S {
    let d = map2(&mm(m, &tr(m)), &id(), |a, b| a - b);
    let mut s = S::zero();
    for i in 0..3 {
        for j in 0..3 {
            s = s + d[i][j] * d[i][j];
        }
    }
    s
}
fn distance<S: Sc>(cx: &mut Cx) {
    let m = cx.mat::<S, 3>("m");
    let det = leibniz(&m);
    let d = t::distance_to_manifold(&M33::new(m));
    if det > S::zero() {
        cx.eq("Frobenius norm", d, frob2(&m).sqrt());
    } else {
        cx.holds::<S>("infinite", d == S::infinity());
    }
}
fn accept<S: Sc>(cx: &mut Cx) {
    let r = any_rot::<S>(cx, "u");
    let p = cx.arr::<S, 3>("p");
    cx.holds::<S>("a rotation is accepted", is_rotation(M33::new(r)));
    cx.holds::<S>("a rigid motion is accepted", is_rotation_h(M44::new(homog(&r, &p))));
    cx.eq("distance zero", t::distance_to_manifold(&M33::new(r)), S::zero());
    let q = Quaternion::new_from(S::one(), S::zero(), S::zero(), S::zero());
    cx.holds::<S>("the identity is accepted", is_rotation(q.to_rotation()));
}
fn reject<S: Sc>(cx: &mut Cx) {
    let m = cx.mat::<S, 3>("m");
    if is_rotation(M33::new(m)) {
        cx.holds::<S>("positive determinant", leibniz(&m) > S::zero());
        cx.holds::<S>("orthogonal within the tolerance", frob2(&m).sqrt() <= r(1, 1000000));
    }
}
fn reject_mirror<S: Sc>(cx: &mut Cx) {
    let r = any_rot::<S>(cx, "u");
    let p = cx.arr::<S, 3>("p");
    let m = mscale(&r, -S::one());
    cx.holds::<S>("a reflection is rejected", !is_rotation(M33::new(m)));
    cx.holds::<S>("a homogeneous reflection is rejected", !is_rotation_h(M44::new(homog(&m, &p))));
    cx.eq("distance infinite", t::distance_to_manifold(&M33::new(m)), S::infinity());
}
fn reject_h<S: Sc>(cx: &mut Cx) {
    let m = cx.mat::<S, 3>("m");
    let p = cx.arr::<S, 3>("p");
    if is_rotation_h(M44::new(homog(&m, &p))) {
        cx.holds::<S>("positive determinant", leibniz(&m) > S::zero());
        cx.holds::<S>("orthogonal within the tolerance", frob2(&m).sqrt() <= r(1, 1000000));
    }
}

fn main() {
    let mut v = vec![];
    let v = &mut v;
    contracts!(v, "C18";
        elementary: "elementary rotations", "transformations::{rot2,rotx,roty,rotz}";
        sequences: "Euler sequences", "transformations::euler_to_rotation";
        extract: "Euler angles of a rotation matrix", "transformations::rotation_to_euler";
        read_back: "Euler angles read back", "transformations::{rotation_to_euler,euler_to_rotation}";
        gimbal: "Euler angles at the gimbal lock", "transformations::rotation_to_euler";
    );
    contracts!(v, "C19";
        assembly: "homogeneous matrix from rotation matrix and back", "transformations::{homogeneous_from_rotation,get_parts_raw}";
        assembly_q: "homogeneous matrix from quaternion", "transformations::homogeneous_from_quaternion, Quaternion::to_rotation";
        parts: "parts of a homogeneous matrix", "transformations::{get_parts,rotation_to_euler}, Quaternion::from_euler_angles";
        parts_lock: "parts of a homogeneous matrix, gimbal lock", "transformations::{get_parts,rotation_to_euler}, Quaternion::from_euler_angles";
        compose: "composition of homogeneous matrices", "transformations::homogeneous_from_rotation, M44::mul";
        inverse: "inverse of a homogeneous matrix", "transformations::{homogeneous_inverse,rotation_inverse,get_parts_raw}";
        inverse_transform: "inverse transform of a point", "transformations::{homogeneous_inverse_transform,get_parts}";
        inverse_transform_lock: "inverse transform of a point, gimbal lock", "transformations::{homogeneous_inverse_transform,get_parts}";
        builders: "translations and planar poses", "transformations::{translation_2d,translation_3d,ksi}";
    );
    contracts!(v, "C20";
        skew_v: "skew matrix", "transformations::{skew_from_vec,skew_to_vec}";
        skew_plane: "planar and augmented skew matrices", "transformations::{skew_scalar,vex_m22,skew_from_vec_aug,skew_v6}";
        twists: "twists and se(3)", "transformations::{twist_to_se3,se3_to_twist,se3_get_parts,se3_from_parts}";
    );
    contracts!(v, "C21";
        exp_so3: "exponential of so(3)", "transformations::{rotation_from_axis_angle,matrix_exponential,axis_angle}";
        exp_so3_zero: "exponential of a zero so(3) matrix", "transformations::matrix_exponential";
        log_so3: "logarithm of a rotation", "transformations::{matrix_log,matrix_exponential}";
        log_exp_so3: "log(exp w) = w in so(3)", "transformations::{matrix_log,matrix_exponential}";
        log_half: "logarithm of a half-turn", "transformations::{matrix_log,matrix_exponential}";
        log_identity: "logarithm of the identity", "transformations::matrix_log";
        split: "axis and angle of a rotation vector", "transformations::axis_angle";
    );
    contracts!(v, "C22";
        exp_se3: "exponential of se(3)", "transformations::{matrix_exponential6,matrix_exponential}";
        exp_se3_shift: "exponential of a translation twist", "transformations::matrix_exponential6";
        log_se3: "logarithm of a rigid motion", "transformations::{matrix_log6,matrix_log}";
        log_half_se3: "logarithm of a half-turn motion", "transformations::{matrix_log6,matrix_log}";
        exp_log_se3: "exp(log T) = T in SE(3)", "transformations::{matrix_log6,matrix_exponential6}";
        log_exp_se3: "log(exp V) = V in se(3)", "transformations::{matrix_log6,matrix_exponential6}";
        log_se3_shift: "logarithm of a translation", "transformations::matrix_log6";
    );
    contracts!(v, "C23";
        adjoint: "adjoint matrix", "transformations::adjoint, M66::copy_elements_from";
        adjoint_twist: "adjoint maps twists", "transformations::{adjoint,se3_to_twist,twist_to_se3,homogeneous_inverse}";
        adjoint_laws: "adjoint of products and inverses", "transformations::{adjoint,homogeneous_inverse}";
        screw: "screw axis", "transformations::screw_to_axis";
        split6: "axis and distance of a 6-d vector", "transformations::axis_angle6";
    );
    contracts!(v, "C30";
        distance: "distance to SO(3)", "transformations::distance_to_manifold";
        accept: "rotations are accepted", "utils::{is_rotation,is_rotation_h}";
        reject: "other matrices are rejected", "utils::is_rotation";
        reject_mirror: "reflections are rejected", "utils::{is_rotation,is_rotation_h}";
        reject_h: "other homogeneous matrices are rejected", "utils::is_rotation_h";
    );
    vc::driver::main(v);
}
