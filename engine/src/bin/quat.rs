//! C12..C17: quaternions.
use num::{One, Zero};
use static_math::dual_quaternion::DualQuaternion;
use static_math::quaternion::Quaternion;
use static_math::matrix3x3::M33;
use static_math::vector4::V4;
use static_math::V3;
use vc::base::*;
use vcore::contracts;

type Q<S> = Quaternion<S>;

/// a value with the normalized flag set, for a unit u
fn flagged<S: Sc>(u: &Q4<S>) -> Q<S> {
    q_new(u).normalize().unwrap()
}

// ---------------------------------------------------------------- C12
fn build<S: Sc>(cx: &mut Cx) {
    let a = cx.arr::<S, 4>("a");
    let v = V3::new_from(a[1], a[2], a[3]);
    let z = S::zero();
    cx.eqs("new", &q_arr(Q::new(a[0], v)), &a);
    cx.eqs("new_from", &q_arr(Q::new_from(a[0], a[1], a[2], a[3])), &a);
    cx.eqs("new_from_vec", &q_arr(Q::new_from_vec(&V4::new(a))), &a);
    cx.eqs("From<[T; 4]>", &q_arr(Q::from(a)), &a);
    cx.eqs("new_real", &q_arr(Q::new_real(a[0])), &[a[0], z, z, z]);
    cx.eqs("new_imag", &q_arr(Q::new_imag(&v)), &[z, a[1], a[2], a[3]]);
    cx.eqs("one", &q_arr(Q::<S>::one()), &q_one());
    cx.eqs("One::one", &q_arr(<Q<S> as One>::one()), &q_one());
    cx.eqs("zero", &q_arr(Q::<S>::zero()), &[z; 4]);
    cx.eqs("Zero::zero", &q_arr(<Q<S> as Zero>::zero()), &[z; 4]);
}
fn linear<S: Sc>(cx: &mut Cx) {
    let (a, b) = (cx.arr::<S, 4>("a"), cx.arr::<S, 4>("b"));
    let k = cx.var::<S>("k");
    let (p, q) = (q_new(&a), q_new(&b));
    cx.eqs("p + q", &q_arr(p + q), &q_add(&a, &b));
    cx.eqs("p - q", &q_arr(p - q), &q_sub(&a, &b));
    cx.eqs("-p", &q_arr(-p), &q_scale(&a, -S::one()));
    cx.eqs("p * k", &q_arr(p * k), &q_scale(&a, k));
    cx.eqs("conj", &q_arr(p.conj()), &q_conj(&a));
    cx.eq("dot", p.dot(q), dotp(&a, &b));
    cx.eq("abs2", p.abs2(), dotp(&a, &a));
    let n = p.norm2();
    cx.eq("norm2 squared", n * n, dotp(&a, &a));
    cx.holds::<S>("norm2 >= 0", n >= S::zero());
    let m = p.abs_imag();
    cx.eq("abs_imag squared", m * m, dotp(&a[1..], &a[1..]));
    cx.holds::<S>("abs_imag >= 0", m >= S::zero());
    cx.assume::<S>(k != S::zero());
    cx.eqs("p / k", &q_arr(p / k), &q_scale(&a, S::one() / k));
}
fn linear_whole<S: Sc>(cx: &mut Cx) {
    let (a, b) = (cx.arr::<S, 4>("a"), cx.arr::<S, 4>("b"));
    let k = cx.var::<S>("k");
    let (p, q) = (q_new(&a), q_new(&b));
    cx.eqs("p + q", &q_arr(p + q), &q_add(&a, &b));
    cx.eqs("p - q", &q_arr(p - q), &q_sub(&a, &b));
    cx.eqs("-p", &q_arr(-p), &q_scale(&a, -S::one()));
    cx.eqs("p * k", &q_arr(p * k), &q_scale(&a, k));
    cx.eqs("conj", &q_arr(p.conj()), &q_conj(&a));
    cx.eq("dot", p.dot(q), dotp(&a, &b));
    cx.eq("abs2", p.abs2(), dotp(&a, &a));
    cx.assume::<S>(k != S::zero());
    let e: Q4<S> = std::array::from_fn(|i| a[i] / k);
    cx.eqs("p / k", &q_arr(p / k), &e);
}
fn product<S: Sc>(cx: &mut Cx) {
    let (a, b, c) = (cx.arr::<S, 4>("a"), cx.arr::<S, 4>("b"), cx.arr::<S, 4>("c"));
    let (p, q, r) = (q_new(&a), q_new(&b), q_new(&c));
    cx.eqs("p * q", &q_arr(p * q), &ham(&a, &b));
    cx.eqs("associative", &q_arr((p * q) * r), &q_arr(p * (q * r)));
    cx.eqs("left distributive", &q_arr(p * (q + r)), &q_arr(p * q + p * r));
    cx.eqs("right distributive", &q_arr((p + q) * r), &q_arr(p * r + q * r));
    cx.eq("norm multiplicative", (p * q).abs2(), p.abs2() * q.abs2());
    cx.eqs("conj of a product", &q_arr((p * q).conj()), &q_arr(q.conj() * p.conj()));
    cx.eqs("one * p", &q_arr(Q::<S>::one() * p), &a);
    cx.eqs("p * one", &q_arr(p * Q::<S>::one()), &a);
    let (z, o) = (S::zero(), S::one());
    let e = |k: usize| -> Q4<S> { std::array::from_fn(|i| if i == k { o } else { z }) };
    for (x, y, w) in [(1, 2, 3), (2, 3, 1), (3, 1, 2)] {
        cx.eqs("i*j = k", &q_arr(q_new(&e(x)) * q_new(&e(y))), &e(w));
        cx.eqs("j*i = -k", &q_arr(q_new(&e(y)) * q_new(&e(x))), &q_scale(&e(w), -o));
        cx.eqs("i*i = -1", &q_arr(q_new(&e(x)) * q_new(&e(x))), &q_scale(&e(0), -o));
    }
}
fn is_inverse<S: Sc>(cx: &mut Cx, what: &str, q: Q<S>) {
    let a = q_arr(q);
    let n2 = dotp(&a, &a);
    match q.inverse() {
        Some(i) => {
            cx.eqs(&format!("{}: q * inverse", what), &ham(&a, &q_arr(i)), &q_one());
            cx.eqs(&format!("{}: inverse * q", what), &ham(&q_arr(i), &a), &q_one());
        }
        None => cx.holds::<S>(&format!("{}: refused only when numerically zero", what), n2 < eps()),
    }
}
fn inverse<S: Sc>(cx: &mut Cx) {
    let a = cx.arr::<S, 4>("a");
    let q = q_new(&a);
    let n2 = dotp(&a, &a);
    match q.inverse() {
        Some(i) => {
            cx.holds::<S>("not numerically zero", n2 >= eps());
            cx.eqs("q * inverse", &ham(&a, &q_arr(i)), &q_one());
            cx.eqs("inverse * q", &ham(&q_arr(i), &a), &q_one());
            is_inverse(cx, "the inverse", i);
        }
        None => cx.holds::<S>("numerically zero", n2 < eps()),
    }
}
/// every way of making a quaternion out of unit ones, flags included
fn inverse_after<S: Sc>(cx: &mut Cx) {
    let (a, b) = (cx.unit::<S, 4>("a"), cx.unit::<S, 4>("b"));
    let (p, q) = (flagged(&a), flagged(&b));
    is_inverse(cx, "normalize", p);
    cx.eqs("normalize of a unit one", &q_arr(p), &a);
    is_inverse(cx, "normalize_q", q_new(&a).normalize_q());
    is_inverse(cx, "one", Q::<S>::one());
    is_inverse(cx, "product", p * q);
    is_inverse(cx, "negation", -p);
    is_inverse(cx, "conjugate", p.conj());
    is_inverse(cx, "inverse", p.inverse().unwrap());
}
fn inverse_after2<S: Sc>(cx: &mut Cx) {
    let (a, b) = (cx.unit::<S, 4>("a"), cx.unit::<S, 4>("b"));
    let (p, q) = (flagged(&a), flagged(&b));
    is_inverse(cx, "sum", p + q);
}
fn inverse_after3<S: Sc>(cx: &mut Cx) {
    let (a, b) = (cx.unit::<S, 4>("a"), cx.unit::<S, 4>("b"));
    let (p, q) = (flagged(&a), flagged(&b));
    is_inverse(cx, "difference", p - q);
}
fn inverse_after4<S: Sc>(cx: &mut Cx) {
    let a = cx.unit::<S, 4>("a");
    let k = cx.var::<S>("k");
    let p = flagged(&a);
    is_inverse(cx, "scaled", p * k);
    cx.assume::<S>(k != S::zero());
    is_inverse(cx, "divided", p / k);
}
fn division<S: Sc>(cx: &mut Cx) {
    let (a, b) = (cx.arr::<S, 4>("a"), cx.arr::<S, 4>("b"));
    cx.assume::<S>(dotp(&b, &b) >= eps());
    let r = q_new(&a) / q_new(&b);
    cx.eqs("a / b * b", &ham(&q_arr(r), &b), &a);
    cx.eqs("a / b * b by the code", &q_arr(r * q_new(&b)), &a);
    let u = cx.unit::<S, 4>("u");
    cx.eqs("a / u * u, flagged", &ham(&q_arr(q_new(&a) / flagged(&u)), &u), &a);
}
fn equality<S: Sc>(cx: &mut Cx) {
    let (a, b) = (cx.arr::<S, 4>("a"), cx.arr::<S, 4>("b"));
    let (p, q) = (q_new(&a), q_new(&b));
    if p == q {
        cx.eqs("equal: components", &a, &b);
    } else {
        cx.holds::<S>("not equal: some component differs", (0..4).any(|i| a[i] != b[i]));
    }
}
fn equality_flags<S: Sc>(cx: &mut Cx) {
    let u = cx.unit::<S, 4>("u");
    let (p, q) = (q_new(&u), flagged(&u));
    cx.holds::<S>("the flag does not matter", p == q && q == p && q == q && p == p);
    cx.holds::<S>("one", Q::<S>::one() == Q::new_real(S::one()));
    cx.holds::<S>("zero", Q::<S>::zero() == Q::new_real(S::zero()));
}
fn zero_test<S: Sc>(cx: &mut Cx) {
    let a = cx.arr::<S, 4>("a");
    if q_new(&a).is_zero() {
        cx.eqs("is_zero: components", &a, &[S::zero(); 4]);
    } else {
        cx.holds::<S>("not is_zero: some component", (0..4).any(|i| a[i] != S::zero()));
    }
    cx.holds::<S>("zero is_zero", Q::<S>::zero().is_zero());
}

// ---------------------------------------------------------------- C13
fn rotation_matrix<S: Sc>(cx: &mut Cx) {
    let a = cx.unit::<S, 4>("a");
    let q = q_new(&a);
    let r = m3(q.to_rotation());
    cx.eqm("R^T R = I", mm(&tr(&r), &r), id());
    cx.eq("det R = 1", leibniz(&r), S::one());
    cx.eqm("R is the sandwich", r, q_mat(&a));
    cx.eqm("conjugate: transpose", m3(q.conj().to_rotation()), tr(&r));
    cx.eqm("-q: the same rotation", m3((-q).to_rotation()), r);
}
fn rotate_vector<S: Sc>(cx: &mut Cx) {
    let a = cx.unit::<S, 4>("a");
    let v = cx.arr::<S, 3>("v");
    let q = q_new(&a);
    let w = v3(q * V3::new(v));
    cx.eqs("q * v = R v", &w, &v3(q.to_rotation() * V3::new(v)));
    let s = ham(&ham(&a, &[S::zero(), v[0], v[1], v[2]]), &q_conj(&a));
    cx.eqs("q * v = q v q*", &w, &[s[1], s[2], s[3]]);
    cx.eqs("q v q* by the code", &q_arr(q * Q::new_imag(&V3::new(v)) * q.conj()), &s);
    cx.eq("length", dotp(&w, &w), dotp(&v, &v));
    cx.eqs("undone by the conjugate", &v3(q.conj() * (q * V3::new(v))), &v);
    cx.eqs("flagged", &v3(flagged(&a) * V3::new(v)), &w);
}
fn rotate_product<S: Sc>(cx: &mut Cx) {
    let (a, b) = (cx.unit::<S, 4>("a"), cx.unit::<S, 4>("b"));
    let v = cx.arr::<S, 3>("v");
    let (p, q) = (q_new(&a), q_new(&b));
    cx.eqm("R(pq) = R(p) R(q)", m3((p * q).to_rotation()), m3(p.to_rotation() * q.to_rotation()));
    cx.eqs("(pq) v = p (q v)", &v3((p * q) * V3::new(v)), &v3(p * (q * V3::new(v))));
}

// ---------------------------------------------------------------- C14
fn from_matrix<S: Sc>(cx: &mut Cx) {
    let u = cx.unit::<S, 4>("u");
    let r = q_mat(&u);
    let q = Q::from_rotation(&M33::new(r));
    let a = q_arr(q);
    cx.eq("norm one", dotp(&a, &a), S::one());
    for i in 0..4 {
        for j in i..4 {
            cx.eq(&format!("q or -q ({}{})", i, j), a[i] * a[j], u[i] * u[j]);
        }
    }
    cx.eqm("back to R", m3(q.to_rotation()), r);
    is_inverse(cx, "from_rotation", q);
}

fn from_matrix_dual<S: Sc>(cx: &mut Cx) {
    let u = cx.unit::<S, 4>("u");
    let m = q_mat(&u);
    let d = DualQuaternion::new_from_rotation_matrix(&M33::new(m));
    let (a, b) = (q_arr(d.real()), q_arr(d.dual()));
    cx.eq("norm one", dotp(&a, &a), S::one());
    cx.eqm("back to R", m3(d.real().to_rotation()), m);
    cx.eqs("no translation", &b, &[S::zero(); 4]);
}

// ---------------------------------------------------------------- C15
fn angle_axis<S: Sc>(cx: &mut Cx) {
    let th = cx.any_angle::<S>("th", 2);
    let v = cx.arr::<S, 3>("v");
    let n2 = dotp(&v, &v);
    cx.assume::<S>(n2 != S::zero());
    let q = Q::rotation(th, &V3::new(v));
    let a = q_arr(q);
    let n = n2.sqrt();
    let u = [v[0] / n, v[1] / n, v[2] / n];
    let (s, c) = (th / r(2, 1)).sin_cos();
    cx.eqs("(cos th/2, sin th/2 u)", &a, &[c, u[0] * s, u[1] * s, u[2] * s]);
    cx.eq("norm one", dotp(&a, &a), S::one());
    is_inverse(cx, "rotation", q);
}
fn angle_axis_mat<S: Sc>(cx: &mut Cx) {
    let th = cx.any_angle::<S>("th", 2);
    let u = cx.unit::<S, 3>("u");
    let q = Q::rotation(th, &V3::new(u));
    let (s, c) = th.sin_cos();
    cx.eqm("Rodrigues", m3(q.to_rotation()), rodrigues(&u, s, c));
}
fn angle_axis_zero<S: Sc>(cx: &mut Cx) {
    let th = cx.any_angle::<S>("th", 2);
    cx.panics::<S, _>("a zero axis is refused", || Q::rotation(th, &V3::zeros()));
}
fn rotation_vector<S: Sc>(cx: &mut Cx) {
    let th = cx.any_angle::<S>("th", 2);
    let u = cx.unit::<S, 3>("u");
    cx.assume::<S>(th >= eps());
    let q = Q::rotation_norm_encoded(&V3::new([u[0] * th, u[1] * th, u[2] * th]));
    let a = q_arr(q);
    cx.eq("norm one", dotp(&a, &a), S::one());
    let (s, c) = th.sin_cos();
    cx.eqm("Rodrigues", m3(q.to_rotation()), rodrigues(&u, s, c));
    is_inverse(cx, "rotation_norm_encoded", q);
}
fn rotation_vector_zero<S: Sc>(cx: &mut Cx) {
    let v = cx.arr::<S, 3>("v");
    cx.assume::<S>(dotp(&v, &v).sqrt() < eps());
    let q = Q::rotation_norm_encoded(&V3::new(v));
    cx.eqs("numerically zero: no rotation", &q_arr(q), &q_one());
}
fn from_euler<S: Sc>(cx: &mut Cx) {
    let (y, p, r) = (cx.any_angle::<S>("y", 2), cx.any_angle::<S>("p", 2), cx.any_angle::<S>("r", 2));
    let q = Q::from_euler_angles(y, p, r);
    let a = q_arr(q);
    cx.eq("norm one", dotp(&a, &a), S::one());
    let (y, p, r) = (y.sin_cos(), p.sin_cos(), r.sin_cos());
    let m = mm(&mm(&rot_z(y.0, y.1), &rot_y(p.0, p.1)), &rot_x(r.0, r.1));
    cx.eqm("Rz(yaw) Ry(pitch) Rx(roll)", m3(q.to_rotation()), m);
    is_inverse(cx, "from_euler_angles", q);
}
fn read_back<S: Sc>(cx: &mut Cx) {
    // every quaternion with an imaginary part: n (cos h, sin h u), h in (0, pi)
    let h = cx.angle::<S>("h", (0, 1), (1, 1), 1);
    let u = cx.unit::<S, 3>("u");
    let n = cx.var::<S>("n");
    let (s, c) = h.sin_cos();
    cx.assume::<S>(n >= eps());
    let q = q_new(&q_scale(&[c, s * u[0], s * u[1], s * u[2]], n));
    cx.eq("get_angle", q.get_angle(), h * r(2, 1));
    match q.get_axis() {
        Some(x) => {
            cx.eqs("get_axis", &v3(x), &u);
            cx.holds::<S>("axis of a rotation only", s > eps());
        }
        None => cx.holds::<S>("no axis only without rotation", s <= eps()),
    }
}
fn read_back2<S: Sc>(cx: &mut Cx) {
    let h = cx.angle::<S>("h", (0, 1), (1, 1), 1);
    let u = cx.unit::<S, 3>("u");
    let n = cx.var::<S>("n");
    let (s, c) = h.sin_cos();
    cx.assume::<S>(n >= eps());
    cx.assume::<S>(s > eps());
    let a = [c, s * u[0], s * u[1], s * u[2]];
    let (x, t) = q_new(&q_scale(&a, n)).axis_angle();
    cx.holds::<S>("axis_angle: axis", x.is_some());
    let x = x.unwrap();
    cx.eqs("axis_angle: axis", &v3(x), &u);
    cx.eq("axis_angle: angle", t, h * r(2, 1));
    cx.eqs("the same rotation", &q_arr(Q::rotation(t, &x)), &a);
}
fn read_back_real<S: Sc>(cx: &mut Cx) {
    let w = cx.var::<S>("w");
    cx.assume::<S>(w > eps());
    let q = Q::new_real(w);
    cx.eq("angle of a positive real", q.get_angle(), S::zero());
    cx.holds::<S>("axis of a positive real", q.get_axis().is_none());
    let q = Q::new_real(-w);
    cx.eq("angle of a negative real", q.get_angle(), S::PI() * r(2, 1));
    cx.holds::<S>("axis of a negative real", q.get_axis().is_none());
}
fn normalize<S: Sc>(cx: &mut Cx) {
    let a = cx.arr::<S, 4>("a");
    let n = dotp(&a, &a).sqrt();
    match q_new(&a).normalize() {
        Some(q) => {
            cx.holds::<S>("not numerically zero", n >= eps());
            let b = q_arr(q);
            cx.eqs("q / |q|", &b, &q_scale(&a, S::one() / n));
            cx.eq("norm one", dotp(&b, &b), S::one());
            is_inverse(cx, "normalize", q);
            cx.eqs("twice", &q_arr(q.normalize().unwrap()), &b);
        }
        None => cx.holds::<S>("numerically zero", n < eps()),
    }
}
fn normalize_total<S: Sc>(cx: &mut Cx) {
    let a = cx.arr::<S, 4>("a");
    let n2 = dotp(&a, &a);
    let q = q_new(&a).normalize_q();
    let b = q_arr(q);
    if n2 > eps() {
        cx.eqs("q / |q|", &b, &q_scale(&a, S::one() / n2.sqrt()));
    } else {
        cx.eqs("numerically zero: i", &b, &[S::zero(), S::one(), S::zero(), S::zero()]);
    }
    cx.eq("norm one", dotp(&b, &b), S::one());
    is_inverse(cx, "normalize_q", q);
}
fn argq<S: Sc>(cx: &mut Cx) {
    let a = cx.arr::<S, 4>("a");
    let n2 = dotp(&a[1..], &a[1..]);
    let b = q_arr(q_new(&a).argq());
    cx.eq("pure", b[0], S::zero());
    cx.eq("norm one", dotp(&b, &b), S::one());
    if n2 > eps() {
        let n = n2.sqrt();
        cx.eqs("direction of the imaginary part", &b[1..], &[a[1] / n, a[2] / n, a[3] / n]);
    }
}
fn derivative<S: Sc>(cx: &mut Cx) {
    let a = cx.arr::<S, 4>("a");
    let w = cx.arr::<S, 3>("w");
    let e = q_scale(&ham(&[S::zero(), w[0], w[1], w[2]], &a), r(1, 2));
    cx.eqs("half the rate times q", &q_arr(q_new(&a).derivative(&V3::new(w))), &e);
}
fn to_euler<S: Sc>(cx: &mut Cx) {
    // away from the gimbal lock
    let a = cx.unit::<S, 4>("a");
    let m = q_mat(&a);
    let pitch = (-m[2][0]).atan2((m[0][0] * m[0][0] + m[1][0] * m[1][0]).sqrt());
    // implied by the distance from the lock
    cx.assume::<S>(m[0][0] * m[0][0] + m[1][0] * m[1][0] > S::zero());
    let lock: S = S::FRAC_PI_2();
    for l in [-lock, lock] {
        cx.assume::<S>(pitch != S::zero() && pitch != l);
        cx.assume::<S>((pitch - l).abs() / (pitch.abs() + lock) >= eps());
    }
    let (y, p, r) = q_new(&a).to_euler_angles();
    let (y, p, r) = (y.sin_cos(), p.sin_cos(), r.sin_cos());
    let e = mm(&mm(&rot_z(y.0, y.1), &rot_y(p.0, p.1)), &rot_x(r.0, r.1));
    cx.eqm("Rz(yaw) Ry(pitch) Rx(roll)", e, m);
}
fn euler_euler<S: Sc>(cx: &mut Cx) {
    let y = cx.angle::<S>("y", (-1, 1), (1, 1), 2);
    let p = cx.angle::<S>("p", (-1, 2), (1, 2), 2);
    let r = cx.angle::<S>("r", (-1, 1), (1, 1), 2);
    let lock: S = S::FRAC_PI_2();
    cx.assume::<S>((lock - p) / (p.abs() + lock) >= eps());
    cx.assume::<S>((lock + p) / (p.abs() + lock) >= eps());
    let (y2, p2, r2) = Q::from_euler_angles(y, p, r).to_euler_angles();
    cx.eqs("angles read back", &[y2, p2, r2], &[y, p, r]);
}

// ---------------------------------------------------------------- C16
/// the norm and the inverse are right, whatever the flag says
fn honest<S: Sc>(cx: &mut Cx, what: &str, q: Q<S>) {
    is_inverse(cx, what, q);
    let a = q_arr(q);
    let n2 = dotp(&a, &a);
    match q.normalize() {
        Some(u) => cx.eqs(&format!("{}: normalize", what), &q_scale(&q_arr(u), n2.sqrt()), &a),
        None => cx.holds::<S>(&format!("{}: normalize refused only when numerically zero", what), n2.sqrt() < eps()),
    }
}
fn exp<S: Sc>(cx: &mut Cx) {
    let w = cx.var::<S>("w");
    let th = cx.any_angle::<S>("th", 1);
    let u = cx.unit::<S, 3>("u");
    cx.assume::<S>(th > eps());
    let q = q_new(&[w, th * u[0], th * u[1], th * u[2]]).exp();
    let (s, c) = th.sin_cos();
    cx.eqs("e^w (cos, sin u)", &q_arr(q), &q_scale(&[c, s * u[0], s * u[1], s * u[2]], w.exp()));
    honest(cx, "exp", q);
}
fn exp_real<S: Sc>(cx: &mut Cx) {
    let w = cx.var::<S>("w");
    cx.assume::<S>(w.abs() >= eps());
    let q = Q::new_real(w).exp();
    cx.eqs("e^w", &q_arr(q), &[w.exp(), S::zero(), S::zero(), S::zero()]);
    honest(cx, "exp of a real", q);
    let q = Q::<S>::zero().exp();
    cx.eqs("e^0", &q_arr(q), &q_one());
    honest(cx, "exp of zero", q);
}
fn polar<S: Sc>(cx: &mut Cx, div: i128) -> (Q4<S>, S, S, [S; 3]) {
    let h = cx.angle::<S>("h", (0, 1), (1, 1), div);
    let u = cx.unit::<S, 3>("u");
    let n = cx.var::<S>("n");
    let (s, c) = h.sin_cos();
    cx.assume::<S>(n > S::zero());
    cx.assume::<S>(s > eps());
    // implied by the last one: sin h < h
    cx.assume::<S>(h > eps());
    (q_scale(&[c, s * u[0], s * u[1], s * u[2]], n), n, h, u)
}
fn ln<S: Sc>(cx: &mut Cx) {
    let (a, n, h, u) = polar::<S>(cx, 1);
    let q = q_new(&a).ln();
    cx.eqs("(ln n, h u)", &q_arr(q), &[n.ln(), h * u[0], h * u[1], h * u[2]]);
    cx.eqs("exp(ln q) = q", &q_arr(q.exp()), &a);
    honest(cx, "ln", q);
}
fn ln_flagged<S: Sc>(cx: &mut Cx) {
    let h = cx.angle::<S>("h", (0, 1), (1, 1), 1);
    let u = cx.unit::<S, 3>("u");
    let (s, c) = h.sin_cos();
    cx.assume::<S>(s > eps());
    cx.assume::<S>(h > eps());
    let a = [c, s * u[0], s * u[1], s * u[2]];
    let q = flagged(&a).ln();
    cx.eqs("(0, h u)", &q_arr(q), &[S::zero(), h * u[0], h * u[1], h * u[2]]);
    cx.eqs("exp(ln q) = q", &q_arr(q.exp()), &a);
    honest(cx, "ln of a flagged one", q);
}
fn ln_any<S: Sc>(cx: &mut Cx) {
    // the same, without polar coordinates
    let a = cx.arr::<S, 4>("a");
    let n = dotp(&a, &a).sqrt();
    let m = dotp(&a[1..], &a[1..]).sqrt();
    cx.assume::<S>(n > S::zero() && m / n > eps());
    let q = q_arr(q_new(&a).ln());
    cx.eq("real part", q[0], n.ln());
    let t = m.atan2(a[0]);
    cx.eqs("imaginary part", &q[1..], &[a[1] / m * t, a[2] / m * t, a[3] / m * t]);
}
fn ln_real<S: Sc>(cx: &mut Cx) {
    let w = cx.var::<S>("w");
    cx.assume::<S>(w > S::zero());
    let q = Q::new_real(w).ln();
    cx.eqs("ln of a positive real", &q_arr(q), &[w.ln(), S::zero(), S::zero(), S::zero()]);
    honest(cx, "ln of a positive real", q);
    let q = Q::new_real(-w).ln();
    let a = q_arr(q);
    cx.eq("ln of a negative real: real part", a[0], w.ln());
    cx.eq("ln of a negative real: length pi", dotp(&a[1..], &a[1..]), S::PI() * S::PI());
    cx.eqs("exp(ln q) = q", &q_arr(q.exp()), &[-w, S::zero(), S::zero(), S::zero()]);
}
fn ln_exp<S: Sc>(cx: &mut Cx) {
    let w = cx.var::<S>("w");
    let h = cx.angle::<S>("h", (0, 1), (1, 1), 1);
    let u = cx.unit::<S, 3>("u");
    cx.assume::<S>(h > eps());
    cx.assume::<S>(h.sin() > eps());
    let a = [w, h * u[0], h * u[1], h * u[2]];
    cx.eqs("ln(exp q) = q", &q_arr(q_new(&a).exp().ln()), &a);
}
fn sqrt<S: Sc>(cx: &mut Cx) {
    let (a, n, h, u) = polar::<S>(cx, 2);
    cx.assume::<S>(h / r(2, 1) > eps());
    let q = q_new(&a).sqrt();
    let (s, c) = (h / r(2, 1)).sin_cos();
    let _ = n;
    cx.eqs("the principal root", &q_arr(q), &q_scale(&[c, s * u[0], s * u[1], s * u[2]], n.sqrt()));
    cx.eqs("sqrt(q)^2 = q", &ham(&q_arr(q), &q_arr(q)), &a);
    honest(cx, "sqrt", q);
}
fn sqrt_flagged<S: Sc>(cx: &mut Cx) {
    let h = cx.angle::<S>("h", (0, 1), (1, 1), 2);
    let u = cx.unit::<S, 3>("u");
    let (s, c) = h.sin_cos();
    cx.assume::<S>(s > eps());
    cx.assume::<S>(h / r(2, 1) > eps());
    let a = [c, s * u[0], s * u[1], s * u[2]];
    let q = flagged(&a).sqrt();
    cx.eqs("sqrt(q)^2 = q", &ham(&q_arr(q), &q_arr(q)), &a);
    honest(cx, "sqrt of a flagged one", q);
}
fn sqrt_real<S: Sc>(cx: &mut Cx) {
    let w = cx.var::<S>("w");
    cx.assume::<S>(w > S::zero());
    let z = S::zero();
    let l = w.ln() / r(2, 1);
    cx.assume::<S>(l.abs() >= eps());
    let q = q_arr(Q::new_real(w).sqrt());
    cx.eqs("square of the root of a positive real", &ham(&q, &q), &[w, z, z, z]);
    let q = q_arr(Q::new_real(-w).sqrt());
    cx.eqs("square of the root of a negative real", &ham(&q, &q), &[-w, z, z, z]);
}
fn pow_real<S: Sc>(cx: &mut Cx) {
    let (a, n, h, u) = polar::<S>(cx, 1);
    let t = cx.var::<S>("t");
    cx.assume::<S>(t * h > eps() || t * h < -eps::<S>());
    let q = q_new(&a).pow(Q::new_real(t));
    let (s, c) = (t * h).sin_cos();
    let e = (t * n.ln()).exp();
    cx.eqs("n^t (cos th, sin th u)", &q_arr(q), &q_scale(&[c, s * u[0], s * u[1], s * u[2]], e));
    honest(cx, "pow", q);
}
fn pow_small<S: Sc>(cx: &mut Cx) {
    let (a, _, h, _) = polar::<S>(cx, 1);
    cx.assume::<S>(h / r(2, 1) > eps());
    let q = q_new(&a);
    let p = |k: i128, d: i128| q_arr(q.pow(Q::new_real(r::<S>(k, d))));
    cx.eqs("q^0 = 1", &p(0, 1), &q_one());
    cx.eqs("q^1 = q", &p(1, 1), &a);
    cx.eqs("q^2 = q q", &p(2, 1), &ham(&a, &a));
    cx.eqs("q^-1 q = 1", &ham(&p(-1, 1), &a), &q_one());
}
fn pow_quat<S: Sc>(cx: &mut Cx) {
    // q^p = exp(p ln q), the exponent on the left
    let (a, _, _, _) = polar::<S>(cx, 1);
    let b = cx.arr::<S, 4>("b");
    let q = q_new(&a);
    let e = ham(&b, &q_arr(q.ln()));
    cx.eqs("exp(p ln q)", &q_arr(q.pow(q_new(&b))), &q_arr(q_new(&e).exp()));
}
fn sin_cos<S: Sc>(cx: &mut Cx, sin: bool) {
    let w = cx.any_angle::<S>("w", 1);
    let u = cx.unit::<S, 3>("u");
    let m = cx.var::<S>("m");
    cx.assume::<S>(m * m > eps() && m > S::zero());
    cx.assume::<S>(w > eps() || w < -eps::<S>());
    let q = q_new(&[w, m * u[0], m * u[1], m * u[2]]);
    let (s, c) = w.sin_cos();
    let half: S = r(1, 2);
    let ch = (m.exp() + (-m).exp()) * half;
    let sh = (m.exp() - (-m).exp()) * half;
    if sin {
        let k = c * sh;
        cx.eqs("sin", &q_arr(q.sin()), &[s * ch, k * u[0], k * u[1], k * u[2]]);
    } else {
        let k = -s * sh;
        cx.eqs("cos", &q_arr(q.cos()), &[c * ch, k * u[0], k * u[1], k * u[2]]);
    }
}
fn sin_q<S: Sc>(cx: &mut Cx) {
    sin_cos::<S>(cx, true)
}
fn cos_q<S: Sc>(cx: &mut Cx) {
    sin_cos::<S>(cx, false)
}
fn sin_cos_real<S: Sc>(cx: &mut Cx) {
    let w = cx.any_angle::<S>("w", 1);
    let z = S::zero();
    cx.assume::<S>(w > eps() || w < -eps::<S>());
    let (s, c) = w.sin_cos();
    cx.eqs("sin of a real", &q_arr(Q::new_real(w).sin()), &[s, z, z, z]);
    cx.eqs("cos of a real", &q_arr(Q::new_real(w).cos()), &[c, z, z, z]);
}
fn sin_cos_imag<S: Sc>(cx: &mut Cx) {
    let u = cx.unit::<S, 3>("u");
    let m = cx.var::<S>("m");
    let z = S::zero();
    cx.assume::<S>(m * m > eps() && m > eps());
    let q = q_new(&[z, m * u[0], m * u[1], m * u[2]]);
    let half: S = r(1, 2);
    let ch = (m.exp() + (-m).exp()) * half;
    let sh = (m.exp() - (-m).exp()) * half;
    cx.eqs("sin of an imaginary one", &q_arr(q.sin()), &[z, sh * u[0], sh * u[1], sh * u[2]]);
    cx.eqs("cos of an imaginary one", &q_arr(q.cos()), &[ch, z, z, z]);
    honest(cx, "sin", q.sin());
}

// ---------------------------------------------------------------- C17
fn arc<S: Sc>(cx: &mut Cx, near: bool) {
    let a = cx.unit::<S, 4>("a");
    let u = cx.unit::<S, 3>("u");
    let ph = if near {
        cx.angle::<S>("ph", (0, 1), (1, 2), 1)
    } else {
        cx.angle::<S>("ph", (1, 2), (1, 1), 1)
    };
    let t = cx.var::<S>("t");
    let (s, c) = ph.sin_cos();
    let b = ham(&a, &[c, s * u[0], s * u[1], s * u[2]]);
    let q = Q::slerp(q_new(&a), q_new(&b), t);
    let g = q_arr(q);
    if s >= r(1, 1000) {
        let e = if near {
            let (s, c) = (t * ph).sin_cos();
            ham(&a, &[c, s * u[0], s * u[1], s * u[2]])
        } else {
            let (s, c) = (t * (S::PI() - ph)).sin_cos();
            ham(&a, &[c, -s * u[0], -s * u[1], -s * u[2]])
        };
        cx.eqs("the point of the arc", &g, &e);
        cx.eq("norm one", dotp(&g, &g), S::one());
    } else {
        let k = if near { t } else { -t };
        let e = q_add(&q_scale(&a, S::one() - t), &q_scale(&b, k));
        cx.eqs("nearly parallel: the point of the chord", &g, &e);
    }
}
fn slerp_near<S: Sc>(cx: &mut Cx) {
    arc::<S>(cx, true)
}
fn slerp_far<S: Sc>(cx: &mut Cx) {
    arc::<S>(cx, false)
}
fn slerp_ends<S: Sc>(cx: &mut Cx) {
    let a = cx.unit::<S, 4>("a");
    let u = cx.unit::<S, 3>("u");
    let ph = cx.angle::<S>("ph", (0, 1), (1, 1), 1);
    let (s, c) = ph.sin_cos();
    cx.assume::<S>(s >= r(1, 1000));
    let b = ham(&a, &[c, s * u[0], s * u[1], s * u[2]]);
    let (p, q) = (q_new(&a), q_new(&b));
    cx.eqs("t = 0", &q_arr(Q::slerp(p, q, S::zero())), &a);
    let e = if c < S::zero() { q_scale(&b, -S::one()) } else { b };
    cx.eqs("t = 1", &q_arr(Q::slerp(p, q, S::one())), &e);
}
fn slerp_same<S: Sc>(cx: &mut Cx) {
    let a = cx.unit::<S, 4>("a");
    let t = cx.var::<S>("t");
    let p = q_new(&a);
    cx.eqs("b = a", &q_arr(Q::slerp(p, p, t)), &a);
    cx.eqs("b = -a", &q_arr(Q::slerp(p, -p, t)), &a);
}
fn slerp_right<S: Sc>(cx: &mut Cx) {
    // b at a right angle: the sign of a.b, which orients the arc, is rounding's in a concrete run
    if cx.on_boundary() {
        return;
    }
    let a = cx.unit::<S, 4>("a");
    let u = cx.unit::<S, 3>("u");
    let t = cx.var::<S>("t");
    let b = ham(&a, &[S::zero(), u[0], u[1], u[2]]);
    let g = q_arr(Q::slerp(q_new(&a), q_new(&b), t));
    let (s, c) = (t * S::FRAC_PI_2()).sin_cos();
    cx.eqs("right angle", &g, &ham(&a, &[c, s * u[0], s * u[1], s * u[2]]));
}

fn main() {
    let mut v = vec![];
    let v = &mut v;
    contracts!(v, "C12";
        build: "quaternion constructors", "Quaternion::{new,new_from,new_from_vec,new_real,new_imag,one,zero,from}";
        linear: "quaternion sum, scaling, conjugate, norms", "Quaternion::{add,sub,neg,mul<T>,div<T>,conj,dot,abs2,norm2,abs_imag}";
        linear_whole: "quaternions over the integers: sum, scaling, conjugate", "Quaternion::{add,sub,neg,mul<T>,div<T>,conj,dot,abs2}", int = true;
        product: "quaternions over the integers: Hamilton product", "Quaternion::mul", int = true;
        product: "Hamilton product", "Quaternion::{mul,conj,abs2,one}";
        inverse: "quaternion inverse", "Quaternion::{inverse,conj,div<T>,abs2}, utils::nearly_zero";
        inverse_after: "inverse of flagged quaternions and of products of them", "Quaternion::{inverse,normalize,normalize_q,mul,neg,conj}";
        inverse_after2: "inverse of a sum of flagged quaternions", "Quaternion::{inverse,add}";
        inverse_after3: "inverse of a difference of flagged quaternions", "Quaternion::{inverse,sub}";
        inverse_after4: "inverse of a scaled flagged quaternion", "Quaternion::{inverse,mul<T>,div<T>}";
        division: "quaternion division", "Quaternion::{div,inverse,mul}";
        equality: "quaternion equality", "Quaternion::eq";
        equality_flags: "quaternion equality and the flag", "Quaternion::{eq,one,zero}";
        zero_test: "quaternion is_zero", "Quaternion::{is_zero,zero}";
    );
    contracts!(v, "C13";
        rotation_matrix: "rotation matrix of a unit quaternion", "Quaternion::{to_rotation,conj,neg}";
        rotate_vector: "rotating a vector", "Quaternion::{mul<V3>,to_rotation,new_imag,conj}, M33::mul<V3>";
        rotate_product: "rotation of a product", "Quaternion::{mul,mul<V3>,to_rotation}, M33::mul";
    );
    contracts!(v, "C14";
        from_matrix: "quaternion from a rotation matrix", "Quaternion::{from_rotation,to_rotation}, M33::transpose";
        from_matrix_dual: "dual quaternion from a rotation matrix", "DualQuaternion::new_from_rotation_matrix, Quaternion::{from_rotation,to_rotation}";
    );
    contracts!(v, "C15";
        angle_axis: "quaternion from angle and axis", "Quaternion::rotation, V3::normalize";
        angle_axis_mat: "quaternion from angle and axis: its matrix", "Quaternion::{rotation,to_rotation}";
        angle_axis_zero: "quaternion from angle and axis: zero axis", "Quaternion::rotation";
        rotation_vector: "quaternion from a rotation vector", "Quaternion::{rotation_norm_encoded,to_rotation}";
        rotation_vector_zero: "quaternion from a zero rotation vector", "Quaternion::rotation_norm_encoded";
        from_euler: "quaternion from yaw, pitch, roll", "Quaternion::{from_euler_angles,to_rotation}";
        read_back: "angle and axis read back", "Quaternion::{get_angle,get_axis,normalize}";
        read_back2: "angle and axis give the rotation back", "Quaternion::{axis_angle,rotation}";
        read_back_real: "angle and axis of a real quaternion", "Quaternion::{get_angle,get_axis}";
        normalize: "normalizing a quaternion", "Quaternion::normalize";
        normalize_total: "normalize_q", "Quaternion::normalize_q";
        argq: "argument of a quaternion", "Quaternion::argq";
        derivative: "quaternion derivative", "Quaternion::derivative";
        to_euler: "yaw, pitch, roll of a quaternion", "Quaternion::to_euler_angles, transformations::rotation_to_euler";
        euler_euler: "yaw, pitch, roll read back", "Quaternion::{from_euler_angles,to_euler_angles}, transformations::rotation_to_euler";
    );
    contracts!(v, "C16";
        exp: "quaternion exp", "Quaternion::exp";
        exp_real: "quaternion exp of a real", "Quaternion::exp";
        ln: "quaternion ln", "Quaternion::{ln,exp}";
        ln_flagged: "quaternion ln of a flagged one", "Quaternion::{ln,exp}";
        ln_any: "quaternion ln, any quaternion", "Quaternion::ln";
        ln_real: "quaternion ln of a real", "Quaternion::{ln,exp}";
        ln_exp: "ln(exp q) = q", "Quaternion::{ln,exp}";
        sqrt: "quaternion sqrt", "Quaternion::sqrt";
        sqrt_flagged: "quaternion sqrt of a flagged one", "Quaternion::sqrt";
        sqrt_real: "quaternion sqrt of a real", "Quaternion::sqrt";
        pow_real: "quaternion to a real power", "Quaternion::pow";
        pow_small: "quaternion to a small integer power", "Quaternion::pow";
        pow_quat: "quaternion to a quaternion power", "Quaternion::pow";
        sin_q: "quaternion sin", "Quaternion::{sin,argq,exp}";
        cos_q: "quaternion cos", "Quaternion::{cos,argq,exp}";
        sin_cos_real: "quaternion sin and cos of a real", "Quaternion::{sin,cos}";
        sin_cos_imag: "quaternion sin and cos of an imaginary one", "Quaternion::{sin,cos}";
    );
    contracts!(v, "C17";
        slerp_near: "slerp on an arc below a right angle", "Quaternion::slerp";
        slerp_far: "slerp on an arc beyond a right angle", "Quaternion::slerp";
        slerp_ends: "slerp at its ends", "Quaternion::slerp";
        slerp_same: "slerp between equal rotations", "Quaternion::slerp";
        slerp_right: "slerp on a right angle", "Quaternion::slerp";
    );
    vc::driver::main(v);
}
