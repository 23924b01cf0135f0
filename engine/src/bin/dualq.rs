//! C24..C27: dual quaternions.
use num::{One, Zero};
use static_math::dual_quaternion::DualQuaternion;
use static_math::matrix3x3::M33;
use static_math::matrix4x4::M44;
use static_math::quaternion::Quaternion;
use static_math::transformations::{matrix_log, matrix_log6, rotation_to_euler};
use static_math::{V3, V4};
use vc::base::*;
use vcore::contracts;

type D<S> = DualQuaternion<S>;
/// real and dual part
type DA<S> = (Q4<S>, Q4<S>);

fn d_new<S: Sc>(a: &DA<S>) -> D<S> {
    D::new(q_new(&a.0), q_new(&a.1))
}
fn d_arr<S: Sc>(d: D<S>) -> DA<S> {
    (q_arr(d.real()), q_arr(d.dual()))
}
fn d_mul<S: Sc>(a: &DA<S>, b: &DA<S>) -> DA<S> {
    (ham(&a.0, &b.0), q_add(&ham(&a.0, &b.1), &ham(&a.1, &b.0)))
}
fn d_map<S: Sc>(a: &DA<S>, f: impl Fn(&Q4<S>) -> Q4<S>) -> DA<S> {
    (f(&a.0), f(&a.1))
}
fn d_one<S: Sc>() -> DA<S> {
    (q_one(), [S::zero(); 4])
}
fn pure<S: Sc>(v: &[S; 3]) -> Q4<S> {
    [S::zero(), v[0], v[1], v[2]]
}
/// the unit dual quaternion of the rigid motion x -> R(q) x + t
fn motion<S: Sc>(q: &Q4<S>, t: &[S; 3]) -> DA<S> {
    (*q, q_scale(&ham(&pure(t), q), r(1, 2)))
}
fn d_conj<S: Sc>(a: &DA<S>) -> DA<S> {
    d_map(a, q_conj)
}
fn eqd<S: Sc>(cx: &mut Cx, l: &str, a: &DA<S>, b: &DA<S>) {
    cx.eqs(&format!("{}: real", l), &a.0, &b.0);
    cx.eqs(&format!("{}: dual", l), &a.1, &b.1);
}
fn vars<S: Sc>(cx: &mut Cx, n: &str) -> DA<S> {
    (cx.arr::<S, 4>(n), cx.arr::<S, 4>(&format!("{}e", n)))
}
/// any unit dual quaternion, through its rotation and translation
fn any_unit<S: Sc>(cx: &mut Cx, n: &str) -> (Q4<S>, [S; 3]) {
    (cx.unit::<S, 4>(n), cx.arr::<S, 3>(&format!("{}t", n)))
}
/// the same with the flag set
fn flagged<S: Sc>(q: &Q4<S>, t: &[S; 3]) -> D<S> {
    D::new_from_rot_trans(&q_new(q), &V3::new(*t))
}
fn vmul<S: Sc>(a: &[S; 3], k: S) -> [S; 3] {
    a.map(|x| x * k)
}
fn vadd<S: Sc>(a: &[S; 3], b: &[S; 3]) -> [S; 3] {
    std::array::from_fn(|i| a[i] + b[i])
}

// ---------------------------------------------------------------- C24
fn build<S: Sc>(cx: &mut Cx) {
    let a = vars::<S>(cx, "a");
    eqd(cx, "new", &d_arr(d_new(&a)), &a);
    eqd(cx, "new_from_vecs", &d_arr(D::new_from_vecs(&V4::new(a.0), &V4::new(a.1))), &a);
    eqd(cx, "one", &d_arr(D::<S>::one()), &d_one());
    eqd(cx, "One::one", &d_arr(<D<S> as One>::one()), &d_one());
    let z = ([S::zero(); 4], [S::zero(); 4]);
    eqd(cx, "zero", &d_arr(D::<S>::zero()), &z);
    eqd(cx, "Zero::zero", &d_arr(<D<S> as Zero>::zero()), &z);
}
fn ring<S: Sc>(cx: &mut Cx) {
    let (a, b) = (vars::<S>(cx, "a"), vars::<S>(cx, "b"));
    let k = cx.var::<S>("k");
    let (p, q) = (d_new(&a), d_new(&b));
    eqd(cx, "p + q", &d_arr(p + q), &(q_add(&a.0, &b.0), q_add(&a.1, &b.1)));
    eqd(cx, "p - q", &d_arr(p - q), &(q_sub(&a.0, &b.0), q_sub(&a.1, &b.1)));
    eqd(cx, "-p", &d_arr(-p), &d_map(&a, |x| q_scale(x, -S::one())));
    eqd(cx, "p * k", &d_arr(p * k), &d_map(&a, |x| q_scale(x, k)));
    eqd(cx, "p * q", &d_arr(p * q), &d_mul(&a, &b));
    eqd(cx, "conj", &d_arr(p.conj()), &d_conj(&a));
    eqd(cx, "conj_as_dual", &d_arr(p.conj_as_dual()), &(a.0, q_scale(&a.1, -S::one())));
    eqd(cx, "conj_combined", &d_arr(p.conj_combined()), &(q_conj(&a.0), q_scale(&q_conj(&a.1), -S::one())));
    eqd(cx, "norm", &d_arr(p.norm()), &d_mul(&a, &d_conj(&a)));
    eqd(cx, "conj of a product", &d_arr((p * q).conj()), &d_arr(q.conj() * p.conj()));
}
fn assoc<S: Sc>(cx: &mut Cx) {
    let (a, b, c) = (vars::<S>(cx, "a"), vars::<S>(cx, "b"), vars::<S>(cx, "c"));
    let (p, q, r) = (d_new(&a), d_new(&b), d_new(&c));
    eqd(cx, "associative", &d_arr((p * q) * r), &d_arr(p * (q * r)));
    eqd(cx, "left distributive", &d_arr(p * (q + r)), &d_arr(p * q + p * r));
    eqd(cx, "right distributive", &d_arr((p + q) * r), &d_arr(p * r + q * r));
    eqd(cx, "one", &d_arr(D::<S>::one() * p), &a);
    eqd(cx, "one on the right", &d_arr(p * D::<S>::one()), &a);
}
fn is_inverse<S: Sc>(cx: &mut Cx, what: &str, d: D<S>) {
    let (a, i) = (d_arr(d), d_arr(d.inverse()));
    eqd(cx, &format!("{}: d * inverse", what), &d_mul(&a, &i), &d_one());
    eqd(cx, &format!("{}: inverse * d", what), &d_mul(&i, &a), &d_one());
}
fn inverse<S: Sc>(cx: &mut Cx) {
    let a = vars::<S>(cx, "a");
    let z = D::new(Quaternion::<S>::zero(), q_new(&a.1));
    cx.panics::<S, _>("no inverse without a real part", || z.inverse());
    cx.assume::<S>(dotp(&a.0, &a.0) >= eps());
    is_inverse(cx, "any", d_new(&a));
}
fn inverse_flagged<S: Sc>(cx: &mut Cx) {
    let ((a, s), (b, t)) = (any_unit::<S>(cx, "a"), any_unit::<S>(cx, "b"));
    let (p, q) = (flagged(&a, &s), flagged(&b, &t));
    is_inverse(cx, "new_from_rot_trans", p);
    is_inverse(cx, "new_from_rotation", D::new_from_rotation(&q_new(&a)));
    is_inverse(cx, "new_from_point", D::new_from_point(&V3::new(s)));
    is_inverse(cx, "new_from_translation", D::new_from_translation(&V3::new(s)));
    is_inverse(cx, "one", D::<S>::one());
    is_inverse(cx, "product", p * q);
    is_inverse(cx, "negation", -p);
    is_inverse(cx, "conj", p.conj());
    is_inverse(cx, "conj_as_dual", p.conj_as_dual());
    is_inverse(cx, "conj_combined", p.conj_combined());
    is_inverse(cx, "inverse", p.inverse());
}
fn inverse_flagged2<S: Sc>(cx: &mut Cx) {
    let ((a, s), (b, t)) = (any_unit::<S>(cx, "a"), any_unit::<S>(cx, "b"));
    let (p, q) = (flagged(&a, &s), flagged(&b, &t));
    let k = cx.var::<S>("k");
    cx.assume::<S>(k * k >= eps());
    is_inverse(cx, "scaled", p * k);
    let c = q_add(&a, &b);
    cx.assume::<S>(dotp(&c, &c) >= eps());
    is_inverse(cx, "sum", p + q);
}
fn inverse_flagged3<S: Sc>(cx: &mut Cx) {
    let ((a, s), (b, t)) = (any_unit::<S>(cx, "a"), any_unit::<S>(cx, "b"));
    let (p, q) = (flagged(&a, &s), flagged(&b, &t));
    let c = q_sub(&a, &b);
    cx.assume::<S>(dotp(&c, &c) >= eps());
    is_inverse(cx, "difference", p - q);
}
fn division<S: Sc>(cx: &mut Cx) {
    let (a, b) = (vars::<S>(cx, "a"), vars::<S>(cx, "b"));
    cx.assume::<S>(dotp(&b.0, &b.0) >= eps());
    let q = d_new(&a) / d_new(&b);
    eqd(cx, "a / b * b", &d_mul(&d_arr(q), &b), &a);
    let (u, t) = any_unit::<S>(cx, "u");
    let f = flagged(&u, &t);
    eqd(cx, "a / u * u, flagged", &d_mul(&d_arr(d_new(&a) / f), &d_arr(f)), &a);
}
fn equality<S: Sc>(cx: &mut Cx) {
    let (a, b) = (vars::<S>(cx, "a"), vars::<S>(cx, "b"));
    if d_new(&a) == d_new(&b) {
        eqd(cx, "equal: components", &a, &b);
    } else {
        let any = (0..4).any(|i| a.0[i] != b.0[i]) || (0..4).any(|i| a.1[i] != b.1[i]);
        cx.holds::<S>("not equal: some component differs", any);
    }
}
fn equality_flags<S: Sc>(cx: &mut Cx) {
    let (u, t) = any_unit::<S>(cx, "u");
    let (p, q) = (d_new(&motion(&u, &t)), flagged(&u, &t));
    cx.holds::<S>("the flag does not matter", p == q && q == p && q == q && p == p);
    cx.holds::<S>("one", D::<S>::one() == d_new(&d_one()));
}
fn zero_test<S: Sc>(cx: &mut Cx) {
    let a = vars::<S>(cx, "a");
    let z = [S::zero(); 4];
    if d_new(&a).is_zero() {
        eqd(cx, "is_zero: components", &a, &(z, z));
    } else {
        let any = (0..4).any(|i| a.0[i] != S::zero()) || (0..4).any(|i| a.1[i] != S::zero());
        cx.holds::<S>("not is_zero: some component", any);
    }
    cx.holds::<S>("zero is_zero", D::<S>::zero().is_zero());
}

// ---------------------------------------------------------------- C25
/// d is the rigid motion (q, t): every way of reading it
fn reads<S: Sc>(cx: &mut Cx, what: &str, d: D<S>, q: &Q4<S>, t: &[S; 3]) {
    let m = q_mat(q);
    let (m1, t1) = d.to_rotation_translation();
    cx.eqm(&format!("{}: rotation", what), m3(m1), m);
    cx.eqs(&format!("{}: translation", what), &v3(t1), t);
    cx.eqs(&format!("{}: get_translation", what), &v3(d.get_translation()), t);
    let (q2, t2) = d.to_quaternion_translation();
    cx.eqm(&format!("{}: quaternion", what), q_mat(&q_arr(q2)), m);
    cx.eqs(&format!("{}: quaternion's translation", what), &v3(t2), t);
    cx.eqm(&format!("{}: homogeneous", what), m4(d.to_homogeneous()), homog(&m, t));
}
fn builders<S: Sc>(cx: &mut Cx) {
    let (q, t) = any_unit::<S>(cx, "q");
    let z = [S::zero(); 3];
    reads(cx, "unit", d_new(&motion(&q, &t)), &q, &t);
    reads(cx, "new_from_rot_trans", D::new_from_rot_trans(&q_new(&q), &V3::new(t)), &q, &t);
    reads(cx, "new_from_array", D::new_from_array([q[0], q[1], q[2], q[3], t[0], t[1], t[2]]), &q, &t);
    reads(cx, "new_from_rotation", D::new_from_rotation(&q_new(&q)), &q, &z);
    reads(cx, "new_from_translation", D::new_from_translation(&V3::new(t)), &q_one(), &t);
    reads(cx, "one", D::<S>::one(), &q_one(), &z);
    let p = D::new_from_point(&V3::new(t));
    eqd(cx, "new_from_point", &d_arr(p), &(q_one(), pure(&t)));
    eqd(cx, "the dual part is half t q", &d_arr(D::new_from_rot_trans(&q_new(&q), &V3::new(t))), &motion(&q, &t));
}
fn rot_any_norm<S: Sc>(cx: &mut Cx) {
    let a = cx.arr::<S, 4>("a");
    let t = cx.arr::<S, 3>("t");
    cx.panics::<S, _>("a zero rotation is refused", || {
        D::new_from_rot_trans(&Quaternion::<S>::zero(), &V3::new(t))
    });
    let n = dotp(&a, &a).sqrt();
    cx.assume::<S>(n >= eps());
    let u = q_scale(&a, S::one() / n);
    let d = D::new_from_rot_trans(&q_new(&a), &V3::new(t));
    eqd(cx, "normalized rotation", &d_arr(d), &motion(&u, &t));
}
fn from_homog<S: Sc>(cx: &mut Cx) {
    let (q, t) = any_unit::<S>(cx, "q");
    let d = D::new_from_homogeneous(&M44::new(homog(&q_mat(&q), &t)));
    reads(cx, "new_from_homogeneous", d, &q, &t);
    is_inverse(cx, "new_from_homogeneous", d);
    let a = d_arr(d);
    cx.eq("norm one", dotp(&a.0, &a.0), S::one());
}
fn from_rot<S: Sc>(cx: &mut Cx) {
    let q = cx.unit::<S, 4>("q");
    let d = D::new_from_rotation_matrix(&M33::new(q_mat(&q)));
    reads(cx, "new_from_rotation_matrix", d, &q, &[S::zero(); 3]);
    is_inverse(cx, "new_from_rotation_matrix", d);
}
fn products<S: Sc>(cx: &mut Cx) {
    let ((a, s), (b, t)) = (any_unit::<S>(cx, "a"), any_unit::<S>(cx, "b"));
    let (p, q) = (d_new(&motion(&a, &s)), d_new(&motion(&b, &t)));
    let (h, k) = (homog(&q_mat(&a), &s), homog(&q_mat(&b), &t));
    cx.eqm("product", m4((p * q).to_homogeneous()), mm(&h, &k));
    cx.eqm("conjugate: inverse", mm(&m4(p.conj().to_homogeneous()), &h), id());
    cx.eqm("inverse: inverse", mm(&m4(p.inverse().to_homogeneous()), &h), id());
    let (p, q) = (flagged(&a, &s), flagged(&b, &t));
    cx.eqm("product, flagged", m4((p * q).to_homogeneous()), mm(&h, &k));
    cx.eqm("inverse, flagged", mm(&m4(p.inverse().to_homogeneous()), &h), id());
}
fn unit_law<S: Sc>(cx: &mut Cx, what: &str, d: D<S>) {
    let a = d_arr(d);
    cx.eq(&format!("{}: real part of norm one", what), dotp(&a.0, &a.0), S::one());
    cx.eq(&format!("{}: dual part orthogonal", what), dotp(&a.0, &a.1), S::zero());
}
fn flags<S: Sc>(cx: &mut Cx) {
    let (q, t) = any_unit::<S>(cx, "q");
    let all = [
        ("new_from_rot_trans", D::new_from_rot_trans(&q_new(&q), &V3::new(t))),
        ("new_from_rotation", D::new_from_rotation(&q_new(&q))),
        ("new_from_point", D::new_from_point(&V3::new(t))),
        ("new_from_translation", D::new_from_translation(&V3::new(t))),
        ("one", D::<S>::one()),
    ];
    for (n, d) in all {
        cx.holds::<S>(&format!("{}: is_normalized", n), d.is_normalized());
        unit_law(cx, n, d);
    }
}
/// a result that says it is normalized is
fn flags_product<S: Sc>(cx: &mut Cx) {
    let ((a, s), (b, t)) = (any_unit::<S>(cx, "a"), any_unit::<S>(cx, "b"));
    let d = flagged(&a, &s) * flagged(&b, &t);
    cx.holds::<S>("is_normalized", d.is_normalized());
    unit_law(cx, "product", d);
}
fn flags_neg<S: Sc>(cx: &mut Cx) {
    let (a, s) = any_unit::<S>(cx, "a");
    let d = -flagged(&a, &s);
    cx.holds::<S>("is_normalized", d.is_normalized());
    unit_law(cx, "negation", d);
}
fn flags_conj<S: Sc>(cx: &mut Cx) {
    let (a, s) = any_unit::<S>(cx, "a");
    let d = flagged(&a, &s).conj();
    cx.holds::<S>("is_normalized", d.is_normalized());
    unit_law(cx, "conj", d);
}
fn flags_scaled<S: Sc>(cx: &mut Cx) {
    // real part of a norm that is neither one nor zero: not normalized
    let (q, t) = any_unit::<S>(cx, "q");
    let k = cx.var::<S>("k");
    cx.assume::<S>(k >= eps());
    cx.assume::<S>((k - S::one()).abs() >= r::<S>(4, 1) * eps::<S>() * (k + S::one()));
    cx.holds::<S>("scaled: not normalized", !(flagged(&q, &t) * k).is_normalized());
}
fn flags_sum<S: Sc>(cx: &mut Cx) {
    let (q, t) = any_unit::<S>(cx, "q");
    let d = flagged(&q, &t);
    cx.holds::<S>("sum: not normalized", !(d + d).is_normalized());
    cx.holds::<S>("p - (-p): not normalized", !(d - (-d)).is_normalized());
}
fn normalize<S: Sc>(cx: &mut Cx) {
    let a = vars::<S>(cx, "a");
    let n = dotp(&a.0, &a.0).sqrt();
    match d_new(&a).normalize() {
        Some(d) => {
            cx.holds::<S>("not numerically zero", n >= eps());
            let b = d_arr(d);
            cx.eqs("the real part scaled to norm one", &b.0, &q_scale(&a.0, S::one() / n));
            unit_law(cx, "normalize", d);
            cx.holds::<S>("is_normalized", d.is_normalized());
            eqd(cx, "twice", &d_arr(d.normalize().unwrap()), &b);
        }
        None => cx.holds::<S>("numerically zero", n < eps()),
    }
}
fn normalize_inv<S: Sc>(cx: &mut Cx) {
    let a = vars::<S>(cx, "a");
    let n = dotp(&a.0, &a.0).sqrt();
    cx.assume::<S>(n >= eps());
    is_inverse(cx, "normalize", d_new(&a).normalize().unwrap());
}
fn normalize_scaled<S: Sc>(cx: &mut Cx) {
    // a multiple of a rigid motion: that motion
    let (q, t) = any_unit::<S>(cx, "q");
    let k = cx.var::<S>("k");
    cx.assume::<S>(k >= eps());
    let e = motion(&q, &t);
    let d = d_new(&d_map(&e, |x| q_scale(x, k))).normalize();
    cx.holds::<S>("normalizes", d.is_some());
    eqd(cx, "the motion itself", &d_arr(d.unwrap()), &e);
    eqd(cx, "of a flagged one", &d_arr(flagged(&q, &t).normalize().unwrap()), &e);
}

// ---------------------------------------------------------------- C26
fn point<S: Sc>(cx: &mut Cx) {
    let (q, t) = any_unit::<S>(cx, "q");
    let p = cx.arr::<S, 3>("p");
    let x = v3(d_new(&motion(&q, &t)).transform_point(&V3::new(p)));
    cx.eqs("R p + t", &x, &vadd(&mv(&q_mat(&q), &p), &t));
}
fn point_rot<S: Sc>(cx: &mut Cx) {
    let q = cx.unit::<S, 4>("q");
    let p = cx.arr::<S, 3>("p");
    let z = [S::zero(); 3];
    let e = mv(&q_mat(&q), &p);
    cx.eqs("pure rotation", &v3(d_new(&motion(&q, &z)).transform_point(&V3::new(p))), &e);
    cx.eqs("new_from_rotation", &v3(D::new_from_rotation(&q_new(&q)).transform_point(&V3::new(p))), &e);
    cx.eqs("one", &v3(D::<S>::one().transform_point(&V3::new(p))), &p);
}
fn point_linear<S: Sc>(cx: &mut Cx) {
    // whatever is done with the translation, the point itself is rotated
    let (q, t) = any_unit::<S>(cx, "q");
    let (p, w) = (cx.arr::<S, 3>("p"), cx.arr::<S, 3>("w"));
    let d = d_new(&motion(&q, &t));
    let (x, y) = (v3(d.transform_point(&V3::new(p))), v3(d.transform_point(&V3::new(vadd(&p, &w)))));
    let e = mv(&q_mat(&q), &w);
    cx.eqs("differences of points are rotated", &[y[0] - x[0], y[1] - x[1], y[2] - x[2]], &e);
    let f = v3(flagged(&q, &t).transform_point(&V3::new(p)));
    cx.eqs("the flag does not matter", &f, &x);
}
fn point_origin<S: Sc>(cx: &mut Cx) {
    // the known finding: the origin goes to 0 instead of t; anything else is new
    let (q, t) = any_unit::<S>(cx, "q");
    let z = [S::zero(); 3];
    let x = v3(d_new(&motion(&q, &t)).transform_point(&V3::new(z)));
    if x[0] == S::zero() && x[1] == S::zero() && x[2] == S::zero() {
        cx.eqs("the origin goes to 0 or t", &x, &z);
    } else {
        cx.eqs("the origin goes to 0 or t", &x, &t);
    }
}

// ---------------------------------------------------------------- C27
/// the unit dual quaternion of the screw motion: line (l, m), angle, displacement
fn screw_dq<S: Sc>(l: &[S; 3], m: &[S; 3], th: S, d: S) -> DA<S> {
    let (s, c) = (th / r(2, 1)).sin_cos();
    let h = d / r(2, 1);
    let v = vadd(&vmul(m, s), &vmul(l, h * c));
    ([c, l[0] * s, l[1] * s, l[2] * s], [-h * s, v[0], v[1], v[2]])
}
/// a line: unit direction l through the point w
fn line<S: Sc>(cx: &mut Cx) -> ([S; 3], [S; 3], [S; 3]) {
    let l = cx.unit::<S, 3>("l");
    let w = cx.arr::<S, 3>("w");
    (l, w, cross(&w, &l))
}
fn screw<S: Sc>(cx: &mut Cx) {
    let (l, w, m) = line::<S>(cx);
    let th = cx.any_angle::<S>("th", 2);
    let d = cx.var::<S>("d");
    let dq = D::new_from_screw_parameters(&V3::new(l), &V3::new(m), th, d);
    eqd(cx, "cos + sin", &d_arr(dq), &screw_dq(&l, &m, th, d));
    unit_law(cx, "unit", dq);
    // rotate about the line, move along it: x -> R (x - w) + w + d l
    let (s, c) = th.sin_cos();
    let rot = rodrigues(&l, s, c);
    let x = cx.arr::<S, 3>("x");
    let h = m4(dq.to_homogeneous());
    let y = mv(&h, &[x[0], x[1], x[2], S::one()]);
    let dx: [S; 3] = std::array::from_fn(|i| x[i] - w[i]);
    let e = vadd(&vadd(&mv(&rot, &dx), &w), &vmul(&l, d));
    cx.eqs("the screw motion", &y[..3], &e);
}
fn screw_read<S: Sc>(cx: &mut Cx) {
    let (l, _, m) = line::<S>(cx);
    let th = cx.angle::<S>("th", (0, 1), (2, 1), 2);
    let d = cx.var::<S>("d");
    cx.assume::<S>(th >= eps());
    let (l2, m2, th2, d2) = d_new(&screw_dq(&l, &m, th, d)).get_screw_parameters();
    cx.eqs("axis", &v3(l2), &l);
    cx.eqs("moment", &v3(m2), &m);
    cx.eq("angle", th2, th);
    cx.eq("displacement", d2, d);
    let q = D::new_from_screw_parameters(&l2, &m2, th2, d2);
    eqd(cx, "built again", &d_arr(q), &screw_dq(&l, &m, th, d));
}
fn screw_read_shift<S: Sc>(cx: &mut Cx) {
    let t = cx.arr::<S, 3>("t");
    let n = dotp(&t, &t).sqrt();
    cx.assume::<S>(n >= eps());
    let (l, _, th, d) = D::new_from_translation(&V3::new(t)).get_screw_parameters();
    cx.eq("no rotation", th, S::zero());
    cx.eq("distance", d, n);
    cx.eqs("along the direction", &vmul(&v3(l), d), &t);
}
fn powers<S: Sc>(cx: &mut Cx) {
    let (l, _, m) = line::<S>(cx);
    let th = cx.angle::<S>("th", (0, 1), (2, 1), 2);
    let d = cx.var::<S>("d");
    let t = cx.var::<S>("t");
    cx.assume::<S>(th >= eps());
    let e = screw_dq(&l, &m, th, d);
    let dq = d_new(&e);
    eqd(cx, "d^t", &d_arr(dq.pow(t)), &screw_dq(&l, &m, t * th, t * d));
    eqd(cx, "d^0", &d_arr(dq.pow(S::zero())), &d_one());
    eqd(cx, "d^1", &d_arr(dq.pow(S::one())), &e);
    eqd(cx, "d^2", &d_arr(dq.pow(r(2, 1))), &d_mul(&e, &e));
    eqd(cx, "d^-1", &d_arr(dq.pow(-S::one())), &d_conj(&e));
}
fn powers_shift<S: Sc>(cx: &mut Cx) {
    let p = cx.arr::<S, 3>("p");
    let t = cx.var::<S>("t");
    let z = motion(&q_one(), &vmul(&p, t));
    eqd(cx, "power of a translation", &d_arr(D::new_from_translation(&V3::new(p)).pow(t)), &z);
    eqd(cx, "power of one", &d_arr(D::<S>::one().pow(t)), &d_one());
}
/// end = begin * relative screw; the shorter of the two relative motions is taken
fn lerp<S: Sc>(cx: &mut Cx, short: bool) {
    let (q, p) = any_unit::<S>(cx, "q");
    let (l, _, m) = line::<S>(cx);
    let th = if short {
        cx.angle::<S>("th", (0, 1), (1, 1), 2)
    } else {
        cx.angle::<S>("th", (1, 1), (2, 1), 2)
    };
    let d = cx.var::<S>("d");
    let t = cx.var::<S>("t");
    cx.assume::<S>(th >= eps());
    let b = motion(&q, &p);
    let e = d_mul(&b, &screw_dq(&l, &m, th, d));
    let tau = r::<S>(2, 1) * S::PI();
    if !short {
        cx.assume::<S>(tau - th >= eps());
    }
    // beyond a half-turn: the same motion backwards about the same line
    let g = if short {
        d_mul(&b, &screw_dq(&l, &m, t * th, t * d))
    } else {
        let nb = d_map(&b, |x| q_scale(x, -S::one()));
        let f = t * (tau - th);
        d_mul(&nb, &screw_dq(&vmul(&l, -S::one()), &vmul(&m, -S::one()), f, -t * d))
    };
    let x = D::screw_lerp(&d_new(&b), &d_new(&e), t);
    eqd(cx, "tau-th power of the relative screw", &d_arr(x), &g);
}
fn lerp_short<S: Sc>(cx: &mut Cx) {
    lerp::<S>(cx, true)
}
fn lerp_long<S: Sc>(cx: &mut Cx) {
    lerp::<S>(cx, false)
}
fn lerp_flagged<S: Sc>(cx: &mut Cx) {
    let (q, p) = any_unit::<S>(cx, "q");
    let (l, _, m) = line::<S>(cx);
    let th = cx.angle::<S>("th", (0, 1), (1, 1), 2);
    let d = cx.var::<S>("d");
    let t = cx.var::<S>("t");
    cx.assume::<S>(th >= eps());
    let b = motion(&q, &p);
    let e = d_mul(&b, &screw_dq(&l, &m, th, d));
    let x = D::screw_lerp(&flagged(&q, &p), &d_new(&e), t);
    eqd(cx, "begin flagged", &d_arr(x), &d_mul(&b, &screw_dq(&l, &m, t * th, t * d)));
}
fn lerp_ends<S: Sc>(cx: &mut Cx) {
    let (q, p) = any_unit::<S>(cx, "q");
    let (l, _, m) = line::<S>(cx);
    let th = cx.angle::<S>("th", (0, 1), (2, 1), 2);
    let d = cx.var::<S>("d");
    cx.assume::<S>(th >= eps());
    cx.assume::<S>(r::<S>(2, 1) * S::PI() - th >= eps());
    cx.assume::<S>(th != S::PI());
    let b = motion(&q, &p);
    let e = d_mul(&b, &screw_dq(&l, &m, th, d));
    let (s, c) = (d_new(&b), d_new(&e));
    cx.eqm("tau = 0", m4(D::screw_lerp(&s, &c, S::zero()).to_homogeneous()), m4(s.to_homogeneous()));
    cx.eqm("tau = 1", m4(D::screw_lerp(&s, &c, S::one()).to_homogeneous()), m4(c.to_homogeneous()));
}
fn lerp_shift<S: Sc>(cx: &mut Cx) {
    // the same orientation at both ends: a translation at constant speed
    let (q, p) = any_unit::<S>(cx, "q");
    let w = cx.arr::<S, 3>("w");
    let t = cx.var::<S>("t");
    let e: [S; 3] = std::array::from_fn(|i| p[i] + t * (w[i] - p[i]));
    let (b, c) = (d_new(&motion(&q, &p)), d_new(&motion(&q, &w)));
    eqd(cx, "translation", &d_arr(D::screw_lerp(&b, &c, t)), &motion(&q, &e));
    let x = D::screw_lerp(&b, &(-c), t);
    cx.eqm("translation, other sign", m4(x.to_homogeneous()), homog(&q_mat(&q), &e));
}

/// a rotation about a line through the origin and a slide along it: half the angle and half the slide
fn log_axis<S: Sc>(cx: &mut Cx) {
    let (l, _, _) = line::<S>(cx);
    let th = cx.angle::<S>("th", (0, 1), (2, 1), 2);
    let d = cx.var::<S>("d");
    cx.assume::<S>(th >= eps());
    cx.assume::<S>((th * r(1, 2)).sin() >= eps::<S>() + eps());
    let o = [S::zero(), S::zero(), S::zero()];
    let e = screw_dq(&l, &o, th, d);
    cx.holds::<S>("None without the flag", d_new(&e).log().is_none());
    match flagged(&e.0, &vmul(&l, d)).log() {
        None => cx.holds::<S>("Some", false),
        Some(x) => {
            let g = d_arr(x);
            let half = |s: S| -> Q4<S> { let v = vmul(&l, s * r(1, 2)); [S::zero(), v[0], v[1], v[2]] };
            cx.eqs("half the angle about the axis", &g.0, &half(th));
            cx.eqs("half the slide along the axis", &g.1, &half(d));
        }
    }
}
/// flags aside: one with a real part of norm one and a dual part orthogonal to it, and not one far from that
fn unflagged<S: Sc>(cx: &mut Cx) {
    let (q, p) = any_unit::<S>(cx, "q");
    let e = motion(&q, &p);
    cx.holds::<S>("a unit one", d_new(&e).is_normalized());
    let k = cx.var::<S>("k");
    let k2 = k * k;
    cx.assume::<S>(k2 >= r(1, 1000));
    cx.assume::<S>((k2 - S::one()).abs() >= r(1, 1000));
    // no translation here, or each component of the dual part doubles the number of paths
    let o = [S::zero(), S::zero(), S::zero()];
    cx.holds::<S>("a multiple", !d_new(&d_map(&motion(&q, &o), |x| q_scale(x, k))).is_normalized());
}

// ---------------------------------------------------------------- C32
// Every division, root, logarithm and inverse cosine the code executes is an obligation by itself
// (section 1 of DESIGN.md); the explicit ones only say that the result is no NaN constant.
fn numbers<S: Sc>(cx: &mut Cx, what: &str, x: &[S]) {
    let nan = x.iter().any(|x| x.is_nan());
    cx.holds::<S>(&format!("{} is a number", what), !nan);
}
fn d_numbers<S: Sc>(cx: &mut Cx, what: &str, d: D<S>) {
    let (a, b) = d_arr(d);
    numbers(cx, what, &a);
    numbers(cx, what, &b);
}
/// every x with |x| <= 1e-6
fn off<S: Sc>(cx: &mut Cx, n: &str) -> S {
    cx.unit::<S, 2>(n)[0] * r(1, 1_000_000)
}
/// every quaternion whose norm is within 1e-6 of one
fn near_unit<S: Sc>(cx: &mut Cx, n: &str) -> Q4<S> {
    let e = off::<S>(cx, &format!("{}off", n));
    let u = cx.unit::<S, 4>(n);
    q_scale(&u, S::one() + e)
}
/// every 3x3 matrix whose entries are within 1e-6 of those of a rotation
fn near_rot<S: Sc>(cx: &mut Cx) -> A<S, 3> {
    let u = cx.unit::<S, 4>("u");
    let m = q_mat(&u);
    std::array::from_fn(|i| std::array::from_fn(|j| m[i][j] + off::<S>(cx, &format!("e{}{}", i, j))))
}
fn safe_slerp<S: Sc>(cx: &mut Cx) {
    let (a, b) = (near_unit::<S>(cx, "a"), near_unit::<S>(cx, "b"));
    let t = cx.var::<S>("t");
    numbers(cx, "slerp", &q_arr(Quaternion::slerp(q_new(&a), q_new(&b), t)));
}
fn safe_pow<S: Sc>(cx: &mut Cx) {
    let q = near_unit::<S>(cx, "q");
    let e = cx.arr::<S, 4>("d");
    let t = cx.var::<S>("t");
    // a full turn has no axis
    cx.assume::<S>(q[0] > -r::<S>(1, 2));
    d_numbers(cx, "pow", d_new(&(q, e)).pow(t));
}
fn safe_screw<S: Sc>(cx: &mut Cx) {
    let q = near_unit::<S>(cx, "q");
    let e = cx.arr::<S, 4>("d");
    cx.assume::<S>(q[0] > -r::<S>(1, 2));
    let (l, _, th, d) = d_new(&(q, e)).get_screw_parameters();
    numbers(cx, "screw axis", &v3(l));
    numbers(cx, "screw angle and displacement", &[th, d]);
}
fn safe_lerp<S: Sc>(cx: &mut Cx) {
    let (a, b) = (near_unit::<S>(cx, "a"), near_unit::<S>(cx, "b"));
    let (c, d) = (cx.arr::<S, 4>("c"), cx.arr::<S, 4>("d"));
    let t = cx.var::<S>("t");
    d_numbers(cx, "screw_lerp", D::screw_lerp(&d_new(&(a, c)), &d_new(&(b, d)), t));
}
fn safe_log<S: Sc>(cx: &mut Cx) {
    let m = near_rot::<S>(cx);
    for row in m3(matrix_log(&M33::new(m))) {
        numbers(cx, "matrix_log", &row);
    }
}
fn safe_log6<S: Sc>(cx: &mut Cx) {
    let m = near_rot::<S>(cx);
    let p = cx.arr::<S, 3>("p");
    for row in m4(matrix_log6(&M44::new(homog(&m, &p)))) {
        numbers(cx, "matrix_log6", &row);
    }
}
fn safe_from<S: Sc>(cx: &mut Cx) {
    let m = cx.mat::<S, 3>("m");
    numbers(cx, "from_rotation of any matrix", &q_arr(Quaternion::from_rotation(&M33::new(m))));
}
fn safe_euler<S: Sc>(cx: &mut Cx) {
    let m = cx.mat::<S, 3>("m");
    let (a, b, c) = rotation_to_euler(&M33::new(m));
    numbers(cx, "Euler angles of any matrix", &[a, b, c]);
}
fn safe_quat<S: Sc>(cx: &mut Cx) {
    let q = near_unit::<S>(cx, "q");
    let x = q_new(&q);
    let (u, a) = x.axis_angle();
    numbers(cx, "angle", &[a]);
    if let Some(u) = u {
        numbers(cx, "axis", &v3(u));
    }
    numbers(cx, "ln", &q_arr(x.ln()));
    numbers(cx, "sqrt", &q_arr(x.sqrt()));
}

fn main() {
    let mut v = vec![];
    let v = &mut v;
    contracts!(v, "C24";
        build: "dual quaternion constructors", "DualQuaternion::{new,new_from_vecs,one,zero,real,dual}";
        ring: "dual quaternion ring operations", "DualQuaternion::{add,sub,neg,mul<T>,mul,conj,conj_as_dual,conj_combined,norm}";
        ring: "dual quaternions over the integers", "DualQuaternion::{add,sub,neg,mul<T>,mul,conj,conj_as_dual,conj_combined,norm}", int = true;
        assoc: "dual quaternion ring laws", "DualQuaternion::{mul,add,one}";
        inverse: "dual quaternion inverse", "DualQuaternion::inverse, Quaternion::inverse";
        inverse_flagged: "inverse of flagged dual quaternions", "DualQuaternion::{inverse,new_from_rot_trans,new_from_rotation,new_from_point,new_from_translation,conj*}";
        inverse_flagged2: "inverse of scaled and added flagged dual quaternions", "DualQuaternion::{inverse,mul<T>,add}";
        inverse_flagged3: "inverse of a difference of flagged dual quaternions", "DualQuaternion::{inverse,sub}";
        division: "dual quaternion division", "DualQuaternion::{div,inverse,mul}";
        equality: "dual quaternion equality", "DualQuaternion::eq, Quaternion::eq";
        equality_flags: "dual quaternion equality and the flag", "DualQuaternion::eq";
        zero_test: "dual quaternion is_zero", "DualQuaternion::{is_zero,zero}";
    );
    contracts!(v, "C25";
        builders: "rigid motion in, rigid motion out", "DualQuaternion::{new_from_rot_trans,new_from_array,new_from_rotation,new_from_translation,new_from_point,to_rotation_translation,to_quaternion_translation,get_translation,to_homogeneous}";
        rot_any_norm: "rotation of any norm and translation", "DualQuaternion::new_from_rot_trans, Quaternion::normalize";
        from_homog: "homogeneous matrix in, homogeneous matrix out", "DualQuaternion::{new_from_homogeneous,to_homogeneous}, Quaternion::from_rotation";
        from_rot: "rotation matrix in, rotation matrix out", "DualQuaternion::new_from_rotation_matrix";
        products: "products and conjugates as homogeneous matrices", "DualQuaternion::{mul,conj,inverse,to_homogeneous}";
        flags: "flagged dual quaternions are unit ones", "DualQuaternion::{is_normalized,new_from_*}";
        flags_product: "is_normalized of products", "DualQuaternion::{is_normalized,mul}";
        flags_neg: "is_normalized of negations", "DualQuaternion::{is_normalized,neg}";
        flags_conj: "is_normalized of conjugates", "DualQuaternion::{is_normalized,conj}";
        flags_scaled: "is_normalized of multiples", "DualQuaternion::{is_normalized,mul<T>}";
        unflagged: "is_normalized without the flag", "DualQuaternion::is_normalized";
        flags_sum: "is_normalized of sums", "DualQuaternion::{is_normalized,add,sub}";
        normalize: "normalizing a dual quaternion", "DualQuaternion::normalize";
        normalize_inv: "inverse of a normalized dual quaternion", "DualQuaternion::{normalize,inverse}";
        normalize_scaled: "normalizing a multiple of a motion", "DualQuaternion::normalize";
    );
    contracts!(v, "C26";
        point: "transforming a point", "DualQuaternion::transform_point";
        point_rot: "transforming a point by a rotation", "DualQuaternion::transform_point";
        point_linear: "transforming differences of points", "DualQuaternion::transform_point";
        point_origin: "transforming the origin", "DualQuaternion::transform_point";
    );
    contracts!(v, "C27";
        screw: "dual quaternion of a screw", "DualQuaternion::{new_from_screw_parameters,to_homogeneous}";
        screw_read: "screw parameters read back", "DualQuaternion::{get_screw_parameters,new_from_screw_parameters,get_translation}, Quaternion::get_angle";
        screw_read_shift: "screw parameters of a translation", "DualQuaternion::get_screw_parameters";
        powers: "powers of a screw motion", "DualQuaternion::pow";
        powers_shift: "powers of a translation", "DualQuaternion::pow";
        log_axis: "logarithm of a rotation and slide about an axis through the origin", "DualQuaternion::log, Quaternion::axis_angle";
        lerp_short: "screw interpolation below a half-turn", "DualQuaternion::{screw_lerp,pow,inverse}";
        lerp_long: "screw interpolation beyond a half-turn", "DualQuaternion::{screw_lerp,pow,inverse}";
        lerp_flagged: "screw interpolation from a flagged start", "DualQuaternion::{screw_lerp,pow,inverse}";
        lerp_ends: "screw interpolation at its ends", "DualQuaternion::screw_lerp";
        lerp_shift: "screw interpolation of a translation", "DualQuaternion::screw_lerp";
    );
    contracts!(v, "C32";
        safe_slerp: "slerp of nearly unit quaternions", "Quaternion::slerp";
        safe_pow: "powers of nearly unit dual quaternions", "DualQuaternion::pow, Quaternion::get_angle";
        safe_screw: "screw parameters of nearly unit dual quaternions", "DualQuaternion::get_screw_parameters";
        safe_lerp: "screw interpolation of nearly unit dual quaternions", "DualQuaternion::{screw_lerp,pow,inverse}";
        safe_log: "logarithm of a nearly orthogonal matrix", "transformations::matrix_log";
        safe_log6: "logarithm of a nearly rigid motion", "transformations::{matrix_log6,matrix_log}";
        safe_from: "quaternion of any matrix", "Quaternion::from_rotation";
        safe_euler: "Euler angles of any matrix", "transformations::rotation_to_euler";
        safe_quat: "axis, angle, ln, sqrt of nearly unit quaternions", "Quaternion::{axis_angle,get_axis,get_angle,ln,sqrt}";
    );
    vc::driver::main(v);
}
