//! C09..C11: vectors and slices.
use num::Zero;
use static_math::errors::VectorErrors;
use static_math::slices_methods as sm;
use static_math::{DualQuaternion, M22, M33, M44, M55, M66, Quaternion, V2, V3, V4, V5, V6};
use vc::base::*;
use vcore::contracts;

/// n is the largest absolute value of the elements of x
fn is_max_abs<S: Sc>(cx: &mut Cx, label: &str, n: S, x: &[S]) {
    let mut p = S::one();
    for e in x {
        p = p * (n - *e) * (n + *e);
    }
    cx.eq(&format!("{}: absolute value of an element", label), p, S::zero());
    for e in x {
        cx.holds::<S>(&format!("{}: not below any element", label), n >= *e && n >= -*e);
    }
}
fn sum_abs<S: Sc>(x: &[S]) -> S {
    let mut m = S::zero();
    for e in x {
        m = m + if *e < S::zero() { -*e } else { *e };
    }
    m
}

macro_rules! vec_size {
    ($m:ident, $V:ident, $N:expr, $vn:expr) => {
        mod $m {
            use super::*;
            const N: usize = $N;
            fn a<S: Sc>(v: $V<S>) -> [S; N] {
                std::array::from_fn(|i| v[i])
            }
            pub fn arith<S: Sc>(cx: &mut Cx) {
                let (x, y) = (cx.arr::<S, N>("a"), cx.arr::<S, N>("b"));
                let k = cx.var::<S>("k");
                let (p, q) = ($V::new(x), $V::new(y));
                let f = |g: &dyn Fn(S, S) -> S| -> [S; N] { std::array::from_fn(|i| g(x[i], y[i])) };
                cx.eqs("a+b", &a(p + q), &f(&|s, t| s + t));
                cx.eqs("a-b", &a(p - q), &f(&|s, t| s - t));
                cx.eqs("-a", &a(-p), &f(&|s, _| -s));
                cx.eqs("a*k", &a(p * k), &f(&|s, _| s * k));
                let mut r = p;
                r += q;
                cx.eqs("a+=b", &a(r), &f(&|s, t| s + t));
                let mut r = p;
                r -= q;
                cx.eqs("a-=b", &a(r), &f(&|s, t| s - t));
                cx.eq("a.b", p * q, dotp(&x, &y));
                let w: $V<S> = $V::from(x);
                cx.eqs("from", &a(w), &x);
                cx.eqs("zeros", &a($V::<S>::zeros()), &[S::zero(); N]);
                cx.eqs("zero", &a(<$V<S> as Zero>::zero()), &[S::zero(); N]);
                cx.eqs("ones", &a($V::<S>::ones()), &[S::one(); N]);
                for i in 0..N {
                    let mut w = p;
                    w[i] = k;
                    let mut e = x;
                    e[i] = k;
                    cx.eqs("v[i] = k", &a(w), &e);
                }
                cx.holds::<S>("length", p.len() == N);
            }
            pub fn divk<S: Sc>(cx: &mut Cx) {
                let x = cx.arr::<S, N>("a");
                let k = cx.var::<S>("k");
                cx.assume::<S>(k != S::zero());
                let e: [S; N] = std::array::from_fn(|i| x[i] / k);
                cx.eqs("a/k", &a($V::new(x) / k), &e);
            }
            pub fn is_zero<S: Sc>(cx: &mut Cx) {
                let x = cx.arr::<S, N>("a");
                if $V::new(x).is_zero() {
                    cx.eqs("is_zero: entries", &x, &[S::zero(); N]);
                } else {
                    cx.holds::<S>("not is_zero: some entry non-zero", x.iter().any(|e| *e != S::zero()));
                }
            }
            pub fn equality<S: Sc>(cx: &mut Cx) {
                let (x, y) = (cx.arr::<S, N>("a"), cx.arr::<S, N>("b"));
                if $V::new(x) == $V::new(y) {
                    cx.eqs("equal: entries", &x, &y);
                } else {
                    cx.holds::<S>("not equal: some entry differs", (0..N).any(|i| x[i] != y[i]));
                }
            }
            pub fn norm2<S: Sc>(cx: &mut Cx) {
                let x = cx.arr::<S, N>("a");
                let n = $V::new(x).norm2();
                cx.eq("norm^2", n * n, dotp(&x, &x));
                cx.holds::<S>("norm >= 0", n >= S::zero());
            }
            pub fn norm_inf<S: Sc>(cx: &mut Cx) {
                let x = cx.arr::<S, N>("a");
                let n = $V::new(x).norm_inf();
                is_max_abs(cx, "infinity norm", n, &x);
            }
            pub fn norm_l<S: Sc>(cx: &mut Cx) {
                let x = cx.arr::<S, N>("a");
                let n = $V::new(x).norm_l();
                cx.eq("1-norm", n, sum_abs(&x));
            }
            pub fn normalize<S: Sc>(cx: &mut Cx) {
                let x = cx.arr::<S, N>("a");
                #[allow(unused_mut)]
                let mut v = $V::new(x);
                let n2 = dotp(&x, &x);
                match v.normalize() {
                    Ok(u) => {
                        cx.holds::<S>("Ok: norm not zero", n2 != S::zero());
                        let u = a(u);
                        cx.eq("norm one", dotp(&u, &u), S::one());
                        let n = n2.sqrt();
                        let e: [S; N] = std::array::from_fn(|i| x[i] / n);
                        cx.eqs("v / |v|", &u, &e);
                    }
                    Err(VectorErrors::Norm2IsZero) => cx.holds::<S>("Err: norm zero", n2 == S::zero()),
                }
                cx.eqs("argument untouched", &a(v), &x);
            }
            pub fn base(v: &mut Vec<Contract>) {
                contracts!(v, "C09";
                    arith: concat!($vn, " arithmetic"), concat!($vn, "::{add,sub,neg,mul,add_assign,sub_assign,from,zeros,ones,index_mut}");
                    divk: concat!($vn, " division by a scalar"), concat!($vn, "::div");
                    is_zero: concat!($vn, " is_zero"), concat!($vn, "::is_zero");
                    equality: concat!($vn, " =="), concat!($vn, "::eq");
                    norm2: concat!($vn, " norm2"), concat!($vn, "::norm2");
                    norm_inf: concat!($vn, " norm_inf"), concat!($vn, "::norm_inf, slices_methods::{norm_inf,find_max_min}");
                    norm_l: concat!($vn, " norm_l"), concat!($vn, "::norm_l, slices_methods::norm_l");
                    arith: concat!($vn, " over the integers: arithmetic"), concat!($vn, "::{add,sub,neg,mul,add_assign,sub_assign}"), int = true;
                    divk: concat!($vn, " over the integers: division by a scalar"), concat!($vn, "::div"), int = true;
                    norm_inf: concat!($vn, " over the integers: norm_inf"), concat!($vn, "::norm_inf"), int = true;
                    norm_l: concat!($vn, " over the integers: norm_l"), concat!($vn, "::norm_l"), int = true;
                );
                contracts!(v, "C10"; normalize: concat!($vn, " normalize"), concat!($vn, "::normalize"););
            }
        }
    };
}
vec_size!(v2, V2, 2, "V2");
vec_size!(v3, V3, 3, "V3");
vec_size!(v4, V4, 4, "V4");
vec_size!(v5, V5, 5, "V5");
vec_size!(v6, V6, 6, "V6");

fn constructors<S: Sc>(cx: &mut Cx) {
    let x = cx.arr::<S, 6>("a");
    cx.eqs("V2", &V2::new_from(x[0], x[1])[..], &x[..2]);
    cx.eqs("V3", &V3::new_from(x[0], x[1], x[2])[..], &x[..3]);
    cx.eqs("V4", &V4::new_from(x[0], x[1], x[2], x[3])[..], &x[..4]);
    cx.eqs("V5", &V5::new_from(x[0], x[1], x[2], x[3], x[4])[..], &x[..5]);
    cx.eqs("V6", &V6::new_from(x[0], x[1], x[2], x[3], x[4], x[5])[..], &x[..6]);
    for b in 0..256u32 {
        let f = |i: u32| b >> i & 1 == 1;
        let r = V4::new_from(f(0), f(1), f(2), f(3)) & V4::new_from(f(4), f(5), f(6), f(7));
        cx.holds::<S>("V4<bool> &", (0..4u32).all(|i| r[i as usize] == (f(i) && f(i + 4))));
    }
}
fn cross_c<S: Sc>(cx: &mut Cx) {
    let (x, y) = (cx.arr::<S, 3>("a"), cx.arr::<S, 3>("b"));
    let (p, q) = (V3::new(x), V3::new(y));
    let c = p.cross(q);
    cx.eqs("a x b", &c[..], &cross(&x, &y));
    cx.eqs("a x b = -(b x a)", &c[..], &(-(q.cross(p)))[..]);
    cx.eq("orthogonal to a", c * p, S::zero());
    cx.eq("orthogonal to b", c * q, S::zero());
    let (ex, ey, ez) = (V3::<S>::x_axis(), V3::<S>::y_axis(), V3::<S>::z_axis());
    cx.eqs("x x y = z", &ex.cross(ey)[..], &ez[..]);
    cx.eqs("y x z = x", &ey.cross(ez)[..], &ex[..]);
    cx.eqs("z x x = y", &ez.cross(ex)[..], &ey[..]);
    let (o, z) = (S::one(), S::zero());
    cx.eqs("x axis", &ex[..], &[o, z, z]);
    cx.eqs("y axis", &ey[..], &[z, o, z]);
    cx.eqs("z axis", &ez[..], &[z, z, o]);
}

// ---------------------------------------------------------------- C11
macro_rules! slice_len {
    ($m:ident, $N:expr, $n:expr) => {
        mod $m {
            use super::*;
            const N: usize = $N;
            /// long slices: the paths that sampled inputs follow
            const G: usize = if N > 7 { 160 } else { 0 };
            const B: Option<&str> = Some("slices of length 1 to 7, 8, 9, 12, 16, 17 and 33");
            pub fn max_min<S: Sc>(cx: &mut Cx) {
                let x = cx.arr::<S, N>("a");
                let r = sm::find_max_min(&x[..]);
                let ((mx, i), (mn, j)) = (r.max, r.min);
                cx.holds::<S>("positions in range", i < N && j < N);
                cx.eq("max is the element at its position", mx, x[i.min(N - 1)]);
                cx.eq("min is the element at its position", mn, x[j.min(N - 1)]);
                for k in 0..N {
                    cx.holds::<S>("max >= every element", mx >= x[k]);
                    cx.holds::<S>("min <= every element", mn <= x[k]);
                    if k < i {
                        cx.holds::<S>("first position of the max", x[k] < mx);
                    }
                    if k < j {
                        cx.holds::<S>("first position of the min", x[k] > mn);
                    }
                }
            }
            pub fn norms<S: Sc>(cx: &mut Cx) {
                let x = cx.arr::<S, N>("a");
                is_max_abs(cx, "norm_inf", sm::norm_inf(&x[..]), &x);
            }
            pub fn norms1<S: Sc>(cx: &mut Cx) {
                let x = cx.arr::<S, N>("a");
                cx.eq("norm_l", sm::norm_l(&x[..]), sum_abs(&x));
                let n = sm::norm2(&x[..]);
                cx.eq("norm2^2", n * n, dotp(&x, &x));
                cx.holds::<S>("norm2 >= 0", n >= S::zero());
            }
            /// absolute values kept as terms: no paths, complete for the length
            pub fn norms1t<S: Sc>(cx: &mut Cx) {
                let x = cx.arr::<S, N>("a");
                cx.eq("norm_l", sm::norm_l(&x[..]), x.iter().fold(S::zero(), |s, e| s + num::Float::abs(*e)));
                let n = sm::norm2(&x[..]);
                cx.eq("norm2^2", n * n, dotp(&x, &x));
                cx.holds::<S>("norm2 >= 0", n >= S::zero());
            }
            pub fn dots<S: Sc>(cx: &mut Cx) {
                let (x, y) = (cx.arr::<S, N>("a"), cx.arr::<S, N>("b"));
                cx.eq("dot", sm::dot(&x[..], &y[..]), dotp(&x, &y));
                cx.panics::<S, _>("different lengths are refused", || sm::dot(&x[..], &y[..N - 1]));
                cx.panics::<S, _>("different lengths are refused (first shorter)", || sm::dot(&x[..N - 1], &y[..]));
            }
            pub fn proj<S: Sc>(cx: &mut Cx) {
                let (x, y) = (cx.arr::<S, N>("a"), cx.arr::<S, N>("b"));
                let yy = dotp(&y, &y);
                cx.assume::<S>(yy != S::zero());
                let c = sm::project_x_over_y(&x[..], &y[..]);
                cx.eq("projection coefficient", c, dotp(&x, &y) / yy);
                let rest: Vec<S> = (0..N).map(|i| x[i] - c * y[i]).collect();
                cx.eq("the rest is orthogonal to y", dotp(&rest, &y), S::zero());
            }
            pub fn norml<S: Sc>(cx: &mut Cx) {
                let x = cx.arr::<S, N>("a");
                let n2 = dotp(&x, &x);
                cx.assume::<S>(n2 != S::zero());
                let mut u = x;
                sm::normalize(&mut u[..]);
                let n = n2.sqrt();
                let e: [S; N] = std::array::from_fn(|i| x[i] / n);
                cx.eqs("x / |x|", &u, &e);
                cx.eq("norm one", dotp(&u, &u), S::one());
            }
            pub fn base(v: &mut Vec<Contract>) {
                contracts!(v, "C11";
                    max_min: concat!("find_max_min, length ", $n), "slices_methods::find_max_min", bounded = B, guided = G;
                    norms: concat!("norm_inf, length ", $n), "slices_methods::norm_inf", bounded = B, guided = G;
                    norms1: concat!("norm_l and norm2, length ", $n), "slices_methods::{norm_l,norm2}", bounded = B, guided = G;
                    norms1t: concat!("norm_l and norm2 over terms, length ", $n), "slices_methods::{norm_l,norm2}", bounded = B, eager = true, paths = 40;
                    dots: concat!("dot, length ", $n), "slices_methods::dot", bounded = B;
                    proj: concat!("project_x_over_y, length ", $n), "slices_methods::project_x_over_y", bounded = B;
                    norml: concat!("normalize, length ", $n), "slices_methods::normalize", bounded = B;
                );
            }
        }
    };
}
slice_len!(s1, 1, "1");
slice_len!(s2, 2, "2");
slice_len!(s3, 3, "3");
slice_len!(s4, 4, "4");
slice_len!(s5, 5, "5");
slice_len!(s6, 6, "6");
slice_len!(s7, 7, "7");
slice_len!(s8, 8, "8");
slice_len!(s9, 9, "9");
slice_len!(s12, 12, "12");
slice_len!(s16, 16, "16");
slice_len!(s17, 17, "17");
slice_len!(s33, 33, "33");

/// lengths beyond those above, with one outstanding element at the places where
/// unrolling, chunking or buffering would show
fn long_lengths() -> Vec<usize> {
    let mut l: Vec<usize> = (34..=100).collect();
    for k in 7..13 {
        l.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    l.extend([150, 200, 300, 999, 1000, 1001, 10000]);
    // sizes the source itself names
    let src = include_str!("../../../../repo/src/slices_methods.rs");
    for t in src.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '-')) {
        if let Ok(n) = t.trim_end_matches("usize").replace('_', "").parse::<usize>() {
            if (34..100_000).contains(&n) {
                l.extend([n - 1, n, n + 1]);
            }
        }
    }
    l.sort();
    l.dedup();
    l
}
fn long_at<S: Sc>(cx: &mut Cx, n: usize, p: usize, v: &[S]) {
    let mut x: Vec<S> = (0..n).map(|i| v[i * 5 % 8] + v[8] * r(i as i128 % 13, 16)).collect();
    x[p] = v[9];
    let m = sm::find_max_min(&x[..]);
    let ((mx, i), (mn, j)) = (m.max, m.min);
    cx.scope(&format!("length {}, outstanding element at {}", n, p));
    cx.holds::<S>("positions in range", i < n && j < n);
    cx.eq("max is the element at its position", mx, x[i.min(n - 1)]);
    cx.eq("min is the element at its position", mn, x[j.min(n - 1)]);
    cx.holds::<S>("max and min", x.iter().all(|e| mx >= *e && mn <= *e));
    cx.holds::<S>("first positions", x[..i.min(n)].iter().all(|e| *e < mx) && x[..j.min(n)].iter().all(|e| *e > mn));
    let big = if num::Float::abs(mx) > num::Float::abs(mn) { num::Float::abs(mx) } else { num::Float::abs(mn) };
    cx.eq("norm_inf", sm::norm_inf(&x[..]), big);
    cx.eq("norm_l", sm::norm_l(&x[..]), x.iter().fold(S::zero(), |s, e| s + num::Float::abs(*e)));
    let n2 = sm::norm2(&x[..]);
    let xx = dotp(&x, &x);
    cx.eq("norm2^2", n2 * n2, xx);
    let y: Vec<S> = (0..n).map(|i| v[i * 3 % 8]).collect();
    cx.eq("dot", sm::dot(&x[..], &y[..]), dotp(&x, &y));
    cx.scope("");
}
fn long<S: Sc>(cx: &mut Cx) {
    let v = cx.vars::<S>("v", 10);
    if S::c_sym() {
        long_at(cx, 40, 39, &v);
        return;
    }
    // one of the lengths and places per sampled input, all of them in turn
    let (ls, k) = (long_lengths(), cx.k);
    let n = ls[k % ls.len()];
    let ps = [0, 1, n / 2, n - 2, n - 1, n - n % 4, n - n % 8, n - n % 16, n - n % 32, 33, 3, n / 4, n / 2 + 1];
    for p in ps {
        long_at(cx, n, p.min(n - 1), &v);
    }
}

// ---------------------------------------------------------------- C31
/// the text shows the rows, one per line, each entry to two decimals, and nothing is printed elsewhere
fn shows<S: Sc>(cx: &mut Cx, label: &str, f: impl FnOnce() -> String, rows: &[Vec<S>]) {
    let (text, other) = vc::quiet::catch(f);
    cx.holds::<S>(&format!("{}: nothing written to standard output", label), other.is_empty());
    let lines: Vec<Vec<(S, i64)>> = text.lines().map(|l| cx.shown::<S>(l)).filter(|l| !l.is_empty()).collect();
    cx.holds::<S>(&format!("{}: number of rows", label), lines.len() == rows.len());
    for (l, r) in lines.iter().zip(rows) {
        let e: Vec<S> = l.iter().map(|x| x.0).collect();
        cx.eqs(label, &e, r);
        cx.holds::<S>(&format!("{}: two decimals", label), l.iter().all(|x| x.1 == 2));
    }
}
macro_rules! shown {
    ($f:ident, $V:ident, $M:ident, $N:expr) => {
        fn $f<S: Sc>(cx: &mut Cx) {
            let x = cx.mat::<S, $N>("a");
            let rows: Vec<Vec<S>> = x.iter().map(|r| r.to_vec()).collect();
            shows(cx, "matrix", || $M::new(x).to_string(), &rows);
            shows(cx, "vector", || $V::new(x[0]).to_string(), &rows[..1]);
            // within other text and with a width asked for
            shows(cx, "matrix in a text", || format!("A = {:9} ({})", $M::new(x), 7), &rows);
        }
    };
}
shown!(shown2, V2, M22, 2);
shown!(shown3, V3, M33, 3);
shown!(shown4, V4, M44, 4);
shown!(shown5, V5, M55, 5);
shown!(shown6, V6, M66, 6);
fn shown_q<S: Sc>(cx: &mut Cx) {
    let x = cx.arr::<S, 8>("a");
    let q = |i: usize| Quaternion::new_from(x[i], x[i + 1], x[i + 2], x[i + 3]);
    shows(cx, "quaternion", || q(0).to_string(), &[x[..4].to_vec()]);
    shows(cx, "dual quaternion", || DualQuaternion::new(q(0), q(4)).to_string().replace("\ndual", "dual").replace('\n', ""), &[x.to_vec()]);
}
// ---------------------------------------------------------------- constants and macros
fn constants<S: Sc>(cx: &mut Cx) {
    use static_math::{vector2 as v2, vector3 as v3};
    let f = |v: &[f32], e: &[f32]| v == e;
    cx.holds::<S>("V2_ZEROS", f(&static_math::V2_ZEROS[..], &[0.0; 2]));
    cx.holds::<S>("V3_ZEROS", f(&static_math::V3_ZEROS[..], &[0.0; 3]));
    cx.holds::<S>("V4_ZEROS", f(&static_math::V4_ZEROS[..], &[0.0; 4]));
    cx.holds::<S>("V5_ZEROS", f(&static_math::V5_ZEROS[..], &[0.0; 5]));
    cx.holds::<S>("V6_ZEROS", f(&static_math::V6_ZEROS[..], &[0.0; 6]));
    cx.holds::<S>("V2 X_AXIS", f(&v2::X_AXIS[..], &[1.0, 0.0]));
    cx.holds::<S>("V2 Y_AXIS", f(&v2::Y_AXIS[..], &[0.0, 1.0]));
    cx.holds::<S>("X_AXIS", f(&v3::X_AXIS[..], &[1.0, 0.0, 0.0]) && f(&static_math::X_AXIS[..], &v3::X_AXIS[..]));
    cx.holds::<S>("Y_AXIS", f(&v3::Y_AXIS[..], &[0.0, 1.0, 0.0]) && f(&static_math::Y_AXIS[..], &v3::Y_AXIS[..]));
    cx.holds::<S>("Z_AXIS", f(&v3::Z_AXIS[..], &[0.0, 0.0, 1.0]) && f(&static_math::Z_AXIS[..], &v3::Z_AXIS[..]));
}

fn main() {
    let mut v = vec![];
    let v = &mut v;
    v2::base(v);
    v3::base(v);
    v4::base(v);
    v5::base(v);
    v6::base(v);
    contracts!(v, "C09";
        constructors: "vector constructors", "V2..V6::new_from, V4<bool>::bitand";
        cross_c: "cross product over the integers", "V3::cross", int = true;
        cross_c: "cross product", "V3::{cross,x_axis,y_axis,z_axis}";
        constants: "vector constants", "V2_ZEROS..V6_ZEROS, X_AXIS, Y_AXIS, Z_AXIS";
    );
    contracts!(v, "C31";
        shown2: "printed V2 and M22", "Display for V2, M22", cross = 8;
        shown3: "printed V3 and M33", "Display for V3, M33", cross = 8;
        shown4: "printed V4 and M44", "Display for V4, M44", cross = 8;
        shown5: "printed V5 and M55", "Display for V5, M55", cross = 8;
        shown6: "printed V6 and M66", "Display for V6, M66", cross = 8;
        shown_q: "printed quaternions", "Display for Quaternion, DualQuaternion", cross = 8;
    );
    s1::base(v);
    s2::base(v);
    s3::base(v);
    s4::base(v);
    s5::base(v);
    s6::base(v);
    s7::base(v);
    s8::base(v);
    s9::base(v);
    s12::base(v);
    s16::base(v);
    s17::base(v);
    s33::base(v);
    contracts!(v, "C11";
        long: "longer slices", "slices_methods::{find_max_min,norm_inf,norm_l,norm2,dot}", bounded = Some("one length proved (40, paths of sampled inputs); about 110 lengths up to 10000 run with sampled elements"), guided = 20;
    );
    vc::driver::main(v);
}
