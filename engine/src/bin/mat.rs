//! C01..C08: matrices.
use vc::base::*;
use vcore::contracts;
use num::{One, Zero};
use static_math::matrix2x2::M22;
use static_math::matrix3x3::M33;
use static_math::matrix4x4::M44;
use static_math::matrix5x5::M55;
use static_math::matrix6x6::M66;
use static_math::traits::LinearAlgebra;
use static_math::{m22_new, m33_new, m44_new, m55_new, m66_new, V2, V3, V4, V5, V6};

macro_rules! per_size {
    ($m:ident, $M:ident, $V:ident, $N:expr, $mn:expr) => {
        mod $m {
            use super::*;
            const N: usize = $N;
            pub fn a<S: Sc>(m: $M<S>) -> A<S, N> {
                let mut r = [[S::zero(); N]; N];
                for i in 0..N {
                    for j in 0..N {
                        r[i][j] = m[(i, j)];
                    }
                }
                r
            }
            pub fn va<S: Sc>(v: $V<S>) -> [S; N] {
                std::array::from_fn(|i| v[i])
            }
            // ---------------- C01
            pub fn addsub<S: Sc>(cx: &mut Cx) {
                let (x, y) = (cx.mat::<S, N>("a"), cx.mat::<S, N>("b"));
                let (ma, mb) = ($M::new(x), $M::new(y));
                cx.eqm("A+B", a(ma + mb), map2(&x, &y, |p, q| p + q));
                cx.eqm("A-B", a(ma - mb), map2(&x, &y, |p, q| p - q));
                cx.eqm("-A", a(-ma), map2(&x, &y, |p, _| -p));
                let mut c = ma;
                c += mb;
                cx.eqm("A+=B", a(c), map2(&x, &y, |p, q| p + q));
                let mut c = ma;
                c -= mb;
                cx.eqm("A-=B", a(c), map2(&x, &y, |p, q| p - q));
            }
            pub fn scale<S: Sc>(cx: &mut Cx) {
                let x = cx.mat::<S, N>("a");
                let k = cx.var::<S>("k");
                let m = $M::new(x);
                cx.eqm("A*k", a(m * k), map2(&x, &x, |p, _| p * k));
                cx.assume::<S>(k != S::zero());
                cx.eqm("A/k", a(m / k), map2(&x, &x, |p, _| p / k));
            }
            pub fn mul<S: Sc>(cx: &mut Cx) {
                let (x, y) = (cx.mat::<S, N>("a"), cx.mat::<S, N>("b"));
                let v = cx.arr::<S, N>("v");
                cx.eqm("A*B", a($M::new(x) * $M::new(y)), mm(&x, &y));
                cx.eqs("A*v", &va($M::new(x) * $V::new(v)), &mv(&x, &v));
            }
            pub fn ident<S: Sc>(cx: &mut Cx) {
                cx.eqm("identity", a($M::<S>::identity()), id());
                cx.eqm("one", a(<$M<S> as One>::one()), id());
                cx.eqm("zeros", a($M::<S>::zeros()), [[S::zero(); N]; N]);
                cx.eqm("zero", a(<$M<S> as Zero>::zero()), [[S::zero(); N]; N]);
            }
            pub fn preds<S: Sc>(cx: &mut Cx) {
                let x = cx.mat::<S, N>("a");
                let m = $M::new(x);
                // is_zero / is_one decide exactly
                if m.is_zero() {
                    cx.eqm("is_zero: entries", x, [[S::zero(); N]; N]);
                } else {
                    let any = x.iter().flatten().any(|e| *e != S::zero());
                    cx.holds::<S>("not is_zero: some entry non-zero", any);
                }
            }
            pub fn preds1<S: Sc>(cx: &mut Cx) {
                let x = cx.mat::<S, N>("a");
                let m = $M::new(x);
                let i = id::<S, N>();
                if m.is_one() {
                    cx.eqm("is_one: entries", x, i);
                } else {
                    let mut any = false;
                    for p in 0..N {
                        for q in 0..N {
                            any = any || x[p][q] != i[p][q];
                        }
                    }
                    cx.holds::<S>("not is_one: some entry differs", any);
                }
            }
            // ---------------- C02
            pub fn rowvec<S: Sc>(cx: &mut Cx) {
                let x = cx.mat::<S, N>("a");
                let v = cx.arr::<S, N>("v");
                let w = cx.arr::<S, N>("w");
                let m = $M::new(x);
                let r = $V::new(v) * m;
                cx.eqs("v*M", &va(r), &mv(&tr(&x), &v));
                cx.eqs("v*M = M^T*v", &va(r), &va(m.transpose() * $V::new(v)));
                cx.eq("(v*M)*w = v*(M*w)", r * $V::new(w), $V::new(v) * (m * $V::new(w)));
            }
            // ---------------- C03
            pub fn layout<S: Sc>(cx: &mut Cx) {
                let x = cx.mat::<S, N>("a");
                let m = $M::new(x);
                cx.holds::<S>("rows", m.rows() == N && <$M<S> as LinearAlgebra<S>>::rows(&m) == N);
                cx.holds::<S>("cols", m.cols() == N && <$M<S> as LinearAlgebra<S>>::cols(&m) == N);
                cx.holds::<S>("shape", LinearAlgebra::shape(&m) == (N, N));
                for i in 0..N {
                    for j in 0..N {
                        cx.eq("m[(i,j)]", m[(i, j)], x[i][j]);
                        cx.eq("m[i][j]", m[i][j], x[i][j]);
                    }
                }
                let f: $M<S> = $M::from(x);
                cx.eqm("from", a(f), x);
                let flat = m.as_vec();
                let exp: Vec<S> = x.iter().flatten().cloned().collect();
                cx.eqs("as_vec", &flat, &exp);
                let rows = m.get_rows();
                let cols = m.get_cols();
                for i in 0..N {
                    for j in 0..N {
                        cx.eq("get_rows", rows[i][j], x[i][j]);
                        cx.eq("get_cols", cols[j][i], x[i][j]);
                    }
                }
                cx.eqm("new_from_vecs(cols)", a($M::new_from_vecs(cols)), x);
                cx.eqm("new_from_vecs(rows)", a($M::new_from_vecs(rows)), tr(&x));
                cx.eqm("transpose", a(m.transpose()), tr(&x));
                cx.eqm("transpose twice", a(m.transpose().transpose()), x);
                let d = m.get_diagonal();
                for i in 0..N {
                    cx.eq("get_diagonal", d[i], x[i][i]);
                }
                let k = cx.var::<S>("k");
                cx.eqm("for_each", a(m.for_each(|e| e * e + k)), map2(&x, &x, |p, _| p * p + k));
            }
            pub fn writes<S: Sc>(cx: &mut Cx) {
                let x = cx.mat::<S, N>("a");
                let k = cx.var::<S>("k");
                for i in 0..N {
                    for j in 0..N {
                        let mut e = x;
                        e[i][j] = k;
                        let mut m = $M::new(x);
                        m[(i, j)] = k;
                        cx.eqm("m[(i,j)] = k", a(m), e);
                        let mut m = $M::new(x);
                        m[i][j] = k;
                        cx.eqm("m[i][j] = k", a(m), e);
                    }
                }
                let mut s = S::zero();
                let mut n = 0;
                let m = $M::new(x);
                for e in m.iter().flatten() {
                    s = s + *e;
                    n += 1;
                }
                cx.holds::<S>("iter visits every entry", n == N * N);
                cx.eq("iter sum", s, x.iter().flatten().fold(S::zero(), |p, q| p + *q));
            }
            pub fn bounds<S: Sc>(cx: &mut Cx) {
                let x = cx.mat::<S, N>("a");
                let k = cx.var::<S>("k");
                let m = $M::new(x);
                for i in 0..=N {
                    cx.panics::<S, _>("column out of range", || m[(i, N)]);
                    cx.panics::<S, _>("row out of range", || m[(N, i)]);
                    let mut w = m;
                    cx.panics::<S, _>("column out of range (write)", || w[(i, N)] = k);
                    let mut w = m;
                    cx.panics::<S, _>("row out of range (write)", || w[(N, i)] = k);
                }
                cx.panics::<S, _>("m[N]", || m[N][0]);
                let mut w = m;
                cx.panics::<S, _>("m[N] (write)", || w[N][0] = k);
            }
            pub fn equality<S: Sc>(cx: &mut Cx) {
                let (x, y) = (cx.mat::<S, N>("a"), cx.mat::<S, N>("b"));
                let (e, ne) = ($M::new(x) == $M::new(y), $M::new(x) != $M::new(y));
                cx.holds::<S>("!= is the negation of ==", e != ne);
                if e {
                    cx.eqm("equal: entries", x, y);
                } else {
                    let mut any = false;
                    for i in 0..N {
                        any = any || (0..N).any(|j| x[i][j] != y[i][j]);
                    }
                    cx.holds::<S>("not equal: some entry differs", any);
                }
            }
            // ---------------- C04
            pub fn det<S: Sc>(cx: &mut Cx) {
                let x = cx.mat::<S, N>("a");
                cx.eq("det", $M::new(x).det(), leibniz(&x));
            }
            pub fn det_laws<S: Sc>(cx: &mut Cx) {
                let x = cx.mat::<S, N>("a");
                let m = $M::new(x);
                cx.eq("det of the transpose", m.transpose().det(), m.det());
                for i in 1..N {
                    let mut y = x;
                    y.swap(i - 1, i);
                    cx.eq("row exchange", $M::new(y).det(), -m.det());
                }
                cx.eq("det of the identity", $M::<S>::identity().det(), S::one());
            }
            pub fn det_mult<S: Sc>(cx: &mut Cx) {
                let (x, y) = (cx.mat::<S, N>("a"), cx.mat::<S, N>("b"));
                let (m, n) = ($M::new(x), $M::new(y));
                if S::c_sym() {
                    // the callee's contract (det is the Leibniz sum, for every matrix: C04, `det`) in place of
                    // its body: what is left is the product's entries and an identity between Leibniz sums
                    cx.eqm("A*B", a(m * n), mm(&x, &y));
                    cx.eq("det(A*B) = det A * det B", leibniz(&mm(&x, &y)), leibniz(&x) * leibniz(&y));
                } else {
                    cx.eq("det(A*B) = det A * det B", (m * n).det(), m.det() * n.det());
                }
            }
            pub fn trace_norm<S: Sc>(cx: &mut Cx) {
                let x = cx.mat::<S, N>("a");
                let m = $M::new(x);
                let mut t = S::zero();
                for i in 0..N {
                    t = t + x[i][i];
                }
                cx.eq("trace", m.trace(), t);
                let mut s = S::zero();
                for i in 0..N {
                    for j in 0..N {
                        s = s + x[i][j] * x[i][j];
                    }
                }
                let n = m.norm2();
                cx.eq("norm^2", n * n, s);
                cx.holds::<S>("norm >= 0", n >= S::zero());
            }
            // ---------------- C05
            pub fn inverse<S: Sc>(cx: &mut Cx) {
                let x = cx.mat::<S, N>("a");
                let m = $M::new(x);
                let det = leibniz(&x);
                match m.inverse() {
                    Some(b) => {
                        cx.holds::<S>("Some: |det| >= eps", det >= eps::<S>() || -det >= eps::<S>());
                        let b = a(b);
                        cx.eqm("A*B = I", mm(&x, &b), id());
                        cx.eqm("B*A = I", mm(&b, &x), id());
                    }
                    None => {
                        cx.holds::<S>("None: |det| < eps", det < eps::<S>() && -det < eps::<S>());
                    }
                }
            }
            // ---------------- C06
            pub fn qr<S: Sc>(cx: &mut Cx) {
                let x = cx.mat::<S, N>("a");
                let m = $M::new(x);
                let det = leibniz(&x);
                match m.qr() {
                    Some((q, r)) => {
                        cx.holds::<S>("Some: |det| >= eps", det >= eps::<S>() || -det >= eps::<S>());
                        let (q, r) = (a(q), a(r));
                        cx.eqm("Q^T*Q = I", mm(&tr(&q), &q), id());
                        cx.eqm("Q*R = A", mm(&q, &r), x);
                        for i in 0..N {
                            for j in 0..i {
                                cx.eq("R below the diagonal", r[i][j], S::zero());
                            }
                        }
                        for i in 0..N {
                            cx.holds::<S>("R diagonal positive", r[i][i] > S::zero());
                        }
                    }
                    None => {
                        cx.holds::<S>("None: |det| < eps", det < eps::<S>() && -det < eps::<S>());
                    }
                }
            }
            // ---------------- C07
            pub fn lu<S: Sc>(cx: &mut Cx) {
                let x = cx.mat::<S, N>("a");
                let det = leibniz(&x);
                cx.assume::<S>(det != S::zero());
                let (lu, d, p) = $M::new(x).lu();
                let (mut pa, mut sign) = (x, S::one());
                for k in 0..N {
                    cx.holds::<S>("exchange index in range", p[k] >= k && p[k] < N);
                    pa.swap(k, p[k].min(N - 1));
                    if p[k] != k {
                        sign = -sign;
                    }
                }
                let (mut l, mut u) = (id::<S, N>(), [[S::zero(); N]; N]);
                for i in 0..N {
                    for j in 0..N {
                        if j < i {
                            l[i][j] = lu[(i, j)];
                        } else {
                            u[i][j] = lu[(i, j)];
                        }
                    }
                }
                cx.eqm("P*A = L*U", mm(&l, &u), pa);
                // det A is the parity of P times the diagonal of U: from P*A = L*U (lemmas/lu.lean)
                let diag = (0..N).fold(sign, |d, i| d * u[i][i]);
                cx.eq("det", d, if S::c_sym() { diag } else { det });
            }
            pub fn base(v: &mut Vec<Contract>) {
                contracts!(v, "C01";
                    addsub: concat!($mn, " add, sub, neg and in-place forms"), concat!($mn, "::{add,sub,neg,add_assign,sub_assign}");
                    scale: concat!($mn, " scaling"), concat!($mn, "::{mul(T),div(T)}");
                    mul: concat!($mn, " products"), concat!($mn, "::{mul(M),mul(V)}");
                    ident: concat!($mn, " identity and zero"), concat!($mn, "::{one,zero,identity,zeros}");
                    preds: concat!($mn, " is_zero"), concat!($mn, "::is_zero");
                    preds1: concat!($mn, " is_one"), concat!($mn, "::is_one");
                    equality: concat!($mn, " =="), concat!($mn, "::eq");
                    addsub: concat!($mn, " over the integers: add, sub, neg and in-place forms"), concat!($mn, "::{add,sub,neg,add_assign,sub_assign}"), int = true;
                    scale: concat!($mn, " over the integers: scaling"), concat!($mn, "::{mul(T),div(T)}"), int = true;
                    mul: concat!($mn, " over the integers: products"), concat!($mn, "::{mul(M),mul(V)}"), int = true;
                );
                contracts!(v, "C02"; rowvec: concat!("row vector * ", $mn), concat!("V::mul(", $mn, ")");
                    rowvec: concat!("row vector * ", $mn, " over the integers"), concat!("V::mul(", $mn, ")"), int = true;);
                contracts!(v, "C03";
                    layout: concat!($mn, " layout"), concat!($mn, "::{new,from,index,as_vec,get_rows,get_cols,new_from_vecs,transpose,get_diagonal,for_each,rows,cols,shape}");
                    writes: concat!($mn, " writes"), concat!($mn, "::{index_mut,deref,deref_mut}");
                    bounds: concat!($mn, " index out of range"), concat!($mn, "::{index,index_mut}");
                );
                contracts!(v, "C04";
                    det: concat!($mn, " det"), concat!($mn, "::det");
                    det_laws: concat!($mn, " det laws"), concat!($mn, "::{det,transpose}");
                    det_mult: concat!($mn, " det multiplicative"), concat!($mn, "::{det,mul}");
                    trace_norm: concat!($mn, " trace and norm"), concat!($mn, "::{trace,norm2}");
                );
                contracts!(v, "C05"; inverse: concat!($mn, " inverse"), concat!($mn, "::inverse"););
                contracts!(v, "C06"; qr: concat!($mn, " qr"), concat!($mn, "::qr"), max_terms = [6000, 6000, 6000, 6000, 6000, 6000, 760][N];);
                contracts!(v, "C07"; lu: concat!($mn, " lu"), concat!($mn, "::lu"), guided = [0, 0, 0, 0, 40, 8000, 1500][N], prefix = if N == 4 { 16 } else { usize::MAX }, eager = N > 2, paths = 40000;);
            }
        }
    };
}
per_size!(m2, M22, V2, 2, "M22");
per_size!(m3, M33, V3, 3, "M33");
per_size!(m4, M44, V4, 4, "M44");
per_size!(m5, M55, V5, 5, "M55");
per_size!(m6, M66, V6, 6, "M66");

// ---- C03: functions only some sizes have --------------------------------------
macro_rules! tri {
    ($f:ident, $M:ident, $N:expr, $up:ident) => {
        fn $f<S: Sc>(cx: &mut Cx) {
            let x = cx.mat::<S, $N>("a");
            let m = $M::new(x);
            let (mut u, mut l) = (vec![], vec![]);
            for i in 0..$N {
                for j in 0..$N {
                    if j > i {
                        u.push(x[i][j]);
                    }
                    if j < i {
                        l.push(x[i][j]);
                    }
                }
            }
            cx.eqs("upper triangle", &m.$up(), &u);
            cx.eqs("lower triangle", &m.get_lower_triangular(), &l);
        }
    };
}
tri!(tri3, M33, 3, get_upper_triagular);
tri!(tri4, M44, 4, get_upper_triagular);
tri!(tri5, M55, 5, get_upper_triagular);
tri!(tri6, M66, 6, get_upper_triangular);

fn sub4<S: Sc>(cx: &mut Cx) {
    let x = cx.mat::<S, 4>("a");
    let m = M44::new(x);
    for r in 0..4 {
        for c in 0..4 {
            let s = m.get_submatrix((r, c));
            for i in 0..3 {
                for j in 0..3 {
                    let (p, q) = (if i < r { i } else { i + 1 }, if j < c { j } else { j + 1 });
                    cx.eq("submatrix", s[(i, j)], x[p][q]);
                }
            }
        }
    }
}
fn quadrants<S: Sc>(cx: &mut Cx) {
    let x = cx.mat::<S, 6>("a");
    let b = cx.mat::<S, 3>("b");
    for q in 1..=4usize {
        let mut m = M66::new(x);
        m.copy_elements_from(&M33::new(b), q);
        let (r0, c0) = ((q - 1) / 2 * 3, (q - 1) % 2 * 3);
        let mut e = x;
        for i in 0..3 {
            for j in 0..3 {
                e[r0 + i][c0 + j] = b[i][j];
            }
        }
        cx.eqm("copy_elements_from", m6::a(m), e);
    }
    let mut m = M66::new(x);
    cx.panics::<S, _>("quadrant 0 is refused", || m.copy_elements_from(&M33::new(b), 0));
    let mut m = M66::new(x);
    cx.panics::<S, _>("quadrant 5 is refused", || m.copy_elements_from(&M33::new(b), 5));
}
fn m22_new_from<S: Sc>(cx: &mut Cx) {
    let x = cx.mat::<S, 2>("a");
    let m = M22::new_from(x[0][0], x[0][1], x[1][0], x[1][1]);
    cx.eqm("new_from", m2::a(m), x);
}
// ---- C08 ------------------------------------------------------------------------
fn eig2<S: Sc>(cx: &mut Cx) {
    let x = cx.mat::<S, 2>("a");
    let m = M22::new(x);
    let (t, d) = (x[0][0] + x[1][1], x[0][0] * x[1][1] - x[0][1] * x[1][0]);
    let disc = t * t - r::<S>(4, 1) * d;
    match m.real_eigenvals() {
        Some(l) => {
            cx.holds::<S>("Some: discriminant >= 0", disc >= S::zero());
            cx.eq("sum is the trace", l[0] + l[1], t);
            cx.eq("product is the determinant", l[0] * l[1], d);
            for i in 0..2 {
                cx.eq("root of the characteristic polynomial", l[i] * l[i] - t * l[i] + d, S::zero());
            }
            cx.holds::<S>("larger first", l[0] >= l[1]);
        }
        None => cx.holds::<S>("None: no real eigenvalue", disc < S::zero()),
    }
}

// ---- constants and macros
fn mconstants<S: Sc>(cx: &mut Cx) {
    use static_math::matrix2x2::{M22_IDENT, M22_ZEROS};
    cx.holds::<S>("M22_ZEROS", M22_ZEROS == M22::new([[0.0; 2]; 2]));
    cx.holds::<S>("M22_IDENT", M22_IDENT == M22::new([[1.0, 0.0], [0.0, 1.0]]));
}
fn macros<S: Sc>(cx: &mut Cx) {
    let a = cx.mat::<S, 6>("a");
    let m = m22_new!(a[0][0], a[0][1]; a[1][0], a[1][1]);
    for (i, r) in m.iter().enumerate() {
        cx.eqs("m22_new", &r[..], &a[i][..2]);
    }
    let m = m33_new!(a[0][0], a[0][1], a[0][2]; a[1][0], a[1][1], a[1][2]; a[2][0], a[2][1], a[2][2]);
    for (i, r) in m.iter().enumerate() {
        cx.eqs("m33_new", &r[..], &a[i][..3]);
    }
    let m = m44_new!(a[0][0], a[0][1], a[0][2], a[0][3]; a[1][0], a[1][1], a[1][2], a[1][3];
                     a[2][0], a[2][1], a[2][2], a[2][3]; a[3][0], a[3][1], a[3][2], a[3][3]);
    for (i, r) in m.iter().enumerate() {
        cx.eqs("m44_new", &r[..], &a[i][..4]);
    }
    let m = m55_new!(a[0][0], a[0][1], a[0][2], a[0][3], a[0][4]; a[1][0], a[1][1], a[1][2], a[1][3], a[1][4];
                     a[2][0], a[2][1], a[2][2], a[2][3], a[2][4]; a[3][0], a[3][1], a[3][2], a[3][3], a[3][4];
                     a[4][0], a[4][1], a[4][2], a[4][3], a[4][4]);
    for (i, r) in m.iter().enumerate() {
        cx.eqs("m55_new", &r[..], &a[i][..5]);
    }
    let m = m66_new!(a[0][0], a[0][1], a[0][2], a[0][3], a[0][4], a[0][5]; a[1][0], a[1][1], a[1][2], a[1][3], a[1][4], a[1][5];
                     a[2][0], a[2][1], a[2][2], a[2][3], a[2][4], a[2][5]; a[3][0], a[3][1], a[3][2], a[3][3], a[3][4], a[3][5];
                     a[4][0], a[4][1], a[4][2], a[4][3], a[4][4], a[4][5]; a[5][0], a[5][1], a[5][2], a[5][3], a[5][4], a[5][5]);
    for (i, r) in m.iter().enumerate() {
        cx.eqs("m66_new", &r[..], &a[i][..6]);
    }
}

fn main() {
    let mut v = vec![];
    let v = &mut v;
    m2::base(v);
    m3::base(v);
    m4::base(v);
    m5::base(v);
    m6::base(v);
    contracts!(v, "C03";
        m22_new_from: "M22 new_from", "M22::new_from";
        tri3: "M33 triangles", "M33::{get_upper_triagular,get_lower_triangular}";
        tri4: "M44 triangles", "M44::{get_upper_triagular,get_lower_triangular}";
        tri5: "M55 triangles", "M55::{get_upper_triagular,get_lower_triangular}";
        tri6: "M66 triangles", "M66::{get_upper_triangular,get_lower_triangular}";
        sub4: "M44 submatrix", "M44::get_submatrix";
        quadrants: "M66 quadrants", "M66::copy_elements_from";
        macros: "matrix macros", "m22_new!..m66_new!";
    );
    contracts!(v, "C01"; mconstants: "matrix constants", "M22_ZEROS, M22_IDENT";);
    contracts!(v, "C08"; eig2: "M22 real_eigenvals", "M22::real_eigenvals";);
    vc::driver::main(v);
}
