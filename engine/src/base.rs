//! Textbook definitions the contracts are stated with.
pub use vcore::contract::*;

pub type A<S, const N: usize> = [[S; N]; N];
pub fn mm<S: Sc, const N: usize>(a: &A<S, N>, b: &A<S, N>) -> A<S, N> {
    let mut r = [[S::zero(); N]; N];
    for i in 0..N {
        for j in 0..N {
            for k in 0..N {
                r[i][j] = r[i][j] + a[i][k] * b[k][j];
            }
        }
    }
    r
}
pub fn mv<S: Sc, const N: usize>(a: &A<S, N>, v: &[S; N]) -> [S; N] {
    let mut r = [S::zero(); N];
    for i in 0..N {
        for k in 0..N {
            r[i] = r[i] + a[i][k] * v[k];
        }
    }
    r
}
pub fn tr<S: Sc, const N: usize>(a: &A<S, N>) -> A<S, N> {
    let mut r = *a;
    for i in 0..N {
        for j in 0..N {
            r[i][j] = a[j][i];
        }
    }
    r
}
pub fn id<S: Sc, const N: usize>() -> A<S, N> {
    let mut r = [[S::zero(); N]; N];
    for i in 0..N {
        r[i][i] = S::one();
    }
    r
}
pub fn map2<S: Sc, const N: usize>(a: &A<S, N>, b: &A<S, N>, f: impl Fn(S, S) -> S) -> A<S, N> {
    let mut r = *a;
    for i in 0..N {
        for j in 0..N {
            r[i][j] = f(a[i][j], b[i][j]);
        }
    }
    r
}
pub fn dotp<S: Sc>(a: &[S], b: &[S]) -> S {
    let mut s = S::zero();
    for i in 0..a.len() {
        s = s + a[i] * b[i];
    }
    s
}
pub fn cross<S: Sc>(a: &[S; 3], b: &[S; 3]) -> [S; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn skew<S: Sc>(v: &[S; 3]) -> A<S, 3> {
    let z = S::zero();
    [[z, -v[2], v[1]], [v[2], z, -v[0]], [-v[1], v[0], z]]
}
/// determinant by the permutation sum
pub fn leibniz<S: Sc, const N: usize>(a: &A<S, N>) -> S {
    let mut p: Vec<usize> = (0..N).collect();
    let mut s = S::zero();
    fn rec<S: Sc, const N: usize>(a: &A<S, N>, p: &mut Vec<usize>, k: usize, sign: bool, s: &mut S) {
        if k == N {
            let mut t = if sign { S::one() } else { -S::one() };
            for i in 0..N {
                t = t * a[i][p[i]];
            }
            *s = *s + t;
            return;
        }
        for i in k..N {
            p.swap(k, i);
            rec(a, p, k + 1, if i == k { sign } else { !sign }, s);
            p.swap(k, i);
        }
    }
    rec(a, &mut p, 0, true, &mut s);
    s
}
pub fn rot_x<S: Sc>(s: S, c: S) -> A<S, 3> {
    let (z, o) = (S::zero(), S::one());
    [[o, z, z], [z, c, -s], [z, s, c]]
}
pub fn rot_y<S: Sc>(s: S, c: S) -> A<S, 3> {
    let (z, o) = (S::zero(), S::one());
    [[c, z, s], [z, o, z], [-s, z, c]]
}
pub fn rot_z<S: Sc>(s: S, c: S) -> A<S, 3> {
    let (z, o) = (S::zero(), S::one());
    [[c, -s, z], [s, c, z], [z, z, o]]
}
/// rotation by the angle with sine s and cosine c about the unit axis u
pub fn rodrigues<S: Sc>(u: &[S; 3], s: S, c: S) -> A<S, 3> {
    let k = skew(u);
    let k2 = mm(&k, &k);
    let mut r = id::<S, 3>();
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = r[i][j] + s * k[i][j] + (S::one() - c) * k2[i][j];
        }
    }
    r
}
pub fn eps<S: Sc>() -> S {
    S::epsilon()
}
pub fn r<S: Sc>(n: i128, d: i128) -> S {
    S::c_rat(n, d)
}

// ---- quaternions ----
use static_math::matrix3x3::M33;
use static_math::matrix4x4::M44;
use static_math::quaternion::Quaternion;
use static_math::V3;
pub type Q4<S> = [S; 4];
pub fn q_new<S: Sc>(a: &Q4<S>) -> Quaternion<S> {
    Quaternion::new_from(a[0], a[1], a[2], a[3])
}
pub fn q_arr<S: Sc>(q: Quaternion<S>) -> Q4<S> {
    let v = q.imag();
    [q.real(), v[0], v[1], v[2]]
}
/// Hamilton's product
pub fn ham<S: Sc>(a: &Q4<S>, b: &Q4<S>) -> Q4<S> {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
pub fn q_conj<S: Sc>(a: &Q4<S>) -> Q4<S> {
    [a[0], -a[1], -a[2], -a[3]]
}
pub fn q_scale<S: Sc>(a: &Q4<S>, k: S) -> Q4<S> {
    [a[0] * k, a[1] * k, a[2] * k, a[3] * k]
}
pub fn q_add<S: Sc>(a: &Q4<S>, b: &Q4<S>) -> Q4<S> {
    std::array::from_fn(|i| a[i] + b[i])
}
pub fn q_sub<S: Sc>(a: &Q4<S>, b: &Q4<S>) -> Q4<S> {
    std::array::from_fn(|i| a[i] - b[i])
}
/// the matrix of a unit quaternion: columns are the images q e q* of the axes
pub fn q_mat<S: Sc>(q: &Q4<S>) -> A<S, 3> {
    let (z, o) = (S::zero(), S::one());
    let mut r = [[z; 3]; 3];
    for j in 0..3 {
        let mut e = [z; 4];
        e[j + 1] = o;
        let w = ham(&ham(q, &e), &q_conj(q));
        for i in 0..3 {
            r[i][j] = w[i + 1];
        }
    }
    r
}
pub fn q_one<S: Sc>() -> Q4<S> {
    [S::one(), S::zero(), S::zero(), S::zero()]
}
pub fn m3<S: Sc>(m: M33<S>) -> A<S, 3> {
    let mut r = [[S::zero(); 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = m[(i, j)];
        }
    }
    r
}
pub fn m4<S: Sc>(m: M44<S>) -> A<S, 4> {
    let mut r = [[S::zero(); 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            r[i][j] = m[(i, j)];
        }
    }
    r
}
pub fn v3<S: Sc>(v: V3<S>) -> [S; 3] {
    [v[0], v[1], v[2]]
}
pub fn homog<S: Sc>(r: &A<S, 3>, p: &[S; 3]) -> A<S, 4> {
    let mut h = id::<S, 4>();
    for i in 0..3 {
        for j in 0..3 {
            h[i][j] = r[i][j];
        }
        h[i][3] = p[i];
    }
    h
}
