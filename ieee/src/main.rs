//! Contracts over the machine floats: C28 (approximate comparison) and C29
//! (a number on the left).
use static_math as sm;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::time::Instant;
use vcore::ieee::*;
use vcore::out::{esc, jlist, root};

use sm::slices_methods::check_elements;
use sm::utils::{compare_dual_quaternions, compare_floats, compare_vecs, nearly_equal, nearly_zero};

// ---------------------------------------------------------------- C28
fn finite<S: Ie>(x: S) -> bool {
    x.abs() <= S::max_value()
}
fn abs<S: Ie>(x: S) -> S {
    num::Float::abs(x)
}
/// what the comparison means
fn spec<S: Ie>(a: S, b: S, e: S) -> bool {
    let z = S::lit(0.0);
    if a == b {
        true
    } else if a == z || b == z {
        abs(a - b) < e
    } else {
        let s = abs(a) + abs(b);
        let s = if s > S::max_value() { S::max_value() } else { s };
        abs(a - b) / s < e
    }
}
fn var3<S: Ie>(cx: &mut Cx) -> (S, S, S) {
    (S::var(cx, "a"), S::var(cx, "b"), S::var(cx, "e"))
}
fn reflexive<S: Ie>(cx: &mut Cx) {
    let (a, _, e) = var3::<S>(cx);
    assume(finite(a));
    cx.check::<S>("a is nearly equal to a", nearly_equal(a, a, e));
}
fn symmetric<S: Ie>(cx: &mut Cx) {
    let (a, b, e) = var3::<S>(cx);
    cx.check::<S>("the two orders agree", nearly_equal(a, b, e) == nearly_equal(b, a, e));
}
fn zeros<S: Ie>(cx: &mut Cx) {
    let e = S::var(cx, "e");
    let (p, n) = (S::lit(0.0), S::lit(-0.0));
    cx.check::<S>("0 and -0", nearly_equal(p, n, e));
    cx.check::<S>("-0 and 0", nearly_equal(n, p, e));
}
fn absolute<S: Ie>(cx: &mut Cx) {
    let (a, _, e) = var3::<S>(cx);
    assume(finite(a));
    assume(e > S::lit(0.0));
    let w = abs(a) < e || a == S::lit(0.0);
    for z in [S::lit(0.0), S::lit(-0.0)] {
        cx.check::<S>("zero on the right", nearly_equal(a, z, e) == w);
        cx.check::<S>("zero on the left", nearly_equal(z, a, e) == w);
    }
}
fn relative<S: Ie>(cx: &mut Cx) {
    let (a, b, e) = var3::<S>(cx);
    assume(finite(a) && finite(b));
    assume(a != S::lit(0.0) && b != S::lit(0.0));
    assume(e > S::lit(0.0));
    cx.check::<S>("the relative difference decides", nearly_equal(a, b, e) == spec(a, b, e));
}
fn nan<S: Ie>(cx: &mut Cx) {
    let (a, b, e) = var3::<S>(cx);
    assume(!(a == a));
    cx.check::<S>("NaN on the left", !nearly_equal(a, b, e));
    cx.check::<S>("NaN on the right", !nearly_equal(b, a, e));
}
fn nzero<S: Ie>(cx: &mut Cx) {
    let a = S::var(cx, "a");
    cx.check::<S>("|a| < epsilon", nearly_zero(a) == (abs(a) < S::epsilon()));
}
fn floats<S: Ie>(cx: &mut Cx) {
    let (a, b, e) = var3::<S>(cx);
    cx.check::<S>("|a - b| < tol", compare_floats(a, b, e) == (abs(a - b) < e));
}
fn vecs<S: Ie, const N: usize>(cx: &mut Cx) {
    let e = S::var(cx, "e");
    let (a, b): (Vec<S>, Vec<S>) = (cx.vars("a", N), cx.vars("b", N));
    let r = compare_vecs(&a, &b, e);
    let w = (0..N).all(|i| nearly_equal(a[i], b[i], e));
    cx.check::<S>("every component", r == w);
}
fn elements<S: Ie, const N: usize>(cx: &mut Cx) {
    let e = S::var(cx, "e");
    assume(e > S::lit(0.0));
    let a: Vec<S> = cx.vars("a", N);
    for x in &a {
        assume(finite(*x));
    }
    let r = check_elements(&a, e);
    let w = a.iter().any(|x| *x == S::lit(0.0) || abs(*x) < e);
    cx.check::<S>("some component is near zero", r == w);
}
/// long slices that agree but in one place
fn vecs_one<S: Ie, const N: usize, const J: usize>(cx: &mut Cx) {
    let e = S::var(cx, "e");
    let mut a: Vec<S> = cx.vars("a", N);
    for (i, x) in a.iter().enumerate() {
        if i != J {
            assume(finite(*x));
        }
    }
    let (p, x, y) = (a.clone(), a[J], S::var(cx, "b"));
    a[J] = y;
    let w = nearly_equal(x, y, e);
    cx.check::<S>("one component differs", compare_vecs(&p, &a, e) == w);
}
/// long slices of nonzero numbers with one other in them
fn elements_one<S: Ie, const N: usize, const J: usize>(cx: &mut Cx) {
    let e = S::var(cx, "e");
    assume(e > S::lit(0.0));
    let a: Vec<S> = cx.vars("a", N);
    for (i, x) in a.iter().enumerate() {
        assume(finite(*x));
        if i != J {
            assume(*x != S::lit(0.0) && abs(*x) >= e);
        }
    }
    let w = a[J] == S::lit(0.0) || abs(a[J]) < e;
    cx.check::<S>("one component may be near zero", check_elements(&a, e) == w);
}
/// lengths beyond those, with one outstanding component at the places where unrolling,
/// chunking or buffering would show; one length per run
fn long_lengths() -> Vec<usize> {
    let mut l: Vec<usize> = vec![40];
    l.extend(34..=100);
    for k in 7..13 {
        l.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    l.extend([150, 200, 300, 999, 1000, 1001, 10000]);
    // sizes the source itself names
    for src in [include_str!("../../../repo/src/slices_methods.rs"), include_str!("../../../repo/src/utils.rs")] {
        for t in src.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '-')) {
            if let Ok(n) = t.trim_end_matches("usize").replace('_', "").parse::<usize>() {
                if (34..100_000).contains(&n) {
                    l.extend([n - 1, n, n + 1]);
                }
            }
        }
    }
    l
}
fn places(n: usize) -> Vec<usize> {
    let p = [0, 1, n / 2, n - 2, n - 1, n - n % 4, n - n % 8, n - n % 16, n - n % 32, 33, 3, n / 4, n / 2 + 1];
    p.iter().map(|p| *p.min(&(n - 1))).collect()
}
fn vecs_long<S: Ie>(cx: &mut Cx) {
    let (ls, v) = (long_lengths(), cx.vars::<S>("a", 3));
    let (b, e) = (S::var(cx, "b"), S::var(cx, "e"));
    let n = ls[cx.k % ls.len()];
    for x in &v {
        assume(finite(*x));
    }
    let x: Vec<S> = (0..n).map(|i| v[i % 3]).collect();
    for p in places(n) {
        let mut y = x.clone();
        y[p] = b;
        cx.check::<S>(&format!("length {}, component {} differs", n, p), compare_vecs(&x, &y, e) == nearly_equal(x[p], b, e));
    }
}
fn elements_long<S: Ie>(cx: &mut Cx) {
    let (ls, v) = (long_lengths(), cx.vars::<S>("a", 3));
    let (b, e) = (S::var(cx, "b"), S::var(cx, "e"));
    let n = ls[cx.k % ls.len()];
    assume(e > S::lit(0.0) && finite(b));
    for x in &v {
        assume(finite(*x) && *x != S::lit(0.0) && abs(*x) >= e);
    }
    let w = b == S::lit(0.0) || abs(b) < e;
    for p in places(n) {
        let mut x: Vec<S> = (0..n).map(|i| v[i % 3]).collect();
        x[p] = b;
        cx.check::<S>(&format!("length {}, component {} near zero", n, p), check_elements(&x, e) == w);
    }
}
fn dq<S: Ie>(v: &[S]) -> sm::DualQuaternion<S> {
    let q = |i: usize| sm::Quaternion::new(v[i], sm::V3::new_from(v[i + 1], v[i + 2], v[i + 3]));
    sm::DualQuaternion::new(q(0), q(4))
}
fn dq_one<S: Ie, const J: usize>(cx: &mut Cx) {
    let e = S::var(cx, "e");
    let mut a: Vec<S> = cx.vars("a", 8);
    for (i, x) in a.iter().enumerate() {
        if i != J {
            assume(finite(*x));
        }
    }
    let (x, y) = (a[J], S::var(cx, "b"));
    let p = dq(&a);
    a[J] = y;
    let q = dq(&a);
    let w = nearly_equal(x, y, e);
    cx.check::<S>("one component differs", compare_dual_quaternions(p, q, e) == w);
}
fn dq_all<S: Ie>(cx: &mut Cx) {
    let e = S::var(cx, "e");
    let (a, b): (Vec<S>, Vec<S>) = (cx.vars("a", 8), cx.vars("b", 8));
    for i in 0..8 {
        assume(finite(a[i]) && finite(b[i]));
        assume(a[i] != S::lit(0.0) && b[i] != S::lit(0.0) && a[i] != b[i]);
    }
    let r = compare_dual_quaternions(dq(&a), dq(&b), e);
    let w = (0..8).all(|i| nearly_equal(a[i], b[i], e));
    cx.check::<S>("every component", r == w);
}

macro_rules! pair {
    ($v:ident, $p:expr, $n:expr, $on:expr, $b:expr, [$($f:tt)*], [$($g:tt)*]) => {
        $v.push(Contract { prop: $p, name: format!("{} (f32)", $n), on: $on, bounded: $b,
            sym: Some($($f)*::<Fp<32> $($g)*>), nat: $($f)*::<f32 $($g)*> });
        $v.push(Contract { prop: $p, name: format!("{} (f64)", $n), on: $on, bounded: $b,
            sym: Some($($f)*::<Fp<64> $($g)*>), nat: $($f)*::<f64 $($g)*> });
    };
}

// ---------------------------------------------------------------- C29
#[cfg(feature = "sub")]
use static_math_ieee as sub;
macro_rules! left_vec {
    ($v:ident, $name:expr, $on:expr, $t:ident, $n:expr, $w:expr, $nat:ident) => {{
        fn nat(cx: &mut Cx) {
            let s = <$nat as Ie>::var(cx, "s");
            let x: Vec<$nat> = cx.vars("x", $n);
            let mut v = sm::$t::<$nat>::zeros();
            for i in 0..$n {
                v[i] = x[i];
            }
            let (l, r) = (s * v, v * s);
            for i in 0..$n {
                cx.check::<$nat>(&format!("entry {}", i), <$nat>::same(l[i], r[i]));
            }
        }
        #[cfg(feature = "sub")]
        fn sym(cx: &mut Cx) {
            let s = <Fp<$w> as Ie>::var(cx, "s");
            let x: Vec<Fp<$w>> = cx.vars("x", $n);
            let mut v = sub::$t::<Fp<$w>>::zeros();
            for i in 0..$n {
                v[i] = x[i];
            }
            let (l, r) = (s * v, v * s);
            for i in 0..$n {
                cx.check::<Fp<$w>>(&format!("entry {}", i), <Fp<$w>>::same(l[i], r[i]));
            }
        }
        #[cfg(feature = "sub")]
        let s: Option<fn(&mut Cx)> = Some(sym);
        #[cfg(not(feature = "sub"))]
        let s: Option<fn(&mut Cx)> = None;
        $v.push(Contract { prop: "C29", name: $name.into(), on: $on, sym: s, nat, bounded: None });
    }};
}
macro_rules! left_mat {
    ($v:ident, $name:expr, $on:expr, $t:ident, $n:expr, $w:expr, $nat:ident) => {{
        fn nat(cx: &mut Cx) {
            let s = <$nat as Ie>::var(cx, "s");
            let x: Vec<$nat> = cx.vars("x", $n * $n);
            let mut v = <sm::$t<$nat> as num::Zero>::zero();
            for i in 0..$n * $n {
                v[(i / $n, i % $n)] = x[i];
            }
            let (l, r) = (s * v, v * s);
            for i in 0..$n * $n {
                let p = (i / $n, i % $n);
                cx.check::<$nat>(&format!("entry {:?}", p), <$nat>::same(l[p], r[p]));
            }
        }
        #[cfg(feature = "sub")]
        fn sym(cx: &mut Cx) {
            let s = <Fp<$w> as Ie>::var(cx, "s");
            let x: Vec<Fp<$w>> = cx.vars("x", $n * $n);
            let mut v = <sub::$t<Fp<$w>> as num::Zero>::zero();
            for i in 0..$n * $n {
                v[(i / $n, i % $n)] = x[i];
            }
            let (l, r) = (s * v, v * s);
            for i in 0..$n * $n {
                let p = (i / $n, i % $n);
                cx.check::<Fp<$w>>(&format!("entry {:?}", p), <Fp<$w>>::same(l[p], r[p]));
            }
        }
        #[cfg(feature = "sub")]
        let s: Option<fn(&mut Cx)> = Some(sym);
        #[cfg(not(feature = "sub"))]
        let s: Option<fn(&mut Cx)> = None;
        $v.push(Contract { prop: "C29", name: $name.into(), on: $on, sym: s, nat, bounded: None });
    }};
}

fn contracts() -> Vec<Contract> {
    let mut v: Vec<Contract> = vec![];
    let ne = "utils::nearly_equal";
    pair!(v, "C28", "nearly_equal is reflexive", ne, None, [reflexive], []);
    pair!(v, "C28", "nearly_equal is symmetric", ne, None, [symmetric], []);
    pair!(v, "C28", "zeros of either sign", ne, None, [zeros], []);
    pair!(v, "C28", "comparison with zero", ne, None, [absolute], []);
    pair!(v, "C28", "comparison of nonzero numbers", ne, None, [relative], []);
    pair!(v, "C28", "NaN", ne, None, [nan], []);
    pair!(v, "C28", "nearly_zero", "utils::nearly_zero", None, [nzero], []);
    pair!(v, "C28", "compare_floats", "utils::compare_floats", None, [floats], []);
    let cv = "utils::compare_vecs";
    let b = Some("slices of length 0 to 4; of length 9, 16 and 33 with one component of any kind at a few places");
    pair!(v, "C28", "compare_vecs, length 0", cv, b, [vecs], [, 0]);
    pair!(v, "C28", "compare_vecs, length 1", cv, b, [vecs], [, 1]);
    pair!(v, "C28", "compare_vecs, length 2", cv, b, [vecs], [, 2]);
    pair!(v, "C28", "compare_vecs, length 3", cv, b, [vecs], [, 3]);
    pair!(v, "C28", "compare_vecs, length 4", cv, b, [vecs], [, 4]);
    let ce = "slices_methods::check_elements";
    pair!(v, "C28", "check_elements, length 0", ce, b, [elements], [, 0]);
    pair!(v, "C28", "check_elements, length 1", ce, b, [elements], [, 1]);
    pair!(v, "C28", "check_elements, length 2", ce, b, [elements], [, 2]);
    pair!(v, "C28", "check_elements, length 3", ce, b, [elements], [, 3]);
    pair!(v, "C28", "check_elements, length 4", ce, b, [elements], [, 4]);
    pair!(v, "C28", "compare_vecs, length 9, component 0", cv, b, [vecs_one], [, 9, 0]);
    pair!(v, "C28", "check_elements, length 9, component 0", "slices_methods::check_elements", b, [elements_one], [, 9, 0]);
    pair!(v, "C28", "compare_vecs, length 9, component 3", cv, b, [vecs_one], [, 9, 3]);
    pair!(v, "C28", "check_elements, length 9, component 3", "slices_methods::check_elements", b, [elements_one], [, 9, 3]);
    pair!(v, "C28", "compare_vecs, length 9, component 4", cv, b, [vecs_one], [, 9, 4]);
    pair!(v, "C28", "check_elements, length 9, component 4", "slices_methods::check_elements", b, [elements_one], [, 9, 4]);
    pair!(v, "C28", "compare_vecs, length 9, component 7", cv, b, [vecs_one], [, 9, 7]);
    pair!(v, "C28", "check_elements, length 9, component 7", "slices_methods::check_elements", b, [elements_one], [, 9, 7]);
    pair!(v, "C28", "compare_vecs, length 9, component 8", cv, b, [vecs_one], [, 9, 8]);
    pair!(v, "C28", "check_elements, length 9, component 8", "slices_methods::check_elements", b, [elements_one], [, 9, 8]);
    pair!(v, "C28", "compare_vecs, length 16, component 0", cv, b, [vecs_one], [, 16, 0]);
    pair!(v, "C28", "check_elements, length 16, component 0", "slices_methods::check_elements", b, [elements_one], [, 16, 0]);
    pair!(v, "C28", "compare_vecs, length 16, component 4", cv, b, [vecs_one], [, 16, 4]);
    pair!(v, "C28", "check_elements, length 16, component 4", "slices_methods::check_elements", b, [elements_one], [, 16, 4]);
    pair!(v, "C28", "compare_vecs, length 16, component 8", cv, b, [vecs_one], [, 16, 8]);
    pair!(v, "C28", "check_elements, length 16, component 8", "slices_methods::check_elements", b, [elements_one], [, 16, 8]);
    pair!(v, "C28", "compare_vecs, length 16, component 11", cv, b, [vecs_one], [, 16, 11]);
    pair!(v, "C28", "check_elements, length 16, component 11", "slices_methods::check_elements", b, [elements_one], [, 16, 11]);
    pair!(v, "C28", "compare_vecs, length 16, component 15", cv, b, [vecs_one], [, 16, 15]);
    pair!(v, "C28", "check_elements, length 16, component 15", "slices_methods::check_elements", b, [elements_one], [, 16, 15]);
    pair!(v, "C28", "compare_vecs, length 33, component 16", cv, b, [vecs_one], [, 33, 16]);
    pair!(v, "C28", "check_elements, length 33, component 16", "slices_methods::check_elements", b, [elements_one], [, 33, 16]);
    pair!(v, "C28", "compare_vecs, length 33, component 32", cv, b, [vecs_one], [, 33, 32]);
    pair!(v, "C28", "check_elements, length 33, component 32", "slices_methods::check_elements", b, [elements_one], [, 33, 32]);
    let bl = Some("length 40 proved; about 110 lengths up to 10000 run with sampled components");
    pair!(v, "C28", "compare_vecs, longer slices", cv, bl, [vecs_long], []);
    pair!(v, "C28", "check_elements, longer slices", ce, bl, [elements_long], []);
    let cd = "utils::compare_dual_quaternions, DualQuaternion::{real, dual}, Quaternion::{real, imag}";
    pair!(v, "C28", "compare_dual_quaternions, component 0", cd, None, [dq_one], [, 0]);
    pair!(v, "C28", "compare_dual_quaternions, component 1", cd, None, [dq_one], [, 1]);
    pair!(v, "C28", "compare_dual_quaternions, component 2", cd, None, [dq_one], [, 2]);
    pair!(v, "C28", "compare_dual_quaternions, component 3", cd, None, [dq_one], [, 3]);
    pair!(v, "C28", "compare_dual_quaternions, component 4", cd, None, [dq_one], [, 4]);
    pair!(v, "C28", "compare_dual_quaternions, component 5", cd, None, [dq_one], [, 5]);
    pair!(v, "C28", "compare_dual_quaternions, component 6", cd, None, [dq_one], [, 6]);
    pair!(v, "C28", "compare_dual_quaternions, component 7", cd, None, [dq_one], [, 7]);
    pair!(v, "C28", "compare_dual_quaternions, all components", cd, None, [dq_all], []);

    left_vec!(v, "f32 * V2", "Mul<V2<f32>> for f32, Mul<T> for V2", V2, 2, 32, f32);
    left_vec!(v, "f32 * V3", "Mul<V3<f32>> for f32, Mul<T> for V3", V3, 3, 32, f32);
    left_vec!(v, "f64 * V3", "Mul<V3<f64>> for f64, Mul<T> for V3", V3, 3, 64, f64);
    left_vec!(v, "f32 * V4", "Mul<V4<f32>> for f32, Mul<T> for V4", V4, 4, 32, f32);
    left_vec!(v, "f32 * V5", "Mul<V5<f32>> for f32, Mul<T> for V5", V5, 5, 32, f32);
    left_vec!(v, "f32 * V6", "Mul<V6<f32>> for f32, Mul<T> for V6", V6, 6, 32, f32);
    left_mat!(v, "f32 * M22", "Mul<M22<f32>> for f32, Mul<T> for M22", M22, 2, 32, f32);
    left_mat!(v, "f32 * M33", "Mul<M33<f32>> for f32, Mul<T> for M33", M33, 3, 32, f32);
    left_mat!(v, "f64 * M33", "Mul<M33<f64>> for f64, Mul<T> for M33", M33, 3, 64, f64);
    v
}

// ---------------------------------------------------------------- driver
fn write_replay(prop: &str, c: &str, v: &Violation, r: &Report) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.txt", dir, prop);
    let mut s = String::new();
    let _ = writeln!(s, "property: {}\ncontract: {}\nobligation: {}\nconfirmed: {}", prop, c, v.label, v.confirmed);
    let _ = writeln!(s, "# replay with: {}/check replay {}   (runs the same contract on the real code with the inputs below)", root(), path);
    for (n, b, x) in &v.inputs {
        let _ = writeln!(s, "input: {} {:016x} {:e}", n, b, x);
    }
    for p in &v.path {
        let _ = writeln!(s, "path: {}", p);
    }
    for u in r.undecided.iter().take(40) {
        let _ = writeln!(s, "open: {}", u.replace('\n', " "));
    }
    let _ = std::fs::write(&path, s);
    path
}
fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let name = s.lines().find_map(|l| l.strip_prefix("contract: ")).expect("contract line").to_string();
    let mut over = BTreeMap::new();
    for l in s.lines().filter_map(|l| l.strip_prefix("input: ")) {
        let p: Vec<&str> = l.split(' ').collect();
        over.insert(p[0].to_string(), u64::from_str_radix(p[1], 16).unwrap());
    }
    let cs = contracts();
    let c = match cs.iter().find(|c| c.name == name) {
        Some(c) => c,
        None => {
            println!("no contract named {}", name);
            return 2;
        }
    };
    let (seed, k) = s
        .lines()
        .find_map(|l| l.strip_prefix("sample: "))
        .and_then(|x| x.split_once(' ').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())))
        .unwrap_or((1, 0));
    match native(c, seed, k, &over) {
        None => {
            println!("precondition not met");
            2
        }
        Some(cx) => {
            for (n, b, x) in &cx.inputs {
                println!("input {} = {:e} (bits {:x})", n, x, b);
            }
            println!("{} checks, {} failed", cx.checked, cx.fails.len());
            for f in &cx.fails {
                println!("FAILED {}", f);
            }
            !cx.fails.is_empty() as i32
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let arg2 = args.get(2).cloned().unwrap_or_default();
    if id == "replay" {
        std::process::exit(replay(&arg2));
    }
    if id == "list" {
        for c in contracts() {
            println!("{} | {} | {}", c.prop, c.name, c.on);
        }
        return;
    }
    if id == "dbg" {
        for c in contracts().iter().filter(|c| c.name.contains(&arg2)) {
            let t = Instant::now();
            let r = run(c, 1, args.iter().any(|a| a == "thorough"));
            println!("{} paths {} obl {}/{} {:?} calls {} ({} ms) {} ms reached {}", c.name, r.paths, r.proved, r.obligations, r.by, r.calls, r.ms, t.elapsed().as_millis(), r.reached);
            for u in r.undecided.iter().take(4) {
                println!("   {:.400}", u);
            }
        }
        return;
    }
    if id == "probe" {
        let sel: Vec<Contract> = contracts().into_iter().filter(|c| c.prop == arg2).collect();
        let names: Vec<String> = sel.iter().map(|c| c.name.clone()).collect();
        vcore::guard::probe(&names, &[1], 60, &|i, s, k| {
            let _ = native(&sel[i], s, k, &BTreeMap::new());
        });
        return;
    }
    if !vcore::guard::is_child() {
        std::process::exit(vcore::guard::supervise(&id, &args));
    }
    let thorough = arg2 == "thorough" || std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") && arg2 != "quick";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let t0 = Instant::now();
    if !thorough {
        vcore::guard::watch(std::time::Duration::from_secs(570));
    }
    let sel: Vec<Contract> = contracts().into_iter().filter(|c| c.prop == id).collect();
    if sel.is_empty() {
        println!("no contract for {}", id);
        std::process::exit(2);
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= sel.len() {
                    break;
                }
                let t = Instant::now();
                let i = sel.len() - 1 - i;
                let r = run(&sel[i], seed, thorough);
                out.lock().unwrap().insert(i, (r, t.elapsed().as_millis()));
            });
        }
    });
    let out = out.into_inner().unwrap();
    let (mut obl, mut dis, mut paths, mut calls, mut ms, mut runs, mut checks) = (0, 0, 0, 0, 0u128, 0, 0);
    let mut by: BTreeMap<String, usize> = BTreeMap::new();
    let (mut per, mut undecided, mut bounded, mut vacuous) = (vec![], vec![], vec![], vec![]);
    let mut viol: Option<(String, Violation, Report)> = None;
    let mut funs = std::collections::BTreeSet::new();
    for (i, (r, t)) in &out {
        let c = &sel[*i];
        funs.insert(c.on.to_string());
        obl += r.obligations;
        dis += r.proved;
        paths += r.paths;
        calls += r.calls;
        ms += r.ms;
        runs += r.runs;
        checks += r.checks;
        for (k, n) in &r.by {
            *by.entry(k.clone()).or_default() += n;
        }
        undecided.extend(r.undecided.iter().map(|u| format!("{}: {}", c.name, u)));
        if c.sym.is_none() {
            undecided.push(format!("{}: the extracted copy does not compile at the symbolic float; concrete runs only", c.name));
        } else if r.obligations == 0 || !r.reached {
            vacuous.push(c.name.clone());
        }
        if let Some(b) = c.bounded {
            bounded.push(format!("{}: {}", c.name, b));
        }
        per.push(format!(
            "{{\"contract\": {}, \"functions\": {}, \"paths\": {}, \"obligations\": {}, \"discharged\": {}, \"ms\": {}, \"complete\": {}}}",
            esc(&c.name), esc(c.on), r.paths, r.obligations, r.proved, t, r.complete
        ));
        if let Some(v) = &r.violation {
            if viol.as_ref().map_or(true, |(_, o, _)| !o.confirmed && v.confirmed) {
                viol = Some((c.name.clone(), v.clone(), r.clone()));
            }
        }
    }
    let proof = undecided.is_empty() && vacuous.is_empty() && bounded.is_empty() && obl == dis && obl > 0;
    let mut trusted = vec![
        "the symbolic machine float (engine/core/src/ieee.rs): the crate's code is monomorphized at it by rustc, so the verified text is the compiled source itself",
        "z3's theory of IEEE-754 floating point (products and quotients first uninterpreted, products commutative)",
        "rewriting exact on machine numbers: a+b = b+a, a*b = b*a, |a-b| = |b-a|, |-a| = |a|, --a = a, 1*a = a, a/1 = a; all NaNs taken as one",
        "the target computes f32 and f64 with IEEE-754 round-to-nearest-even",
    ];
    if id == "C29" {
        trusted.push("ieee/extract.py: the copy of /repo/src in which the names f32 and f64 mean the symbolic floats (the concrete runs use the crate itself)");
    }
    let j = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\n  \"obligations\": {}, \"discharged\": {},\n  \"checker_cmd\": {},\n  \"trusted_base\": {},\n  \"explanation\": {},\n  \"functions_under_contract\": {},\n  \"contracts\": [\n   {}\n  ],\n  \"by_back_end\": {{{}}},\n  \"paths\": {}, \"solver_calls\": {}, \"solver_ms\": {},\n  \"concrete_runs\": {}, \"concrete_checks\": {},\n  \"bounded\": {},\n  \"undecided\": {},\n  \"vacuous\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        esc(&id), esc(if thorough { "thorough" } else { "quick" }), seed, esc(if proof { "proof" } else { "other" }),
        obl, dis,
        esc(&format!("./check {} {}", id, if thorough { "thorough" } else { "quick" })),
        jlist(trusted.iter().map(|s| s.to_string())),
        esc("contracts on the real functions over all machine floats, discharged path by path by symbolic execution of the compiled code; parts listed under bounded or undecided are not proved"),
        jlist(funs), per.join(",\n   "),
        by.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "),
        paths, calls, ms, runs, checks,
        jlist(bounded.clone()), jlist(undecided.iter().take(40).cloned()), jlist(vacuous.clone()),
        jlist(vec!["preconditions stated in the contracts (see DESIGN.md)".to_string()]),
        t0.elapsed().as_secs_f64(), viol.is_some() as i32
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    let _ = std::fs::write(format!("{}/evidence/{}.json", root(), id), j);
    println!(
        "{}: {} contracts, {} paths, {}/{} obligations discharged, {} solver calls ({} ms), {} concrete runs, {:.1} s",
        id, sel.len(), paths, dis, obl, calls, ms, runs, t0.elapsed().as_secs_f64()
    );
    for b in &bounded {
        println!("bounded: {}", b);
    }
    for b in undecided.iter().take(10) {
        println!("undecided: {}", b);
    }
    for b in &vacuous {
        println!("vacuous: {}", b);
    }
    if let Some((c, v, r)) = viol {
        let path = write_replay(&id, &c, &v, &r);
        println!("{}: {}", c, v.label);
        println!("VIOLATION property={} replay={}{}", id, path, if v.confirmed { "" } else { " no-failing-input-found" });
        std::process::exit(1);
    }
}
