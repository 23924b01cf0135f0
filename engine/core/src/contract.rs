//! The contract language.  A contract is a generic function over the scalar:
//! run with `Sym` it generates proof obligations from the real code, run with
//! `Nf` (a double with a rigorous error bound) it replays one concrete input.
use crate::eng::*;
use crate::nf::{nf, Nf, AMBIG};
use crate::prove;
use crate::rat::Rat;
use crate::sym::Sym;
use num::traits::FloatConst;
use num::{Float, Signed};
use std::collections::HashMap;
use std::iter::Sum;
use std::ops::*;

pub trait Sc:
    Float
    + Signed
    + FloatConst
    + Sum<Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + DivAssign
    + std::fmt::Debug
    + std::fmt::Display
    + 'static
{
    fn c_var(cx: &mut Cx, name: &str) -> Self;
    fn c_unit(cx: &mut Cx, name: &str, n: usize) -> Vec<Self>;
    fn c_angle(cx: &mut Cx, name: &str, lo: Option<(i128, i128)>, hi: Option<(i128, i128)>, div: i128) -> Self;
    fn c_eq(cx: &mut Cx, label: &str, a: Self, b: Self);
    fn c_holds(cx: &mut Cx, label: &str, b: bool);
    fn c_assume(cx: &mut Cx, b: bool);
    fn c_rat(n: i128, d: i128) -> Self;
    fn c_hint(cx: &mut Cx, a: Self);
    fn c_sym() -> bool;
    /// the scalar shown by a token "⟨hex:precision⟩" of the Display impl
    fn c_token(hex: u64) -> Self;
}

#[derive(Clone, Debug)]
pub struct NumFail {
    pub label: String,
    pub detail: String,
}

/// contract context: the inputs drawn so far and, in a numeric run, the failures
pub struct Cx {
    pub seed: u64,
    pub k: usize,
    pub over: HashMap<String, f64>,
    pub inputs: Vec<(String, f64)>,
    pub groups: usize,
    pub fails: Vec<NumFail>,
    pub checked: usize,
    pub inconclusive: usize,
    pub scope: String,
    /// judge runs with an undecided comparison too, by a coarse criterion
    pub gross: bool,
}
impl Cx {
    pub fn new(seed: u64, k: usize) -> Cx {
        Cx {
            seed,
            k,
            over: HashMap::new(),
            inputs: vec![],
            groups: 0,
            fails: vec![],
            checked: 0,
            inconclusive: 0,
            scope: String::new(),
            gross: false,
        }
    }
    fn lab(&self, l: &str) -> String {
        if self.scope.is_empty() {
            l.to_string()
        } else {
            format!("{}: {}", self.scope, l)
        }
    }
    pub fn scope(&mut self, s: &str) {
        self.scope = s.to_string();
    }
    // ---- inputs ----
    pub fn var<S: Sc>(&mut self, name: &str) -> S {
        S::c_var(self, name)
    }
    pub fn vars<S: Sc>(&mut self, name: &str, n: usize) -> Vec<S> {
        (0..n).map(|i| S::c_var(self, &format!("{}{}", name, i))).collect()
    }
    pub fn arr<S: Sc, const N: usize>(&mut self, name: &str) -> [S; N] {
        let v = self.vars::<S>(name, N);
        std::array::from_fn(|i| v[i])
    }
    pub fn mat<S: Sc, const N: usize>(&mut self, name: &str) -> [[S; N]; N] {
        let mut r = [[S::zero(); N]; N];
        for i in 0..N {
            for j in 0..N {
                r[i][j] = S::c_var(self, &format!("{}{}{}", name, i, j));
            }
        }
        r
    }
    /// n numbers with x0^2 + ... = 1
    pub fn unit<S: Sc, const N: usize>(&mut self, name: &str) -> [S; N] {
        let v = S::c_unit(self, name, N);
        std::array::from_fn(|i| v[i])
    }
    /// an angle in the open interval (lo*pi, hi*pi); the code may use multiples of angle/div
    pub fn angle<S: Sc>(&mut self, name: &str, lo: (i128, i128), hi: (i128, i128), div: i128) -> S {
        S::c_angle(self, name, Some(lo), Some(hi), div)
    }
    pub fn any_angle<S: Sc>(&mut self, name: &str, div: i128) -> S {
        S::c_angle(self, name, None, None, div)
    }
    /// precondition
    pub fn assume<S: Sc>(&mut self, b: bool) {
        S::c_assume(self, b)
    }
    /// the inputs lie on a boundary between branches by construction, so that in a concrete run
    /// rounding picks the branch: true in a run that is judged although a comparison was within
    /// rounding error, which shows nothing here, however far off it is
    pub fn on_boundary(&self) -> bool {
        self.gross
    }
    pub fn hint<S: Sc>(&mut self, a: S) {
        S::c_hint(self, a)
    }
    // ---- postconditions ----
    pub fn eq<S: Sc>(&mut self, label: &str, a: S, b: S) {
        S::c_eq(self, label, a, b)
    }
    pub fn eqs<S: Sc>(&mut self, label: &str, a: &[S], b: &[S]) {
        if a.len() != b.len() {
            S::c_holds(self, &format!("{} (length)", label), false);
            return;
        }
        for i in 0..a.len() {
            S::c_eq(self, &format!("{}[{}]", label, i), a[i], b[i]);
        }
    }
    pub fn eqm<S: Sc, const N: usize>(&mut self, label: &str, a: [[S; N]; N], b: [[S; N]; N]) {
        for i in 0..N {
            for j in 0..N {
                S::c_eq(self, &format!("{}[{}][{}]", label, i, j), a[i][j], b[i][j]);
            }
        }
    }
    pub fn holds<S: Sc>(&mut self, label: &str, b: bool) {
        S::c_holds(self, label, b)
    }
    /// the entries shown in a text, in order, with the precision each was printed at
    pub fn shown<S: Sc>(&self, text: &str) -> Vec<(S, i64)> {
        let mut v = vec![];
        let mut rest = text;
        while let Some(i) = rest.find('⟨') {
            rest = &rest[i + '⟨'.len_utf8()..];
            let Some(e) = rest.find('⟩') else { break };
            if let Some((h, p)) = rest[..e].split_once(':') {
                if let (Ok(h), Ok(p)) = (u64::from_str_radix(h, 16), p.parse()) {
                    v.push((S::c_token(h), p));
                }
            }
            rest = &rest[e..];
        }
        v
    }
    /// the closure must panic (a documented refusal)
    pub fn panics<S: Sc, R>(&mut self, label: &str, f: impl FnOnce() -> R) {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        match r {
            Ok(_) => S::c_holds(self, label, false),
            Err(p) => {
                if p.is::<Cut>() {
                    std::panic::resume_unwind(p);
                }
                S::c_holds(self, label, true)
            }
        }
    }
}

fn cut(s: &'static str) -> ! {
    std::panic::resume_unwind(Box::new(Cut(s)))
}

impl Sc for Sym {
    fn c_sym() -> bool {
        true
    }
    fn c_token(hex: u64) -> Sym {
        Sym(hex as NodeId)
    }
    fn c_var(_: &mut Cx, name: &str) -> Sym {
        with(|e| {
            if !e.var_kind.contains_key(name) {
                e.var_kind.insert(name.to_string(), VarKind::Real);
                e.var_order.push(name.to_string());
            }
            Sym(e.natom(AtomKind::Var(name.to_string())))
        })
    }
    fn c_unit(cx: &mut Cx, name: &str, n: usize) -> Vec<Sym> {
        let gid = cx.groups;
        cx.groups += 1;
        with(|e| {
            let mut v = vec![];
            let mut atoms = vec![];
            for i in 0..n {
                let nm = format!("{}{}", name, i);
                if !e.var_kind.contains_key(&nm) {
                    e.var_kind.insert(nm.clone(), VarKind::Unit(gid, i, n));
                    e.var_order.push(nm.clone());
                }
                let a = e.atom(AtomKind::Var(nm.clone()));
                atoms.push(a);
                v.push(Sym(e.natom(AtomKind::Var(nm))));
            }
            if !e.groups.iter().any(|g| g.atoms == atoms) {
                e.set_unit_rule(&atoms);
                e.groups.push(UnitGroup { atoms });
            }
            v
        })
    }
    fn c_angle(_: &mut Cx, name: &str, lo: Option<(i128, i128)>, hi: Option<(i128, i128)>, div: i128) -> Sym {
        with(|e| {
            let fresh = !e.var_kind.contains_key(name);
            let pi = std::f64::consts::PI;
            let d = div as f64;
            let rf = |x: Option<(i128, i128)>, dflt: f64| x.map_or(dflt, |(n, m)| n as f64 / m as f64 * pi / d);
            if fresh {
                e.var_kind
                    .insert(name.to_string(), VarKind::Angle(rf(lo, -2.0 * pi / d), rf(hi, 2.0 * pi / d)));
                e.var_order.push(name.to_string());
            }
            let h = e.natom(AtomKind::Var(name.to_string()));
            let kd = e.konst(Rat::int(div));
            let th = e.mul(kd, h);
            let pin = e.pi();
            for k in 1..=div {
                let kn = e.konst(Rat::int(k));
                let kh = e.mul(kn, h);
                e.angle_hints.insert(0, kh);
                if fresh {
                    let (s, c) = e.mk_sin_cos(kh);
                    let lo_ = lo.map(|(n, m)| Rat::new(n * k, m * div).unwrap());
                    let hi_ = hi.map(|(n, m)| Rat::new(n * k, m * div).unwrap());
                    if let (Some(l), Some(u)) = (lo_, hi_) {
                        let ge = |a: Rat, n: i128, d: i128| a.cmp(&Rat::new(n, d).unwrap()) != Some(std::cmp::Ordering::Less);
                        let le = |a: Rat, n: i128, d: i128| {
                            a.cmp(&Rat::new(n, d).unwrap()) != Some(std::cmp::Ordering::Greater)
                        };
                        let fact = |e: &mut Eng, n: NodeId, m: u8| {
                            if let Ok(r) = e.nf(n) {
                                if r.den.is_empty() && !r.num.is_zero() {
                                    let p = r.num.clone();
                                    e.gfact(&p, m, "angle range");
                                }
                            }
                        };
                        if ge(l, 0, 1) && le(u, 1, 1) {
                            fact(e, s, POS)
                        }
                        if ge(l, -1, 1) && le(u, 0, 1) {
                            fact(e, s, NEG)
                        }
                        if ge(l, -1, 2) && le(u, 1, 2) {
                            fact(e, c, POS)
                        }
                        if (ge(l, 1, 2) && le(u, 3, 2)) || (ge(l, -3, 2) && le(u, -1, 2)) {
                            fact(e, c, NEG)
                        }
                    }
                }
            }
            if fresh {
                for (b, sg) in [(lo, POS), (hi, NEG)] {
                    if let Some((n, m)) = b {
                        let c = e.konst(Rat::new(n, m).unwrap());
                        let b = e.mul(c, pin);
                        let d = e.sub(th, b);
                        let p = e.nf(d).unwrap().num.clone();
                        e.gfact(&p, sg, "angle range");
                        // powers of the angle itself
                        if n == 0 {
                            let p = e.nf(h).unwrap().num.clone();
                            e.gfact(&p, sg, "angle range");
                        }
                    }
                }
            }
            Sym(th)
        })
    }
    fn c_eq(cx: &mut Cx, label: &str, a: Sym, b: Sym) {
        let l = cx.lab(label);
        with(|e| prove::equal(e, &l, a.0, b.0))
    }
    fn c_holds(cx: &mut Cx, label: &str, b: bool) {
        let l = cx.lab(label);
        with(|e| prove::holds(e, &l, b))
    }
    fn c_assume(_: &mut Cx, b: bool) {
        if !b {
            cut("assume")
        }
    }
    fn c_rat(n: i128, d: i128) -> Sym {
        Sym(with(|e| e.konst(Rat::new(n, d).unwrap())))
    }
    fn c_hint(_: &mut Cx, a: Sym) {
        with(|e| e.angle_hints.insert(0, a.0))
    }
}

impl Cx {
    fn num_ok(&mut self) -> bool {
        if AMBIG.with(|x| x.get()) && !self.gross {
            self.inconclusive += 1;
            false
        } else {
            self.checked += 1;
            true
        }
    }
}
impl Sc for Nf {
    fn c_sym() -> bool {
        false
    }
    fn c_token(hex: u64) -> Nf {
        nf(f64::from_bits(hex))
    }
    fn c_var(cx: &mut Cx, name: &str) -> Nf {
        let v = match cx.over.get(name) {
            Some(v) if crate::nf::INT.with(|x| x.get()) => v.round(),
            Some(v) => *v,
            None if crate::nf::INT.with(|x| x.get()) => whole(sample_real(cx.seed, cx.k, name)),
            None => sample_real(cx.seed, cx.k, name),
        };
        cx.inputs.push((name.to_string(), v));
        nf(v)
    }
    fn c_unit(cx: &mut Cx, name: &str, n: usize) -> Vec<Nf> {
        let gid = cx.groups;
        cx.groups += 1;
        let mut v: Vec<f64> = (0..n)
            .map(|i| match cx.over.get(&format!("{}{}", name, i)) {
                Some(v) => *v,
                None => sample_unit(cx.seed, cx.k, gid, i, n),
            })
            .collect();
        let s = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        if s > 0.0 && (s - 1.0).abs() > 1e-15 {
            for x in v.iter_mut() {
                *x /= s;
            }
        }
        let s2 = v.iter().map(|x| x * x).sum::<f64>();
        let exact = s2 == 1.0 && v.iter().all(|x| (x * 1024.0).fract() == 0.0);
        for i in 0..n {
            cx.inputs.push((format!("{}{}", name, i), v[i]));
        }
        // the exact unit vector lies within this distance of the drawn doubles
        v.into_iter().map(|x| Nf { v: x, e: if exact { 0.0 } else { 4e-16 } }).collect()
    }
    fn c_angle(cx: &mut Cx, name: &str, lo: Option<(i128, i128)>, hi: Option<(i128, i128)>, div: i128) -> Nf {
        let pi = std::f64::consts::PI;
        let d = div as f64;
        let rf = |x: Option<(i128, i128)>, dflt: f64| x.map_or(dflt, |(n, m)| n as f64 / m as f64 * pi / d);
        let (l, h) = (rf(lo, -2.0 * pi / d), rf(hi, 2.0 * pi / d));
        let v = match cx.over.get(name) {
            Some(v) => *v,
            None => sample_angle(cx.seed, cx.k, name, l, h),
        };
        if (lo.is_some() && v <= l + 1e-14) || (hi.is_some() && v >= h - 1e-14) {
            cut("assume");
        }
        cx.inputs.push((name.to_string(), v));
        nf(d) * nf(v)
    }
    fn c_eq(cx: &mut Cx, label: &str, a: Nf, b: Nf) {
        if !cx.num_ok() {
            return;
        }
        let e = a.e + b.e;
        let bad = if cx.gross {
            let d = (a.v - b.v).abs();
            e.is_finite() && d > 1e-6 * (1.0 + a.v.abs().max(b.v.abs())) && d > 4.0 * e
        } else if a.v.is_nan() || b.v.is_nan() {
            // NaN where the other side is a number
            a.v.is_nan() != b.v.is_nan() && a.e.is_finite() && b.e.is_finite()
        } else if a.v.is_infinite() || b.v.is_infinite() {
            a.v != b.v && e.is_finite()
        } else {
            let m = a.v.abs().max(b.v.abs());
            (a.v - b.v).abs() > 4.0 * e + 1e-13 * m + 1e-280 && e < 1e-3 * (1.0 + m)
        };
        if bad {
            let l = cx.lab(label);
            cx.fails.push(NumFail { label: l, detail: format!("got {:e}, expected {:e} (rounding at most {:e})", a.v, b.v, e) });
        }
    }
    fn c_holds(cx: &mut Cx, label: &str, b: bool) {
        if !cx.num_ok() || AMBIG.with(|x| x.get()) {
            return;
        }
        if !b {
            let l = cx.lab(label);
            cx.fails.push(NumFail { label: l, detail: "condition is false".into() });
        }
    }
    fn c_assume(cx: &mut Cx, b: bool) {
        if !b || cx.gross && AMBIG.with(|x| x.get()) {
            cut("assume")
        }
    }
    fn c_rat(n: i128, d: i128) -> Nf {
        nf(n as f64) / nf(d as f64)
    }
    fn c_hint(_: &mut Cx, _: Nf) {}
}

#[derive(Clone)]
pub struct Contract {
    pub prop: &'static str,
    pub name: &'static str,
    /// the functions of the crate the contract is about
    pub on: &'static str,
    pub sym: fn(&mut Cx),
    pub num: fn(&mut Cx),
    pub opt: Opt,
}
#[derive(Clone, Copy)]
pub struct Opt {
    /// explore at most this many paths; beyond it the contract is only bounded
    pub paths: usize,
    pub max_terms: usize,
    pub smt_ms: u64,
    /// a documented bound of the contract itself ("slices of length <= 6")
    pub bounded: Option<&'static str>,
    pub samples: usize,
    pub thorough_only: bool,
    /// at most this many concrete runs in the cross-check
    pub cross: usize,
    /// > 0: follow only the paths of this many sampled inputs (bounded)
    pub guided: usize,
    /// with `guided`: the samples settle only this many decisions of a path, the rest is exhaustive
    pub prefix: usize,
    /// absolute values do not fork, and sides without a witness are not tested for feasibility
    pub eager: bool,
    /// the scalar is an integer (its division truncates)
    pub int: bool,
}
pub const DEF: Opt =
    Opt { paths: 3000, max_terms: 6000, smt_ms: 2000, bounded: None, samples: 240, thorough_only: false, guided: 0, prefix: usize::MAX, eager: false, int: false, cross: usize::MAX };

#[macro_export]
macro_rules! contracts {
    ($v:expr, $prop:expr; $( $f:ident $(::<$($g:tt),*>)? : $name:expr, $on:expr $(, $k:ident = $val:expr)* );* $(;)?) => {
        $( $v.push(vcore::contract::Contract {
            prop: $prop, name: $name, on: $on,
            sym: $f::<vcore::sym::Sym $($(, $g)*)?>, num: $f::<vcore::nf::Nf $($(, $g)*)?>,
            opt: { #[allow(unused_mut)] let mut o = vcore::contract::DEF; $( o.$k = $val; )* o },
        }); )*
    };
}
