//! Contracts over the machine floats themselves.  `Fp<32>` and `Fp<64>` are
//! symbolic IEEE-754 numbers: the crate's code runs on them path by path, every
//! comparison is a fork, and z3's floating-point theory decides what remains.
//! Products and quotients are first read as uninterpreted (products commutative);
//! a counterexample under that reading is checked again with the true operations.
use crate::eng::Cut;
use crate::smt;
use num::traits::{FloatConst, NumCast, ToPrimitive};
use num::{Float, Num, One, Zero};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Op {
    Var(u32),
    Const(u64),
    Abs(u32),
    Neg(u32),
    Sqrt(u32),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Div(u32, u32),
    Rem(u32, u32),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum Pred {
    Eq(u32, u32),
    Lt(u32, u32),
    Le(u32, u32),
    Same(u32, u32),
    Nan(u32),
    Sign(u32),
}
struct Eng {
    nodes: Vec<(Op, usize)>,
    cons: HashMap<(Op, usize), u32>,
    vars: Vec<(String, usize)>,
    decs: Vec<(Vec<bool>, usize)>,
    pos: usize,
    facts: Vec<(Pred, bool)>,
    fmap: HashMap<Pred, bool>,
    seed: u64,
    alive: Vec<usize>,
    vals: HashMap<(usize, u32), f64>,
    unsupported: BTreeSet<String>,
    calls: usize,
    ms: u128,
    timeout: u64,
    cache: HashMap<String, Res>,
    obl: Vec<(String, bool)>,
    pvars: HashMap<Pred, BTreeSet<u32>>,
}
#[derive(Clone, Debug)]
enum Res {
    Unsat,
    Sat(Vec<(String, u64)>, bool),
    Unknown,
}
const SAMPLES: usize = 400;
thread_local! { static ENG: RefCell<Option<Eng>> = RefCell::new(None); }
fn with<R>(f: impl FnOnce(&mut Eng) -> R) -> R {
    ENG.with(|e| f(e.borrow_mut().as_mut().expect("no engine")))
}
fn rnd(w: usize, x: f64) -> f64 {
    if w == 32 {
        x as f32 as f64
    } else {
        x
    }
}
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
/// concrete value number k of a variable
pub fn sample(seed: u64, k: usize, name: &str, w: usize) -> f64 {
    let hn = name.bytes().fold(7u64, |h, b| mix(h ^ b as u64));
    let h = mix(seed ^ mix(k as u64) ^ hn);
    let base = mix(seed ^ mix(k as u64 ^ 0xabcdef));
    let (max, minp, eps, sub) = if w == 32 {
        (f32::MAX as f64, f32::MIN_POSITIVE as f64, f32::EPSILON as f64, f32::from_bits(1) as f64)
    } else {
        (f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, f64::from_bits(1))
    };
    let specials = [
        0.0, -0.0, 1.0, -1.0, max, -max, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, minp, -minp, sub, -sub, eps,
        eps / 2.0, 2.0 * eps, -eps, 0.5, 2.0, 3.0, 1e-6, 1e-10, 0.1, 0.25, 1e10, max / 2.0, max / 4.0, minp * 3.0,
        sub * 5.0, 1.0 + eps, 1.0 - eps / 2.0, 1e-3,
    ];
    let pick = |h: u64| specials[(h >> 8) as usize % specials.len()];
    let any = |h: u64| {
        if w == 32 {
            f32::from_bits((h >> 13) as u32) as f64
        } else {
            f64::from_bits(mix(h))
        }
    };
    let mild = |h: u64| ((mix(h) >> 11) as f64 / (1u64 << 53) as f64 - 0.5) * 20.0;
    let x = match base % 6 {
        // all variables special
        0 | 1 => pick(h),
        2 => any(h),
        3 => mild(h),
        // variables near each other
        4 => {
            let b = match base >> 16 & 3 {
                0 => pick(base),
                1 => any(base),
                _ => mild(base),
            };
            b * (1.0 + ((h >> 20 & 15) as f64 - 7.0) * [eps, eps * 64.0, 1e-6, 0.02][(base >> 24) as usize & 3])
        }
        _ => match h & 3 {
            0 => pick(h),
            1 => any(h),
            2 => mild(h),
            _ => mild(h).round(),
        },
    };
    rnd(w, x)
}

impl Eng {
    fn node(&mut self, op: Op, w: usize) -> u32 {
        if let Some(n) = self.cons.get(&(op, w)) {
            return *n;
        }
        self.nodes.push((op, w));
        let n = self.nodes.len() as u32 - 1;
        self.cons.insert((op, w), n);
        n
    }
    fn konst(&mut self, x: f64, w: usize) -> u32 {
        let x = rnd(w, x);
        let b = if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() };
        self.node(Op::Const(b), w)
    }
    fn cval(&self, n: u32) -> Option<f64> {
        match self.nodes[n as usize].0 {
            Op::Const(b) => Some(f64::from_bits(b)),
            _ => None,
        }
    }
    fn mk(&mut self, op: Op, w: usize) -> u32 {
        // rewriting that is exact on the machine numbers
        let op = match op {
            Op::Add(a, b) if b < a => Op::Add(b, a),
            Op::Mul(a, b) if b < a => Op::Mul(b, a),
            Op::Abs(a) => match self.nodes[a as usize].0 {
                Op::Abs(_) => return a,
                Op::Neg(b) => return self.mk(Op::Abs(b), w),
                Op::Sub(x, y) if y < x => {
                    let s = self.mk(Op::Sub(y, x), w);
                    Op::Abs(s)
                }
                _ => op,
            },
            Op::Neg(a) => match self.nodes[a as usize].0 {
                Op::Neg(b) => return b,
                _ => op,
            },
            o => o,
        };
        let ops: Vec<u32> = match op {
            Op::Abs(a) | Op::Neg(a) | Op::Sqrt(a) => vec![a],
            Op::Add(a, b) | Op::Sub(a, b) | Op::Mul(a, b) | Op::Div(a, b) | Op::Rem(a, b) => vec![a, b],
            _ => vec![],
        };
        if !ops.is_empty() && ops.iter().all(|o| self.cval(*o).is_some()) {
            let v: Vec<f64> = ops.iter().map(|o| self.cval(*o).unwrap()).collect();
            let x = eval(op, w, &v);
            return self.konst(x, w);
        }
        if let Op::Mul(a, b) = op {
            // 1 * x is x
            if self.cval(a) == Some(1.0) {
                return b;
            }
            if self.cval(b) == Some(1.0) {
                return a;
            }
        }
        if let Op::Div(a, b) = op {
            if self.cval(b) == Some(1.0) {
                return a;
            }
        }
        self.node(op, w)
    }
    fn value(&mut self, k: usize, n: u32) -> f64 {
        if let Some(v) = self.vals.get(&(k, n)) {
            return *v;
        }
        let (op, w) = self.nodes[n as usize];
        let v = match op {
            Op::Var(i) => {
                let name = self.vars[i as usize].0.clone();
                sample(self.seed, k, &name, w)
            }
            Op::Const(b) => f64::from_bits(b),
            Op::Abs(a) | Op::Neg(a) | Op::Sqrt(a) => {
                let x = self.value(k, a);
                eval(op, w, &[x])
            }
            Op::Add(a, b) | Op::Sub(a, b) | Op::Mul(a, b) | Op::Div(a, b) | Op::Rem(a, b) => {
                let (x, y) = (self.value(k, a), self.value(k, b));
                eval(op, w, &[x, y])
            }
        };
        self.vals.insert((k, n), v);
        v
    }
    fn truth(&mut self, k: usize, p: Pred) -> bool {
        match p {
            Pred::Eq(a, b) => self.value(k, a) == self.value(k, b),
            Pred::Lt(a, b) => self.value(k, a) < self.value(k, b),
            Pred::Le(a, b) => self.value(k, a) <= self.value(k, b),
            Pred::Same(a, b) => {
                let (x, y) = (self.value(k, a), self.value(k, b));
                x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan()
            }
            Pred::Nan(a) => self.value(k, a).is_nan(),
            Pred::Sign(a) => self.value(k, a).is_sign_negative(),
        }
    }
    fn ask(&mut self, p: Pred) -> bool {
        let p = match p {
            Pred::Eq(a, b) if a == b => return !self.ask(Pred::Nan(a)),
            Pred::Le(a, b) if a == b => return !self.ask(Pred::Nan(a)),
            Pred::Lt(a, b) if a == b => return false,
            Pred::Same(a, b) if a == b => return true,
            Pred::Eq(a, b) if b < a => Pred::Eq(b, a),
            Pred::Same(a, b) if b < a => Pred::Same(b, a),
            p => p,
        };
        let ns: Vec<u32> = match p {
            Pred::Eq(a, b) | Pred::Lt(a, b) | Pred::Le(a, b) | Pred::Same(a, b) => vec![a, b],
            Pred::Nan(a) | Pred::Sign(a) => vec![a],
        };
        if ns.iter().all(|n| self.cval(*n).is_some()) {
            return self.truth(0, p);
        }
        if let Some(b) = self.fmap.get(&p) {
            return *b;
        }
        let b;
        if self.pos < self.decs.len() {
            let d = &self.decs[self.pos];
            b = d.0[d.1];
        } else {
            let mut opts = vec![];
            let al = self.alive.clone();
            for x in [true, false] {
                if al.iter().any(|k| self.truth(*k, p) == x) || self.possible(p, x) {
                    opts.push(x);
                }
            }
            if opts.is_empty() {
                self.decs.push((vec![true], 0));
                self.pos += 1;
                std::panic::resume_unwind(Box::new(Cut("infeasible")));
            }
            b = opts[0];
            self.decs.push((opts, 0));
            if self.decs.len() > 400 {
                std::panic::resume_unwind(Box::new(Cut("limit")));
            }
        }
        self.pos += 1;
        self.facts.push((p, b));
        self.fmap.insert(p, b);
        let al = std::mem::take(&mut self.alive);
        let mut keep = vec![];
        for k in al {
            if self.truth(k, p) == b {
                keep.push(k);
            }
        }
        self.alive = keep;
        b
    }
    fn vars_of(&mut self, p: Pred) -> BTreeSet<u32> {
        let mut st = match p {
            Pred::Eq(a, b) | Pred::Lt(a, b) | Pred::Le(a, b) | Pred::Same(a, b) => vec![a, b],
            Pred::Nan(a) | Pred::Sign(a) => vec![a],
        };
        if let Some(v) = self.pvars.get(&p) {
            return v.clone();
        }
        let (mut seen, mut vs) = (BTreeSet::new(), BTreeSet::new());
        while let Some(n) = st.pop() {
            if seen.insert(n) {
                match self.nodes[n as usize].0 {
                    Op::Var(i) => {
                        vs.insert(i);
                    }
                    Op::Const(_) => {}
                    Op::Abs(a) | Op::Neg(a) | Op::Sqrt(a) => st.push(a),
                    Op::Add(a, b) | Op::Sub(a, b) | Op::Mul(a, b) | Op::Div(a, b) | Op::Rem(a, b) => st.extend([a, b]),
                }
            }
        }
        self.pvars.insert(p, vs.clone());
        vs
    }
    /// is an answer to p possible, judged by the facts about p's own variables?
    /// (leaving facts out can only keep more paths)
    fn possible(&mut self, p: Pred, b: bool) -> bool {
        let vs = self.vars_of(p);
        let all = self.facts.clone();
        let mut part = vec![];
        for (q, v) in &all {
            if self.vars_of(*q).is_subset(&vs) {
                part.push((*q, *v));
            }
        }
        part.sort();
        self.facts = part;
        let r = self.solve(Some((p, b)), false);
        self.facts = all;
        !matches!(r, Res::Unsat)
    }
    fn text(&self, extra: Option<(Pred, bool)>, exact: bool) -> String {
        let mut t = String::from(
            "(define-sort F32 () (_ FloatingPoint 8 24))\n(define-sort F64 () (_ FloatingPoint 11 53))\n\
             (declare-fun mul32 (F32 F32) F32)\n(declare-fun div32 (F32 F32) F32)\n\
             (declare-fun mul64 (F64 F64) F64)\n(declare-fun div64 (F64 F64) F64)\n",
        );
        for (i, (_, w)) in self.vars.iter().enumerate() {
            let (e, m) = if *w == 32 { (8, 24) } else { (11, 53) };
            let _ = writeln!(t, "(declare-const b{} (_ BitVec {}))\n(define-fun v{} () F{} ((_ to_fp {} {}) b{}))", i, w, i, w, e, m, i);
        }
        let mut facts = self.facts.clone();
        facts.extend(extra);
        // the nodes the conditions mention
        let mut need = BTreeSet::new();
        let mut st: Vec<u32> = vec![];
        for (p, _) in &facts {
            match *p {
                Pred::Eq(a, b) | Pred::Lt(a, b) | Pred::Le(a, b) | Pred::Same(a, b) => st.extend([a, b]),
                Pred::Nan(a) | Pred::Sign(a) => st.push(a),
            }
        }
        while let Some(n) = st.pop() {
            if !need.insert(n) {
                continue;
            }
            match self.nodes[n as usize].0 {
                Op::Abs(a) | Op::Neg(a) | Op::Sqrt(a) => st.push(a),
                Op::Add(a, b) | Op::Sub(a, b) | Op::Mul(a, b) | Op::Div(a, b) | Op::Rem(a, b) => st.extend([a, b]),
                _ => {}
            }
        }
        for n in need {
            let (op, w) = self.nodes[n as usize];
            let _ = write!(t, "(define-fun n{} () F{} ", n, w);
            let _ = match op {
                Op::Var(i) => write!(t, "v{}", i),
                Op::Const(b) => {
                    let x = f64::from_bits(b);
                    if w == 32 {
                        if x.is_nan() {
                            write!(t, "(_ NaN 8 24)")
                        } else {
                            write!(t, "((_ to_fp 8 24) #x{:08x})", (x as f32).to_bits())
                        }
                    } else if x.is_nan() {
                        write!(t, "(_ NaN 11 53)")
                    } else {
                        write!(t, "((_ to_fp 11 53) #x{:016x})", b)
                    }
                }
                Op::Abs(a) => write!(t, "(fp.abs n{})", a),
                Op::Neg(a) => write!(t, "(fp.neg n{})", a),
                Op::Sqrt(a) => write!(t, "(fp.sqrt RNE n{})", a),
                Op::Add(a, b) => write!(t, "(fp.add RNE n{} n{})", a, b),
                Op::Sub(a, b) => write!(t, "(fp.sub RNE n{} n{})", a, b),
                Op::Mul(a, b) if exact => write!(t, "(fp.mul RNE n{} n{})", a, b),
                Op::Div(a, b) if exact => write!(t, "(fp.div RNE n{} n{})", a, b),
                Op::Mul(a, b) => write!(t, "(mul{} n{} n{})", w, a, b),
                Op::Div(a, b) => write!(t, "(div{} n{} n{})", w, a, b),
                Op::Rem(a, b) => write!(t, "(fp.rem n{} n{})", a, b),
            };
            t.push_str(")\n");
        }
        for (p, b) in facts {
            let s = match p {
                Pred::Eq(a, b) => format!("(fp.eq n{} n{})", a, b),
                Pred::Lt(a, b) => format!("(fp.lt n{} n{})", a, b),
                Pred::Le(a, b) => format!("(fp.leq n{} n{})", a, b),
                Pred::Same(a, b) => format!("(= n{} n{})", a, b),
                Pred::Nan(a) => format!("(fp.isNaN n{})", a),
                Pred::Sign(a) => format!("(fp.isNegative n{})", a),
            };
            let _ = if b { writeln!(t, "(assert {})", s) } else { writeln!(t, "(assert (not {}))", s) };
        }
        t
    }
    fn solve(&mut self, extra: Option<(Pred, bool)>, exact: bool) -> Res {
        let mut t = self.text(extra, exact);
        if let Some(r) = self.cache.get(&t) {
            return r.clone();
        }
        let key = t.clone();
        t.push_str("(check-sat)\n(get-value (");
        for i in 0..self.vars.len() {
            let _ = write!(t, "b{} ", i);
        }
        t.push_str("))\n");
        let t0 = std::time::Instant::now();
        self.calls += 1;
        let out = smt::exec(&t, self.timeout * if exact { 4 } else { 1 }).unwrap_or_default();
        self.ms += t0.elapsed().as_millis();
        let r = if out.starts_with("unsat") {
            Res::Unsat
        } else if out.starts_with("sat") {
            let mut m = vec![];
            for (i, (n, _)) in self.vars.iter().enumerate() {
                let pat = format!("(b{} ", i);
                if let Some(p) = out.find(&pat) {
                    let v = &out[p + pat.len()..];
                    let v = &v[..v.find(')').unwrap_or(0)];
                    let bits = if let Some(h) = v.strip_prefix("#x") {
                        u64::from_str_radix(h, 16).ok()
                    } else if let Some(b) = v.strip_prefix("#b") {
                        u64::from_str_radix(b, 2).ok()
                    } else {
                        None
                    };
                    if let Some(b) = bits {
                        m.push((n.clone(), b));
                    }
                }
            }
            Res::Sat(m, exact)
        } else {
            Res::Unknown
        };
        self.cache.insert(key, r.clone());
        r
    }
    /// is the current path impossible?
    fn refute(&mut self) -> Res {
        match self.solve(None, false) {
            Res::Unsat => Res::Unsat,
            _ => self.solve(None, true),
        }
    }
    fn show(&self, n: u32) -> String {
        match self.nodes[n as usize].0 {
            Op::Var(i) => self.vars[i as usize].0.clone(),
            Op::Const(b) => format!("{:e}", f64::from_bits(b)),
            Op::Abs(a) => format!("|{}|", self.show(a)),
            Op::Neg(a) => format!("-{}", self.show(a)),
            Op::Sqrt(a) => format!("sqrt({})", self.show(a)),
            Op::Add(a, b) => format!("({} + {})", self.show(a), self.show(b)),
            Op::Sub(a, b) => format!("({} - {})", self.show(a), self.show(b)),
            Op::Mul(a, b) => format!("{} * {}", self.show(a), self.show(b)),
            Op::Div(a, b) => format!("{} / {}", self.show(a), self.show(b)),
            Op::Rem(a, b) => format!("{} % {}", self.show(a), self.show(b)),
        }
    }
    fn path(&self) -> Vec<String> {
        self.facts
            .iter()
            .map(|(p, b)| {
                let s = match *p {
                    Pred::Eq(x, y) => format!("{} == {}", self.show(x), self.show(y)),
                    Pred::Lt(x, y) => format!("{} < {}", self.show(x), self.show(y)),
                    Pred::Le(x, y) => format!("{} <= {}", self.show(x), self.show(y)),
                    Pred::Same(x, y) => format!("{} is bitwise {}", self.show(x), self.show(y)),
                    Pred::Nan(x) => format!("{} is NaN", self.show(x)),
                    Pred::Sign(x) => format!("{} has its sign bit set", self.show(x)),
                };
                if *b {
                    s
                } else {
                    format!("not ({})", s)
                }
            })
            .collect()
    }
}
fn eval(op: Op, w: usize, v: &[f64]) -> f64 {
    if w == 32 {
        let v: Vec<f32> = v.iter().map(|x| *x as f32).collect();
        (match op {
            Op::Abs(_) => v[0].abs(),
            Op::Neg(_) => -v[0],
            Op::Sqrt(_) => v[0].sqrt(),
            Op::Add(..) => v[0] + v[1],
            Op::Sub(..) => v[0] - v[1],
            Op::Mul(..) => v[0] * v[1],
            Op::Div(..) => v[0] / v[1],
            Op::Rem(..) => v[0] % v[1],
            _ => unreachable!(),
        }) as f64
    } else {
        match op {
            Op::Abs(_) => v[0].abs(),
            Op::Neg(_) => -v[0],
            Op::Sqrt(_) => v[0].sqrt(),
            Op::Add(..) => v[0] + v[1],
            Op::Sub(..) => v[0] - v[1],
            Op::Mul(..) => v[0] * v[1],
            Op::Div(..) => v[0] / v[1],
            Op::Rem(..) => v[0] % v[1],
            _ => unreachable!(),
        }
    }
}

/// a symbolic machine float of W bits
#[derive(Clone, Copy)]
pub struct Fp<const W: usize>(u32);
fn k<const W: usize>(x: f64) -> Fp<W> {
    Fp(with(|e| e.konst(x, W)))
}
fn m<const W: usize>(op: Op) -> Fp<W> {
    Fp(with(|e| e.mk(op, W)))
}
fn ask(p: Pred) -> bool {
    with(|e| e.ask(p))
}
fn unsup<const W: usize>(s: &str, x: Fp<W>) -> Fp<W> {
    with(|e| e.unsupported.insert(s.to_string()));
    x
}
impl<const W: usize> std::fmt::Debug for Fp<W> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "n{}", self.0)
    }
}
impl<const W: usize> std::fmt::Display for Fp<W> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "n{}", self.0)
    }
}
impl<const W: usize> PartialEq for Fp<W> {
    fn eq(&self, o: &Self) -> bool {
        ask(Pred::Eq(self.0, o.0))
    }
}
impl<const W: usize> PartialOrd for Fp<W> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        if self < o {
            Some(Less)
        } else if self == o {
            Some(Equal)
        } else if o < self {
            Some(Greater)
        } else {
            None
        }
    }
    fn lt(&self, o: &Self) -> bool {
        ask(Pred::Lt(self.0, o.0))
    }
    fn le(&self, o: &Self) -> bool {
        ask(Pred::Le(self.0, o.0))
    }
    fn gt(&self, o: &Self) -> bool {
        ask(Pred::Lt(o.0, self.0))
    }
    fn ge(&self, o: &Self) -> bool {
        ask(Pred::Le(o.0, self.0))
    }
}
macro_rules! bin {
    ($($t:ident $f:ident $a:ident $g:ident $op:ident;)*) => { $(
        impl<const W: usize> $t for Fp<W> {
            type Output = Fp<W>;
            fn $f(self, o: Self) -> Self { m(Op::$op(self.0, o.0)) }
        }
        impl<'a, const W: usize> $t<&'a Fp<W>> for Fp<W> {
            type Output = Fp<W>;
            fn $f(self, o: &'a Self) -> Self { m(Op::$op(self.0, o.0)) }
        }
        impl<const W: usize> $a for Fp<W> {
            fn $g(&mut self, o: Self) { *self = m(Op::$op(self.0, o.0)) }
        }
    )* };
}
bin! { Add add AddAssign add_assign Add; Sub sub SubAssign sub_assign Sub; Mul mul MulAssign mul_assign Mul;
       Div div DivAssign div_assign Div; Rem rem RemAssign rem_assign Rem; }
impl<const W: usize> Neg for Fp<W> {
    type Output = Self;
    fn neg(self) -> Self {
        m(Op::Neg(self.0))
    }
}
impl<const W: usize> std::iter::Sum for Fp<W> {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        // the standard library starts a float sum at -0.0
        it.fold(k(-0.0), |a, b| a + b)
    }
}
impl<'a, const W: usize> std::iter::Sum<&'a Fp<W>> for Fp<W> {
    fn sum<I: Iterator<Item = &'a Self>>(it: I) -> Self {
        it.fold(k(-0.0), |a, b| a + *b)
    }
}
impl<const W: usize> Zero for Fp<W> {
    fn zero() -> Self {
        k(0.0)
    }
    fn is_zero(&self) -> bool {
        *self == k(0.0)
    }
}
impl<const W: usize> One for Fp<W> {
    fn one() -> Self {
        k(1.0)
    }
}
impl<const W: usize> Num for Fp<W> {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
impl<const W: usize> ToPrimitive for Fp<W> {
    fn to_i64(&self) -> Option<i64> {
        with(|e| e.cval(self.0)).map(|x| x as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        with(|e| e.cval(self.0)).map(|x| x as u64)
    }
    fn to_f64(&self) -> Option<f64> {
        let v = with(|e| e.cval(self.0));
        if v.is_none() {
            unsup("to_f64 of a symbolic float", *self);
        }
        v
    }
}
impl<const W: usize> NumCast for Fp<W> {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        n.to_f64().map(k)
    }
}
impl<const W: usize> num::Signed for Fp<W> {
    fn abs(&self) -> Self {
        m(Op::Abs(self.0))
    }
    fn abs_sub(&self, o: &Self) -> Self {
        if *self <= *o {
            k(0.0)
        } else {
            *self - *o
        }
    }
    fn signum(&self) -> Self {
        Float::signum(*self)
    }
    fn is_positive(&self) -> bool {
        *self > k(0.0)
    }
    fn is_negative(&self) -> bool {
        *self < k(0.0)
    }
}
macro_rules! fconst {
    ($($f:ident)*) => {
        impl<const W: usize> FloatConst for Fp<W> {
            $( fn $f() -> Self { k(<f64 as FloatConst>::$f()) } )*
        }
    };
}
fconst!(E FRAC_1_PI FRAC_1_SQRT_2 FRAC_2_PI FRAC_2_SQRT_PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6 FRAC_PI_8 LN_10 LN_2 LOG10_E LOG2_E PI SQRT_2);
macro_rules! un {
    ($($f:ident)*) => { $( fn $f(self) -> Self { unsup(stringify!($f), self) } )* };
}
macro_rules! lim {
    ($($f:ident $c:ident;)*) => { $( fn $f() -> Self { k(if W == 32 { f32::$c as f64 } else { f64::$c }) } )* };
}
impl<const W: usize> Float for Fp<W> {
    lim! { nan NAN; infinity INFINITY; neg_infinity NEG_INFINITY; min_value MIN; min_positive_value MIN_POSITIVE;
           max_value MAX; epsilon EPSILON; }
    un! { floor ceil round trunc fract exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh }
    fn neg_zero() -> Self {
        k(-0.0)
    }
    fn is_nan(self) -> bool {
        ask(Pred::Nan(self.0))
    }
    fn is_infinite(self) -> bool {
        self.abs() == Self::infinity()
    }
    fn is_finite(self) -> bool {
        self.abs() < Self::infinity()
    }
    fn is_normal(self) -> bool {
        self.abs() < Self::infinity() && self.abs() >= Self::min_positive_value()
    }
    fn classify(self) -> std::num::FpCategory {
        use std::num::FpCategory::*;
        if self.is_nan() {
            Nan
        } else if self.is_infinite() {
            Infinite
        } else if self == k(0.0) {
            Zero
        } else if self.abs() < Self::min_positive_value() {
            Subnormal
        } else {
            Normal
        }
    }
    fn abs(self) -> Self {
        m(Op::Abs(self.0))
    }
    fn signum(self) -> Self {
        if self.is_nan() {
            self
        } else if self.is_sign_negative() {
            k(-1.0)
        } else {
            k(1.0)
        }
    }
    fn is_sign_positive(self) -> bool {
        !ask(Pred::Sign(self.0))
    }
    fn is_sign_negative(self) -> bool {
        ask(Pred::Sign(self.0))
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        unsup("mul_add", self * a + b)
    }
    fn recip(self) -> Self {
        Self::one() / self
    }
    fn powi(self, n: i32) -> Self {
        match n {
            0 => k(1.0),
            1 => self,
            2 => self * self,
            _ => unsup("powi", self),
        }
    }
    fn powf(self, _: Self) -> Self {
        unsup("powf", self)
    }
    fn sqrt(self) -> Self {
        m(Op::Sqrt(self.0))
    }
    fn log(self, _: Self) -> Self {
        unsup("log", self)
    }
    fn max(self, o: Self) -> Self {
        if self.is_nan() || self < o {
            o
        } else {
            self
        }
    }
    fn min(self, o: Self) -> Self {
        if self.is_nan() || o < self {
            o
        } else {
            self
        }
    }
    fn abs_sub(self, o: Self) -> Self {
        num::Signed::abs_sub(&self, &o)
    }
    fn hypot(self, _: Self) -> Self {
        unsup("hypot", self)
    }
    fn atan2(self, _: Self) -> Self {
        unsup("atan2", self)
    }
    fn sin_cos(self) -> (Self, Self) {
        (unsup("sin_cos", self), self)
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        unsup("integer_decode", self);
        (0, 0, 0)
    }
}

/// the machine float a contract runs on, symbolic or real
pub trait Ie: Float + num::Signed + std::fmt::Debug + Copy + std::iter::Sum + 'static {
    const W: usize;
    fn var(cx: &mut Cx, name: &str) -> Self;
    /// equal as bit patterns (all NaNs taken as one)
    fn same(a: Self, b: Self) -> bool;
    fn lit(x: f64) -> Self;
    fn check(cx: &mut Cx, label: &str, b: bool);
}
pub fn assume(b: bool) {
    if !b {
        std::panic::resume_unwind(Box::new(Cut("assume")))
    }
}
/// context of a concrete run
#[derive(Default)]
pub struct Cx {
    pub seed: u64,
    pub k: usize,
    pub over: BTreeMap<String, u64>,
    pub inputs: Vec<(String, u64, f64)>,
    pub fails: Vec<String>,
    pub checked: usize,
}
impl Cx {
    pub fn vars<S: Ie>(&mut self, name: &str, n: usize) -> Vec<S> {
        (0..n).map(|i| S::var(self, &format!("{}{}", name, i))).collect()
    }
    pub fn check<S: Ie>(&mut self, label: &str, b: bool) {
        S::check(self, label, b)
    }
}
impl<const W: usize> Ie for Fp<W> {
    const W: usize = W;
    fn var(_: &mut Cx, name: &str) -> Self {
        with(|e| {
            let i = match e.vars.iter().position(|v| v.0 == name) {
                Some(i) => i,
                None => {
                    e.vars.push((name.to_string(), W));
                    e.vars.len() - 1
                }
            };
            Fp(e.node(Op::Var(i as u32), W))
        })
    }
    fn same(a: Self, b: Self) -> bool {
        ask(Pred::Same(a.0, b.0))
    }
    fn lit(x: f64) -> Self {
        k(x)
    }
    fn check(_: &mut Cx, label: &str, b: bool) {
        with(|e| e.obl.push((label.to_string(), b)))
    }
}
macro_rules! native {
    ($t:ident, $w:expr, $b:ident) => {
        impl Ie for $t {
            const W: usize = $w;
            fn var(cx: &mut Cx, name: &str) -> Self {
                let v = match cx.over.get(name) {
                    Some(b) => $t::from_bits(*b as $b),
                    None => sample(cx.seed, cx.k, name, $w) as $t,
                };
                cx.inputs.push((name.to_string(), v.to_bits() as u64, v as f64));
                v
            }
            fn same(a: Self, b: Self) -> bool {
                a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
            }
            fn lit(x: f64) -> Self {
                x as $t
            }
            fn check(cx: &mut Cx, label: &str, b: bool) {
                cx.checked += 1;
                if !b {
                    cx.fails.push(label.to_string());
                }
            }
        }
    };
}
native!(f32, 32, u32);
native!(f64, 64, u64);

#[derive(Clone)]
pub struct Contract {
    pub prop: &'static str,
    pub name: String,
    pub on: &'static str,
    pub sym: Option<fn(&mut Cx)>,
    pub nat: fn(&mut Cx),
    pub bounded: Option<&'static str>,
}
#[derive(Clone, Debug)]
pub struct Violation {
    pub label: String,
    pub inputs: Vec<(String, u64, f64)>,
    pub path: Vec<String>,
    pub confirmed: bool,
}
#[derive(Default, Clone)]
pub struct Report {
    pub paths: usize,
    pub obligations: usize,
    pub proved: usize,
    pub by: BTreeMap<String, usize>,
    pub calls: usize,
    pub ms: u128,
    pub complete: bool,
    pub reached: bool,
    pub undecided: Vec<String>,
    pub runs: usize,
    pub checks: usize,
    pub violation: Option<Violation>,
}
fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
}
/// one concrete run on the real code: None when a precondition fails
pub fn native(c: &Contract, seed: u64, k: usize, over: &BTreeMap<String, u64>) -> Option<Cx> {
    let mut cx = Cx { seed, k, over: over.clone(), ..Default::default() };
    let busy = crate::guard::Running::new();
    let r = quiet(|| (c.nat)(&mut cx));
    drop(busy);
    match r {
        Ok(()) => Some(cx),
        Err(p) if p.is::<Cut>() => None,
        Err(_) => {
            cx.fails.push("no panic".into());
            Some(cx)
        }
    }
}
pub fn run(c: &Contract, seed: u64, thorough: bool) -> Report {
    let mut rep = Report { complete: true, ..Default::default() };
    let none = BTreeMap::new();
    for k in 0..if thorough { 400_000 } else { 20_000 } {
        if let Some(cx) = native(c, seed, k, &none) {
            rep.runs += 1;
            rep.checks += cx.checked;
            if let Some(f) = cx.fails.first() {
                rep.violation = Some(Violation { label: f.clone(), inputs: cx.inputs, path: vec![], confirmed: true });
                break;
            }
        }
    }
    let sym = match c.sym {
        Some(s) => s,
        None => {
            rep.complete = false;
            return rep;
        }
    };
    ENG.with(|e| {
        *e.borrow_mut() = Some(Eng {
            nodes: vec![],
            cons: HashMap::new(),
            vars: vec![],
            decs: vec![],
            pos: 0,
            facts: vec![],
            fmap: HashMap::new(),
            seed,
            alive: vec![],
            vals: HashMap::new(),
            unsupported: BTreeSet::new(),
            calls: 0,
            ms: 0,
            timeout: if rep.violation.is_some() { 2_000 } else if thorough { 30_000 } else { 8_000 },
            cache: HashMap::new(),
            obl: vec![],
            pvars: HashMap::new(),
        })
    });
    // with a failing input at hand, the failed obligation is only looked for briefly
    let t0 = std::time::Instant::now();
    let hit = rep.violation.is_some();
    loop {
        if crate::smt::stopped() || t0.elapsed().as_secs() > if hit { 20 } else if thorough { 6000 } else { 400 } {
            rep.complete = false;
            rep.undecided.push("stopped before every path was explored".into());
            break;
        }
        with(|e| {
            e.pos = 0;
            e.facts.clear();
            e.fmap.clear();
            e.obl.clear();
            e.alive = (0..SAMPLES).collect();
        });
        let mut cx = Cx::default();
        let r = quiet(|| sym(&mut cx));
        let mut count = false;
        match r {
            Ok(()) => count = true,
            Err(p) => match p.downcast_ref::<Cut>() {
                Some(Cut("infeasible")) | Some(Cut("assume")) => {}
                Some(Cut(w)) => {
                    rep.complete = false;
                    rep.undecided.push(format!("path abandoned: {}", w));
                }
                None => {
                    count = true;
                    with(|e| e.obl.push(("no panic".into(), false)));
                }
            },
        }
        if count {
            rep.paths += 1;
            let obl = with(|e| std::mem::take(&mut e.obl));
            rep.reached |= with(|e| !e.alive.is_empty());
            for (l, b) in obl {
                rep.obligations += 1;
                if b {
                    rep.proved += 1;
                    *rep.by.entry("path".into()).or_default() += 1;
                    continue;
                }
                match with(|e| e.refute()) {
                    Res::Unsat => {
                        rep.proved += 1;
                        *rep.by.entry("z3 (floating point)".into()).or_default() += 1;
                    }
                    Res::Sat(m, _) => {
                        let over: BTreeMap<String, u64> = m.into_iter().collect();
                        let path = with(|e| e.path());
                        rep.undecided.push(format!("{} [path: {}]", l, path.join(" && ")));
                        if rep.violation.is_none() {
                            let hit = native(c, seed, 0, &over).and_then(|cx| cx.fails.first().cloned().map(|f| (f, cx.inputs)));
                            rep.violation = Some(match hit {
                                Some((f, inputs)) => Violation { label: f, inputs, path, confirmed: true },
                                None => Violation {
                                    label: l,
                                    inputs: over.into_iter().map(|(n, b)| (n, b, f64::NAN)).collect(),
                                    path,
                                    confirmed: false,
                                },
                            });
                        }
                        if rep.violation.as_ref().map_or(false, |v| v.confirmed) {
                            crate::smt::STOP.store(true, std::sync::atomic::Ordering::SeqCst);
                        }
                    }
                    Res::Unknown => rep.undecided.push(format!("{} (unknown)", l)),
                }
            }
        }
        let more = with(|e| {
            let p = e.pos;
            e.decs.truncate(p);
            while let Some(d) = e.decs.last_mut() {
                if d.1 + 1 < d.0.len() {
                    d.1 += 1;
                    return true;
                }
                e.decs.pop();
            }
            false
        });
        if !more {
            break;
        }
        if rep.paths > 20_000 {
            rep.complete = false;
            rep.undecided.push("stopped after 20000 paths".into());
            break;
        }
    }
    with(|e| {
        rep.calls = e.calls;
        rep.ms = e.ms;
        for u in &e.unsupported {
            rep.complete = false;
            rep.undecided.push(format!("outside the symbolic float's reach: {}", u));
        }
    });
    rep
}
