//! The symbolic engine: hash-consed terms, canonical rational-function normal
//! form, sign facts, path exploration.  One engine per contract and thread.
use crate::poly::*;
use crate::rat::Rat;
use crate::smt;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub const NEG: u8 = 1;
pub const ZER: u8 = 2;
pub const POS: u8 = 4;
pub const ANY: u8 = 7;

pub type NodeId = u32;
pub type PolyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(Rat),
    Atom(Atom),
    Add(NodeId, NodeId),
    Sub(NodeId, NodeId),
    Mul(NodeId, NodeId),
    Div(NodeId, NodeId),
    Neg(NodeId),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AtomKind {
    Var(String),
    Pi,
    Eps,
    MinPos,
    MaxV,
    MinV,
    Inf,
    NegInf,
    Nan,
    /// a literal that is not a short decimal
    Named(u64),
    /// principal square root of a polynomial
    Sqrt(PolyId),
    /// quotient of integers, in contracts that read the scalar as an integer (`int`)
    IDiv(NodeId, NodeId),
    /// absolute value, in contracts that ask for it (`eager`)
    Abs(PolyId),
    /// square root of a term whose normal form is too large
    SqrtNode(NodeId),
    /// sine and cosine of an angle unit: (canonical polynomial)/(q)
    Sin(PolyId, i128),
    Cos(PolyId, i128),
    /// exp of an exponent unit
    ExpB(PolyId, i128),
    /// ln / acos / atan2 of terms in normal form that no rule simplifies
    Ln(NodeId),
    Acos(NodeId),
    Atan2(NodeId, NodeId),
    /// any other function: uninterpreted
    Fun(&'static str, NodeId),
}

pub struct AtomInfo {
    pub kind: AtomKind,
    pub name: String,
    /// a^2 = rule  (canonical elimination)
    pub square: Option<Poly>,
}

#[derive(Clone, Debug)]
pub struct RF {
    pub num: Poly,
    /// canonical primitive polynomials with exponents
    pub den: Vec<(PolyId, u32)>,
}

/// x_0^2 + .. + x_k^2 = 1
pub struct UnitGroup {
    pub atoms: Vec<Atom>,
}

#[derive(Clone, Debug)]
pub struct Fact {
    pub poly: PolyId,
    pub mask: u8,
    pub why: &'static str,
}

#[derive(Clone, Debug)]
pub struct Dec {
    pub opts: Vec<u8>, // masks
    pub cur: usize,
}

#[derive(Clone, Debug)]
pub enum VarKind {
    Real,
    Unit(usize, usize, usize), // group id, index, size
    Angle(f64, f64),           // range of the *unit* h in radians
}

pub struct Cut(pub &'static str); // payload for abandoning a path

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Proved(&'static str),
    Failed { sat: Option<bool>, detail: String, model: Vec<(String, f64)> },
    Unknown(String),
}

#[derive(Clone, Debug)]
pub struct Oblig {
    pub label: String,
    pub path: usize,
    pub verdict: Verdict,
}

pub struct Eng {
    pub nodes: Vec<Node>,
    cons: HashMap<Node, NodeId>,
    pub atoms: Vec<AtomInfo>,
    acons: HashMap<AtomKind, Atom>,
    pub polys: Vec<Rc<Poly>>,
    pcons: HashMap<Rc<Poly>, PolyId>,
    nf_memo: HashMap<NodeId, Result<Rc<RF>, Over>>,
    pub groups: Vec<UnitGroup>,
    pub var_kind: HashMap<String, VarKind>,
    pub var_order: Vec<String>,
    pub max_terms: usize,
    // global facts (path independent): from declarations
    pub gfacts: Vec<Fact>,
    // path scope
    pub decs: Vec<Dec>,
    pub pos: usize,
    pub facts: Vec<Fact>,
    fmap: HashMap<PolyId, u8>,
    /// facts about terms without a normal form
    pub nfacts: Vec<(NodeId, u8)>,
    nmap: HashMap<NodeId, u8>,
    pub divs: Vec<NodeId>,
    pub defs: Vec<(NodeId, u8, &'static str)>, // definedness: node must have sign in mask
    pub unsupported: Vec<String>,
    pub angle_units: Vec<(PolyId, i128)>,
    // witnesses
    pub seed: u64,
    pub nsamples: usize,
    pub alive: Vec<usize>,
    /// follow the path of this sample only (bounded mode)
    pub guide: Option<usize>,
    /// of the first decisions only; the later ones are explored exhaustively
    pub guide_len: usize,
    /// the scalar is an integer: division truncates, the samples are integers
    pub int: bool,
    pub trace: Vec<u8>,
    svals: HashMap<usize, HashMap<Atom, f64>>,
    snode: HashMap<(usize, NodeId), f64>,
    pub smt_ms: u128,
    pub smt_calls: usize,
    pub smt_cache: HashMap<String, smt::Res>,
    pub obligs: Vec<Oblig>,
    pub proof_cache: HashMap<(NodeId, NodeId), &'static str>,
    pub path_no: usize,
    pub path_proved_infeasible: bool,
    pub smt_timeout_ms: u64,
    pub in_contract_fork_limit: usize,
    pub subst_cache: Option<(usize, Vec<(Atom, Poly)>)>,
    pub sqrt_sub: HashMap<Atom, Atom>,
    pub pruned: usize,
    pub reach: Vec<String>,
    /// square root term -> its argument
    pub sqrt_of: HashMap<NodeId, NodeId>,
    /// the term whose sign is being decided
    pub asked: Option<NodeId>,
    pub angle_hints: Vec<NodeId>,
    pub pit_pool: HashMap<String, Vec<crate::pit::Point>>,
    pub pit_count: u64,
    pub pit_zero: HashMap<NodeId, bool>,
    /// absolute values as terms of their own (root of the square) instead of a fork; sides
    /// without a witness are then explored without asking whether they are feasible
    pub eager: bool,
    pub abs_of: HashMap<Atom, PolyId>,
}

thread_local! {
    static ENG: RefCell<Option<Eng>> = RefCell::new(None);
}
pub fn with<R>(f: impl FnOnce(&mut Eng) -> R) -> R {
    ENG.with(|e| f(e.borrow_mut().as_mut().expect("no engine")))
}
pub fn install(e: Eng) {
    ENG.with(|c| *c.borrow_mut() = Some(e));
}
pub fn take() -> Eng {
    ENG.with(|c| c.borrow_mut().take().expect("no engine"))
}

fn splitmix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_name(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        splitmix(self.0)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

/// value of a free real variable in sample `k`
/// an integer in place of a sampled real
pub fn whole(v: f64) -> f64 {
    (v * 4.0).clamp(-1e6, 1e6).round()
}
pub fn sample_real(seed: u64, k: usize, name: &str) -> f64 {
    let mut r = Rng(splitmix(seed ^ 0x51ed) ^ splitmix(k as u64 * 7919) ^ hash_name(name));
    r.next();
    let mode = k % 8;
    let u = r.unit();
    if k % 32 == 23 {
        // everything tiny, on one scale
        let p = 3 + (splitmix(seed ^ k as u64) % 28) as i32;
        return (u * 4.0 - 2.0) * 10f64.powi(-p);
    }
    let sm = |r: &mut Rng| (r.next() % 5) as f64 - 2.0;
    match mode {
        0 | 1 => u * 4.0 - 2.0,
        2 => sm(&mut r),
        3 => {
            // sparse
            if r.next() % 3 == 0 {
                u * 4.0 - 2.0
            } else {
                0.0
            }
        }
        4 => u * 200.0 - 100.0,
        5 => {
            let c = r.next() % 8;
            match c {
                0 => 0.0,
                1 => 1.0,
                2 => -1.0,
                3 => 1e-20,
                4 => 0.5,
                5 => -0.25,
                6 => 2.0,
                _ => u * 2.0 - 1.0,
            }
        }
        6 => u,
        _ => {
            if r.next() % 4 == 0 {
                (u * 2.0 - 1.0) * 1e-3
            } else {
                (u * 2.0 - 1.0) * 3.0
            }
        }
    }
}
pub fn sample_unit(seed: u64, k: usize, group: usize, idx: usize, size: usize) -> f64 {
    let mut v = vec![0.0f64; size];
    let mode = k % 6;
    let mut r = Rng(splitmix(seed ^ 0x7777) ^ splitmix(k as u64 * 104729 + group as u64 * 31));
    r.next();
    for x in v.iter_mut() {
        *x = match mode {
            0 | 1 | 2 => r.unit() * 2.0 - 1.0,
            3 => (r.next() % 3) as f64 - 1.0,
            4 => {
                if r.next() % 2 == 0 {
                    r.unit() * 2.0 - 1.0
                } else {
                    0.0
                }
            }
            _ => r.unit() * 2.0 - 1.0,
        };
    }
    if mode == 5 {
        let j = (r.next() % size as u64) as usize;
        let s = if r.next() % 2 == 0 { 1.0 } else { -1.0 };
        for (i, x) in v.iter_mut().enumerate() {
            *x = if i == j { s } else { 0.0 };
        }
    }
    if k % 16 == 13 && (size == 3 || size == 4) {
        // rational unit vectors: exact or nearly so in machine numbers
        const P3: [[f64; 3]; 4] = [[3., 4., 0.], [1., 2., 2.], [2., 3., 6.], [1., 4., 8.]];
        const P4: [[f64; 4]; 4] = [[1., 1., 1., 1.], [1., 2., 2., 4.], [3., 4., 0., 0.], [2., 3., 6., 0.]];
        let j = (r.next() % 4) as usize;
        let rot = (r.next() % size as u64) as usize;
        for (i, x) in v.iter_mut().enumerate() {
            let m = (i + rot) % size;
            let a = if size == 3 { P3[j][m] } else { P4[j][m] };
            *x = if r.next() % 2 == 0 { a } else { -a };
        }
    }
    if k % 16 == 9 {
        // next to an axis, on a random scale
        let j = if r.next() % 2 == 0 { 0 } else { (r.next() % size as u64) as usize };
        let d = 10f64.powf(-1.0 - 15.0 * r.unit());
        for (i, x) in v.iter_mut().enumerate() {
            *x = if i == j { x.signum() } else { *x * d };
        }
    }
    let n = v.iter().map(|x| x * x).sum::<f64>().sqrt();
    if n == 0.0 {
        return if idx == 0 { 1.0 } else { 0.0 };
    }
    v[idx] / n
}
pub fn sample_angle(seed: u64, k: usize, name: &str, lo: f64, hi: f64) -> f64 {
    let mut r = Rng(splitmix(seed ^ 0x3333) ^ splitmix(k as u64 * 15485863) ^ hash_name(name));
    r.next();
    if k % 16 == 7 {
        // next to an end or next to zero, on a random scale
        let d = (hi - lo) * 10f64.powf(-1.0 - 15.0 * r.unit());
        let w = r.next() % 6;
        return match w {
            0 => hi - d,
            1 => lo + d,
            2 | 3 if lo < 0.0 && hi > 0.0 => -d,
            _ if lo <= 0.0 && hi > 0.0 => d,
            _ => lo + d,
        };
    }
    let u = match k % 5 {
        0 | 1 | 2 => r.unit(),
        3 => ((r.next() % 11) as f64 + 1.0) / 12.0,
        _ => {
            if r.next() % 2 == 0 {
                0.02 + 0.05 * r.unit()
            } else {
                0.98 - 0.05 * r.unit()
            }
        }
    };
    lo + (hi - lo) * u
}

impl Eng {
    pub fn new(seed: u64) -> Eng {
        let mut e = Eng {
            nodes: vec![],
            cons: HashMap::new(),
            atoms: vec![],
            acons: HashMap::new(),
            polys: vec![],
            pcons: HashMap::new(),
            nf_memo: HashMap::new(),
            groups: vec![],
            var_kind: HashMap::new(),
            var_order: vec![],
            max_terms: 6000,
            gfacts: vec![],
            decs: vec![],
            pos: 0,
            facts: vec![],
            fmap: HashMap::new(),
            nfacts: vec![],
            nmap: HashMap::new(),
            divs: vec![],
            defs: vec![],
            unsupported: vec![],
            angle_units: vec![],
            seed,
            nsamples: 240,
            alive: vec![],
            guide: None,
            guide_len: usize::MAX,
            int: false,
            trace: vec![],
            svals: HashMap::new(),
            snode: HashMap::new(),
            smt_ms: 0,
            smt_calls: 0,
            smt_cache: HashMap::new(),
            obligs: vec![],
            proof_cache: HashMap::new(),
            path_no: 0,
            path_proved_infeasible: false,
            smt_timeout_ms: 2000,
            in_contract_fork_limit: 4000,
            subst_cache: None,
            sqrt_sub: HashMap::new(),
            pruned: 0,
            reach: vec![],
            sqrt_of: HashMap::new(),
            asked: None,
            angle_hints: vec![],
            pit_pool: HashMap::new(),
            pit_count: 0,
            pit_zero: HashMap::new(),
            eager: false,
            abs_of: HashMap::new(),
        };
        // fixed atoms
        let pi = e.atom(AtomKind::Pi);
        let eps = e.atom(AtomKind::Eps);
        let p = Poly::atom(pi);
        let q = Poly::atom(eps);
        e.gfact(&p, POS, "pi");
        e.gfact(&q, POS, "epsilon");
        e
    }

    // ---- interning ------------------------------------------------------
    pub fn node(&mut self, n: Node) -> NodeId {
        if let Some(&i) = self.cons.get(&n) {
            return i;
        }
        let i = self.nodes.len() as NodeId;
        self.nodes.push(n.clone());
        self.cons.insert(n, i);
        i
    }
    pub fn atom(&mut self, k: AtomKind) -> Atom {
        if let Some(&a) = self.acons.get(&k) {
            return a;
        }
        let a = self.atoms.len() as Atom;
        let (name, square) = match &k {
            AtomKind::Var(s) => (s.clone(), None),
            AtomKind::Pi => ("pi".into(), None),
            AtomKind::Eps => ("eps".into(), None),
            AtomKind::Sqrt(p) => (format!("sqrt{}", p), Some((*self.polys[*p as usize]).clone())),
            AtomKind::Abs(p) => (format!("abs{}", p), None),
            AtomKind::SqrtNode(n) => (format!("sqrtn{}", n), None),
            AtomKind::Sin(p, q) => (format!("sin{}_{}", p, q), None),
            AtomKind::Cos(p, q) => (format!("cos{}_{}", p, q), None),
            AtomKind::ExpB(p, q) => (format!("exp{}_{}", p, q), None),
            AtomKind::Ln(n) => (format!("ln{}", n), None),
            AtomKind::Acos(n) => (format!("acos{}", n), None),
            AtomKind::Atan2(y, x) => (format!("atan{}_{}", y, x), None),
            AtomKind::IDiv(a, b) => (format!("idiv{}_{}", a, b), None),
            AtomKind::Named(b) => (format!("lit{:x}", b), None),
            AtomKind::Fun(f, n) => (format!("{}{}", f, n), None),
            o => (format!("{:?}", o), None),
        };
        self.atoms.push(AtomInfo { kind: k.clone(), name, square });
        self.acons.insert(k.clone(), a);
        match &k {
            AtomKind::Sqrt(_) | AtomKind::SqrtNode(_) => {
                let p = Poly::atom(a);
                self.gfact(&p, ZER | POS, "sqrt is non-negative");
            }
            AtomKind::Abs(_) => {
                let p = Poly::atom(a);
                self.gfact(&p, ZER | POS, "an absolute value is non-negative");
            }
            AtomKind::ExpB(..) => {
                let p = Poly::atom(a);
                self.gfact(&p, POS, "exp is positive");
            }
            AtomKind::MinPos => {
                let p = Poly::atom(a);
                self.gfact(&p, POS, "min_positive_value");
            }
            AtomKind::Cos(p, q) => {
                // canonical elimination cos^2 -> 1 - sin^2
                let s = self.atom(AtomKind::Sin(*p, *q));
                let rule = Poly::one().sub(&Poly::atom(s).mul(&Poly::atom(s)).unwrap()).unwrap();
                self.atoms[a as usize].square = Some(rule);
            }
            AtomKind::Named(b) => {
                let v = f64::from_bits(*b);
                let p = Poly::atom(a);
                self.gfact(&p, if v > 0.0 { POS } else { NEG }, "literal");
            }
            _ => {}
        }
        a
    }
    pub fn poly_id(&mut self, p: &Poly) -> PolyId {
        if let Some(&i) = self.pcons.get(p) {
            return i;
        }
        let r = Rc::new(p.clone());
        let i = self.polys.len() as PolyId;
        self.polys.push(r.clone());
        self.pcons.insert(r, i);
        i
    }
    pub fn gfact(&mut self, p: &Poly, mask: u8, why: &'static str) {
        if let Ok((c, pp)) = p.primitive() {
            let mask = if c.signum() < 0 { flip(mask) } else { mask };
            let id = self.poly_id(&pp);
            self.gfacts.push(Fact { poly: id, mask, why });
            let e = self.fmap.entry(id).or_insert(ANY);
            *e &= mask;
        }
    }
    pub fn reset_path(&mut self) {
        self.asked = None;
        self.pos = 0;
        self.facts.clear();
        self.fmap.clear();
        self.nfacts.clear();
        self.nmap.clear();
        self.divs.clear();
        self.defs.clear();
        for f in self.gfacts.clone() {
            let e = self.fmap.entry(f.poly).or_insert(ANY);
            *e &= f.mask;
        }
        self.alive = match self.guide {
            Some(g) => vec![g],
            None => (0..self.nsamples).collect(),
        };
        self.trace.clear();
        self.subst_cache = None;
        self.path_proved_infeasible = false;
        self.angle_hints.clear();
    }

    // ---- term constructors ------------------------------------------------
    pub fn konst(&mut self, r: Rat) -> NodeId {
        self.node(Node::Const(r))
    }
    pub fn natom(&mut self, k: AtomKind) -> NodeId {
        let a = self.atom(k);
        self.node(Node::Atom(a))
    }
    fn cval(&self, n: NodeId) -> Option<Rat> {
        match self.nodes[n as usize] {
            Node::Const(r) => Some(r),
            _ => None,
        }
    }
    pub fn special(&self, n: NodeId) -> Option<AtomKind> {
        if let Node::Atom(a) = &self.nodes[n as usize] {
            match &self.atoms[*a as usize].kind {
                k @ (AtomKind::MaxV | AtomKind::MinV | AtomKind::Inf | AtomKind::NegInf | AtomKind::Nan) => Some(k.clone()),
                _ => None,
            }
        } else {
            None
        }
    }
    fn no_special(&mut self, a: NodeId, b: NodeId) {
        for x in [a, b] {
            if let Some(k) = self.special(x) {
                self.unsupported.push(format!("arithmetic on {:?}", k));
            }
        }
    }
    pub fn add(&mut self, a: NodeId, b: NodeId) -> NodeId {
        self.no_special(a, b);
        match (self.cval(a), self.cval(b)) {
            (Some(x), Some(y)) => {
                if let Some(r) = x.add(y) {
                    return self.konst(r);
                }
            }
            (Some(x), None) if x.is_zero() => return b,
            (None, Some(y)) if y.is_zero() => return a,
            _ => {}
        }
        self.node(Node::Add(a, b))
    }
    pub fn neg(&mut self, a: NodeId) -> NodeId {
        match self.special(a) {
            Some(AtomKind::Inf) => return self.natom(AtomKind::NegInf),
            Some(AtomKind::NegInf) => return self.natom(AtomKind::Inf),
            Some(AtomKind::MaxV) => return self.natom(AtomKind::MinV),
            Some(AtomKind::MinV) => return self.natom(AtomKind::MaxV),
            _ => {}
        }
        if let Some(x) = self.cval(a) {
            return self.konst(x.neg());
        }
        if let Node::Neg(x) = self.nodes[a as usize] {
            return x;
        }
        self.node(Node::Neg(a))
    }
    pub fn sub(&mut self, a: NodeId, b: NodeId) -> NodeId {
        self.no_special(a, b);
        if a == b {
            return self.konst(Rat::ZERO);
        }
        match (self.cval(a), self.cval(b)) {
            (Some(x), Some(y)) => {
                if let Some(r) = x.sub(y) {
                    return self.konst(r);
                }
            }
            (Some(x), None) if x.is_zero() => return self.neg(b),
            (None, Some(y)) if y.is_zero() => return a,
            _ => {}
        }
        self.node(Node::Sub(a, b))
    }
    pub fn mul(&mut self, a: NodeId, b: NodeId) -> NodeId {
        self.no_special(a, b);
        match (self.cval(a), self.cval(b)) {
            (Some(x), Some(y)) => {
                if let Some(r) = x.mul(y) {
                    return self.konst(r);
                }
            }
            (Some(x), None) => {
                if x.is_zero() {
                    return a;
                }
                if x.is_one() {
                    return b;
                }
            }
            (None, Some(y)) => {
                if y.is_zero() {
                    return b;
                }
                if y.is_one() {
                    return a;
                }
            }
            _ => {}
        }
        self.node(Node::Mul(a, b))
    }
    /// the quotient of integers: a function of its operands that no law relates to the others
    fn idiv(&mut self, a: NodeId, b: NodeId) -> NodeId {
        if !self.divs.contains(&b) {
            self.divs.push(b);
        }
        let (a, b) = (self.canon(a), self.canon(b));
        self.natom(AtomKind::IDiv(a, b))
    }
    pub fn div(&mut self, a: NodeId, b: NodeId) -> NodeId {
        if matches!(self.special(b), Some(AtomKind::Inf | AtomKind::NegInf)) && self.special(a).is_none() {
            return self.konst(Rat::ZERO);
        }
        self.no_special(a, b);
        match (self.cval(a), self.cval(b)) {
            (Some(x), Some(y)) if !y.is_zero() => {
                if let Some(r) = x.div(y) {
                    let r = if self.int { r.trunc() } else { r };
                    return self.konst(r);
                }
            }
            (None, Some(y)) if y.is_one() => return a,
            _ => {}
        }
        if self.int {
            return self.idiv(a, b);
        }
        if !self.divs.contains(&b) {
            if self.sqrt_of.contains_key(&b) {
                self.root_nonzero(b);
            }
            self.divs.push(b);
        }
        self.node(Node::Div(a, b))
    }

    // ---- normal form ------------------------------------------------------
    fn lim(&self, p: Poly) -> Result<Poly, Over> {
        if p.len() > self.max_terms {
            Err(Over)
        } else {
            Ok(p)
        }
    }
    fn pmul(&self, a: &Poly, b: &Poly) -> Result<Poly, Over> {
        if a.len() * b.len() > self.max_terms * 60 {
            return Err(Over);
        }
        self.lim(a.mul(b)?)
    }
    fn square_of(&self, a: Atom) -> Option<&Poly> {
        self.atoms[a as usize].square.as_ref()
    }
    /// canonical form modulo the square rules
    pub fn reduce(&self, p: &Poly) -> Result<Poly, Over> {
        let mut p = p.clone();
        for _ in 0..200 {
            // any monomial with a reducible square?
            let hit = p.t.iter().any(|(m, _)| m.iter().any(|&(a, e)| e >= 2 && self.square_of(a).is_some()));
            if !hit {
                return Ok(p);
            }
            let mut keep: Vec<(Mono, Rat)> = vec![];
            let mut extra: HashMap<Mono, Vec<(Mono, Rat)>> = HashMap::new();
            // group by the reducible part so that each rule power is multiplied once
            for (m, c) in p.t.into_iter() {
                let mut red: Vec<(Atom, u32)> = vec![];
                let mut rest: Vec<(Atom, u32)> = vec![];
                for &(a, e) in m.iter() {
                    if e >= 2 && self.square_of(a).is_some() {
                        red.push((a, e / 2));
                        if e % 2 == 1 {
                            rest.push((a, 1));
                        }
                    } else {
                        rest.push((a, e));
                    }
                }
                if red.is_empty() {
                    keep.push((m, c));
                } else {
                    extra.entry(red.into_boxed_slice()).or_default().push((rest.into_boxed_slice(), c));
                }
            }
            let mut acc = Poly { t: keep };
            for (red, rest) in extra {
                let mut f = Poly::one();
                for &(a, e) in red.iter() {
                    let sq = self.square_of(a).unwrap().clone();
                    for _ in 0..e {
                        f = self.pmul(&f, &sq)?;
                    }
                }
                let mut h: HashMap<Mono, Rat> = HashMap::new();
                for (m, c) in rest {
                    let e = h.entry(m).or_insert(Rat::ZERO);
                    *e = e.add(c).ok_or(Over)?;
                }
                acc = acc.add(&self.pmul(&f, &Poly::from_map(h))?)?;
            }
            p = self.lim(acc)?;
        }
        Err(Over)
    }
    fn den_poly(&self, d: &[(PolyId, u32)]) -> Result<Poly, Over> {
        let mut p = Poly::one();
        for (id, e) in d {
            for _ in 0..*e {
                p = self.pmul(&p, &self.polys[*id as usize].clone())?;
            }
        }
        Ok(p)
    }
    fn simplify(&mut self, mut num: Poly, den: Vec<(PolyId, u32)>) -> Result<RF, Over> {
        num = self.reduce(&num)?;
        if num.is_zero() {
            return Ok(RF { num, den: vec![] });
        }
        let mut out = vec![];
        for (id, e) in den {
            let mut e = e;
            let d = self.polys[id as usize].clone();
            if num.len() <= 3000 {
                while e > 0 {
                    match num.div_exact(&d) {
                        Some(q) => {
                            num = q;
                            e -= 1;
                        }
                        None => break,
                    }
                }
            }
            if e > 0 {
                out.push((id, e));
            }
        }
        Ok(RF { num, den: out })
    }
    pub fn rf_add(&mut self, a: &RF, b: &RF) -> Result<RF, Over> {
        let mut l: Vec<(PolyId, u32)> = a.den.clone();
        for (id, e) in &b.den {
            match l.iter_mut().find(|x| x.0 == *id) {
                Some(x) => x.1 = x.1.max(*e),
                None => l.push((*id, *e)),
            }
        }
        l.sort();
        let miss = |d: &[(PolyId, u32)]| -> Vec<(PolyId, u32)> {
            l.iter()
                .filter_map(|(id, e)| {
                    let have = d.iter().find(|x| x.0 == *id).map_or(0, |x| x.1);
                    if *e > have {
                        Some((*id, *e - have))
                    } else {
                        None
                    }
                })
                .collect()
        };
        let (ma, mb) = (miss(&a.den), miss(&b.den));
        let na = if ma.is_empty() { a.num.clone() } else { self.pmul(&a.num, &self.den_poly(&ma)?)? };
        let nb = if mb.is_empty() { b.num.clone() } else { self.pmul(&b.num, &self.den_poly(&mb)?)? };
        let n = self.lim(na.add(&nb)?)?;
        self.simplify(n, l)
    }
    pub fn rf_mul(&mut self, a: &RF, b: &RF) -> Result<RF, Over> {
        let mut l = a.den.clone();
        for (id, e) in &b.den {
            match l.iter_mut().find(|x| x.0 == *id) {
                Some(x) => x.1 += *e,
                None => l.push((*id, *e)),
            }
        }
        l.sort();
        let n = self.pmul(&a.num, &b.num)?;
        self.simplify(n, l)
    }
    /// 1 / a   (a must not be identically zero)
    pub fn rf_inv(&mut self, a: &RF) -> Result<RF, Over> {
        if a.num.is_zero() {
            return Err(Over);
        }
        let (c, p) = a.num.primitive()?;
        let mut num = Poly::constant(c.inv().ok_or(Over)?);
        // denominators of `a` go up
        let up = self.den_poly(&a.den)?;
        num = self.pmul(&num, &up)?;
        // split off the monomial content
        let mut den: Vec<(PolyId, u32)> = vec![];
        let mut content: Vec<(Atom, u32)> = p.t[0].0.to_vec();
        for (m, _) in &p.t {
            content.retain_mut(|x| match m.iter().find(|y| y.0 == x.0) {
                Some(y) => {
                    x.1 = x.1.min(y.1);
                    true
                }
                None => false,
            });
        }
        let mono: Mono = content.clone().into_boxed_slice();
        let rest = Poly { t: p.t.iter().map(|(m, c)| (mono_div(m, &mono).unwrap(), *c)).collect() };
        for (at, e) in content {
            // 1/s = s/s^2 for square-root atoms
            let is_sqrt = matches!(self.atoms[at as usize].kind, AtomKind::Sqrt(_));
            if is_sqrt && e == 1 {
                let sq = self.square_of(at).unwrap().clone();
                num = self.pmul(&num, &Poly::atom(at))?;
                let (c2, p2) = sq.primitive()?;
                num = num.scale(c2.inv().ok_or(Over)?)?;
                let id = self.poly_id(&p2);
                push_den(&mut den, id, 1);
            } else {
                let id = self.poly_id(&Poly::atom(at));
                push_den(&mut den, id, e);
            }
        }
        if rest.as_const().is_none() {
            let (c2, p2) = rest.primitive()?;
            num = num.scale(c2.inv().ok_or(Over)?)?;
            let id = self.poly_id(&p2);
            push_den(&mut den, id, 1);
        } else {
            num = num.scale(rest.as_const().unwrap().inv().ok_or(Over)?)?;
        }
        den.sort();
        self.simplify(num, den)
    }
    pub fn nf(&mut self, n: NodeId) -> Result<Rc<RF>, Over> {
        if let Some(r) = self.nf_memo.get(&n) {
            return r.clone();
        }
        // iterative post-order to keep the stack small
        let mut stack = vec![n];
        while let Some(&x) = stack.last() {
            if self.nf_memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let nd = self.nodes[x as usize].clone();
            let kids: Vec<NodeId> = match &nd {
                Node::Const(_) | Node::Atom(_) => vec![],
                Node::Neg(a) => vec![*a],
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) => vec![*a, *b],
            };
            let mut ready = true;
            for k in &kids {
                if !self.nf_memo.contains_key(k) {
                    stack.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let r = self.nf_step(&nd).map(Rc::new);
            self.nf_memo.insert(x, r);
        }
        self.nf_memo[&n].clone()
    }
    fn nf_step(&mut self, nd: &Node) -> Result<RF, Over> {
        match nd {
            Node::Const(r) => Ok(RF { num: Poly::constant(*r), den: vec![] }),
            Node::Atom(a) => {
                let k = self.atoms[*a as usize].kind.clone();
                if matches!(k, AtomKind::SqrtNode(_)) {
                    return Err(Over); // no sound canonical form: relation unknown
                }
                Ok(RF { num: Poly::atom(*a), den: vec![] })
            }
            Node::Neg(a) => {
                let x = self.nf(*a)?;
                Ok(RF { num: x.num.neg(), den: x.den.clone() })
            }
            Node::Add(a, b) => {
                let (x, y) = (self.nf(*a)?, self.nf(*b)?);
                self.rf_add(&x, &y)
            }
            Node::Sub(a, b) => {
                let (x, y) = (self.nf(*a)?, self.nf(*b)?);
                let ny = RF { num: y.num.neg(), den: y.den.clone() };
                self.rf_add(&x, &ny)
            }
            Node::Mul(a, b) => {
                let (x, y) = (self.nf(*a)?, self.nf(*b)?);
                self.rf_mul(&x, &y)
            }
            Node::Div(a, b) => {
                let (x, y) = (self.nf(*a)?, self.nf(*b)?);
                let i = self.rf_inv(&y)?;
                self.rf_mul(&x, &i)
            }
        }
    }
    pub fn poly_node(&mut self, p: &Poly) -> NodeId {
        let mut acc: Option<NodeId> = None;
        for (m, c) in &p.t {
            let mut t = None;
            for &(a, e) in m.iter() {
                let an = self.node(Node::Atom(a));
                for _ in 0..e {
                    t = Some(match t {
                        None => an,
                        Some(x) => self.mul(x, an),
                    });
                }
            }
            let cn = self.konst(*c);
            let t = match t {
                None => cn,
                Some(x) => self.mul(cn, x),
            };
            acc = Some(match acc {
                None => t,
                Some(x) => self.add(x, t),
            });
        }
        acc.unwrap_or_else(|| self.konst(Rat::ZERO))
    }

    // ---- sign facts ---------------------------------------------------------
    pub fn known_atom(&self, a: Atom) -> u8 {
        // the polynomial consisting of the atom alone is already primitive
        match self.pcons.get(&Poly::atom(a)) {
            Some(id) => *self.fmap.get(id).unwrap_or(&ANY),
            None => ANY,
        }
    }
    /// sign set implied syntactically
    pub fn quick(&self, p: &Poly) -> u8 {
        if let Some(c) = p.as_const() {
            return match c.signum() {
                -1 => NEG,
                0 => ZER,
                _ => POS,
            };
        }
        let mut acc: Option<u8> = None;
        for (m, c) in &p.t {
            let mut s = if c.signum() > 0 { POS } else { NEG };
            for &(a, e) in m.iter() {
                let k = self.known_atom(a);
                let k = if e % 2 == 0 {
                    (if k & ZER != 0 { ZER } else { 0 }) | (if k & (NEG | POS) != 0 { POS } else { 0 })
                } else {
                    k
                };
                s = mulmask(s, k);
            }
            acc = Some(match acc {
                None => s,
                Some(x) => addmask(x, s),
            });
            if acc == Some(ANY) {
                return self.bounded(p);
            }
        }
        acc.unwrap_or(ZER)
    }
    /// components of unit vectors, sines and cosines are at most one in size
    fn bounded(&self, p: &Poly) -> u8 {
        let (mut c0, mut sum) = (Rat::ZERO, Rat::ZERO);
        for (m, c) in &p.t {
            if m.is_empty() {
                c0 = *c;
                continue;
            }
            for &(a, _) in m.iter() {
                match &self.atoms[a as usize].kind {
                    AtomKind::Sin(..) | AtomKind::Cos(..) => {}
                    AtomKind::Var(_) if self.groups.iter().any(|g| g.atoms.contains(&a)) => {}
                    _ => return ANY,
                }
            }
            match sum.add(if c.signum() < 0 { c.neg() } else { *c }) {
                Some(s) => sum = s,
                None => return ANY,
            }
        }
        let (abs, sg) = if c0.signum() < 0 { (c0.neg(), NEG) } else { (c0, POS) };
        match abs.cmp(&sum) {
            Some(std::cmp::Ordering::Greater) => sg,
            Some(std::cmp::Ordering::Equal) => sg | ZER,
            _ => ANY,
        }
    }
    pub fn known(&self, p: &Poly, id: PolyId) -> u8 {
        self.quick(p) & *self.fmap.get(&id).unwrap_or(&ANY)
    }
    pub fn add_fact(&mut self, id: PolyId, mask: u8, why: &'static str) {
        let e = self.fmap.entry(id).or_insert(ANY);
        *e &= mask;
        self.facts.push(Fact { poly: id, mask, why });
        self.subst_cache = None;
        let p = self.polys[id as usize].clone();
        self.filter_alive_poly(&p, mask);
        if self.eager {
            self.consequences(&p, mask);
        }
    }
    /// |p| without a fork
    pub fn abs_term(&mut self, n: NodeId) -> Option<NodeId> {
        let rf = self.nf(n).ok()?;
        let mut out = self.abs_of_poly(&rf.num.clone())?;
        for (id, e) in rf.den.clone() {
            let p = (*self.polys[id as usize]).clone();
            let a = self.abs_of_poly(&p)?;
            for _ in 0..e {
                out = self.div(out, a);
            }
        }
        Some(out)
    }
    fn abs_of_poly(&mut self, p: &Poly) -> Option<NodeId> {
        let k = self.poly_mask(p);
        if k & NEG == 0 {
            return Some(self.poly_node(p));
        }
        if k & POS == 0 {
            return Some(self.poly_node(&p.neg()));
        }
        let (c, q) = p.primitive().ok()?;
        let c = if c.signum() < 0 { c.neg() } else { c };
        let kc = self.konst(c);
        // a product of atoms: the product of their absolute values
        if q.len() == 1 && (q.t[0].0.len() > 1 || q.t[0].0[0].1 > 1) {
            let mut out = kc;
            for &(a, e) in q.t[0].0.clone().iter() {
                let x = self.abs_of_poly(&Poly::atom(a))?;
                for _ in 0..e {
                    out = self.mul(out, x);
                }
            }
            return Some(out);
        }
        let qid = self.poly_id(&q);
        let a = self.atom(AtomKind::Abs(qid));
        let s = self.natom(AtomKind::Abs(qid));
        self.abs_of.insert(a, qid);
        // the atom may be new on this path, its general facts are not
        let ap = Poly::atom(a);
        let aid = self.poly_id(&ap);
        *self.fmap.entry(aid).or_insert(ANY) &= ZER | POS;
        Some(self.mul(kc, s))
    }
    /// what a sign says about the monomials when all but one of them pull the other way
    fn consequences(&mut self, p: &Poly, mask: u8) {
        if mask == (ZER | POS) || mask == POS {
            let q = p.neg();
            return self.consequences_neg(&q, if mask == POS { NEG } else { NEG | ZER });
        }
        if mask == ZER {
            self.consequences_neg(p, NEG | ZER);
            let q = p.neg();
            return self.consequences_neg(&q, NEG | ZER);
        }
        if mask == NEG || mask == (NEG | ZER) {
            self.consequences_neg(p, mask)
        }
    }
    fn consequences_neg(&mut self, p: &Poly, mask: u8) {
        let signs: Vec<u8> = p.t.iter().map(|(m, c)| self.quick(&Poly { t: vec![(m.clone(), *c)] })).collect();
        let mut force: Vec<(Atom, bool)> = vec![];
        if mask == NEG {
            // the only monomial that may be negative is
            let neg: Vec<usize> = (0..p.len()).filter(|&i| signs[i] & NEG != 0).collect();
            if neg.len() == 1 {
                force.extend(p.t[neg[0]].0.iter().map(|x| (x.0, true)));
            }
        } else if signs.iter().all(|s| s & NEG == 0) {
            // a sum of non-negative monomials that is not positive
            for (m, _) in &p.t {
                let open: Vec<Atom> = m.iter().map(|x| x.0).filter(|&a| self.known_atom(a) & ZER != 0).collect();
                if open.len() == 1 {
                    force.push((open[0], false));
                }
            }
        }
        for (a, nz) in force {
            let k = self.known_atom(a);
            let m = if nz { NEG | POS } else { ZER };
            if k & !m != 0 && k & m != 0 {
                let id = self.poly_id(&Poly::atom(a));
                self.add_fact(id, k & m, "consequence");
            }
            if let Some(&q) = self.abs_of.get(&a) {
                let kq = *self.fmap.get(&q).unwrap_or(&ANY);
                if kq & !m != 0 {
                    self.add_fact(q, kq & m, "consequence");
                }
            }
        }
    }
    /// is p = 0 at odds with the path?  Asked with the equalities and disequalities only.
    fn zero_refuted(&mut self, id: PolyId) -> bool {
        let saved = (self.facts.clone(), self.fmap.clone(), self.alive.clone());
        self.add_fact(id, ZER, "branch");
        let mut r = self.quick_contradiction();
        let p = self.polys[id as usize].clone();
        // the question is about the argument, when it is about an absolute value
        let p = match p.t.as_slice() {
            [(m, _)] if m.len() == 1 => match self.abs_of.get(&m[0].0) {
                Some(q) => self.polys[*q as usize].clone(),
                None => p,
            },
            _ => p,
        };
        if !r && p.len() > 1 && !p.atoms().iter().any(|a| self.abs_of.contains_key(a)) {
            // of single variables only those the code has divided by: few questions, asked often
            let div: Vec<Atom> = self.divs.iter().filter_map(|n| match self.nodes[*n as usize] {
                Node::Atom(a) => Some(a),
                _ => None,
            }).collect();
            let mut fs: Vec<Fact> = vec![];
            for f in std::mem::take(&mut self.facts) {
                let p = self.polys[f.poly as usize].clone();
                if p.atoms().iter().any(|a| self.abs_of.contains_key(a)) || f.mask == (ZER | POS) || f.mask == (ZER | NEG) {
                    continue;
                }
                if f.mask != ZER && p.len() == 1 && !p.atoms().iter().all(|a| div.contains(a)) {
                    continue;
                }
                let mask = if f.mask == ZER { ZER } else { NEG | POS };
                if !fs.iter().any(|g| g.poly == f.poly && g.mask == mask) {
                    fs.push(Fact { poly: f.poly, mask, why: f.why });
                }
            }
            fs.sort_by_key(|f| f.poly);
            self.facts = fs;
            r = self.eliminated(None) || self.smt_feasible(None) == smt::Res::Unsat;
        }
        self.facts = saved.0;
        self.fmap = saved.1;
        self.alive = saved.2;
        self.subst_cache = None;
        r
    }
    /// the equalities, each solved for a variable whose coefficient the path says is not zero,
    /// make a polynomial vanish that the path says does not
    /// (or `goal`, so that it vanishes on the path)
    pub fn eliminated(&mut self, goal: Option<&Poly>) -> bool {
        let s = self.substs();
        let mut eqs: Vec<Poly> = vec![];
        let mut neqs: Vec<Poly> = vec![];
        for f in self.facts.clone() {
            let p = self.polys[f.poly as usize].clone();
            if let Ok(p) = self.apply(&p, &s) {
                if f.mask == ZER {
                    eqs.push(p)
                } else if f.mask & ZER == 0 {
                    neqs.push(p)
                }
            }
        }
        if let Some(g) = goal {
            match self.apply(g, &s) {
                Ok(g) => neqs.push(g),
                Err(_) => return false,
            }
        }
        let mut guard = 0;
        while let Some(q) = eqs.pop() {
            guard += 1;
            if guard > 30 || q.as_const().is_some() {
                continue;
            }
            let mut found = None;
            // one that occurs in few of the others first
            let mut ats: Vec<Atom> = q.atoms().into_iter().collect();
            ats.sort_by_key(|a| eqs.iter().filter(|x| x.degree_in(*a) > 0).count());
            for a in ats {
                let cs = q.coeffs_in(a);
                if cs.len() == 2 && (self.poly_mask(&cs[1]) & ZER == 0 || neqs.iter().any(|n| *n == cs[1] || n.neg() == cs[1])) {
                    found = Some((a, cs));
                    break;
                }
            }
            let Some((a, cs)) = found else { continue };
            let minus = cs[0].neg();
            for list in [&mut eqs, &mut neqs] {
                let mut out = vec![];
                for p in list.iter() {
                    let k = p.coeffs_in(a);
                    if k.len() < 2 {
                        out.push(p.clone());
                        continue;
                    }
                    let d = k.len() - 1;
                    let mut acc: Result<Poly, Over> = Ok(Poly::constant(Rat::ZERO));
                    for (j, c) in k.iter().enumerate() {
                        let mut t = Ok(c.clone());
                        for _ in 0..j {
                            t = t.and_then(|t| self.pmul(&t, &minus));
                        }
                        for _ in j..d {
                            t = t.and_then(|t| self.pmul(&t, &cs[1]));
                        }
                        acc = acc.and_then(|x| x.add(&t?));
                    }
                    if let Ok(x) = acc {
                        out.push(x);
                    }
                }
                *list = out;
            }
            if neqs.iter().any(|n| n.is_zero()) {
                return true;
            }
        }
        neqs.iter().any(|n| n.is_zero())
    }
    pub fn filter_alive_poly(&mut self, p: &Poly, mask: u8) {
        let al = std::mem::take(&mut self.alive);
        let mut keep = vec![];
        for k in al {
            if self.sample_sign_poly(k, p) & mask != 0 {
                keep.push(k);
            }
        }
        self.alive = keep;
    }
    /// is sign(n) in mask?  Decides, or forks the path.
    pub fn query(&mut self, n: NodeId, mask: u8) -> bool {
        match self.nf(n) {
            Ok(rf) => {
                let mut flipped = false;
                for (id, e) in rf.den.clone() {
                    if e % 2 == 1 {
                        let p = self.polys[id as usize].clone();
                        // sign of a denominator: never zero
                        let k = self.known(&p, id) & (NEG | POS);
                        let k = if k == (NEG | POS) { self.decide(id, NEG | POS, NEG) } else { k };
                        if k == NEG {
                            flipped = !flipped;
                        }
                    }
                }
                let m = if flipped { flip(mask) } else { mask };
                self.asked = Some(n);
                let r = self.query_poly(&rf.num.clone(), m);
                self.asked = None;
                r
            }
            Err(_) => self.query_node(n, mask),
        }
    }
    pub fn query_poly(&mut self, p: &Poly, mask: u8) -> bool {
        if let Some(c) = p.as_const() {
            let s = match c.signum() {
                -1 => NEG,
                0 => ZER,
                _ => POS,
            };
            return s & mask != 0;
        }
        let (c, mut p) = match p.primitive() {
            Ok(x) => x,
            Err(_) => {
                self.unsupported.push("coefficient overflow in a comparison".into());
                std::panic::resume_unwind(Box::new(Cut("overflow")));
            }
        };
        let mut m = if c.signum() < 0 { flip(mask) } else { mask };
        // factor out atoms of known strict sign
        let mut content: Vec<(Atom, u32)> = p.t[0].0.to_vec();
        for (mm, _) in &p.t {
            content.retain_mut(|x| match mm.iter().find(|y| y.0 == x.0) {
                Some(y) => {
                    x.1 = x.1.min(y.1);
                    true
                }
                None => false,
            });
        }
        for (a, e) in content {
            let k = self.known_atom(a);
            let take = if k == POS || k == NEG { e } else { 0 };
            if take > 0 {
                let mono: Mono = Box::new([(a, take)]);
                p = Poly { t: p.t.iter().map(|(x, c)| (mono_div(x, &mono).unwrap(), *c)).collect() };
                if k == NEG && take % 2 == 1 {
                    m = flip(m);
                }
            }
        }
        if p.as_const().is_some() {
            return self.query_poly(&p, m);
        }
        let id = self.poly_id(&p);
        let k = self.known(&p, id);
        if k == 0 {
            // contradictory facts: the path is infeasible
            self.pruned += 1;
            std::panic::resume_unwind(Box::new(Cut("infeasible")));
        }
        if k & !m == 0 {
            return true;
        }
        if k & m == 0 {
            return false;
        }
        let r = self.decide(id, k, m);
        r & m != 0
    }
    /// fork on the sign of a polynomial: allowed set `k`, split by `m`; returns the chosen subset
    fn decide(&mut self, id: PolyId, k: u8, m: u8) -> u8 {
        let (a, b) = (k & m, k & !m);
        if a == 0 || b == 0 {
            return k;
        }
        let p = self.polys[id as usize].clone();
        if let Some(g) = self.guide.filter(|_| self.trace.len() < self.guide_len) {
            let sg = self.sample_sign_poly(g, &p);
            let c = if sg & a != 0 {
                a
            } else if sg & b != 0 {
                b
            } else {
                std::panic::resume_unwind(Box::new(Cut("assume")))
            };
            self.trace.push(c);
            self.add_fact(id, c, "branch");
            return c;
        }
        if self.pos < self.decs.len() {
            let d = &self.decs[self.pos];
            let c = d.opts[d.cur];
            self.pos += 1;
            self.add_fact(id, c, "branch");
            return c;
        }
        let mut opts = vec![];
        let asked = self.asked.take();
        for x in [a, b] {
            let wit = self.alive.clone().into_iter().any(|s| self.sample_sign_poly(s, &p) & x != 0);
            if wit {
                opts.push(x);
            } else if self.eager && x == ZER && self.zero_refuted(id) {
                self.pruned += 1;
            } else if self.eager {
                opts.push(x);
            } else if x == ZER && asked.map_or(false, |n| self.zero_impossible(n)) {
                self.pruned += 1;
            } else {
                match self.smt_feasible(Some((id, x))) {
                    smt::Res::Unsat => {
                        self.pruned += 1;
                    }
                    _ => opts.push(x),
                }
            }
        }
        if opts.is_empty() {
            // both sides refuted: the current path itself is infeasible
            self.decs.push(Dec { opts: vec![a], cur: 0 });
            self.pos += 1;
            std::panic::resume_unwind(Box::new(Cut("infeasible")));
        }
        let c = opts[0];
        self.decs.push(Dec { opts, cur: 0 });
        self.pos += 1;
        if self.decs.len() > self.in_contract_fork_limit {
            self.unsupported.push("too many branch points on one path".into());
            std::panic::resume_unwind(Box::new(Cut("limit")));
        }
        self.add_fact(id, c, "branch");
        c
    }
    /// sign of a term without normal form: facts are kept per term
    fn query_node(&mut self, n: NodeId, mask: u8) -> bool {
        let (n, mask) = match self.nodes[n as usize] {
            Node::Neg(x) => (x, flip(mask)),
            _ => (n, mask),
        };
        let k = self.node_mask(n);
        if k & !mask == 0 {
            return true;
        }
        if k & mask == 0 {
            return false;
        }
        // the term may equal (up to sign) a square root that serves as a divisor
        let k2 = self.alias_mask(n);
        if k2 != ANY {
            let k = k & k2;
            *self.nmap.entry(n).or_insert(ANY) &= k;
            if k & !mask == 0 {
                return true;
            }
            if k & mask == 0 {
                return false;
            }
        }
        let (a, b) = (k & mask, k & !mask);
        let c;
        if let Some(g) = self.guide.filter(|_| self.trace.len() < self.guide_len) {
            let sg = self.sample_sign_node(g, n);
            // a sample cannot tell a large term that vanishes from one it rounds to nothing
            let sg = if self.eager && sg == ZER { 0 } else { sg };
            c = if sg & a != 0 {
                a
            } else if sg & b != 0 {
                b
            } else {
                std::panic::resume_unwind(Box::new(Cut("assume")))
            };
            self.trace.push(c);
        } else if self.pos < self.decs.len() {
            let d = &self.decs[self.pos];
            c = d.opts[d.cur];
            self.pos += 1;
        } else {
            let mut opts = vec![];
            let al = self.alive.clone();
            for x in [a, b] {
                if al.iter().any(|&s| self.sample_sign_node(s, n) & x != 0) {
                    opts.push(x);
                }
            }
            // without a witness the side stays unexplored only when the other side has one
            // and the contract runs in bounded mode; otherwise explore both
            if opts.is_empty() {
                opts = vec![a, b];
            } else if opts.len() == 1 {
                let other = if opts[0] == a { b } else { a };
                if other == ZER && self.zero_impossible(n) {
                    self.pruned += 1;
                } else if other == ZER {
                    // equality of two large terms: measure-zero side, reported as unexplored
                    self.reach.push("unexplored equality branch of a large term".into());
                } else {
                    opts.push(other);
                }
            }
            c = opts[0];
            self.decs.push(Dec { opts, cur: 0 });
            self.pos += 1;
        }
        *self.nmap.entry(n).or_insert(ANY) &= c;
        self.nfacts.push((n, c));
        let al = std::mem::take(&mut self.alive);
        let mut keep = vec![];
        for s in al {
            if self.sample_sign_node(s, n) & c != 0 {
                keep.push(s);
            }
        }
        self.alive = keep;
        c & mask != 0
    }
    pub fn node_fact(&mut self, n: NodeId, mask: u8) {
        // a consequence of the path, not a restriction of it: no entry in `nfacts`
        *self.nmap.entry(n).or_insert(ANY) &= mask;
    }
    /// sign of a large term through an identity with one of the path's divisors
    fn alias_mask(&mut self, n: NodeId) -> u8 {
        let roots: Vec<NodeId> = self
            .divs
            .clone()
            .into_iter()
            .filter(|d| match self.nodes[*d as usize] {
                Node::Atom(a) => matches!(self.atoms[a as usize].kind, AtomKind::SqrtNode(_) | AtomKind::Sqrt(_)),
                _ => false,
            })
            .collect();
        for d in roots {
            for sg in 0..2 {
                let z = if sg == 0 { self.sub(n, d) } else { self.add(n, d) };
                let hit = match self.pit_zero.get(&z) {
                    Some(h) => *h,
                    None => {
                        let seed = self.seed ^ 0x5151;
                        let h = matches!(crate::pit::zero(self, z, 24, seed), crate::pit::Pit::Zero(_));
                        if self.substs().is_empty() {
                            self.pit_zero.insert(z, h);
                        }
                        h
                    }
                };
                if hit {
                    let nz = crate::prove::divides_nonzero(self, d);
                    let m = if nz { POS } else { ZER | POS };
                    return if sg == 0 { m } else { flip(m) };
                }
            }
        }
        ANY
    }
    fn node_mask(&mut self, n: NodeId) -> u8 {
        let k = *self.nmap.get(&n).unwrap_or(&ANY);
        let s = match self.nodes[n as usize].clone() {
            Node::Const(c) => match c.signum() {
                -1 => NEG,
                0 => ZER,
                _ => POS,
            },
            Node::Atom(a) => self.known_atom(a),
            Node::Neg(a) => flip(self.node_mask_rf(a)),
            Node::Mul(a, b) => {
                if a == b {
                    let x = self.node_mask_rf(a);
                    (if x & ZER != 0 { ZER } else { 0 }) | (if x & (NEG | POS) != 0 { POS } else { 0 })
                } else {
                    mulmask(self.node_mask_rf(a), self.node_mask_rf(b))
                }
            }
            Node::Div(a, b) => mulmask(self.node_mask_rf(a), self.node_mask_rf(b) & (NEG | POS)),
            Node::Add(a, b) => addmask(self.node_mask_rf(a), self.node_mask_rf(b)),
            Node::Sub(a, b) => addmask(self.node_mask_rf(a), flip(self.node_mask_rf(b))),
        };
        k & s
    }
    pub fn node_mask_rf(&mut self, n: NodeId) -> u8 {
        if let Ok(rf) = self.nf(n) {
            let k = self.rf_mask(&rf);
            return if k == ANY { self.node_mask(n) } else { k };
        }
        self.node_mask(n)
    }
    pub fn rf_mask(&mut self, rf: &RF) -> u8 {
        let mut k = self.poly_mask(&rf.num);
        for (id, e) in &rf.den {
            if e % 2 == 1 {
                let p = self.polys[*id as usize].clone();
                k = mulmask(k, self.known(&p, *id) & (NEG | POS));
            }
        }
        k
    }
    pub fn set_unit_rule(&mut self, atoms: &[Atom]) {
        let mut r = Poly::one();
        for x in &atoms[1..] {
            r = r.sub(&Poly { t: vec![(Box::new([(*x, 2)]), Rat::ONE)] }).unwrap();
        }
        self.atoms[atoms[0] as usize].square = Some(r);
    }
    /// polynomials known to vanish on this path
    pub fn zero_polys(&self) -> Vec<Poly> {
        let mut v: Vec<PolyId> = self.fmap.iter().filter(|(_, m)| **m == ZER).map(|x| *x.0).collect();
        v.sort();
        v.into_iter().map(|i| (*self.polys[i as usize]).clone()).collect()
    }
    /// the known facts contradict each other
    pub fn quick_contradiction(&mut self) -> bool {
        let v: Vec<(PolyId, u8)> = self.fmap.iter().map(|(a, b)| (*a, *b)).collect();
        for (id, m) in &v {
            let p = self.polys[*id as usize].clone();
            if m & self.quick(&p) == 0 {
                return true;
            }
        }
        let s = self.substs();
        if s.is_empty() {
            return false;
        }
        for (id, m) in &v {
            let p = self.polys[*id as usize].clone();
            if let Ok(q) = self.apply(&p, &s) {
                if self.poly_mask(&q) & m == 0 {
                    return true;
                }
            }
        }
        false
    }
    /// non-negative because it is, in some elimination, a sum of non-negative monomials
    pub fn sos(&mut self, p: &Poly) -> bool {
        for q in self.alternatives(p) {
            if self.quick(&q) & NEG == 0 || q.sqrt().is_some() {
                return true;
            }
        }
        false
    }
    /// terms known to be non-zero on this path
    pub fn nonzero_nodes(&mut self) -> Vec<NodeId> {
        let mut v: Vec<NodeId> = self.nmap.iter().filter(|(_, m)| **m & ZER == 0).map(|x| *x.0).collect();
        v.sort();
        let mut ids: Vec<PolyId> = self.facts.iter().filter(|f| f.mask & ZER == 0).map(|f| f.poly).collect();
        ids.sort();
        ids.dedup();
        for id in ids {
            let p = self.polys[id as usize].clone();
            let n = self.poly_node(&p);
            v.push(n);
        }
        v
    }
    pub fn node_sign(&mut self, n: NodeId) -> u8 {
        self.node_mask(n)
    }
    pub fn poly_mask(&mut self, p: &Poly) -> u8 {
        if let Some(c) = p.as_const() {
            return match c.signum() {
                -1 => NEG,
                0 => ZER,
                _ => POS,
            };
        }
        let mut q = self.quick(p);
        if q == ANY && p.len() > 1 {
            // monomial content of known sign times a rest of known sign
            let mut content: Vec<(Atom, u32)> = p.t[0].0.to_vec();
            for (m, _) in &p.t {
                content.retain_mut(|x| match m.iter().find(|y| y.0 == x.0) {
                    Some(y) => {
                        x.1 = x.1.min(y.1);
                        true
                    }
                    None => false,
                });
            }
            if !content.is_empty() {
                let mono: Mono = content.into_boxed_slice();
                let rest = Poly { t: p.t.iter().map(|(m, c)| (mono_div(m, &mono).unwrap(), *c)).collect() };
                let k = self.poly_mask(&rest);
                q = mulmask(self.quick(&Poly { t: vec![(mono, Rat::ONE)] }), k);
            }
        }
        match p.primitive() {
            Ok((c, pp)) => {
                let id = self.poly_id(&pp);
                let k = *self.fmap.get(&id).unwrap_or(&ANY);
                q & if c.signum() < 0 { flip(k) } else { k }
            }
            Err(_) => q,
        }
    }
    /// add an assumption (no fork)
    pub fn assume(&mut self, n: NodeId, mask: u8) {
        match self.nf(n) {
            Ok(rf) => {
                if rf.den.iter().any(|x| x.1 % 2 == 1) {
                    // keep it simple: assumptions are stated on polynomials
                    let mut d = rf.num.clone();
                    for (id, e) in rf.den.clone() {
                        if e % 2 == 1 {
                            let p = self.polys[id as usize].clone();
                            d = self.pmul(&d, &p).expect("assumption too large");
                        }
                    }
                    let d = self.reduce(&d).expect("assumption too large");
                    self.assume_poly(&d, mask);
                } else {
                    let p = rf.num.clone();
                    self.assume_poly(&p, mask)
                }
            }
            Err(_) => panic!("assumption without normal form"),
        }
    }
    pub fn assume_poly(&mut self, p: &Poly, mask: u8) {
        if let Some(c) = p.as_const() {
            let s = match c.signum() {
                -1 => NEG,
                0 => ZER,
                _ => POS,
            };
            if s & mask == 0 {
                std::panic::resume_unwind(Box::new(Cut("infeasible")));
            }
            return;
        }
        let (c, p) = p.primitive().expect("assumption overflow");
        let m = if c.signum() < 0 { flip(mask) } else { mask };
        let id = self.poly_id(&p);
        self.add_fact(id, m, "requires");
    }

    // ---- witnesses ------------------------------------------------------------
    pub fn sample_atom(&mut self, s: usize, a: Atom) -> f64 {
        if let Some(v) = self.svals.get(&s).and_then(|m| m.get(&a)) {
            return *v;
        }
        let k = self.atoms[a as usize].kind.clone();
        let v = match k {
            AtomKind::Var(name) => match self.var_kind.get(&name) {
                Some(VarKind::Unit(g, i, n)) => sample_unit(self.seed, s, *g, *i, *n),
                Some(VarKind::Angle(lo, hi)) => sample_angle(self.seed, s, &name, *lo, *hi),
                _ if self.int => whole(sample_real(self.seed, s, &name)),
                _ => sample_real(self.seed, s, &name),
            },
            AtomKind::Pi => std::f64::consts::PI,
            AtomKind::Eps => f64::EPSILON,
            AtomKind::MinPos => f64::MIN_POSITIVE,
            AtomKind::MaxV => f64::MAX,
            AtomKind::MinV => f64::MIN,
            AtomKind::Inf => f64::INFINITY,
            AtomKind::NegInf => f64::NEG_INFINITY,
            AtomKind::Nan => f64::NAN,
            AtomKind::Named(b) => f64::from_bits(b),
            AtomKind::Sqrt(p) => {
                let p = self.polys[p as usize].clone();
                let v = self.sample_poly(s, &p).0;
                if v < 0.0 && v > -1e-12 {
                    0.0
                } else {
                    v.sqrt()
                }
            }
            AtomKind::Abs(p) => {
                let p = self.polys[p as usize].clone();
                self.sample_poly(s, &p).0.abs()
            }
            AtomKind::SqrtNode(n) => {
                let v = self.sample_node(s, n);
                if v < 0.0 && v > -1e-12 {
                    0.0
                } else {
                    v.sqrt()
                }
            }
            AtomKind::Sin(p, q) => {
                let p = self.polys[p as usize].clone();
                (self.sample_poly(s, &p).0 / q as f64).sin()
            }
            AtomKind::Cos(p, q) => {
                let p = self.polys[p as usize].clone();
                (self.sample_poly(s, &p).0 / q as f64).cos()
            }
            AtomKind::ExpB(p, q) => {
                let p = self.polys[p as usize].clone();
                (self.sample_poly(s, &p).0 / q as f64).exp()
            }
            AtomKind::IDiv(a, b) => (self.sample_node(s, a) / self.sample_node(s, b)).trunc(),
            AtomKind::Ln(n) => self.sample_node(s, n).ln(),
            AtomKind::Acos(n) => self.sample_node(s, n).clamp(-1.0, 1.0).acos(),
            AtomKind::Atan2(y, x) => {
                let (y, x) = (self.sample_node(s, y), self.sample_node(s, x));
                y.atan2(x)
            }
            AtomKind::Fun("quot", n) | AtomKind::Fun("angle", n) => self.sample_node(s, n),
            AtomKind::Fun("exp", n) => self.sample_node(s, n).exp(),
            AtomKind::Fun(_, _) => f64::NAN,
        };
        self.svals.entry(s).or_default().insert(a, v);
        v
    }
    /// (value, magnitude)
    pub fn sample_poly(&mut self, s: usize, p: &Poly) -> (f64, f64) {
        let mut v = 0.0;
        let mut mag = 0.0;
        for (m, c) in &p.t {
            let mut t = c.to_f64();
            for &(a, e) in m.iter() {
                t *= self.sample_atom(s, a).powi(e as i32);
            }
            v += t;
            mag += t.abs();
        }
        (v, mag)
    }
    pub fn sample_sign_poly(&mut self, s: usize, p: &Poly) -> u8 {
        let (v, mag) = self.sample_poly(s, p);
        if v.is_nan() {
            return 0;
        }
        if v.abs() <= 1e-13 * mag {
            ZER
        } else if v > 0.0 {
            POS
        } else {
            NEG
        }
    }
    pub fn sample_node(&mut self, s: usize, n: NodeId) -> f64 {
        if let Some(v) = self.snode.get(&(s, n)) {
            return *v;
        }
        let mut stack = vec![n];
        while let Some(&x) = stack.last() {
            if self.snode.contains_key(&(s, x)) {
                stack.pop();
                continue;
            }
            let nd = self.nodes[x as usize].clone();
            let kids: Vec<NodeId> = match &nd {
                Node::Const(_) | Node::Atom(_) => vec![],
                Node::Neg(a) => vec![*a],
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) => vec![*a, *b],
            };
            let mut ready = true;
            for k in &kids {
                if !self.snode.contains_key(&(s, *k)) {
                    stack.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let g = |e: &Eng, k: NodeId| e.snode[&(s, k)];
            let v = match nd {
                Node::Const(r) => r.to_f64(),
                Node::Atom(a) => self.sample_atom(s, a),
                Node::Neg(a) => -g(self, a),
                Node::Add(a, b) => g(self, a) + g(self, b),
                Node::Sub(a, b) => g(self, a) - g(self, b),
                Node::Mul(a, b) => g(self, a) * g(self, b),
                Node::Div(a, b) => g(self, a) / g(self, b),
            };
            self.snode.insert((s, x), v);
        }
        self.snode[&(s, n)]
    }
    pub fn sample_sign_node(&mut self, s: usize, n: NodeId) -> u8 {
        let v = self.sample_node(s, n);
        if v.is_nan() {
            0
        } else if v.abs() < 1e-12 {
            ZER
        } else if v > 0.0 {
            POS
        } else {
            NEG
        }
    }
    // ---- SMT -------------------------------------------------------------------
    pub fn smt_feasible(&mut self, extra: Option<(PolyId, u8)>) -> smt::Res {
        self.smt_check(extra.as_slice()).0
    }
    /// the linear abstraction (monomials as independent variables), decided here;
    /// None when it does not settle the question
    fn lp_check(&mut self, extra: &[(PolyId, u8)]) -> Option<smt::Res> {
        use crate::lp;
        let mut conds: Vec<(PolyId, u8)> = self.facts.iter().map(|f| (f.poly, f.mask)).collect();
        conds.extend(extra.iter().cloned());
        let mut atoms: std::collections::BTreeSet<Atom> = Default::default();
        let mut terms = 0;
        for (p, _) in &conds {
            let p = &self.polys[*p as usize];
            terms += p.len();
            if terms > 600 {
                return None;
            }
            atoms.extend(p.atoms());
        }
        for f in self.gfacts.clone() {
            let p = &self.polys[f.poly as usize];
            if p.len() < 30 && p.atoms().iter().all(|a| atoms.contains(a)) {
                conds.push((f.poly, f.mask));
            }
        }
        conds.sort();
        conds.dedup();
        let mut names: HashMap<Mono, usize> = HashMap::new();
        let mut order: Vec<Mono> = vec![];
        let mut cons = vec![];
        let mut linear = true;
        for (id, m) in conds {
            let p = self.polys[id as usize].clone();
            let mut row = vec![];
            let mut k = Rat::int(0);
            for (mo, c) in &p.t {
                if mo.is_empty() {
                    k = *c;
                    continue;
                }
                let i = *names.entry(mo.clone()).or_insert_with(|| {
                    order.push(mo.clone());
                    order.len() - 1
                });
                if i >= 60 {
                    return None;
                }
                row.push((i, *c));
            }
            cons.push((row, k, m));
        }
        for (i, mo) in order.iter().enumerate() {
            let plain = mo.len() == 1
                && mo[0].1 == 1
                && match &self.atoms[mo[0].0 as usize].kind {
                    AtomKind::Var(n) => matches!(self.var_kind.get(n), Some(VarKind::Real)),
                    _ => false,
                };
            if !plain {
                linear = false;
                let q = Poly { t: vec![(mo.clone(), Rat::ONE)] };
                let k = self.quick(&q);
                if k != ANY {
                    cons.push((vec![(i, Rat::ONE)], Rat::int(0), k));
                }
            }
        }
        match lp::solve(order.len(), &cons) {
            lp::Lp::Unsat => Some(smt::Res::Unsat),
            lp::Lp::Sat(m) if linear => Some(smt::Res::Sat(
                order
                    .iter()
                    .zip(m)
                    .map(|(mo, v)| match &self.atoms[mo[0].0 as usize].kind {
                        AtomKind::Var(n) => (n.clone(), v.to_f64()),
                        _ => unreachable!(),
                    })
                    .collect(),
            )),
            _ => None,
        }
    }
    pub fn radicand(&self, a: Atom) -> Option<PolyId> {
        match self.atoms[a as usize].kind {
            AtomKind::Sqrt(p) => Some(p),
            _ => None,
        }
    }
    /// products of pairs of path conditions, then the linear abstraction: true = contradiction
    fn products_check(&mut self, extra: &[(PolyId, u8)]) -> bool {
        // everything as "p > 0" or "p >= 0"
        let mut base: Vec<(Poly, bool)> = vec![];
        let mut other: Vec<(Poly, u8)> = vec![];
        let mut seen: std::collections::BTreeSet<(PolyId, u8)> = Default::default();
        let facts: Vec<(PolyId, u8)> = extra.iter().cloned().chain(self.facts.iter().rev().map(|f| (f.poly, f.mask))).collect();
        for (id, _) in facts {
            let mut m = *self.fmap.get(&id).unwrap_or(&ANY);
            for (i, k) in extra {
                if *i == id {
                    m &= k;
                }
            }
            if !seen.insert((id, m)) {
                continue;
            }
            let p = (*self.polys[id as usize]).clone();
            if p.len() > 250 {
                continue;
            }
            match m {
                POS => base.push((p, true)),
                NEG => base.push((p.neg(), true)),
                6 => base.push((p, false)),
                3 => base.push((p.neg(), false)),
                ZER => other.push((p, ZER)),
                _ => {}
            }
            if base.len() >= 8 {
                break;
            }
        }
        let mut cons: Vec<(Poly, u8)> = other;
        for i in 0..base.len() {
            for j in i..base.len() {
                let (a, b) = (&base[i], &base[j]);
                if a.0.len() * b.0.len() > 700 {
                    continue;
                }
                if let Ok(p) = a.0.mul(&b.0).and_then(|p| self.reduce(&p)) {
                    if p.len() <= 250 {
                        cons.push((p, if a.1 && b.1 { POS } else { ZER | POS }));
                    }
                }
            }
        }
        cons.extend(base.into_iter().map(|(p, s)| (p, if s { POS } else { ZER | POS })));
        if self.linear_contradiction(&cons) {
            return true;
        }
        // the equalities times every monomial that occurs in them
        let eqs: Vec<Poly> = cons.iter().filter(|c| c.1 == ZER && c.0.len() <= 12).map(|c| c.0.clone()).collect();
        let mut by: std::collections::BTreeSet<Mono> = Default::default();
        for p in &eqs {
            for (m, _) in &p.t {
                for (a, _) in m.iter() {
                    by.insert(vec![(*a, 1)].into_iter().collect());
                }
                by.insert(m.clone());
            }
        }
        if eqs.is_empty() || eqs.len() > 8 || by.len() > 48 {
            return false;
        }
        for p in &eqs {
            for m in &by {
                let f = Poly { t: vec![(m.clone(), Rat::ONE)] };
                if let Ok(q) = p.mul(&f).and_then(|q| self.reduce(&q)) {
                    if q.len() <= 60 {
                        cons.push((q, ZER));
                    }
                }
            }
        }
        self.linear_contradiction(&cons)
    }
    /// no assignment of the monomials, each with the sign it is known to have, meets all of `cons`
    fn linear_contradiction(&mut self, cons: &[(Poly, u8)]) -> bool {
        use crate::lp;
        let mut names: HashMap<Mono, usize> = HashMap::new();
        let mut rows = vec![];
        for (p, m) in cons {
            let mut row = vec![];
            let mut k = Rat::ZERO;
            for (mo, c) in &p.t {
                if mo.is_empty() {
                    k = *c;
                    continue;
                }
                let n = names.len();
                row.push((*names.entry(mo.clone()).or_insert(n), *c));
            }
            rows.push((row, k, *m));
        }
        if names.len() > 400 {
            return false;
        }
        for (mo, i) in &names {
            let k = self.quick(&Poly { t: vec![(mo.clone(), Rat::ONE)] });
            if k != ANY {
                rows.push((vec![(*i, Rat::ONE)], Rat::ZERO, k));
            }
        }
        matches!(lp::solve(names.len(), &rows), lp::Lp::Unsat)
    }
    /// path conditions and `extra` together: the answer, and whether the query covers the whole path
    pub fn smt_check(&mut self, extra: &[(PolyId, u8)]) -> (smt::Res, bool) {
        if let Some(r) = self.lp_check(extra) {
            return (r, self.nfacts.is_empty());
        }
        if !extra.is_empty() && self.products_check(extra) {
            return (smt::Res::Unsat, self.nfacts.is_empty());
        }
        let q = smt::build(self, extra);
        let complete = q.as_ref().map_or(false, |q| q.complete) && self.nfacts.is_empty();
        let key = q.as_ref().map(|q| q.text.clone());
        if let Some(k) = &key {
            if let Some(r) = self.smt_cache.get(k) {
                return (r.clone(), complete);
            }
        }
        let t0 = std::time::Instant::now();
        let mut res = smt::Res::Unknown;
        let lin = smt::build_linear(self, extra);
        let big = q.as_ref().map_or(true, |q| q.text.len() > 3000);
        let mut tried = false;
        if big {
            if let Some((t, _)) = &lin {
                tried = true;
                self.smt_calls += 1;
                if smt::run_linear(t, self.smt_timeout_ms) {
                    res = smt::Res::Unsat;
                }
            }
        }
        if res == smt::Res::Unknown {
            if let Some(q) = &q {
                self.smt_calls += 1;
                res = smt::run(q, self.smt_timeout_ms);
            }
        }
        if res == smt::Res::Unknown && !tried {
            if let Some((t, _)) = &lin {
                self.smt_calls += 1;
                if smt::run_linear(t, self.smt_timeout_ms) {
                    res = smt::Res::Unsat;
                }
            }
        }
        self.smt_ms += t0.elapsed().as_millis();
        if let Some(k) = key {
            self.smt_cache.insert(k, res.clone());
        }
        (res, complete)
    }
    // ---- equalities on the path --------------------------------------------------
    /// solved form of the equalities known on this path
    pub fn substs(&mut self) -> Vec<(Atom, Poly)> {
        let nf = self.facts.len();
        if let Some((k, v)) = &self.subst_cache {
            if *k == nf {
                return v.clone();
            }
        }
        let mut eqs: Vec<Poly> = vec![];
        let ids: Vec<PolyId> = self.fmap.iter().filter(|(_, m)| **m == ZER).map(|(p, _)| *p).collect();
        let mut ids = ids;
        ids.sort();
        for id in ids {
            let p = (*self.polys[id as usize]).clone();
            self.split_eq(&p, &mut eqs, 0);
        }
        let mut out: Vec<(Atom, Poly)> = vec![];
        let mut guard = 0;
        while let Some(e) = eqs.pop() {
            guard += 1;
            if guard > 200 {
                break;
            }
            let e = self.apply(&e, &out);
            let e = match e {
                Ok(e) => e,
                Err(_) => continue,
            };
            if e.as_const().is_some() {
                continue;
            }
            // an atom of degree one with a constant coefficient
            let mut done = false;
            for a in e.atoms() {
                let k = &self.atoms[a as usize].kind;
                if !matches!(k, AtomKind::Var(_) | AtomKind::Sqrt(_) | AtomKind::Sin(..) | AtomKind::Cos(..)) {
                    continue;
                }
                let cs = e.coeffs_in(a);
                if cs.len() == 2 {
                    if let Some(c) = cs[1].as_const() {
                        if let (Some(i), Ok(r)) = (c.neg().inv(), Ok::<_, Over>(cs[0].clone())) {
                            if let Ok(r) = r.scale(i) {
                                // a sqrt atom solved away also forces its square
                                if let AtomKind::Sqrt(pid) = self.atoms[a as usize].kind {
                                    if let Ok(r2) = r.mul(&r) {
                                        if let Ok(d) = self.polys[pid as usize].sub(&r2) {
                                            if let Ok(d) = self.reduce(&d) {
                                                self.split_eq(&d, &mut eqs, 0);
                                            }
                                        }
                                    }
                                }
                                if let Some(g) = self.groups.iter().find(|g| g.atoms.contains(&a)) {
                                    // the unit relation must be restated without `a`
                                    let mut s = Poly::one().neg();
                                    for x in &g.atoms {
                                        let xp = if *x == a { r.clone() } else { Poly::atom(*x) };
                                        if let Ok(sq) = xp.mul(&xp) {
                                            if let Ok(t) = s.add(&sq) {
                                                s = t;
                                            }
                                        }
                                    }
                                    if !s.is_zero() {
                                        eqs.push(s);
                                    }
                                }
                                let prev = out.clone();
                                out = prev
                                    .into_iter()
                                    .filter_map(|(b, q)| self.apply(&q, &[(a, r.clone())]).ok().map(|q| (b, q)))
                                    .collect();
                                out.push((a, r));
                                done = true;
                                break;
                            }
                        }
                    }
                }
            }
            let _ = done;
        }
        self.subst_cache = Some((nf, out.clone()));
        out
    }
    fn split_eq(&mut self, p: &Poly, eqs: &mut Vec<Poly>, depth: u32) {
        if p.as_const().is_some() || depth > 6 {
            return;
        }
        // sum of squares (or of non-negative terms) equal to zero: each term is zero
        let nonneg = |s: &Eng, t: &(Mono, Rat)| {
            let q = Poly { t: vec![t.clone()] };
            s.quick(&q) & NEG == 0
        };
        let nonpos = |s: &Eng, t: &(Mono, Rat)| {
            let q = Poly { t: vec![t.clone()] };
            s.quick(&q) & POS == 0
        };
        if p.t.len() > 1 && (p.t.iter().all(|t| nonneg(self, t)) || p.t.iter().all(|t| nonpos(self, t))) {
            for t in p.t.clone() {
                self.split_eq(&Poly { t: vec![t] }, eqs, depth + 1);
            }
            return;
        }
        if p.t.len() == 1 {
            // product zero: drop factors known to be non-zero, and exponents
            let m: Vec<(Atom, u32)> =
                p.t[0].0.iter().filter(|x| self.known_atom(x.0) & ZER != 0).map(|x| (x.0, 1)).collect();
            if m.len() == 1 {
                let a = m[0].0;
                eqs.push(Poly::atom(a));
                if let AtomKind::Sqrt(id) = self.atoms[a as usize].kind {
                    let q = (*self.polys[id as usize]).clone();
                    self.split_eq(&q, eqs, depth + 1);
                }
            }
            return;
        }
        if let Some(r) = p.sqrt() {
            self.split_eq(&r, eqs, depth + 1);
            return;
        }
        eqs.push(p.clone());
    }
    pub fn apply(&self, p: &Poly, s: &[(Atom, Poly)]) -> Result<Poly, Over> {
        let mut p = p.clone();
        for _ in 0..4 {
            let mut changed = false;
            for (a, r) in s {
                if p.degree_in(*a) == 0 {
                    continue;
                }
                changed = true;
                let cs = p.coeffs_in(*a);
                let mut acc = Poly::zero();
                let mut pw = Poly::one();
                for c in cs {
                    acc = acc.add(&self.pmul(&c, &pw)?)?;
                    pw = self.pmul(&pw, r)?;
                }
                p = self.reduce(&acc)?;
            }
            if !changed {
                break;
            }
        }
        Ok(p)
    }
    pub fn show_poly(&self, p: &Poly) -> String {
        if p.is_zero() {
            return "0".into();
        }
        let mut s = String::new();
        for (i, (m, c)) in p.t.iter().enumerate() {
            if i > 12 {
                s += &format!(" + ... ({} terms)", p.t.len());
                break;
            }
            if i > 0 {
                s += " + ";
            }
            s += &c.show();
            for &(a, e) in m.iter() {
                s += "*";
                s += &self.show_atom(a);
                if e > 1 {
                    s += &format!("^{}", e);
                }
            }
        }
        s
    }
    pub fn show_atom(&self, a: Atom) -> String {
        match &self.atoms[a as usize].kind {
            AtomKind::Abs(p) => format!("|{}|", self.show_poly(&self.polys[*p as usize].clone())),
            AtomKind::Sqrt(p) => format!("sqrt({})", self.show_poly(&self.polys[*p as usize].clone())),
            AtomKind::Sin(p, q) => format!("sin(({})/{})", self.show_poly(&self.polys[*p as usize].clone()), q),
            AtomKind::Cos(p, q) => format!("cos(({})/{})", self.show_poly(&self.polys[*p as usize].clone()), q),
            _ => self.atoms[a as usize].name.clone(),
        }
    }
    pub fn show_path(&self) -> Vec<String> {
        let mut v: Vec<String> = self
            .facts
            .iter()
            .filter(|f| f.why == "branch")
            .map(|f| {
                let op = match f.mask {
                    NEG => "< 0",
                    ZER => "= 0",
                    POS => "> 0",
                    3 => "<= 0",
                    6 => ">= 0",
                    5 => "!= 0",
                    _ => "?",
                };
                format!("{} {}", self.show_poly(&self.polys[f.poly as usize].clone()), op)
            })
            .collect();
        if !self.nfacts.is_empty() {
            v.push(format!("and {} conditions on large terms", self.nfacts.len()));
        }
        v
    }
}

fn push_den(d: &mut Vec<(PolyId, u32)>, id: PolyId, e: u32) {
    match d.iter_mut().find(|x| x.0 == id) {
        Some(x) => x.1 += e,
        None => d.push((id, e)),
    }
}
pub fn flip(m: u8) -> u8 {
    (m & ZER) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
}
pub fn mulmask(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZER, POS] {
        for y in [NEG, ZER, POS] {
            if a & x != 0 && b & y != 0 {
                r |= if x == ZER || y == ZER {
                    ZER
                } else if x == y {
                    POS
                } else {
                    NEG
                };
            }
        }
    }
    r
}
pub fn addmask(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZER, POS] {
        for y in [NEG, ZER, POS] {
            if a & x != 0 && b & y != 0 {
                r |= if x == ZER {
                    y
                } else if y == ZER {
                    x
                } else if x == y {
                    x
                } else {
                    ANY
                };
            }
        }
    }
    r
}
