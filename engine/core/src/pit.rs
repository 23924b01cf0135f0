//! Polynomial identity testing: evaluates terms at random points of the prime
//! field F_p, p = 2^61 - 1.  A term that is not identically zero (as a rational
//! function of its free atoms) vanishes at a random point with probability at
//! most deg/p (Schwartz-Zippel).
use crate::eng::*;
use crate::poly::*;
use crate::rat::Rat;
use std::collections::HashMap;

pub const P: u64 = (1 << 61) - 1;
fn add(a: u64, b: u64) -> u64 {
    let s = a + b;
    if s >= P {
        s - P
    } else {
        s
    }
}
fn sub(a: u64, b: u64) -> u64 {
    if a >= b {
        a - b
    } else {
        a + P - b
    }
}
fn mul(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % P as u128) as u64
}
fn pow(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mul(r, a);
        }
        a = mul(a, a);
        e >>= 1;
    }
    r
}
fn inv(a: u64) -> Option<u64> {
    if a == 0 {
        None
    } else {
        Some(pow(a, P - 2))
    }
}
fn rat(r: Rat) -> Option<u64> {
    let m = |n: i128| -> u64 { n.rem_euclid(P as i128) as u64 };
    Some(mul(m(r.n), inv(m(r.d))?))
}

pub struct Point {
    atoms: HashMap<Atom, u64>,
    nodes: HashMap<NodeId, u64>,
    rng: Rng,
    subst: Vec<(Atom, Poly)>,
    depth: u32,
}
/// a point that makes some square root argument a non-residue, or a divisor zero
pub struct Bad;

impl Point {
    pub fn new(seed: u64, subst: Vec<(Atom, Poly)>) -> Point {
        Point { atoms: HashMap::new(), nodes: HashMap::new(), rng: Rng(seed), subst, depth: 0 }
    }
    fn rnd(&mut self) -> u64 {
        self.rng.next() % P
    }
    fn atom(&mut self, e: &mut Eng, a: Atom) -> Result<u64, Bad> {
        if let Some(v) = self.atoms.get(&a) {
            return Ok(*v);
        }
        self.depth += 1;
        if self.depth > 60 {
            return Err(Bad);
        }
        let r = self.atom0(e, a);
        self.depth -= 1;
        r
    }
    fn atom0(&mut self, e: &mut Eng, a: Atom) -> Result<u64, Bad> {
        if let Some((_, q)) = self.subst.iter().find(|x| x.0 == a).cloned() {
            let v = self.poly(e, &q)?;
            self.atoms.insert(a, v);
            return Ok(v);
        }
        // unit groups: inverse stereographic projection (only when not constrained further)
        if let Some(g) = e.groups.iter().find(|g| g.atoms.contains(&a)).map(|g| g.atoms.clone()) {
            if g.iter().any(|x| self.subst.iter().any(|s| s.0 == *x)) {
                // constrained group: draw the others freely, root for the last unsolved one
                let free: Vec<Atom> =
                    g.iter().cloned().filter(|x| !self.subst.iter().any(|s| s.0 == *x)).collect();
                if free.is_empty() {
                    return Err(Bad);
                }
                for x in &free[1..] {
                    let v = self.rnd();
                    self.atoms.insert(*x, v);
                }
                // the solved atoms must not depend on free[0]
                let mut s = 1u64;
                for x in &free[1..] {
                    let v = self.atoms[x];
                    s = sub(s, mul(v, v));
                }
                for x in g.iter().filter(|x| !free.contains(x)) {
                    let q = self.subst.iter().find(|s| s.0 == *x).unwrap().1.clone();
                    if q.degree_in(free[0]) > 0 {
                        return Err(Bad);
                    }
                    let v = self.poly(e, &q)?;
                    s = sub(s, mul(v, v));
                }
                let r = root(s).ok_or(Bad)?;
                let r = if self.rng.next() % 2 == 0 { r } else { sub(0, r) };
                self.atoms.insert(free[0], r);
            } else {
                let k = g.len() - 1;
                let t: Vec<u64> = (0..k).map(|_| self.rnd()).collect();
                let n = t.iter().fold(0, |s, x| add(s, mul(*x, *x)));
                let d = inv(add(1, n)).ok_or(Bad)?;
                let rot = (self.rng.next() % g.len() as u64) as usize;
                for (i, x) in g.iter().enumerate() {
                    let j = (i + rot) % g.len();
                    let v = if j == 0 { mul(sub(1, n), d) } else { mul(mul(2, t[j - 1]), d) };
                    self.atoms.insert(*x, v);
                }
            }
            return Ok(self.atoms[&a]);
        }
        let k = e.atoms[a as usize].kind.clone();
        let v = match k {
            AtomKind::Sqrt(p) => {
                let q = e.polys[p as usize].clone();
                let v = self.poly(e, &q)?;
                root(v).ok_or(Bad)?
            }
            AtomKind::Abs(p) => {
                // either sign
                let q = e.polys[p as usize].clone();
                let v = self.poly(e, &q)?;
                if self.rnd() % 2 == 0 { v } else { sub(0, v) }
            }
            AtomKind::SqrtNode(n) => {
                let v = self.node(e, n)?;
                root(v).ok_or(Bad)?
            }
            AtomKind::Sin(p, q) | AtomKind::Cos(p, q) => {
                let (s, c) = (e.atom(AtomKind::Sin(p, q)), e.atom(AtomKind::Cos(p, q)));
                // respect a constraint on either
                let (sc, cc) =
                    (self.subst.iter().any(|x| x.0 == s), self.subst.iter().any(|x| x.0 == c));
                if sc || cc {
                    let (fixed, other) = if sc { (s, c) } else { (c, s) };
                    if sc && cc {
                        return Err(Bad);
                    }
                    let v = self.atom(e, fixed)?;
                    let r = root(sub(1, mul(v, v))).ok_or(Bad)?;
                    self.atoms.insert(other, r);
                } else {
                    let t = self.rnd();
                    let d = inv(add(1, mul(t, t))).ok_or(Bad)?;
                    self.atoms.insert(s, mul(mul(2, t), d));
                    self.atoms.insert(c, mul(sub(1, mul(t, t)), d));
                }
                return Ok(self.atoms[&a]);
            }
            AtomKind::Fun("quot", n) => self.node(e, n)?,
            _ => self.rnd(),
        };
        self.atoms.insert(a, v);
        Ok(v)
    }
    pub fn poly(&mut self, e: &mut Eng, p: &Poly) -> Result<u64, Bad> {
        let mut s = 0;
        for (m, c) in &p.t {
            let mut t = rat(*c).ok_or(Bad)?;
            for &(a, k) in m.iter() {
                t = mul(t, pow(self.atom(e, a)?, k as u64));
            }
            s = add(s, t);
        }
        Ok(s)
    }
    pub fn node(&mut self, e: &mut Eng, n: NodeId) -> Result<u64, Bad> {
        let mut stack = vec![n];
        while let Some(&x) = stack.last() {
            if self.nodes.contains_key(&x) {
                stack.pop();
                continue;
            }
            let nd = e.nodes[x as usize].clone();
            let kids: Vec<NodeId> = match &nd {
                Node::Const(_) | Node::Atom(_) => vec![],
                Node::Neg(a) => vec![*a],
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) => vec![*a, *b],
            };
            let mut ready = true;
            for k in &kids {
                if !self.nodes.contains_key(k) {
                    stack.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let v = match nd {
                Node::Const(r) => rat(r).ok_or(Bad)?,
                Node::Atom(a) => self.atom(e, a)?,
                Node::Neg(a) => sub(0, self.nodes[&a]),
                Node::Add(a, b) => add(self.nodes[&a], self.nodes[&b]),
                Node::Sub(a, b) => sub(self.nodes[&a], self.nodes[&b]),
                Node::Mul(a, b) => mul(self.nodes[&a], self.nodes[&b]),
                Node::Div(a, b) => mul(self.nodes[&a], inv(self.nodes[&b]).ok_or(Bad)?),
            };
            self.nodes.insert(x, v);
        }
        Ok(self.nodes[&n])
    }
}
/// the square root that is itself a square (p = 3 mod 4): multiplicative, like the positive root
fn root(x: u64) -> Option<u64> {
    let r = pow(x, (P + 1) / 4);
    if mul(r, r) == x {
        Some(r)
    } else {
        None
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Pit {
    Zero(usize),
    NonZero,
    NoPoint,
}
/// is the term zero at `want` good points?  Points are kept: later terms reuse
/// the values of shared subterms.
pub fn zero(e: &mut Eng, n: NodeId, want: usize, seed: u64) -> Pit {
    let subst = e.substs();
    let key = format!("{:?}", subst);
    let mut pool = e.pit_pool.remove(&key).unwrap_or_default();
    let mut out = None;
    let mut good = 0;
    let mut i = 0;
    while i < pool.len() && good < want {
        match pool[i].node(e, n) {
            Ok(0) => {
                good += 1;
                i += 1;
            }
            Ok(_) => {
                out = Some(Pit::NonZero);
                break;
            }
            Err(_) => {
                pool.swap_remove(i);
            }
        }
    }
    let mut tries = 0u64;
    while out.is_none() && good < want {
        tries += 1;
        e.pit_count += 1;
        if tries > 20_000 || (tries > 3000 && good == 0) {
            break;
        }
        let mut p = Point::new(seed ^ (e.pit_count.wrapping_mul(0x9E3779B97F4A7C15)), subst.clone());
        match p.node(e, n) {
            Ok(0) => {
                good += 1;
                pool.push(p);
            }
            Ok(_) => {
                pool.push(p);
                out = Some(Pit::NonZero);
            }
            Err(_) => {}
        }
    }
    e.pit_pool.insert(key, pool);
    out.unwrap_or(if good >= want {
        Pit::Zero(good)
    } else {
        Pit::NoPoint
    })
}
