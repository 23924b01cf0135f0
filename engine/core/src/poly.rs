//! Multivariate polynomials with rational coefficients over interned atoms.
use crate::rat::{gcd, Rat};
use std::collections::HashMap;

pub type Atom = u32;
/// sorted by atom, exponents > 0
pub type Mono = Box<[(Atom, u32)]>;

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly {
    /// sorted in descending monomial order (see `mono_cmp`)
    pub t: Vec<(Mono, Rat)>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Over; // budget or coefficient overflow

pub const MAX_TERMS: usize = 60_000;

/// lexicographic order, larger atom id = more significant is irrelevant; any
/// admissible order works for exact division.
pub fn mono_cmp(a: &Mono, b: &Mono) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    let (mut i, mut j) = (0, 0);
    loop {
        match (a.get(i), b.get(j)) {
            (None, None) => return Equal,
            (Some(_), None) => return Greater,
            (None, Some(_)) => return Less,
            (Some(&(x, e)), Some(&(y, f))) => {
                if x < y {
                    return Greater;
                } else if x > y {
                    return Less;
                } else if e != f {
                    return e.cmp(&f);
                }
                i += 1;
                j += 1;
            }
        }
    }
}

pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].0 < b[j].0 {
            r.push(a[i]);
            i += 1;
        } else if a[i].0 > b[j].0 {
            r.push(b[j]);
            j += 1;
        } else {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r.into_boxed_slice()
}

pub fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut r = Vec::with_capacity(a.len());
    let mut j = 0;
    for &(x, e) in a.iter() {
        if j < b.len() && b[j].0 == x {
            if b[j].1 > e {
                return None;
            }
            if e > b[j].1 {
                r.push((x, e - b[j].1));
            }
            j += 1;
        } else {
            if j < b.len() && b[j].0 < x {
                return None;
            }
            r.push((x, e));
        }
    }
    if j < b.len() {
        return None;
    }
    Some(r.into_boxed_slice())
}

impl Poly {
    pub fn zero() -> Poly {
        Poly { t: vec![] }
    }
    pub fn constant(c: Rat) -> Poly {
        if c.is_zero() {
            Poly::zero()
        } else {
            Poly { t: vec![(Box::new([]), c)] }
        }
    }
    pub fn one() -> Poly {
        Poly::constant(Rat::ONE)
    }
    pub fn atom(a: Atom) -> Poly {
        Poly { t: vec![(Box::new([(a, 1)]), Rat::ONE)] }
    }
    pub fn is_zero(&self) -> bool {
        self.t.is_empty()
    }
    pub fn as_const(&self) -> Option<Rat> {
        match self.t.len() {
            0 => Some(Rat::ZERO),
            1 if self.t[0].0.is_empty() => Some(self.t[0].1),
            _ => None,
        }
    }
    pub fn len(&self) -> usize {
        self.t.len()
    }
    pub fn from_map(m: HashMap<Mono, Rat>) -> Poly {
        let mut t: Vec<(Mono, Rat)> = m.into_iter().filter(|(_, c)| !c.is_zero()).collect();
        t.sort_by(|a, b| mono_cmp(&b.0, &a.0));
        Poly { t }
    }
    pub fn add(&self, o: &Poly) -> Result<Poly, Over> {
        let mut r = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() && j < o.t.len() {
            match mono_cmp(&self.t[i].0, &o.t[j].0) {
                std::cmp::Ordering::Greater => {
                    r.push(self.t[i].clone());
                    i += 1
                }
                std::cmp::Ordering::Less => {
                    r.push(o.t[j].clone());
                    j += 1
                }
                std::cmp::Ordering::Equal => {
                    let c = self.t[i].1.add(o.t[j].1).ok_or(Over)?;
                    if !c.is_zero() {
                        r.push((self.t[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        r.extend_from_slice(&self.t[i..]);
        r.extend_from_slice(&o.t[j..]);
        if r.len() > MAX_TERMS {
            return Err(Over);
        }
        Ok(Poly { t: r })
    }
    pub fn neg(&self) -> Poly {
        Poly { t: self.t.iter().map(|(m, c)| (m.clone(), c.neg())).collect() }
    }
    pub fn sub(&self, o: &Poly) -> Result<Poly, Over> {
        self.add(&o.neg())
    }
    pub fn scale(&self, k: Rat) -> Result<Poly, Over> {
        if k.is_zero() {
            return Ok(Poly::zero());
        }
        let mut t = Vec::with_capacity(self.t.len());
        for (m, c) in &self.t {
            t.push((m.clone(), c.mul(k).ok_or(Over)?));
        }
        Ok(Poly { t })
    }
    pub fn mul(&self, o: &Poly) -> Result<Poly, Over> {
        if self.is_zero() || o.is_zero() {
            return Ok(Poly::zero());
        }
        if let Some(k) = self.as_const() {
            return o.scale(k);
        }
        if let Some(k) = o.as_const() {
            return self.scale(k);
        }
        if self.t.len() * o.t.len() > 4_000_000 {
            return Err(Over);
        }
        let mut m: HashMap<Mono, Rat> = HashMap::new();
        for (a, c) in &self.t {
            for (b, d) in &o.t {
                let k = mono_mul(a, b);
                let v = c.mul(*d).ok_or(Over)?;
                match m.get_mut(&k) {
                    Some(e) => *e = e.add(v).ok_or(Over)?,
                    None => {
                        m.insert(k, v);
                    }
                }
            }
            if m.len() > 4 * MAX_TERMS {
                return Err(Over);
            }
        }
        let p = Poly::from_map(m);
        if p.t.len() > MAX_TERMS {
            return Err(Over);
        }
        Ok(p)
    }
    pub fn pow(&self, n: u32) -> Result<Poly, Over> {
        let mut r = Poly::one();
        for _ in 0..n {
            r = r.mul(self)?;
        }
        Ok(r)
    }
    /// (content, primitive part): integer coprime coefficients, leading coefficient positive
    pub fn primitive(&self) -> Result<(Rat, Poly), Over> {
        if self.is_zero() {
            return Ok((Rat::ZERO, Poly::zero()));
        }
        let mut l: i128 = 1;
        for (_, c) in &self.t {
            let g = gcd(l, c.d);
            l = (l / g).checked_mul(c.d).ok_or(Over)?;
        }
        let mut g: i128 = 0;
        for (_, c) in &self.t {
            let n = c.n.checked_mul(l / c.d).ok_or(Over)?;
            g = gcd(g, n);
        }
        let mut content = Rat::new(g, l).ok_or(Over)?;
        if self.t[0].1.signum() < 0 {
            content = content.neg();
        }
        let p = self.scale(content.inv().ok_or(Over)?)?;
        Ok((content, p))
    }
    /// exact division; None when it does not divide
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        if d.is_zero() {
            return None;
        }
        if let Some(k) = d.as_const() {
            return self.scale(k.inv()?).ok();
        }
        let mut rem: std::collections::BTreeMap<Key, Rat> =
            self.t.iter().map(|(m, c)| (Key(m.clone()), *c)).collect();
        let (lm, lc) = (&d.t[0].0, d.t[0].1);
        let mut q: Vec<(Mono, Rat)> = vec![];
        let mut steps = 0usize;
        while let Some((k, c)) = rem.iter().next_back().map(|(k, c)| (k.0.clone(), *c)) {
            let m = mono_div(&k, lm)?;
            let f = c.div(lc)?;
            for (dm, dc) in &d.t {
                let kk = Key(mono_mul(&m, dm));
                let v = dc.mul(f)?.neg();
                let e = rem.entry(kk.clone()).or_insert(Rat::ZERO);
                *e = e.add(v)?;
                if e.is_zero() {
                    rem.remove(&kk);
                }
                steps += 1;
                if steps > 400_000 {
                    return None;
                }
            }
            q.push((m, f));
        }
        Some(Poly { t: q })
    }
    pub fn degree_in(&self, a: Atom) -> u32 {
        self.t
            .iter()
            .map(|(m, _)| m.iter().find(|x| x.0 == a).map_or(0, |x| x.1))
            .max()
            .unwrap_or(0)
    }
    pub fn atoms(&self) -> Vec<Atom> {
        let mut v: Vec<Atom> = self.t.iter().flat_map(|(m, _)| m.iter().map(|x| x.0)).collect();
        v.sort();
        v.dedup();
        v
    }
    /// coefficient polynomials by power of `a`
    pub fn coeffs_in(&self, a: Atom) -> Vec<Poly> {
        let d = self.degree_in(a) as usize;
        let mut v: Vec<Vec<(Mono, Rat)>> = vec![vec![]; d + 1];
        for (m, c) in &self.t {
            let mut e = 0;
            let rest: Vec<(Atom, u32)> = m
                .iter()
                .filter(|x| {
                    if x.0 == a {
                        e = x.1;
                        false
                    } else {
                        true
                    }
                })
                .cloned()
                .collect();
            v[e as usize].push((rest.into_boxed_slice(), *c));
        }
        v.into_iter()
            .map(|mut t| {
                t.sort_by(|a, b| mono_cmp(&b.0, &a.0));
                Poly { t }
            })
            .collect()
    }
    /// square root when `self` is a perfect square of a polynomial
    pub fn sqrt(&self) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        if self.t.len() > 400 {
            return None;
        }
        // leading-term driven square root in the monomial order
        let half = |m: &Mono| -> Option<Mono> {
            let mut v = vec![];
            for &(a, e) in m.iter() {
                if e % 2 != 0 {
                    return None;
                }
                v.push((a, e / 2));
            }
            Some(v.into_boxed_slice())
        };
        let lm = half(&self.t[0].0)?;
        let lc = self.t[0].1.sqrt()?;
        let mut r = Poly { t: vec![(lm.clone(), lc)] };
        let two_lc = lc.mul(Rat::int(2))?;
        for _ in 0..200 {
            let rem = self.sub(&r.mul(&r).ok()?).ok()?;
            if rem.is_zero() {
                return Some(r);
            }
            let m = mono_div(&rem.t[0].0, &lm)?;
            // new term must be below all current terms
            if mono_cmp(&m, &r.t[r.t.len() - 1].0) != std::cmp::Ordering::Less {
                return None;
            }
            let c = rem.t[0].1.div(two_lc)?;
            r.t.push((m, c));
            if r.t.len() > 60 {
                return None;
            }
        }
        None
    }
}

#[derive(Clone, PartialEq, Eq)]
struct Key(Mono);
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<std::cmp::Ordering> {
        Some(mono_cmp(&self.0, &o.0))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> std::cmp::Ordering {
        mono_cmp(&self.0, &o.0)
    }
}
