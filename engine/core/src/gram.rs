//! A sum of squares that vanishes makes every term vanish.  If a term D known to
//! be non-zero is a combination of these terms, the path is impossible.  For the
//! residual x of one column of a matrix against the others, D = det is
//! sum_i x_i * (cofactor of entry i of that column): the identity is tested.
use crate::eng::*;
use crate::pit;
use crate::poly::*;
use crate::rat::Rat;
use std::collections::BTreeMap;

impl Eng {
    fn squares(&self, n: NodeId, out: &mut Vec<NodeId>) -> bool {
        match self.nodes[n as usize] {
            Node::Const(c) => c.is_zero(),
            Node::Mul(a, b) if a == b => {
                out.push(a);
                true
            }
            Node::Add(a, b) => self.squares(a, out) && self.squares(b, out),
            _ => false,
        }
    }
    /// is "n = 0" impossible on this path because of a known non-zero term?
    pub fn zero_impossible(&mut self, n: NodeId) -> bool {
        let src = match self.nodes[n as usize] {
            Node::Atom(a) => match self.atoms[a as usize].kind {
                AtomKind::SqrtNode(m) => m,
                _ => *self.sqrt_of.get(&n).unwrap_or(&n),
            },
            _ => *self.sqrt_of.get(&n).unwrap_or(&n),
        };
        let mut xs = vec![];
        if !self.squares(src, &mut xs) || xs.len() < 2 {
            return false;
        }
        let mut ids: Vec<PolyId> = self.facts.iter().filter(|f| f.mask & ZER == 0).map(|f| f.poly).collect();
        ids.sort();
        ids.dedup();
        for id in ids {
            let d = self.polys[id as usize].clone();
            if d.len() < 2 {
                continue;
            }
            for fam in self.families(&d, xs.len()) {
                for rev in 0..2 {
                    let mut z = self.poly_node(&d);
                    for i in 0..xs.len() {
                        let v = fam[if rev == 0 { i } else { xs.len() - 1 - i }];
                        let c = cofactor(&d, v);
                        let c = self.poly_node(&c);
                        let t = self.mul(xs[i], c);
                        z = self.sub(z, t);
                    }
                    let hit = match self.pit_zero.get(&z) {
                        Some(h) => *h,
                        None => {
                            let seed = self.seed ^ 0x6d6d;
                            let h = matches!(pit::zero(self, z, 24, seed), pit::Pit::Zero(_));
                            if self.substs().is_empty() {
                                self.pit_zero.insert(z, h);
                            }
                            h
                        }
                    };
                    if hit {
                        return true;
                    }
                }
            }
        }
        false
    }
    fn positive(&mut self, n: NodeId) {
        match self.nf(n) {
            Ok(rf) => {
                // the numerator has the sign of the denominator
                let m = self.rf_mask(&RF { num: Poly::constant(Rat::ONE), den: rf.den.clone() });
                if m == POS || m == NEG {
                    let p = rf.num.clone();
                    self.assume_poly(&p, m);
                }
            }
            Err(_) => self.node_fact(n, POS),
        }
    }
    fn defined_so_far(&mut self) -> bool {
        // every divisor so far is known to be non-zero
        self.divs.clone().into_iter().all(|d| self.node_mask_rf(d) & ZER == 0)
    }
    /// the argument of a square root: if it cannot vanish, say so before anything forks on it
    pub fn sum_nonzero(&mut self, n: NodeId) {
        if self.node_mask_rf(n) & (ZER | NEG) == 0 || !self.defined_so_far() {
            return;
        }
        if self.zero_impossible(n) {
            self.positive(n);
        }
    }
    /// the same for a root that serves as a divisor
    pub fn root_nonzero(&mut self, n: NodeId) {
        if self.node_mask_rf(n) & ZER == 0 || !self.defined_so_far() {
            return;
        }
        if self.zero_impossible(n) {
            self.positive(n);
        }
    }
    /// sets of `size` variables named alike, such that every monomial of d has exactly one of them
    fn families(&self, d: &Poly, size: usize) -> Vec<Vec<Atom>> {
        let mut groups: BTreeMap<(usize, String), Vec<(u32, Atom)>> = BTreeMap::new();
        for a in d.atoms() {
            let name = match &self.atoms[a as usize].kind {
                AtomKind::Var(n) => n.clone(),
                _ => return vec![],
            };
            for (p, ch) in name.char_indices() {
                if let Some(x) = ch.to_digit(10) {
                    let mut key = name.clone();
                    key.replace_range(p..p + 1, "*");
                    groups.entry((p, key)).or_default().push((x, a));
                }
            }
        }
        let mut out = vec![];
        for (_, mut g) in groups {
            if g.len() != size {
                continue;
            }
            g.sort();
            let f: Vec<Atom> = g.into_iter().map(|x| x.1).collect();
            let ok = d.t.iter().all(|(m, _)| {
                let mut k = m.iter().filter(|x| f.contains(&x.0));
                matches!((k.next(), k.next()), (Some(x), None) if x.1 == 1)
            });
            if ok {
                out.push(f);
            }
        }
        out
    }
}
/// coefficient of v in a polynomial linear in v
fn cofactor(d: &Poly, v: Atom) -> Poly {
    let mut t: Vec<(Mono, Rat)> = d
        .t
        .iter()
        .filter(|(m, _)| m.iter().any(|x| x.0 == v))
        .map(|(m, c)| (m.iter().filter(|x| x.0 != v).cloned().collect::<Vec<_>>().into_boxed_slice(), *c))
        .collect();
    t.sort_by(|a, b| mono_cmp(&b.0, &a.0));
    Poly { t }
}
