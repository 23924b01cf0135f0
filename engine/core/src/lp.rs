//! Linear feasibility over the rationals with strict bounds (general simplex).
//! Every operation is exact; an overflow of the 128-bit rationals gives `Unknown`.
use crate::eng::{NEG, POS, ZER};
use crate::rat::Rat;
use std::cmp::Ordering;

pub enum Lp {
    Unsat,
    Sat(Vec<Rat>),
    Unknown,
}
/// a + b*delta for an infinitesimal delta
#[derive(Clone, Copy, Debug)]
struct D(Rat, Rat);
impl D {
    fn add(self, o: D) -> Option<D> {
        Some(D(self.0.add(o.0)?, self.1.add(o.1)?))
    }
    fn sub(self, o: D) -> Option<D> {
        Some(D(self.0.sub(o.0)?, self.1.sub(o.1)?))
    }
    fn scale(self, k: Rat) -> Option<D> {
        Some(D(self.0.mul(k)?, self.1.mul(k)?))
    }
    fn cmp(&self, o: &D) -> Option<Ordering> {
        Some(match self.0.cmp(&o.0)? {
            Ordering::Equal => self.1.cmp(&o.1)?,
            x => x,
        })
    }
}

/// constraints: coefficients over `n` variables, constant, sign mask of the whole expression
pub fn solve(n: usize, cons: &[(Vec<(usize, Rat)>, Rat, u8)]) -> Lp {
    let mut c: Vec<(Vec<(usize, Rat)>, Rat, u8)> = cons.to_vec();
    match go(n, &mut c, 0) {
        Some(x) => x,
        None => Lp::Unknown,
    }
}
fn go(n: usize, cons: &mut Vec<(Vec<(usize, Rat)>, Rat, u8)>, depth: usize) -> Option<Lp> {
    let m = match simplex(n, cons)? {
        None => return Some(Lp::Unsat),
        Some(m) => m,
    };
    // disequalities
    for i in 0..cons.len() {
        if cons[i].2 != NEG | POS {
            continue;
        }
        let mut v = cons[i].1;
        for (j, a) in &cons[i].0 {
            v = v.add(m[*j].mul(*a)?)?;
        }
        if v.is_zero() {
            if depth >= 6 {
                return None;
            }
            for s in [POS, NEG] {
                cons[i].2 = s;
                let r = go(n, cons, depth + 1)?;
                cons[i].2 = NEG | POS;
                if let Lp::Sat(_) = r {
                    return Some(r);
                }
                if let Lp::Unknown = r {
                    return Some(r);
                }
            }
            return Some(Lp::Unsat);
        }
    }
    Some(Lp::Sat(m))
}
fn simplex(n: usize, cons: &[(Vec<(usize, Rat)>, Rat, u8)]) -> Option<Option<Vec<Rat>>> {
    let z = D(Rat::int(0), Rat::int(0));
    let one = Rat::int(1);
    // single-variable constraints become bounds, the others slack rows
    let mut lo: Vec<Option<D>> = vec![None; n];
    let mut hi: Vec<Option<D>> = vec![None; n];
    let mut rows: Vec<Vec<Rat>> = vec![];
    let tighten = |lo: &mut Option<D>, hi: &mut Option<D>, b: D, lower: bool| -> Option<()> {
        let (t, keep) = if lower { (lo, Ordering::Greater) } else { (hi, Ordering::Less) };
        match t {
            None => *t = Some(b),
            Some(o) => {
                if b.cmp(o)? == keep {
                    *t = Some(b)
                }
            }
        }
        Some(())
    };
    for (co, k, m) in cons {
        if *m == NEG | POS || *m == NEG | POS | ZER {
            continue;
        }
        if *m == 0 {
            return Some(None);
        }
        if co.is_empty() {
            let s = match k.signum() {
                1 => POS,
                -1 => NEG,
                _ => ZER,
            };
            if s & m == 0 {
                return Some(None);
            }
            continue;
        }
        let (v, sc) = if co.len() == 1 {
            (co[0].0, co[0].1)
        } else {
            let mut r = vec![Rat::int(0); n];
            for (j, a) in co {
                r[*j] = r[*j].add(*a)?;
            }
            rows.push(r);
            lo.push(None);
            hi.push(None);
            (lo.len() - 1, one)
        };
        // sc*v + k  (mask)  0   ->   v (mask') -k/sc
        let b = k.neg().div(sc)?;
        let m = if sc.signum() < 0 { (m & ZER) | ((m & NEG != 0) as u8 * POS) | ((m & POS != 0) as u8 * NEG) } else { *m };
        if m & NEG == 0 {
            let d = if m & ZER != 0 { Rat::int(0) } else { one };
            tighten(&mut lo[v], &mut hi[v], D(b, d), true)?;
        }
        if m & POS == 0 {
            let d = if m & ZER != 0 { Rat::int(0) } else { one.neg() };
            tighten(&mut lo[v], &mut hi[v], D(b, d), false)?;
        }
    }
    let nt = lo.len();
    for i in 0..nt {
        if let (Some(l), Some(h)) = (lo[i], hi[i]) {
            if l.cmp(&h)? == Ordering::Greater {
                return Some(None);
            }
        }
    }
    // columns: non-basic variable ids; rows: basic variable ids
    let mut basic: Vec<usize> = (n..nt).collect();
    let mut nb: Vec<usize> = (0..n).collect();
    let mut t = rows;
    let mut val = vec![z; nt];
    for j in 0..n {
        if let Some(l) = lo[j] {
            val[j] = l;
        } else if let Some(h) = hi[j] {
            val[j] = h;
        }
    }
    for i in 0..basic.len() {
        let mut v = z;
        for j in 0..n {
            if !t[i][j].is_zero() {
                v = v.add(val[nb[j]].scale(t[i][j])?)?;
            }
        }
        val[basic[i]] = v;
    }
    for _ in 0..2000 {
        // Bland: smallest violated basic variable
        let mut pick: Option<(usize, bool)> = None;
        for i in 0..basic.len() {
            let b = basic[i];
            let low = match lo[b] {
                Some(l) => val[b].cmp(&l)? == Ordering::Less,
                None => false,
            };
            let high = match hi[b] {
                Some(h) => val[b].cmp(&h)? == Ordering::Greater,
                None => false,
            };
            if (low || high) && pick.map_or(true, |(p, _)| basic[p] > b) {
                pick = Some((i, low));
            }
        }
        let (i, low) = match pick {
            None => {
                // choose delta
                let mut d = one;
                for v in 0..nt {
                    if let Some(l) = lo[v] {
                        // l.0 + l.1 d <= val.0 + val.1 d
                        let (a, b) = (val[v].0.sub(l.0)?, l.1.sub(val[v].1)?);
                        if b.signum() > 0 && a.signum() > 0 {
                            let q = a.div(b)?;
                            if q.cmp(&d)? == Ordering::Less {
                                d = q;
                            }
                        }
                    }
                    if let Some(h) = hi[v] {
                        let (a, b) = (h.0.sub(val[v].0)?, val[v].1.sub(h.1)?);
                        if b.signum() > 0 && a.signum() > 0 {
                            let q = a.div(b)?;
                            if q.cmp(&d)? == Ordering::Less {
                                d = q;
                            }
                        }
                    }
                }
                let mut m = vec![];
                for v in 0..n {
                    m.push(val[v].0.add(val[v].1.mul(d)?)?);
                }
                return Some(Some(m));
            }
            Some(p) => p,
        };
        let b = basic[i];
        let target = if low { lo[b].unwrap() } else { hi[b].unwrap() };
        let mut col: Option<usize> = None;
        for j in 0..n {
            let s = t[i][j].signum() * if low { 1 } else { -1 };
            let v = nb[j];
            let can = if s > 0 {
                match hi[v] {
                    None => true,
                    Some(h) => val[v].cmp(&h)? == Ordering::Less,
                }
            } else if s < 0 {
                match lo[v] {
                    None => true,
                    Some(l) => val[v].cmp(&l)? == Ordering::Greater,
                }
            } else {
                false
            };
            if can && col.map_or(true, |c| nb[c] > v) {
                col = Some(j);
            }
        }
        let j = match col {
            None => return Some(None),
            Some(j) => j,
        };
        // pivot basic i with non-basic j
        let a = t[i][j];
        let x = nb[j];
        let theta = target.sub(val[b])?.scale(a.inv()?)?;
        val[b] = target;
        val[x] = val[x].add(theta)?;
        for k in 0..basic.len() {
            if k != i && !t[k][j].is_zero() {
                val[basic[k]] = val[basic[k]].add(theta.scale(t[k][j])?)?;
            }
        }
        // row i: b = a x + rest  ->  x = b/a - rest/a
        let ia = a.inv()?;
        for c in 0..n {
            if c != j {
                t[i][c] = t[i][c].mul(ia)?.neg();
            }
        }
        t[i][j] = ia;
        for k in 0..basic.len() {
            if k == i {
                continue;
            }
            let f = t[k][j];
            if f.is_zero() {
                continue;
            }
            for c in 0..n {
                if c == j {
                    t[k][c] = f.mul(ia)?;
                } else if !t[i][c].is_zero() {
                    let d = f.mul(t[i][c])?;
                    t[k][c] = t[k][c].add(d)?;
                }
            }
        }
        basic[i] = x;
        nb[j] = b;
    }
    None
}

#[cfg(test)]
mod t {
    use super::*;
    fn r(n: i128) -> Rat {
        Rat::int(n)
    }
    #[test]
    fn basics() {
        // x > y, y > z, z >= x
        let c = vec![
            (vec![(0, r(1)), (1, r(-1))], r(0), POS),
            (vec![(1, r(1)), (2, r(-1))], r(0), POS),
            (vec![(2, r(1)), (0, r(-1))], r(0), POS | ZER),
        ];
        assert!(matches!(solve(3, &c), Lp::Unsat));
        let d = vec![c[0].clone(), c[1].clone(), (vec![(0, r(1)), (1, r(1)), (2, r(1))], r(-3), ZER)];
        match solve(3, &d) {
            Lp::Sat(m) => {
                assert!(m[0].cmp(&m[1]) == Some(Ordering::Greater) && m[1].cmp(&m[2]) == Some(Ordering::Greater));
                assert!(m[0].add(m[1]).unwrap().add(m[2]).unwrap() == r(3));
            }
            _ => panic!(),
        }
        // x >= 0, y >= 0, x + y = 0, x != 0
        let c = vec![
            (vec![(0, r(1))], r(0), POS | ZER),
            (vec![(1, r(1))], r(0), POS | ZER),
            (vec![(0, r(1)), (1, r(1))], r(0), ZER),
            (vec![(0, r(1))], r(0), POS | NEG),
        ];
        assert!(matches!(solve(2, &c), Lp::Unsat));
    }
}
