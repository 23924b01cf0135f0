//! Discharging obligations on the current path.
use crate::eng::*;
use crate::pit;
use crate::poly::*;
use crate::smt;

pub fn equal(e: &mut Eng, label: &str, a: NodeId, b: NodeId) {
    let v = prove_equal(e, a, b);
    push(e, label, v);
}
fn push(e: &mut Eng, label: &str, v: Verdict) {
    let path = e.path_no;
    e.obligs.push(Oblig { label: label.to_string(), path, verdict: v });
}
pub fn holds(e: &mut Eng, label: &str, b: bool) {
    if b {
        push(e, label, Verdict::Proved("path"));
        return;
    }
    let v = match infeasible(e) {
        Inf::Yes => Verdict::Proved("infeasible path"),
        Inf::Sat(m, c) => Verdict::Failed { sat: Some(c), detail: "reachable with the condition false".into(), model: m },
        Inf::Unknown => {
            if e.alive.is_empty() {
                Verdict::Unknown("path condition undecided".into())
            } else {
                Verdict::Failed { sat: None, detail: "reachable with the condition false".into(), model: vec![] }
            }
        }
    };
    push(e, label, v);
}
pub enum Inf {
    Yes,
    Sat(Vec<(String, f64)>, bool),
    Unknown,
}
/// is the current path condition contradictory?
pub fn infeasible(e: &mut Eng) -> Inf {
    if e.path_proved_infeasible {
        return Inf::Yes;
    }
    if e.quick_contradiction() {
        e.path_proved_infeasible = true;
        return Inf::Yes;
    }
    let (res, complete) = e.smt_check(&[]);
    match res {
        smt::Res::Unsat => {
            e.path_proved_infeasible = true;
            Inf::Yes
        }
        smt::Res::Sat(m) => Inf::Sat(m, complete),
        smt::Res::Unknown => Inf::Unknown,
    }
}
fn specials(e: &Eng, a: NodeId, b: NodeId) -> Option<Verdict> {
    let (x, y) = (e.special(a), e.special(b));
    if x.is_none() && y.is_none() {
        return None;
    }
    Some(if x == y && x != Some(AtomKind::Nan) {
        Verdict::Proved("identical")
    } else {
        Verdict::Failed { sat: Some(true), detail: format!("special values {:?} / {:?}", x, y), model: vec![] }
    })
}
pub fn prove_equal(e: &mut Eng, a: NodeId, b: NodeId) -> Verdict {
    if a == b {
        return Verdict::Proved("identical");
    }
    if let Some(v) = specials(e, a, b) {
        return v;
    }
    if let Some(w) = e.proof_cache.get(&(a, b)) {
        return Verdict::Proved(w);
    }
    let d = e.sub(a, b);
    let num = match e.nf(d) {
        Ok(r) => Some(r.num.clone()),
        Err(_) => None,
    };
    if let Some(n) = num {
        if n.is_zero() {
            e.proof_cache.insert((a, b), "ring normal form");
            return Verdict::Proved("ring normal form");
        }
        return prove_zero_poly(e, &n);
    }
    // too large for the normal form
    let seed = e.seed;
    match pit::zero(e, d, 24, seed ^ 0xabcdef) {
        pit::Pit::Zero(_) => {
            if e.facts.is_empty() {
                e.proof_cache.insert((a, b), "identity test");
            }
            Verdict::Proved("identity test")
        }
        pit::Pit::NonZero => match infeasible(e) {
            Inf::Yes => Verdict::Proved("infeasible path"),
            _ => Verdict::Failed { sat: None, detail: "identity test found a point".into(), model: vec![] },
        },
        pit::Pit::NoPoint => Verdict::Unknown("no evaluation point".into()),
    }
}
pub fn prove_zero_poly(e: &mut Eng, n: &Poly) -> Verdict {
    let s = e.substs();
    let n2 = match e.apply(n, &s) {
        Ok(p) => p,
        Err(_) => n.clone(),
    };
    if n2.is_zero() {
        return Verdict::Proved("ring normal form + path equalities");
    }
    if e.poly_mask(n) == ZER || e.poly_mask(&n2) == ZER {
        return Verdict::Proved("sign facts");
    }
    // divisible by a polynomial known to vanish on this path
    let zs = e.zero_polys();
    for z in zs {
        if n.div_exact(&z).is_some() || n2.div_exact(&z).is_some() {
            return Verdict::Proved("ring normal form + path equalities");
        }
    }
    if e.quick_contradiction() {
        return Verdict::Proved("infeasible path");
    }
    if !e.zero_polys().is_empty() && e.eliminated(Some(&n2)) {
        return Verdict::Proved("ring normal form + path equalities");
    }
    let (_, p) = match n.primitive() {
        Ok(x) => x,
        Err(_) => return Verdict::Unknown("coefficient overflow".into()),
    };
    let id = e.poly_id(&p);
    let (res, complete) = e.smt_check(&[(id, NEG | POS)]);
    match res {
        smt::Res::Unsat => Verdict::Proved("z3"),
        smt::Res::Sat(m) => {
            Verdict::Failed { sat: Some(complete), detail: format!("{} != 0 possible", e.show_poly(&p)), model: m }
        }
        smt::Res::Unknown => {
            Verdict::Failed { sat: None, detail: format!("{} != 0 not excluded", e.show_poly(&p)), model: vec![] }
        }
    }
}
/// definedness: sign of the node must lie in `mask`
pub fn defined(e: &mut Eng, label: &str, n: NodeId, mask: u8) {
    let v = prove_sign(e, n, mask);
    push(e, label, v);
}
pub fn prove_sign(e: &mut Eng, n: NodeId, mask: u8) -> Verdict {
    if mask & (ZER | POS) == ZER | POS && e.struct_nonneg(n, 0) {
        return Verdict::Proved("sum of squares");
    }
    if let Ok(r) = e.nf(n) {
        let k = e.rf_mask(&r);
        if k & !mask == 0 {
            return Verdict::Proved("sign facts");
        }
        if e.quick_contradiction() {
            return Verdict::Proved("infeasible path");
        }
        // with the path equalities
        let s = e.substs();
        if let Ok(p) = e.apply(&r.num, &s) {
            if r.den.is_empty() && e.poly_mask(&p) & !mask == 0 {
                return Verdict::Proved("sign facts + path equalities");
            }
        }
        // sum of squares?
        if r.den.is_empty() && mask & POS != 0 && mask & ZER != 0 && e.sos(&r.num) {
            return Verdict::Proved("sum of squares");
        }
        // a root vanishes where its radicand does
        if mask == NEG | POS && r.num.len() == 1 {
            let roots: Vec<PolyId> = r.num.t[0].0.iter().filter_map(|x| e.radicand(x.0)).collect();
            if !roots.is_empty() && roots.len() == r.num.t[0].0.len() {
                let mut last = Verdict::Proved("sign facts");
                for id in roots {
                    let p = e.polys[id as usize].clone();
                    let k = e.poly_mask(&p);
                    if k & ZER != 0 {
                        let q = e.poly_node(&p);
                        last = prove_sign(e, q, mask);
                        if !matches!(last, Verdict::Proved(_)) {
                            break;
                        }
                    }
                }
                if matches!(last, Verdict::Proved(_)) {
                    return last;
                }
            }
        }
        let mut num = r.num.clone();
        for (id, x) in &r.den {
            // a quotient is zero where its numerator is
            if x % 2 == 1 && mask != NEG | POS {
                let d = e.polys[*id as usize].clone();
                num = match num.mul(&d).and_then(|p| e.reduce(&p)) {
                    Ok(p) => p,
                    Err(_) => return Verdict::Unknown("term too large".into()),
                };
            }
        }
        let (c, p) = match num.primitive() {
            Ok(x) => x,
            Err(_) => return Verdict::Unknown("coefficient overflow".into()),
        };
        let m = if c.signum() < 0 { flip(mask) } else { mask };
        let id = e.poly_id(&p);
        let (res, complete) = e.smt_check(&[(id, ANY & !m)]);
        return match res {
            smt::Res::Unsat => Verdict::Proved("z3"),
            smt::Res::Sat(mo) => Verdict::Failed {
                sat: Some(complete),
                detail: format!("{} can have another sign", e.show_poly(&p)),
                model: mo,
            },
            smt::Res::Unknown => Verdict::Unknown(format!("sign of {} undecided", e.show_poly(&p))),
        };
    }
    let k = e.node_sign(n);
    if k & !mask == 0 {
        return Verdict::Proved("sign facts");
    }
    // a divisor of a large term that is known to be non-zero
    if mask == NEG | POS && divides_nonzero(e, n) {
        return Verdict::Proved("divides a non-zero term (identity test)");
    }
    Verdict::Unknown("sign of a large term".into())
}

/// The divisors of this path that have no normal form: if the product of their
/// squares is the square of a term known to be non-zero, none of them vanishes.
pub fn divides_nonzero(e: &mut Eng, n: NodeId) -> bool {
    let big: Vec<NodeId> = e.divs.clone().into_iter().filter(|d| e.nf(*d).is_err()).collect();
    if !e.divs.contains(&n) {
        return false;
    }
    let known: Vec<NodeId> = e.nonzero_nodes();
    for k in known {
        for from in 0..2usize {
            // all divisors, or only the ones without normal form
            let set: Vec<NodeId> = if from == 0 {
                if !big.contains(&n) {
                    continue;
                }
                big.clone()
            } else {
                e.divs.clone()
            };
            let mut p = e.konst(crate::rat::Rat::ONE);
            for d in set {
                let d2 = e.mul(d, d);
                p = e.mul(p, d2);
            }
            let k2 = e.mul(k, k);
            let z = e.sub(p, k2);
            let hit = match e.pit_zero.get(&z) {
                Some(h) => *h,
                None => {
                    let seed = e.seed ^ 0x1234;
                    let h = matches!(pit::zero(e, z, 24, seed), pit::Pit::Zero(_));
                    if e.substs().is_empty() {
                        e.pit_zero.insert(z, h);
                    }
                    h
                }
            };
            if hit {
                return true;
            }
        }
    }
    false
}
