//! sqrt, trigonometric, exponential functions: rewriting rules on normal forms.
use crate::eng::*;
use crate::poly::*;
use crate::rat::{gcd, Rat};

impl Eng {
    fn is_zero_nf(&mut self, n: NodeId) -> bool {
        match self.nf(n) {
            Ok(r) => r.num.is_zero(),
            Err(_) => false,
        }
    }
    /// |p| for a polynomial, forking on its sign when unknown
    fn abs_poly(&mut self, p: &Poly) -> NodeId {
        if self.query_poly(p, ZER | POS) {
            self.poly_node(p)
        } else {
            self.poly_node(&p.neg())
        }
    }
    /// the polynomial rewritten with other choices of the eliminated square
    pub fn alternatives(&self, p: &Poly) -> Vec<Poly> {
        let ats = p.atoms();
        // (lead, others): lead^2 = 1 - sum others^2
        let mut rels: Vec<Vec<Atom>> = vec![];
        for g in &self.groups {
            if g.atoms.iter().any(|a| ats.contains(a)) {
                rels.push(g.atoms.clone());
            }
        }
        for (i, at) in self.atoms.iter().enumerate() {
            if let AtomKind::Cos(u, q) = at.kind {
                let c = i as Atom;
                let s = self
                    .atoms
                    .iter()
                    .position(|x| x.kind == AtomKind::Sin(u, q))
                    .map(|x| x as Atom);
                if let Some(s) = s {
                    if ats.contains(&s) || ats.contains(&c) {
                        rels.push(vec![c, s]);
                    }
                }
            }
        }
        let mut out = vec![p.clone()];
        let mut frontier = vec![p.clone()];
        for _ in 0..2 {
            let mut next = vec![];
            for q in &frontier {
                for r in &rels {
                    for j in 0..r.len() {
                        let lead = r[j];
                        if q.degree_in(lead) < 2 {
                            continue;
                        }
                        let mut rule = Poly::one();
                        for &x in r {
                            if x != lead {
                                rule = rule.sub(&Poly { t: vec![(Box::new([(x, 2)]), Rat::ONE)] }).unwrap();
                            }
                        }
                        // replace lead^2 by rule, once through
                        let cs = q.coeffs_in(lead);
                        let mut acc = Poly::zero();
                        let mut ok = true;
                        for (e, c) in cs.iter().enumerate() {
                            let mut f = c.clone();
                            for _ in 0..e / 2 {
                                match f.mul(&rule) {
                                    Ok(x) => f = x,
                                    Err(_) => ok = false,
                                }
                            }
                            if e % 2 == 1 {
                                f = match f.mul(&Poly::atom(lead)) {
                                    Ok(x) => x,
                                    Err(_) => {
                                        ok = false;
                                        Poly::zero()
                                    }
                                };
                            }
                            match acc.add(&f) {
                                Ok(x) => acc = x,
                                Err(_) => ok = false,
                            }
                        }
                        if ok && acc.len() < 300 && !out.contains(&acc) {
                            out.push(acc.clone());
                            next.push(acc);
                        }
                        if out.len() > 40 {
                            return out;
                        }
                    }
                }
            }
            frontier = next;
        }
        out
    }
    /// a sum of squares by its very form
    pub fn struct_nonneg(&self, n: NodeId, depth: u32) -> bool {
        if depth > 200 {
            return false;
        }
        match self.nodes[n as usize] {
            Node::Const(c) => c.signum() >= 0,
            Node::Mul(a, b) => a == b || (self.struct_nonneg(a, depth + 1) && self.struct_nonneg(b, depth + 1)),
            Node::Add(a, b) => self.struct_nonneg(a, depth + 1) && self.struct_nonneg(b, depth + 1),
            Node::Atom(a) => {
                matches!(self.atoms[a as usize].kind, AtomKind::Sqrt(_) | AtomKind::SqrtNode(_) | AtomKind::ExpB(..))
            }
            _ => false,
        }
    }
    pub fn mk_sqrt(&mut self, n: NodeId) -> NodeId {
        self.sum_nonzero(n);
        let r = self.mk_sqrt0(n);
        self.sqrt_of.insert(r, n);
        r
    }
    fn mk_sqrt0(&mut self, n: NodeId) -> NodeId {
        self.defs.push((n, ZER | POS, "square root argument"));
        let rf = match self.nf(n) {
            Ok(r) => r,
            Err(_) => return self.natom(AtomKind::SqrtNode(n)),
        };
        if rf.den.is_empty() && self.struct_nonneg(n, 0) {
            let p = rf.num.clone();
            if p.as_const().is_none() {
                self.gfact(&p, ZER | POS, "sum of squares");
            }
        }
        if rf.num.len() > 400 {
            return self.natom(AtomKind::SqrtNode(n));
        }
        let mut p = rf.num.clone();
        let mut den = self.konst(Rat::ONE);
        for (id, e) in rf.den.clone() {
            let d = self.polys[id as usize].clone();
            if e % 2 == 1 && d.len() >= 2 && self.poly_mask(&d) & NEG == 0 {
                // a positive divisor: the quotient of the roots
                let base = self.sqrt_poly(&d);
                for _ in 0..e {
                    den = self.mul(den, base);
                }
                continue;
            }
            if e % 2 == 1 {
                p = match p.mul(&d) {
                    Ok(x) => x,
                    Err(_) => return self.natom(AtomKind::SqrtNode(n)),
                };
            }
            let k = (e + 1) / 2;
            let base = if k % 2 == 1 { self.abs_poly(&d) } else { self.poly_node(&d) };
            for _ in 0..k {
                den = self.mul(den, base);
            }
        }
        let p = match self.reduce(&p) {
            Ok(x) => x,
            Err(_) => return self.natom(AtomKind::SqrtNode(n)),
        };
        let num = self.sqrt_poly(&p);
        // `den` is a product of non-zero denominators already recorded
        if self.nodes[den as usize] == Node::Const(Rat::ONE) {
            num
        } else {
            let nd = self.divs.len();
            let r = self.div(num, den);
            self.divs.truncate(nd);
            r
        }
    }
    pub fn sqrt_poly(&mut self, p: &Poly) -> NodeId {
        if p.is_zero() {
            return self.konst(Rat::ZERO);
        }
        if let Some(c) = p.as_const() {
            return self.sqrt_const(c, None);
        }
        let alts = self.alternatives(p);
        for a in &alts {
            if let Some(r) = a.sqrt() {
                let r = self.reduce(&r).unwrap_or(r);
                return self.abs_poly(&r);
            }
            // c * square with c not a rational square
            if let Ok((c, pp)) = a.primitive() {
                if c.signum() > 0 {
                    if let Some(r) = pp.sqrt() {
                        let r = self.reduce(&r).unwrap_or(r);
                        let x = self.abs_poly(&r);
                        let k = self.sqrt_const(c, None);
                        return self.mul(k, x);
                    }
                }
            }
        }
        // square monomial content
        for a in &alts {
            let mut content: Vec<(Atom, u32)> = a.t[0].0.to_vec();
            for (m, _) in &a.t {
                content.retain_mut(|x| match m.iter().find(|y| y.0 == x.0) {
                    Some(y) => {
                        x.1 = x.1.min(y.1);
                        true
                    }
                    None => false,
                });
            }
            let sq: Vec<(Atom, u32)> = content.iter().filter(|x| x.1 >= 2).map(|x| (x.0, x.1 / 2)).collect();
            if sq.is_empty() {
                continue;
            }
            let full: Mono = sq.iter().map(|x| (x.0, 2 * x.1)).collect::<Vec<_>>().into_boxed_slice();
            let rest = Poly { t: a.t.iter().map(|(m, c)| (mono_div(m, &full).unwrap(), *c)).collect() };
            let rest = self.reduce(&rest).unwrap_or(rest);
            let mut acc = self.sqrt_poly(&rest);
            for (at, e) in sq {
                let x = self.abs_poly(&Poly::atom(at));
                for _ in 0..e {
                    acc = self.mul(acc, x);
                }
            }
            return acc;
        }
        // a squared polynomial factor among the known ones (path facts)
        let mut cands: Vec<PolyId> = self.facts.iter().map(|f| f.poly).collect();
        cands.extend(self.gfacts.iter().map(|f| f.poly));
        cands.sort();
        cands.dedup();
        for id in cands {
            let f = self.polys[id as usize].clone();
            if f.len() < 2 || f.len() > 12 {
                continue;
            }
            if let Some(q) = p.div_exact(&f) {
                if let Some(q2) = q.div_exact(&f) {
                    let q2 = self.reduce(&q2).unwrap_or(q2);
                    let a = self.abs_poly(&f);
                    let b = self.sqrt_poly(&q2);
                    return self.mul(a, b);
                }
            }
        }
        match p.primitive() {
            Ok((c, pp)) => {
                if c.signum() > 0 {
                    self.sqrt_const(c, Some(pp))
                } else {
                    // keep the sign inside
                    let q = pp.neg();
                    self.sqrt_const(c.neg(), Some(q))
                }
            }
            Err(_) => {
                let id = self.poly_id(p);
                self.natom(AtomKind::Sqrt(id))
            }
        }
    }
    /// sqrt(c * q), c > 0 (q absent = 1)
    fn sqrt_const(&mut self, c: Rat, q: Option<Poly>) -> NodeId {
        // c = n/d: sqrt(n d)/d, with square factors pulled out
        let nd = match c.n.checked_mul(c.d) {
            Some(x) => x,
            None => {
                let p = q.unwrap_or(Poly::one()).scale(c).unwrap();
                let id = self.poly_id(&p);
                return self.natom(AtomKind::Sqrt(id));
            }
        };
        let neg = nd < 0;
        let mut m = nd.abs();
        let mut out: i128 = 1;
        let mut f: i128 = 2;
        while f * f <= m && f < 100_000 {
            while m % (f * f) == 0 {
                m /= f * f;
                out *= f;
            }
            f += 1;
        }
        if let Some(r) = Rat::int(m).sqrt() {
            out *= r.n;
            m = 1;
        }
        if neg {
            m = -m;
        }
        let k = Rat::new(out, c.d).unwrap();
        let kn = self.konst(k);
        let inner = match q {
            None => Poly::constant(Rat::int(m)),
            Some(q) => q.scale(Rat::int(m)).unwrap(),
        };
        if inner.as_const() == Some(Rat::ONE) {
            return kn;
        }
        let id = self.poly_id(&inner);
        let s = self.natom(AtomKind::Sqrt(id));
        // sign of the root from the sign of the argument
        let km = self.poly_mask(&inner);
        if km == POS {
            let p = Poly::atom(match self.nodes[s as usize] {
                Node::Atom(a) => a,
                _ => unreachable!(),
            });
            self.assume_poly(&p, POS);
        }
        self.mul(kn, s)
    }

    // ---- angles ---------------------------------------------------------------
    /// linear form: (pi coefficient, [(unit poly, q, k)])
    fn linear(&mut self, n: NodeId) -> Option<(Rat, Vec<(PolyId, i128, i128)>)> {
        let rf = self.nf(n).ok()?;
        let p = if rf.den.is_empty() {
            rf.num.clone()
        } else {
            let q = self.canon_quot(n)?;
            Poly::atom(q)
        };
        let mut pi = Rat::ZERO;
        let mut v = vec![];
        for (m, c) in &p.t {
            if m.len() == 1 && m[0].1 == 1 && self.atoms[m[0].0 as usize].kind == AtomKind::Pi {
                pi = *c;
                continue;
            }
            let base = Poly { t: vec![(m.clone(), Rat::ONE)] };
            let id = self.poly_id(&base);
            let (mut q, mut k) = (c.d, c.n);
            if let Some(&(_, q2)) = self.angle_units.iter().find(|u| u.0 == id && u.1 % q == 0) {
                k *= q2 / q;
                q = q2;
            } else {
                self.angle_units.push((id, q));
            }
            v.push((id, q, k));
        }
        Some((pi, v))
    }
    /// an atom standing for a quotient (canonical up to the normal form)
    fn canon_quot(&mut self, n: NodeId) -> Option<Atom> {
        let rf = self.nf(n).ok()?;
        let num = self.poly_node(&rf.num.clone());
        let nd = self.divs.len();
        let mut acc = num;
        for (id, e) in rf.den.clone() {
            let d = self.polys[id as usize].clone();
            let dn = self.poly_node(&d);
            for _ in 0..e {
                acc = self.div(acc, dn);
            }
        }
        self.divs.truncate(nd);
        Some(self.atom(AtomKind::Fun("quot", acc)))
    }
    fn unit_sc(&mut self, id: PolyId, q: i128) -> (NodeId, NodeId) {
        let p = self.polys[id as usize].clone();
        if p.len() == 1 && p.t[0].0.len() == 1 && p.t[0].0[0].1 == 1 {
            let a = p.t[0].0[0].0;
            match self.atoms[a as usize].kind.clone() {
                AtomKind::Acos(x) => {
                    let one = self.konst(Rat::ONE);
                    if q == 1 {
                        let x2 = self.mul(x, x);
                        let d = self.sub(one, x2);
                        let s = self.mk_sqrt(d);
                        return (s, x);
                    }
                    if q == 2 {
                        let h = self.konst(Rat::new(1, 2).unwrap());
                        let a = self.sub(one, x);
                        let a = self.mul(a, h);
                        let b = self.add(one, x);
                        let b = self.mul(b, h);
                        return (self.mk_sqrt(a), self.mk_sqrt(b));
                    }
                }
                AtomKind::Atan2(y, x) => {
                    if q == 1 {
                        let y2 = self.mul(y, y);
                        let x2 = self.mul(x, x);
                        let s = self.add(x2, y2);
                        let r = self.mk_sqrt(s);
                        return (self.div(y, r), self.div(x, r));
                    }
                }
                _ => {}
            }
        }
        (self.natom(AtomKind::Sin(id, q)), self.natom(AtomKind::Cos(id, q)))
    }
    pub fn mk_sin_cos(&mut self, n: NodeId) -> (NodeId, NodeId) {
        let (pi, lin) = match self.linear(n) {
            Some(x) => x,
            None => {
                let a = self.atom(AtomKind::Fun("angle", n));
                let p = Poly::atom(a);
                let id = self.poly_id(&p);
                return (self.natom(AtomKind::Sin(id, 1)), self.natom(AtomKind::Cos(id, 1)));
            }
        };
        let zero = self.konst(Rat::ZERO);
        let one = self.konst(Rat::ONE);
        let (mut s, mut c) = (zero, one);
        for (id, q, k) in lin {
            let (us, uc) = self.unit_sc(id, q);
            if k.abs() > 24 {
                self.unsupported.push("angle multiple too large".into());
            }
            for _ in 0..k.abs().min(24) {
                let us2 = if k < 0 { self.neg(us) } else { us };
                let a = self.mul(s, uc);
                let b = self.mul(c, us2);
                let d = self.mul(c, uc);
                let e = self.mul(s, us2);
                s = self.add(a, b);
                c = self.sub(d, e);
            }
        }
        // pi multiples
        let two = pi.mul(Rat::int(2)).unwrap_or(Rat::ZERO);
        if two.is_int() {
            for _ in 0..two.n.rem_euclid(4) {
                let ns = c;
                let nc = self.neg(s);
                s = ns;
                c = nc;
            }
        } else {
            let a = self.atom(AtomKind::Pi);
            let p = Poly::atom(a);
            let id = self.poly_id(&p);
            let half = self.konst(Rat::new(1, 2).unwrap());
            let (us, uc) = match pi.d {
                4 => {
                    let h = self.mk_sqrt(half);
                    (h, h)
                }
                3 | 6 => {
                    let three = self.konst(Rat::int(3));
                    let r = self.mk_sqrt(three);
                    let h = self.mul(half, r);
                    if pi.d == 3 { (h, half) } else { (half, h) }
                }
                _ => (self.natom(AtomKind::Sin(id, pi.d)), self.natom(AtomKind::Cos(id, pi.d))),
            };
            for _ in 0..pi.n.abs().min(24) {
                let us2 = if pi.n < 0 { self.neg(us) } else { us };
                let a = self.mul(s, uc);
                let b = self.mul(c, us2);
                let d = self.mul(c, uc);
                let e = self.mul(s, us2);
                s = self.add(a, b);
                c = self.sub(d, e);
            }
        }
        (s, c)
    }
    pub fn hints(&self) -> Vec<NodeId> {
        self.angle_hints.clone()
    }
    pub fn pi(&mut self) -> NodeId {
        self.natom(AtomKind::Pi)
    }
    pub fn mk_acos(&mut self, n: NodeId) -> NodeId {
        let one = self.konst(Rat::ONE);
        let a = self.sub(one, n);
        let b = self.add(one, n);
        self.defs.push((a, ZER | POS, "acos argument <= 1"));
        self.defs.push((b, ZER | POS, "acos argument >= -1"));
        if self.is_zero_nf(a) {
            return self.konst(Rat::ZERO);
        }
        if self.is_zero_nf(b) {
            return self.pi();
        }
        if self.is_zero_nf(n) {
            let p = self.pi();
            let h = self.konst(Rat::new(1, 2).unwrap());
            return self.mul(p, h);
        }
        for l in self.hints() {
            let (_, c) = self.mk_sin_cos(l);
            let d = self.sub(n, c);
            let pi = self.pi();
            let l2 = if self.is_zero_nf(d) {
                l
            } else {
                let d = self.add(n, c);
                if self.is_zero_nf(d) {
                    self.sub(pi, l)
                } else {
                    continue;
                }
            };
            // principal value in [0, pi]
            let mut l3 = l2;
            if !self.query(l3, ZER | POS) {
                l3 = self.neg(l3);
            }
            for _ in 0..4 {
                let d = self.sub(pi, l3);
                if self.query(d, ZER | POS) {
                    return l3;
                }
                // l3 > pi: fold
                let two = self.konst(Rat::int(2));
                let tp = self.mul(two, pi);
                let m = self.sub(tp, l3);
                l3 = if self.query(m, ZER | POS) { m } else { self.neg(m) };
            }
        }
        let cn = self.canon(n);
        let r = self.natom(AtomKind::Acos(cn));
        // 0 <= acos <= pi
        let p = self.nf(r).unwrap().num.clone();
        self.gfact(&p, ZER | POS, "acos range");
        let pi = self.pi();
        let d = self.sub(pi, r);
        let p = self.nf(d).unwrap().num.clone();
        self.gfact(&p, ZER | POS, "acos range");
        r
    }
    /// a node that depends on the normal form only
    pub fn canon(&mut self, n: NodeId) -> NodeId {
        match self.nf(n) {
            Ok(rf) => {
                let nd = self.divs.len();
                let mut acc = self.poly_node(&rf.num.clone());
                for (id, e) in rf.den.clone() {
                    let d = self.polys[id as usize].clone();
                    let dn = self.poly_node(&d);
                    for _ in 0..e {
                        acc = self.div(acc, dn);
                    }
                }
                self.divs.truncate(nd);
                acc
            }
            Err(_) => n,
        }
    }
    pub fn mk_atan2(&mut self, y: NodeId, x: NodeId) -> NodeId {
        let zero = self.konst(Rat::ZERO);
        let pi = self.pi();
        let half = self.konst(Rat::new(1, 2).unwrap());
        if self.is_zero_nf(y) {
            return if self.query(x, ZER | POS) { zero } else { pi };
        }
        if self.is_zero_nf(x) {
            let h = self.mul(pi, half);
            return if self.query(y, POS) {
                h
            } else if self.query(y, NEG) {
                self.neg(h)
            } else {
                zero
            };
        }
        for l in self.hints() {
            let (s, c) = self.mk_sin_cos(l);
            let a = self.mul(y, c);
            let b = self.mul(x, s);
            for sg in [1, -1] {
                // sg = -1: angle -l
                let d = if sg == 1 { self.sub(a, b) } else { self.add(a, b) };
                if !self.is_zero_nf(d) {
                    continue;
                }
                let ss = if sg == 1 { s } else { self.neg(s) };
                let l1 = if sg == 1 { l } else { self.neg(l) };
                let u = self.mul(y, ss);
                let v = self.mul(x, c);
                let r = self.add(u, v);
                let mut l2 = if self.query(r, POS) {
                    l1
                } else if self.query(r, ZER) {
                    return zero;
                } else {
                    self.add(l1, pi)
                };
                for _ in 0..4 {
                    let d = self.sub(pi, l2);
                    if !self.query(d, ZER | POS) {
                        let two = self.konst(Rat::int(2));
                        let tp = self.mul(two, pi);
                        l2 = self.sub(l2, tp);
                        continue;
                    }
                    let d = self.add(pi, l2);
                    if !self.query(d, POS) {
                        let two = self.konst(Rat::int(2));
                        let tp = self.mul(two, pi);
                        l2 = self.add(l2, tp);
                        continue;
                    }
                    return l2;
                }
            }
        }
        // the same direction as an earlier one: the same angle
        let known: Vec<(NodeId, NodeId, Atom)> = self
            .atoms
            .iter()
            .enumerate()
            .filter_map(|(i, a)| match a.kind {
                AtomKind::Atan2(y, x) => Some((y, x, i as Atom)),
                _ => None,
            })
            .collect();
        for (y2, x2, at) in known {
            let (a, b) = (self.mul(y, x2), self.mul(y2, x));
            let d = self.sub(a, b);
            if !self.is_zero_nf(d) {
                continue;
            }
            let (a, b) = (self.mul(y, y2), self.mul(x, x2));
            let d = self.add(a, b);
            let m = match self.nf(d) {
                Ok(rf) => self.rf_mask(&rf),
                Err(_) => continue,
            };
            if m == POS {
                return self.poly_node(&Poly::atom(at));
            }
        }
        let (cy, cx) = (self.canon(y), self.canon(x));
        let r = self.natom(AtomKind::Atan2(cy, cx));
        let pi = self.pi();
        for d in [self.sub(pi, r), self.add(pi, r)] {
            let p = self.nf(d).unwrap().num.clone();
            self.gfact(&p, ZER | POS, "atan2 range");
        }
        // sign of the angle follows y
        if let Ok(rf) = self.nf(y) {
            let m = self.rf_mask(&rf);
            if m & NEG == 0 {
                let p = self.nf(r).unwrap().num.clone();
                self.assume_poly(&p, if m == POS { POS } else { ZER | POS });
            }
        }
        r
    }
    pub fn mk_exp(&mut self, n: NodeId) -> NodeId {
        let rf = match self.nf(n) {
            Ok(r) => r,
            Err(_) => return self.natom(AtomKind::Fun("exp", n)),
        };
        let p = if rf.den.is_empty() {
            rf.num.clone()
        } else {
            match self.canon_quot(n) {
                Some(a) => Poly::atom(a),
                None => return self.natom(AtomKind::Fun("exp", n)),
            }
        };
        let mut acc = self.konst(Rat::ONE);
        let mut den = self.konst(Rat::ONE);
        for (m, c) in &p.t {
            let (mut k, q) = (c.n, c.d);
            let base: NodeId;
            if m.len() == 1 && m[0].1 == 1 {
                if let AtomKind::Ln(x) = self.atoms[m[0].0 as usize].kind {
                    // exp(k/q ln x)
                    let mut b = x;
                    let mut qq = q;
                    while qq % 2 == 0 {
                        b = self.mk_sqrt(b);
                        qq /= 2;
                    }
                    if qq == 1 {
                        base = b;
                        for _ in 0..k.abs().min(24) {
                            if k > 0 {
                                acc = self.mul(acc, base)
                            } else {
                                den = self.mul(den, base)
                            }
                        }
                        continue;
                    }
                }
            }
            let bp = Poly { t: vec![(m.clone(), Rat::ONE)] };
            let id = self.poly_id(&bp);
            let e = self.natom(AtomKind::ExpB(id, q));
            if k.abs() > 24 {
                self.unsupported.push("exponent multiple too large".into());
                k = 1;
            }
            for _ in 0..k.abs() {
                if k > 0 {
                    acc = self.mul(acc, e)
                } else {
                    den = self.mul(den, e)
                }
            }
        }
        if self.nodes[den as usize] == Node::Const(Rat::ONE) {
            acc
        } else {
            let nd = self.divs.len();
            let r = self.div(acc, den);
            self.divs.truncate(nd);
            r
        }
    }
    pub fn mk_ln(&mut self, n: NodeId) -> NodeId {
        self.defs.push((n, POS, "logarithm argument"));
        if let Ok(rf) = self.nf(n) {
            if rf.num.as_const() == Some(Rat::ONE) && rf.den.is_empty() {
                return self.konst(Rat::ZERO);
            }
            // single monomial of exp atoms times a rest
            if rf.num.len() == 1 && rf.num.t[0].1.is_one() {
                let mut sum = self.konst(Rat::ZERO);
                let mut rest: Vec<(Atom, u32)> = vec![];
                for &(a, e) in rf.num.t[0].0.iter() {
                    if let AtomKind::ExpB(id, q) = self.atoms[a as usize].kind {
                        let b = self.polys[id as usize].clone();
                        let bn = self.poly_node(&b);
                        let k = self.konst(Rat::new(e as i128, q).unwrap());
                        let t = self.mul(k, bn);
                        sum = self.add(sum, t);
                    } else {
                        rest.push((a, e));
                    }
                }
                let mut dens_ok = true;
                for (id, e) in rf.den.clone() {
                    let d = self.polys[id as usize].clone();
                    if d.len() == 1 && d.t[0].0.len() == 1 && d.t[0].1.is_one() {
                        let (a, e2) = d.t[0].0[0];
                        if let AtomKind::ExpB(id2, q) = self.atoms[a as usize].kind {
                            let b = self.polys[id2 as usize].clone();
                            let bn = self.poly_node(&b);
                            let k = self.konst(Rat::new(-((e * e2) as i128), q).unwrap());
                            let t = self.mul(k, bn);
                            sum = self.add(sum, t);
                            continue;
                        }
                    }
                    dens_ok = false;
                }
                if dens_ok {
                    if rest.is_empty() {
                        return sum;
                    }
                    if rest.len() != rf.num.t[0].0.len() {
                        let rp = Poly { t: vec![(rest.into_boxed_slice(), Rat::ONE)] };
                        let rn = self.poly_node(&rp);
                        let l = self.natom(AtomKind::Ln(rn));
                        return self.add(sum, l);
                    }
                }
            }
        }
        let c = self.canon(n);
        self.natom(AtomKind::Ln(c))
    }
    #[allow(dead_code)]
    pub fn lcm(a: i128, b: i128) -> i128 {
        a / gcd(a, b) * b
    }
}
