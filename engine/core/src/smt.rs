//! SMT back end (z3, nonlinear real arithmetic).
use crate::eng::*;
use crate::poly::*;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sat(Vec<(String, f64)>),
    Unsat,
    Unknown,
}
pub struct Query {
    pub text: String,
    pub vars: Vec<(String, String)>, // (smt name, variable name)
    pub trig: Vec<(String, String, String)>, // (variable name, sin name, cos name)
    pub complete: bool, // no transcendental or uninterpreted atom involved
}

fn num(s: &mut String, r: crate::rat::Rat) {
    let f = |s: &mut String, n: i128| {
        if n < 0 {
            write!(s, "(- {})", n.unsigned_abs()).unwrap()
        } else {
            write!(s, "{}", n).unwrap()
        }
    };
    if r.d == 1 {
        f(s, r.n)
    } else {
        s.push_str("(/ ");
        f(s, r.n);
        write!(s, " {})", r.d).unwrap();
    }
}
pub fn poly(s: &mut String, p: &Poly) {
    if p.is_zero() {
        s.push('0');
        return;
    }
    if p.len() > 1 {
        s.push_str("(+");
    }
    for (m, c) in &p.t {
        if p.len() > 1 {
            s.push(' ');
        }
        let many = m.iter().map(|x| x.1).sum::<u32>() + if c.is_one() { 0 } else { 1 };
        if many == 0 {
            num(s, *c);
            continue;
        }
        if many > 1 {
            s.push_str("(*");
        }
        if !c.is_one() {
            if many > 1 {
                s.push(' ');
            }
            num(s, *c);
        }
        for &(a, e) in m.iter() {
            for _ in 0..e {
                if many > 1 {
                    s.push(' ');
                }
                write!(s, "a{}", a).unwrap();
            }
        }
        if many > 1 {
            s.push(')');
        }
    }
    if p.len() > 1 {
        s.push(')');
    }
}
fn cond(s: &mut String, p: &Poly, mask: u8) {
    let mut e = String::new();
    poly(&mut e, p);
    match mask {
        NEG => write!(s, "(assert (< {} 0))\n", e),
        ZER => write!(s, "(assert (= {} 0))\n", e),
        POS => write!(s, "(assert (> {} 0))\n", e),
        3 => write!(s, "(assert (<= {} 0))\n", e),
        6 => write!(s, "(assert (>= {} 0))\n", e),
        5 => write!(s, "(assert (not (= {} 0)))\n", e),
        0 => write!(s, "(assert false)\n"),
        _ => Ok(()),
    }
    .unwrap();
}

/// a polynomial of the same sign as the term
fn sign_poly(e: &mut Eng, n: NodeId) -> Option<Poly> {
    let rf = e.nf(n).ok()?;
    let mut p = rf.num.clone();
    for (id, k) in &rf.den {
        if k % 2 == 1 {
            p = p.mul(&e.polys[*id as usize].clone()).ok()?;
        }
    }
    e.reduce(&p).ok()
}
pub fn build(e: &mut Eng, extra: &[(PolyId, u8)]) -> Option<Query> {
    let mut conds: Vec<(PolyId, u8)> = vec![];
    for f in &e.facts {
        conds.push((f.poly, f.mask));
    }
    for x in extra {
        conds.push(*x);
    }
    // relevance: atoms reachable from the conditions
    let mut atoms: BTreeSet<Atom> = BTreeSet::new();
    let mut total = 0;
    for (p, _) in &conds {
        let p = e.polys[*p as usize].clone();
        total += p.len();
        atoms.extend(p.atoms());
    }
    if total > 4000 {
        return None;
    }
    let mut defs: Vec<(Poly, u8)> = vec![];
    let mut done: BTreeSet<Atom> = BTreeSet::new();
    let mut complete = true;
    let mut trig = vec![];
    let mut raw: Vec<String> = vec![];
    loop {
        let next = match atoms.iter().find(|a| !done.contains(a)) {
            Some(a) => *a,
            None => break,
        };
        done.insert(next);
        for g in &e.groups {
            if g.atoms.contains(&next) {
                atoms.extend(g.atoms.iter().cloned());
                if g.atoms[0] == next || !done.contains(&g.atoms[0]) {
                    let mut s = Poly::one().neg();
                    for x in &g.atoms {
                        s = s.add(&Poly { t: vec![(Box::new([(*x, 2)]), crate::rat::Rat::ONE)] }).ok()?;
                    }
                    if g.atoms[0] == next {
                        defs.push((s, ZER));
                    }
                }
            }
        }
        match e.atoms[next as usize].kind.clone() {
            AtomKind::Var(_) => {}
            AtomKind::Pi => {
                let a = Poly::atom(next);
                defs.push((a.sub(&Poly::constant(crate::rat::Rat::new(314159265, 100000000)?)).ok()?, POS));
                defs.push((a.sub(&Poly::constant(crate::rat::Rat::new(314159266, 100000000)?)).ok()?, NEG));
            }
            AtomKind::Eps => {
                let a = Poly::atom(next);
                defs.push((a.clone(), POS));
                defs.push((a.sub(&Poly::constant(crate::rat::Rat::new(1, 1000000)?)).ok()?, NEG));
            }
            AtomKind::MinPos => {
                let a = Poly::atom(next);
                defs.push((a.clone(), POS));
                defs.push((a.sub(&Poly::constant(crate::rat::Rat::new(1, 1000000)?)).ok()?, NEG));
            }
            AtomKind::Abs(p) => {
                let q = e.polys[p as usize].clone();
                defs.push((Poly::atom(next), ZER | POS));
                let small = if q.len() == 1 { q.mul(&q).ok() } else { None };
                match small {
                    Some(q2) => {
                        atoms.extend(q.atoms());
                        let a2 = Poly { t: vec![(Box::new([(next, 2)]), crate::rat::Rat::ONE)] };
                        defs.push((a2.sub(&q2).ok()?, ZER));
                    }
                    None => complete = false,
                }
            }
            AtomKind::Sqrt(p) => {
                let a = Poly::atom(next);
                let q = e.polys[p as usize].clone();
                total += q.len();
                if total > 4000 {
                    return None;
                }
                atoms.extend(q.atoms());
                defs.push((a.clone(), ZER | POS));
                let a2 = Poly { t: vec![(Box::new([(next, 2)]), crate::rat::Rat::ONE)] };
                defs.push((a2.sub(&q).ok()?, ZER));
            }
            AtomKind::Cos(p, q) | AtomKind::Sin(p, q) => {
                complete = false;
                let (s, c) = (e.atom(AtomKind::Sin(p, q)), e.atom(AtomKind::Cos(p, q)));
                atoms.insert(s);
                atoms.insert(c);
                if next == s {
                    let mut r = Poly::one().neg();
                    for x in [s, c] {
                        r = r.add(&Poly { t: vec![(Box::new([(x, 2)]), crate::rat::Rat::ONE)] }).ok()?;
                    }
                    defs.push((r, ZER));
                    let ps = e.polys[p as usize].clone();
                    if q == 1 && ps.len() == 1 && ps.t[0].0.len() == 1 && ps.t[0].0[0].1 == 1 {
                        let va = ps.t[0].0[0].0;
                        trig.push((va, s, c));
                    }
                }
            }
            AtomKind::Atan2(y, x) => {
                complete = false;
                if let (Some(yp), Some(xp)) = (sign_poly(e, y), sign_poly(e, x)) {
                    total += yp.len() + xp.len();
                    if total <= 1500 {
                        atoms.extend(yp.atoms());
                        atoms.extend(xp.atoms());
                        let (mut ys, mut xs) = (String::new(), String::new());
                        poly(&mut ys, &yp);
                        poly(&mut xs, &xp);
                        raw.push(format!("(assert (=> (> {} 0) (> a{} 0)))\n", ys, next));
                        raw.push(format!("(assert (=> (< {} 0) (< a{} 0)))\n", ys, next));
                        raw.push(format!("(assert (=> (and (= {} 0) (>= {} 0)) (= a{} 0)))\n", ys, xs, next));
                    }
                }
            }
            AtomKind::Acos(x) => {
                complete = false;
                let one = e.konst(crate::rat::Rat::ONE);
                let d = e.sub(one, x);
                if let Some(p) = sign_poly(e, d) {
                    total += p.len();
                    if total <= 1500 {
                        atoms.extend(p.atoms());
                        let mut t = String::new();
                        poly(&mut t, &p);
                        raw.push(format!("(assert (=> (> {} 0) (> a{} 0)))\n", t, next));
                        raw.push(format!("(assert (=> (= {} 0) (= a{} 0)))\n", t, next));
                    }
                }
            }
            _ => complete = false,
        }
    }
    for f in e.gfacts.clone() {
        let p = e.polys[f.poly as usize].clone();
        if p.atoms().iter().all(|a| atoms.contains(a)) {
            conds.push((f.poly, f.mask));
        }
    }
    let mut s = String::new();
    for a in &atoms {
        write!(s, "(declare-const a{} Real)\n", a).unwrap();
    }
    for (p, m) in &defs {
        cond(&mut s, p, *m);
    }
    for r in &raw {
        s.push_str(r);
    }
    let mut seen = BTreeSet::new();
    for (p, m) in &conds {
        if seen.insert((*p, *m)) {
            cond(&mut s, &e.polys[*p as usize].clone(), *m);
        }
    }
    let vars = atoms
        .iter()
        .filter_map(|a| match &e.atoms[*a as usize].kind {
            AtomKind::Var(n) => Some((format!("a{}", a), n.clone())),
            _ => None,
        })
        .collect();
    let trig = trig
        .into_iter()
        .map(|(v, s, c)| (e.atoms[v as usize].name.clone(), format!("a{}", s), format!("a{}", c)))
        .collect();
    Some(Query { text: s, vars, trig, complete })
}

/// the same conditions with every monomial read as an independent real
/// (plus its known sign): linear, and unsatisfiable only if the original is
pub fn build_linear(e: &mut Eng, extra: &[(PolyId, u8)]) -> Option<(String, usize)> {
    let mut conds: Vec<(PolyId, u8)> = e.facts.iter().map(|f| (f.poly, f.mask)).collect();
    conds.extend(extra.iter().cloned());
    let mut atoms: BTreeSet<Atom> = BTreeSet::new();
    for (p, _) in &conds {
        atoms.extend(e.polys[*p as usize].atoms());
    }
    for f in e.gfacts.clone() {
        let p = e.polys[f.poly as usize].clone();
        if p.atoms().iter().all(|a| atoms.contains(a)) {
            conds.push((f.poly, f.mask));
        }
    }
    let mut names: std::collections::HashMap<Mono, usize> = Default::default();
    let mut order: Vec<Mono> = vec![];
    let mut body = String::new();
    let mut seen = BTreeSet::new();
    let mut terms = 0;
    for (id, m) in conds {
        if !seen.insert((id, m)) {
            continue;
        }
        let p = e.polys[id as usize].clone();
        terms += p.len();
        if terms > 40_000 {
            return None;
        }
        let mut t = String::from("(+ 0");
        for (mo, c) in &p.t {
            t.push(' ');
            if mo.is_empty() {
                num(&mut t, *c);
                continue;
            }
            let i = *names.entry(mo.clone()).or_insert_with(|| {
                order.push(mo.clone());
                order.len() - 1
            });
            t.push_str("(* ");
            num(&mut t, *c);
            write!(t, " m{})", i).unwrap();
        }
        t.push(')');
        let a = match m {
            NEG => format!("(assert (< {} 0))\n", t),
            ZER => format!("(assert (= {} 0))\n", t),
            POS => format!("(assert (> {} 0))\n", t),
            3 => format!("(assert (<= {} 0))\n", t),
            6 => format!("(assert (>= {} 0))\n", t),
            5 => format!("(assert (not (= {} 0)))\n", t),
            0 => "(assert false)\n".to_string(),
            _ => String::new(),
        };
        body.push_str(&a);
    }
    let mut s = String::new();
    for (i, mo) in order.iter().enumerate() {
        write!(s, "(declare-const m{} Real)\n", i).unwrap();
        let q = Poly { t: vec![(mo.clone(), crate::rat::Rat::ONE)] };
        let k = e.quick(&q);
        match k {
            NEG => write!(s, "(assert (< m{} 0))\n", i).unwrap(),
            ZER => write!(s, "(assert (= m{} 0))\n", i).unwrap(),
            POS => write!(s, "(assert (> m{} 0))\n", i).unwrap(),
            3 => write!(s, "(assert (<= m{} 0))\n", i).unwrap(),
            6 => write!(s, "(assert (>= m{} 0))\n", i).unwrap(),
            5 => write!(s, "(assert (not (= m{} 0)))\n", i).unwrap(),
            0 => s.push_str("(assert false)\n"),
            _ => {}
        }
    }
    s.push_str(&body);
    Some((s, terms))
}
pub fn run_linear(text: &str, timeout_ms: u64) -> bool {
    let mut t = String::from("(set-logic QF_LRA)\n");
    t.push_str(text);
    t.push_str("(check-sat)\n");
    matches!(exec(&t, timeout_ms), Some(o) if o.trim_start().starts_with("unsat"))
}
pub fn run(q: &Query, timeout_ms: u64) -> Res {
    let mut text = String::from("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 18)\n");
    text.push_str(&q.text);
    text.push_str("(check-sat)\n");
    let mut names: Vec<String> = q.vars.iter().map(|x| x.0.clone()).collect();
    for (_, s, c) in &q.trig {
        names.push(s.clone());
        names.push(c.clone());
    }
    if !names.is_empty() {
        write!(text, "(get-value ({}))\n", names.join(" ")).unwrap();
    }
    let out = match exec(&text, timeout_ms) {
        Some(o) => o,
        None => return Res::Unknown,
    };
    let mut lines = out.splitn(2, '\n');
    match lines.next().map(|x| x.trim()) {
        Some("unsat") => Res::Unsat,
        Some("sat") => {
            let vals = parse_values(lines.next().unwrap_or(""));
            let mut m: Vec<(String, f64)> = vec![];
            for (n, v) in &q.vars {
                if let Some(x) = vals.iter().find(|y| y.0 == *n) {
                    m.push((v.clone(), x.1));
                }
            }
            for (v, s, c) in &q.trig {
                let g = |n: &String| vals.iter().find(|y| y.0 == *n).map(|y| y.1);
                if let (Some(a), Some(b)) = (g(s), g(c)) {
                    m.retain(|x| x.0 != *v);
                    m.push((v.clone(), a.atan2(b)));
                }
            }
            Res::Sat(m)
        }
        _ => Res::Unknown,
    }
}
/// set once a violation is confirmed: the remaining queries are not needed
pub static STOP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn stopped() -> bool {
    STOP.load(std::sync::atomic::Ordering::Relaxed)
}
/// Runs z3.  The limit is on processor time, so that a busy machine gives the
/// same answers; the wall clock only stops a process that gets no time at all.
pub fn exec(text: &str, timeout_ms: u64) -> Option<String> {
    if stopped() {
        return None;
    }
    let cpu = (timeout_ms + 999) / 1000;
    let run = |bin: &str| {
        Command::new("sh")
            .args([
                "-c",
                &format!("ulimit -c 0; ulimit -t {}; exec {} -in -t:{} -memory:3000 -T:{}", cpu, bin, timeout_ms * 6, cpu * 6 + 2),
            ])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
    };
    let bin = ["/usr/local/bin/z3-new", "/usr/bin/z3-new"].into_iter().find(|b| std::path::Path::new(b).exists()).unwrap_or("z3");
    let mut ch = run(bin).ok()?;
    let mut si = ch.stdin.take()?;
    let t = text.to_string();
    let h = std::thread::spawn(move || {
        let _ = si.write_all(t.as_bytes());
    });
    let mut out = String::new();
    ch.stdout.take()?.read_to_string(&mut out).ok()?;
    let _ = h.join();
    let _ = ch.wait();
    Some(out)
}
fn parse_values(s: &str) -> Vec<(String, f64)> {
    // ((a1 0.5) (a2 (- 1.25?)) (a3 (/ 1.0 3.0)))
    let toks: Vec<String> = {
        let mut v = vec![];
        let mut cur = String::new();
        for ch in s.chars() {
            match ch {
                '(' | ')' => {
                    if !cur.is_empty() {
                        v.push(std::mem::take(&mut cur));
                    }
                    v.push(ch.to_string());
                }
                c if c.is_whitespace() => {
                    if !cur.is_empty() {
                        v.push(std::mem::take(&mut cur));
                    }
                }
                c => cur.push(c),
            }
        }
        v
    };
    fn expr(t: &[String], i: &mut usize) -> Option<f64> {
        let x = t.get(*i)?;
        *i += 1;
        if x == "(" {
            let op = t.get(*i)?.clone();
            *i += 1;
            let mut args = vec![];
            while t.get(*i)? != ")" {
                args.push(expr(t, i)?);
            }
            *i += 1;
            match (op.as_str(), args.len()) {
                ("-", 1) => Some(-args[0]),
                ("-", 2) => Some(args[0] - args[1]),
                ("/", 2) => Some(args[0] / args[1]),
                ("+", _) => Some(args.iter().sum()),
                ("*", _) => Some(args.iter().product()),
                _ => None,
            }
        } else {
            x.trim_end_matches('?').parse().ok()
        }
    }
    let mut out = vec![];
    let mut i = 0;
    if toks.first().map(|x| x.as_str()) != Some("(") {
        return out;
    }
    i += 1;
    while i < toks.len() && toks[i] == "(" {
        i += 1;
        let name = toks[i].clone();
        i += 1;
        match expr(&toks, &mut i) {
            Some(v) => out.push((name, v)),
            None => {
                return out;
            }
        }
        i += 1; // )
    }
    out
}
