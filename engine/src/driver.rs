//! Runs the contracts of one property, prints the verdict, writes the evidence.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc;
use std::sync::Arc;
use std::time::{Duration, Instant};
use vcore::contract::*;
use vcore::out::{esc, jlist, root};
use vcore::explore::{self, NumRun, Report, Violation};

/// one line of known-findings.txt:  known: property=C26 contract=<name> label=<text> -- what fails
struct Known {
    prop: String,
    contract: String,
    label: String,
    what: String,
}
fn known(root: &str) -> Vec<Known> {
    let mut v = vec![];
    let s = std::fs::read_to_string(format!("{}/known-findings.txt", root)).unwrap_or_default();
    for l in s.lines() {
        let l = match l.strip_prefix("known: property=") {
            Some(l) => l,
            None => continue,
        };
        let (head, what) = l.split_once(" -- ").unwrap_or((l, ""));
        let (prop, rest) = head.split_once(" contract=").unwrap_or((head, ""));
        let (c, lab) = rest.split_once(" label=").unwrap_or((rest, ""));
        v.push(Known { prop: prop.into(), contract: c.trim().into(), label: lab.trim().into(), what: what.into() });
    }
    v
}
impl Known {
    fn covers(&self, prop: &str, contract: &str, label: &str) -> bool {
        let l = label.split('[').next().unwrap_or(label).trim();
        self.prop == prop && self.contract == contract && self.label == l
    }
}

/// results of the cross-check on concrete inputs
#[derive(Default, Clone)]
struct Cross {
    runs: usize,
    skipped: usize,
    checks: usize,
    fail: Option<Violation>,
    known: BTreeSet<String>,
}

struct Done {
    idx: usize,
    rep: Report,
    cross: Cross,
    retried: bool,
}

fn one(c: &Contract, idx: usize, seed: u64, thorough: bool, deadline: Instant, kn: &[(String, String)]) -> Done {
    let left = |d: Instant| d.saturating_duration_since(Instant::now()).as_secs().max(1);
    let is_known = |l: &str| {
        let l = l.split('[').next().unwrap_or(l).trim();
        kn.iter().any(|(c2, l2)| c2 == c.name && l2 == l)
    };
    // code that never returns is noticed here and not only when the time is over
    for k in 0..3 {
        let _ = explore::num_run(c, seed ^ 0x77, k, &HashMap::new());
    }
    let mut rep = explore::run(c, seed, thorough, left(deadline), &is_known);
    let mut retried = false;
    if rep.violation.as_ref().map_or(false, |v| v.confirmed) {
        vcore::smt::STOP.store(true, Ordering::SeqCst);
    }
    let open = |r: &Report| r.violation.as_ref().map_or(r.failed > 0, |v| !v.confirmed);
    if open(&rep) && left(deadline) > 20 && !vcore::smt::stopped() {
        // a proof that did not go through is tried again with more solver time
        let mut c2 = c.clone();
        c2.opt.smt_ms *= 4;
        let r2 = explore::run(&c2, seed, thorough, left(deadline), &is_known);
        retried = true;
        if (r2.failed <= rep.failed && !vcore::smt::stopped()) || r2.violation.as_ref().map_or(false, |v| v.confirmed) {
            rep = r2;
        }
    }
    let mut cross = Cross::default();
    let n = if thorough { 20000 } else { 400 }.min(c.opt.cross);
    let t = Instant::now();
    let cap = Duration::from_secs(if thorough { 60 } else { 6 });
    for k in 0..n {
        if t.elapsed() > cap || vcore::smt::stopped() {
            break;
        }
        match explore::num_run(c, seed ^ 0x77, k, &HashMap::new()) {
            NumRun::Skipped => cross.skipped += 1,
            NumRun::Ran { checked, fails, inputs } => {
                cross.runs += 1;
                cross.checks += checked;
                for f in fails.iter() {
                    if is_known(&f.label) {
                        cross.known.insert(f.label.split('[').next().unwrap().trim().to_string());
                    }
                }
                if let Some(f) = fails.iter().find(|f| !is_known(&f.label)) {
                    cross.fail = Some(Violation {
                        contract: c.name.into(),
                        label: f.label.clone(),
                        inputs,
                        detail: f.detail.clone(),
                        path: vec![],
                        confirmed: true,
                        sample: Some((seed ^ 0x77, k)),
                    });
                    vcore::smt::STOP.store(true, Ordering::SeqCst);
                    break;
                }
            }
        }
    }
    Done { idx, rep, cross, retried }
}

fn write_replay(prop: &str, v: &Violation, rep: &Report) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.txt", dir, prop);
    let mut s = String::new();
    let _ = writeln!(s, "property: {}", prop);
    let _ = writeln!(s, "contract: {}", v.contract);
    let _ = writeln!(s, "obligation: {}", v.label);
    let _ = writeln!(s, "detail: {}", v.detail.replace('\n', " "));
    let _ = writeln!(s, "confirmed: {}", v.confirmed);
    let _ = writeln!(
        s,
        "# replay with: {}/check replay {}   (runs the same contract on the real code with the inputs below)",
        root(),
        path
    );
    if let Some((a, b)) = v.sample {
        let _ = writeln!(s, "sample: {} {}", a, b);
    }
    for (n, x) in &v.inputs {
        let _ = writeln!(s, "input: {} {:016x} {:e}", n, x.to_bits(), x);
    }
    for p in &v.path {
        let _ = writeln!(s, "path: {}", p);
    }
    if !v.confirmed {
        let _ = writeln!(s, "# verifier output: obligations left open");
        for u in rep.undecided.iter().take(40) {
            let _ = writeln!(s, "open: {}", u.replace('\n', " "));
        }
    }
    let _ = std::fs::write(&path, s);
    path
}

fn replay(cs: &[Contract], file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string()));
    let name = get("contract:").expect("contract line");
    let c = match cs.iter().find(|c| c.name == name) {
        Some(c) => c,
        None => {
            println!("no contract named {}", name);
            return 2;
        }
    };
    let mut over = HashMap::new();
    for l in s.lines().filter_map(|l| l.strip_prefix("input: ")) {
        let p: Vec<&str> = l.split(' ').collect();
        over.insert(p[0].to_string(), f64::from_bits(u64::from_str_radix(p[1], 16).unwrap()));
    }
    let (seed, k) = get("sample:")
        .map(|x| {
            let p: Vec<u64> = x.split(' ').map(|y| y.parse().unwrap()).collect();
            (p[0], p[1] as usize)
        })
        .unwrap_or((1, 0));
    match explore::num_run(c, seed, k, &over) {
        NumRun::Skipped => {
            println!("precondition not met");
            2
        }
        NumRun::Ran { checked, fails, inputs } => {
            for (n, x) in &inputs {
                println!("input {} = {:e}", n, x);
            }
            println!("{} checks, {} failed", checked, fails.len());
            for f in &fails {
                println!("FAILED {}: {}", f.label, f.detail);
            }
            (!fails.is_empty()) as i32
        }
    }
}

pub fn main(cs: &[Contract]) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let arg2 = args.get(2).cloned().unwrap_or_default();
    if id == "list" {
        for c in cs {
            println!("{} | {} | {}", c.prop, c.name, c.on);
        }
        return;
    }
    if id == "replay" {
        std::process::exit(replay(cs, &arg2));
    }
    if id == "probe" {
        let sel: Vec<&Contract> = cs.iter().filter(|c| c.prop == arg2 && !c.opt.thorough_only).collect();
        let names: Vec<String> = sel.iter().map(|c| c.name.to_string()).collect();
        vcore::guard::probe(&names, &[1, 1 ^ 0x77], 40, &|i, s, k| {
            let _ = explore::num_run(sel[i], s, k, &HashMap::new());
        });
        return;
    }
    if id == "dbg" {
        let th = args.iter().any(|a| a == "thorough");
        for c in cs.iter().filter(|c| c.prop == arg2 || c.name.contains(&arg2)) {
            let r = explore::run(c, 1, th, 800, &|_| false);
            println!(
                "{:50} paths {} (inf {} ass {}) obl {}/{} {:?} {}ms smt {} ({}ms) complete {} reached {}",
                r.name, r.paths, r.infeasible, r.assumed_away, r.proved, r.obligations, r.by, r.ms, r.smt_calls, r.smt_ms, r.complete, r.reached
            );
            for n in r.notes.iter().chain(r.unsupported.iter()).take(5) {
                println!("   note {}", n);
            }
            for u in r.undecided.iter().take(8) {
                println!("   open {}", u);
            }
            if let Some(v) = &r.violation {
                println!("   VIOLATION {:?}", v);
            }
        }
        return;
    }
    if !vcore::guard::is_child() {
        std::process::exit(vcore::guard::supervise(&id, &args));
    }
    let thorough = arg2 == "thorough" || std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") && arg2 != "quick";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let sel: Vec<Contract> =
        cs.iter().filter(|c| c.prop == id && (thorough || !c.opt.thorough_only)).cloned().collect();
    if sel.is_empty() {
        println!("no contract for {}", id);
        std::process::exit(2);
    }
    let t0 = Instant::now();
    let budget: u64 = std::env::var("VC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 6000 } else { 420 });
    let deadline = t0 + Duration::from_secs(budget);
    let hard = deadline + Duration::from_secs(if thorough { 600 } else { 150 });
    let kn: Vec<(String, String)> =
        known(&root()).into_iter().filter(|k| k.prop == id).map(|k| (k.contract, k.label)).collect();
    let kfull: Vec<Known> = known(&root()).into_iter().filter(|k| k.prop == id).collect();
    if !thorough {
        vcore::guard::watch(Duration::from_secs(800));
    }
    let sel = Arc::new(sel);
    let next = Arc::new(AtomicUsize::new(0));
    let (tx, rx) = mpsc::channel::<Done>();
    // heavy contracts (listed last: the largest sizes) first
    let n = sel.len();
    for _ in 0..std::thread::available_parallelism().map_or(4, |x| x.get()).min(8).min(n) {
        let (sel, next, tx, kn) = (sel.clone(), next.clone(), tx.clone(), kn.clone());
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= sel.len() {
                    break;
                }
                if vcore::smt::stopped() {
                    break;
                }
                let i = sel.len() - 1 - i;
                let d = one(&sel[i], i, seed, thorough, deadline, &kn);
                if tx.send(d).is_err() {
                    break;
                }
            })
            .unwrap();
    }
    drop(tx);
    let mut done: BTreeMap<usize, Done> = BTreeMap::new();
    while done.len() < n {
        match rx.recv_timeout(hard.saturating_duration_since(Instant::now()).max(Duration::from_millis(1))) {
            Ok(d) => {
                done.insert(d.idx, d);
            }
            Err(_) => break,
        }
    }

    // ---------------------------------------------------------------- verdict
    let mut violation: Option<(Violation, Report)> = None;
    let (mut obl, mut dis, mut smt_ms, mut smt_calls, mut paths) = (0, 0, 0u128, 0, 0);
    let mut by: BTreeMap<String, usize> = BTreeMap::new();
    let mut undecided: Vec<String> = vec![];
    let mut bounded: Vec<String> = vec![];
    let mut vacuous: Vec<String> = vec![];
    let mut crossn = (0, 0, 0);
    let mut knownhit: BTreeSet<(String, String)> = BTreeSet::new();
    let mut per = vec![];
    let mut all = true;
    for (i, c) in sel.iter().enumerate() {
        let d = match done.get(&i) {
            Some(d) => d,
            None => {
                let why = if vcore::smt::stopped() { "not run: a violation was confirmed first" } else { "not finished within the time budget" };
                undecided.push(format!("{}: {}", c.name, why));
                all = false;
                continue;
            }
        };
        let r = &d.rep;
        obl += r.obligations;
        dis += r.proved;
        smt_ms += r.smt_ms;
        smt_calls += r.smt_calls;
        paths += r.paths - r.infeasible;
        for (k, n) in &r.by {
            *by.entry(k.clone()).or_default() += n;
        }
        crossn.0 += d.cross.runs + r.samples;
        crossn.1 += d.cross.skipped;
        crossn.2 += d.cross.checks + r.sample_checks;
        for l in r.known.iter().chain(d.cross.known.iter()) {
            knownhit.insert((c.name.to_string(), l.clone()));
        }
        for u in r.undecided.iter() {
            undecided.push(format!("{}: {}", c.name, u));
        }
        for u in r.unsupported.iter() {
            undecided.push(format!("{}: outside the symbolic scalar's reach: {}", c.name, u));
        }
        if let Some(b) = &r.bounded {
            bounded.push(format!("{}: {}", c.name, b));
            all = false;
        } else if !r.complete {
            bounded.push(format!("{}: not every path explored ({})", c.name, r.notes.join("; ")));
            all = false;
        }
        if r.obligations == 0 || !r.reached {
            vacuous.push(c.name.to_string());
            all = false;
        }
        per.push(format!(
            "{{\"contract\": {}, \"functions\": {}, \"paths\": {}, \"obligations\": {}, \"discharged\": {}, \"ms\": {}, \"complete\": {}, \"retried\": {}}}",
            esc(c.name), esc(c.on), r.paths, r.obligations, r.proved, r.ms, r.complete && r.bounded.is_none(), d.retried
        ));
        let v = r.violation.clone().or_else(|| d.cross.fail.clone());
        // a confirmed violation is preferred over one without a failing input
        let v = match (&r.violation, &d.cross.fail) {
            (Some(a), Some(b)) if !a.confirmed => Some(b.clone()),
            _ => v,
        };
        if let Some(v) = v {
            let better = match &violation {
                None => true,
                Some((o, _)) => !o.confirmed && v.confirmed,
            };
            if better {
                violation = Some((v, r.clone()));
            }
        } else if r.failed > 0 && violation.is_none() {
            violation = Some((
                Violation {
                    contract: c.name.into(),
                    label: r.undecided.first().cloned().unwrap_or_default(),
                    inputs: vec![],
                    detail: "this obligation is discharged on the reference tree and is not discharged here".into(),
                    path: vec![],
                    confirmed: false,
                    sample: None,
                },
                r.clone(),
            ));
        }
    }
    all = all && undecided.is_empty() && obl == dis;
    for k in &kfull {
        if knownhit.iter().any(|(c, l)| k.covers(&id, c, l)) {
            println!("KNOWN-FINDING: property={} {}", id, k.what);
        }
    }
    let mut funs: BTreeSet<String> = BTreeSet::new();
    for c in sel.iter() {
        funs.insert(c.on.to_string());
    }
    let wall = t0.elapsed().as_secs_f64();
    let trusted = vec![
        "the symbolic scalar (engine/core/src/sym.rs): the crate's generic code is monomorphized at it by rustc, so the verified text is the compiled source itself".to_string(),
        "machine floats treated as exact real arithmetic (rounding, overflow, signed zero and NaN are outside these contracts)".to_string(),
        "the crate's own ring normaliser, sign-fact reasoner and identity test (engine/core); z3 for the remaining queries".to_string(),
        "real-analysis facts about sqrt, sin, cos, atan2, acos, asin, exp, ln listed in engine/core/src/fun.rs".to_string(),
        "identity test: a polynomial identity over a 61-bit prime field checked at 24 random points (error probability below 2^-1000)".to_string(),
        "num-traits/num: the Float, Signed, Zero and One traits behave as documented".to_string(),
    ];
    let level = if all { "proof" } else { "other" };
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\n",
        esc(&id), esc(if thorough { "thorough" } else { "quick" }), seed, esc(level)
    );
    let _ = write!(
        j,
        "  \"obligations\": {}, \"discharged\": {},\n  \"checker_cmd\": {},\n  \"trusted_base\": {},\n",
        obl, dis, esc(&format!("./check {} {}", id, if thorough { "thorough" } else { "quick" })), jlist(trusted)
    );
    let _ = write!(
        j,
        "  \"explanation\": {},\n",
        esc("contracts on the real functions, discharged path by path for all real inputs by symbolic execution of the compiled code; parts listed under bounded or undecided are not proved")
    );
    let _ = write!(
        j,
        "  \"functions_under_contract\": {},\n  \"contracts\": [\n   {}\n  ],\n",
        jlist(funs), per.join(",\n   ")
    );
    let _ = write!(
        j,
        "  \"by_back_end\": {{{}}},\n  \"paths\": {}, \"solver_calls\": {}, \"solver_ms\": {},\n",
        by.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "),
        paths, smt_calls, smt_ms
    );
    let _ = write!(
        j,
        "  \"concrete_runs\": {}, \"concrete_runs_outside_precondition\": {}, \"concrete_checks\": {},\n",
        crossn.0, crossn.1, crossn.2
    );
    let _ = write!(
        j,
        "  \"bounded\": {},\n  \"undecided\": {},\n  \"vacuous\": {},\n  \"known_findings_seen\": {}\n }},\n",
        jlist(bounded.clone()),
        jlist(undecided.iter().take(40).cloned()),
        jlist(vacuous.clone()),
        jlist(knownhit.iter().map(|(c, l)| format!("{}: {}", c, l)))
    );
    let _ = write!(
        j,
        " \"assumptions\": {},\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        jlist(vec![
            "real arithmetic instead of rounding floats".to_string(),
            "preconditions stated in the contracts (see DESIGN.md)".to_string()
        ]),
        wall,
        violation.is_some() as i32
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    let _ = std::fs::write(format!("{}/evidence/{}.json", root(), id), j);
    println!(
        "{}: {} contracts, {} paths, {}/{} obligations discharged, {} solver calls ({} ms), {} concrete runs, {:.1} s",
        id, n, paths, dis, obl, smt_calls, smt_ms, crossn.0, wall
    );
    for b in bounded.iter() {
        println!("bounded: {}", b);
    }
    for u in undecided.iter().take(10) {
        println!("undecided: {}", u);
    }
    for u in vacuous.iter() {
        println!("vacuous: {}", u);
    }
    let code = if let Some((v, r)) = violation {
        let path = write_replay(&id, &v, &r);
        println!("{}: {} -- {}", v.contract, v.label, v.detail);
        println!(
            "VIOLATION property={} replay={}{}",
            id, path, if v.confirmed { "" } else { " no-failing-input-found" }
        );
        1
    } else if done.len() < n && !thorough {
        vcore::guard::UNFINISHED
    } else if done.is_empty() {
        2
    } else {
        0
    };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
