//! Path exploration of one contract and the verdict on it.
use crate::contract::*;
use crate::eng::*;
use crate::nf::AMBIG;
use crate::prove;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone)]
pub struct Violation {
    pub contract: String,
    pub label: String,
    pub inputs: Vec<(String, f64)>,
    pub detail: String,
    pub path: Vec<String>,
    pub confirmed: bool,
    pub sample: Option<(u64, usize)>,
}
#[derive(Debug, Default, Clone)]
pub struct Report {
    pub name: String,
    pub on: String,
    pub paths: usize,
    pub infeasible: usize,
    pub assumed_away: usize,
    pub obligations: usize,
    pub proved: usize,
    pub by: BTreeMap<String, usize>,
    pub undecided: Vec<String>,
    pub violation: Option<Violation>,
    pub smt_ms: u128,
    pub smt_calls: usize,
    pub ms: u128,
    pub samples: usize,
    pub sample_checks: usize,
    pub complete: bool,
    pub bounded: Option<String>,
    pub reached: bool,
    pub notes: Vec<String>,
    pub unsupported: Vec<String>,
    /// obligations the prover refuted or failed to prove (not mere resource limits)
    pub failed: usize,
    /// listed known findings that were hit
    pub known: BTreeSet<String>,
}

fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    catch_unwind(AssertUnwindSafe(f))
}
fn payload(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub enum NumRun {
    Skipped,
    Ran { checked: usize, fails: Vec<NumFail>, inputs: Vec<(String, f64)> },
}
pub fn num_run(c: &Contract, seed: u64, k: usize, over: &HashMap<String, f64>) -> NumRun {
    num_run_mode(c, seed, k, over, false)
}
pub fn num_run_mode(c: &Contract, seed: u64, k: usize, over: &HashMap<String, f64>, gross: bool) -> NumRun {
    AMBIG.with(|x| x.set(false));
    crate::nf::INT.with(|x| x.set(c.opt.int));
    let mut cx = Cx::new(seed, k);
    cx.gross = gross;
    cx.over = over.clone();
    let busy = crate::guard::Running::new();
    let r = quiet(|| (c.num)(&mut cx));
    drop(busy);
    if let Err(p) = r {
        if p.is::<Cut>() {
            return NumRun::Skipped;
        }
        if !AMBIG.with(|x| x.get()) {
            cx.fails.push(NumFail { label: "no panic".into(), detail: payload(&p) });
        }
    }
    NumRun::Ran { checked: cx.checked, fails: cx.fails, inputs: cx.inputs }
}

struct Issue {
    label: String,
    detail: String,
    model: Vec<(String, f64)>,
    sat: Option<bool>,
    alive: Vec<usize>,
    path: Vec<String>,
    unknown: bool,
}

/// looks for a concrete input on which the real code breaks the contract:
/// the solver's models, the samples that follow an open path, then `n` samples
fn judge(
    c: &Contract,
    issues: &[Issue],
    seed: u64,
    n: usize,
    secs: u64,
    is_known: &dyn Fn(&str) -> bool,
    tally: &mut (usize, usize),
) -> Option<Violation> {
    let viol = |f: &NumFail, inputs, path: &[String], sample| Violation {
        contract: c.name.into(),
        label: f.label.clone(),
        inputs,
        detail: f.detail.clone(),
        path: path.to_vec(),
        confirmed: true,
        sample,
    };
    let base = |l: &str| l.split('[').next().unwrap_or(l).trim().to_string();
    let labels: BTreeSet<String> = issues.iter().filter(|i| !i.unknown).map(|i| base(&i.label)).collect();
    // strict first; then, for the open obligations only, runs in which a comparison was
    // within rounding error count too, if the two sides differ grossly
    for gross in [false, true] {
        for is in issues.iter().filter(|i| !i.model.is_empty()).take(40) {
            let over: HashMap<String, f64> = is.model.iter().cloned().collect();
            for k in 0..4 {
                tally.0 += 1;
                if let NumRun::Ran { checked, fails, inputs } = num_run_mode(c, seed, k, &over, gross) {
                    tally.1 += checked;
                    if let Some(f) = fails.iter().find(|f| !is_known(&f.label) && (!gross || labels.contains(&base(&f.label)))) {
                        return Some(viol(f, inputs, &is.path, None));
                    }
                }
            }
        }
        let mut order: Vec<usize> = issues.iter().flat_map(|i| i.alive.iter().cloned().take(8)).collect();
        order.extend(0..n);
        let empty = HashMap::new();
        let mut done = BTreeSet::new();
        let ts = std::time::Instant::now();
        for k in order {
            if !done.insert(k) {
                continue;
            }
            if ts.elapsed().as_secs() >= secs {
                break;
            }
            tally.0 += 1;
            if let NumRun::Ran { checked, fails, inputs } = num_run_mode(c, seed, k, &empty, gross) {
                tally.1 += checked;
                if let Some(f) = fails.iter().find(|f| !is_known(&f.label) && (!gross || labels.contains(&base(&f.label)))) {
                    return Some(viol(f, inputs, &[], Some((seed, k))));
                }
            }
        }
        if labels.is_empty() {
            break;
        }
    }
    None
}

/// the next path in the depth-first order
fn next_path() -> bool {
    with(|e| {
        e.decs.truncate(e.pos);
        while let Some(d) = e.decs.last_mut() {
            if d.cur + 1 < d.opts.len() {
                d.cur += 1;
                return true;
            }
            e.decs.pop();
        }
        false
    })
}

pub fn run(c: &Contract, seed: u64, thorough: bool, budget_s: u64, is_known: &dyn Fn(&str) -> bool) -> Report {
    let t0 = std::time::Instant::now();
    let mut e = Eng::new(seed);
    e.max_terms = c.opt.max_terms;
    e.smt_timeout_ms = c.opt.smt_ms * if thorough { 5 } else { 1 };
    e.nsamples = c.opt.samples;
    e.eager = c.opt.eager;
    e.guide_len = c.opt.prefix;
    e.int = c.opt.int;
    install(e);
    let mut rep = Report { name: c.name.into(), on: c.on.into(), complete: true, ..Default::default() };
    rep.bounded = c.opt.bounded.map(|s| s.to_string());
    let mut issues: Vec<Issue> = vec![];
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let guided = c.opt.guided * if thorough { 10 } else { 1 };
    let mut gk = 0;
    let (mut judged, mut rounds, mut tally) = (0usize, 0, (0usize, 0usize));
    let mut early: Option<Violation> = None;
    let mut traces: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut first = 1;
    let limit = c.opt.paths.max(guided) * if thorough { 4 } else { 1 };
    loop {
        with(|e| {
            e.path_no = rep.paths;
            if guided > 0 {
                e.guide = Some(gk);
            }
            e.reset_path()
        });
        let mut cx = Cx::new(seed, 0);
        let r = quiet(|| (c.sym)(&mut cx));
        let mut finished = true;
        match r {
            Ok(()) => {}
            Err(p) => {
                if let Some(Cut(why)) = p.downcast_ref::<Cut>() {
                    finished = false;
                    match *why {
                        "infeasible" => rep.infeasible += 1,
                        "assume" => rep.assumed_away += 1,
                        o => {
                            rep.complete = false;
                            rep.notes.push(format!("path abandoned: {}", o));
                        }
                    }
                    if *why == "assume" {
                        with(|e| {
                            // obligations stated before the precondition was refused do not count
                            let n = e.path_no;
                            e.obligs.retain(|o| o.path != n);
                        });
                    }
                } else {
                    let msg = payload(&p);
                    with(|e| prove::holds(e, "no panic", false));
                    with(|e| {
                        if let Some(o) = e.obligs.last_mut() {
                            if let Verdict::Failed { detail, .. } = &mut o.verdict {
                                *detail = format!("panics: {}", msg);
                            }
                        }
                    });
                }
            }
        }
        with(|e| {
            if finished {
                let ds = e.divs.clone();
                for d in ds {
                    prove::defined(e, "division: divisor is not zero", d, NEG | POS);
                }
                let ds = e.defs.clone();
                let mut s = BTreeSet::new();
                for (n, m, w) in ds {
                    if s.insert((n, m)) {
                        prove::defined(e, &format!("defined: {}", w), n, m);
                    }
                }
                // vacuity guard: some concrete input follows this path
                if !e.alive.is_empty() && e.nfacts.len() < 1000 {
                    rep.reached = true;
                }
            }
            let no = e.path_no;
            let alive = e.alive.clone();
            let mut lazy: Option<Vec<String>> = None;
            for o in e.obligs.clone().iter().filter(|o| o.path == no) {
                rep.obligations += 1;
                match &o.verdict {
                    Verdict::Proved(w) => {
                        rep.proved += 1;
                        *rep.by.entry(w.to_string()).or_default() += 1;
                    }
                    _ if is_known(&o.label) => {
                        rep.known.insert(o.label.split('[').next().unwrap().trim().to_string());
                    }
                    v => {
                        let (sat, detail, model, unknown) = match v {
                            Verdict::Failed { sat, detail, model } => (*sat, detail.clone(), model.clone(), false),
                            Verdict::Unknown(d) => (None, d.clone(), vec![], true),
                            _ => unreachable!(),
                        };
                        if lazy.is_none() {
                            lazy = Some(e.show_path());
                        }
                        if issues.len() < 400 {
                            seen.insert(o.label.clone());
                            issues.push(Issue {
                                label: o.label.clone(),
                                detail,
                                model,
                                sat,
                                alive: alive.clone(),
                                path: lazy.clone().unwrap(),
                                unknown,
                            });
                        }
                    }
                }
            }
            e.obligs.clear();
        });
        rep.paths += 1;
        // an open obligation is tried on concrete inputs at once, a few times
        if issues.len() > judged && rounds < 6 {
            rounds += 1;
            let t = if issues[judged..].iter().any(|i| !i.unknown) { (300, 5) } else { (0, 1) };
            early = judge(c, &issues[judged..], seed, t.0, t.1, is_known, &mut tally);
            judged = issues.len();
            if early.is_some() {
                rep.complete = false;
                rep.notes.push("stopped at a confirmed violation".into());
                break;
            }
        }
        if crate::smt::stopped() {
            rep.complete = false;
            rep.notes.push("stopped: a violation was confirmed in another contract".into());
            break;
        }
        if guided > 0 {
            // the rest of this sample's paths, unless another sample began the same way
            let t = with(|e| e.trace.clone());
            let fresh = traces.insert(t) || rep.paths > first;
            if c.opt.prefix != usize::MAX && fresh && t0.elapsed().as_secs() <= budget_s && next_path() {
                continue;
            }
            with(|e| e.decs.clear());
            first = rep.paths + 1;
            gk += 1;
            if gk >= guided || t0.elapsed().as_secs() > budget_s {
                break;
            }
            continue;
        }
        // next path
        if !next_path() {
            break;
        }
        if rep.paths >= limit || t0.elapsed().as_secs() > budget_s {
            rep.complete = false;
            rep.notes.push(format!("stopped after {} paths", rep.paths));
            break;
        }
    }
    if guided > 0 {
        rep.complete = false;
        rep.bounded = Some(if c.opt.prefix == usize::MAX {
            format!(
                "{} of the paths through the code: the {} distinct ones followed by {} sampled inputs; on each of them for all inputs that follow it",
                traces.len(), traces.len(), gk
            )
        } else {
            format!(
                "{} of the paths through the code: every continuation of the {} distinct beginnings (first {} decisions) of the paths of {} sampled inputs; on each of them for all inputs that follow it",
                rep.paths, traces.len(), c.opt.prefix, gk
            )
        });
    }
    let e = take();
    rep.smt_calls = e.smt_calls;
    rep.smt_ms = e.smt_ms;
    let mut un: Vec<String> = e.unsupported.clone();
    un.sort();
    un.dedup();
    if !un.is_empty() {
        rep.complete = false;
    }
    rep.unsupported = un;
    let mut rr = e.reach.clone();
    rr.sort();
    rr.dedup();
    if !rr.is_empty() {
        rep.complete = false;
        rep.notes.extend(rr);
    }
    drop(e);

    // ---- judge the open obligations against the real code on concrete inputs ----
    if !issues.is_empty() || !rep.complete || rep.obligations == 0 {
        let mut found = early;
        if found.is_none() && !crate::smt::stopped() {
            found = judge(c, &issues, seed, if thorough { 20000 } else { 3000 }, if thorough { 100 } else { 20 }, is_known, &mut tally);
        }
        let (tried, checks) = tally;
        rep.samples = tried;
        rep.sample_checks = checks;
        if found.is_none() {
            // a complete counterexample of the solver that the replay could not reproduce in floats
            if let Some(is) = issues.iter().find(|i| i.sat == Some(true)) {
                found = Some(Violation {
                    contract: c.name.into(),
                    label: is.label.clone(),
                    inputs: is.model.clone(),
                    detail: is.detail.clone(),
                    path: is.path.clone(),
                    confirmed: false,
                    sample: None,
                });
            }
        }
        rep.violation = found;
        for is in &issues {
            rep.failed += !is.unknown as usize;
            rep.undecided.push(format!(
                "{}{}: {} [path: {}]",
                is.label,
                if is.unknown { " (unknown)" } else { "" },
                is.detail,
                is.path.join(" && ")
            ));
        }
    }
    rep.ms = t0.elapsed().as_millis();
    rep
}
