//! Running out of stack and running forever end the whole process: the decision runs in a child, and when
//! the child does not come back the concrete runs are repeated one by one to find the input that does it.
use crate::out::root;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex, OnceLock};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// exit code of a child in which some contract was still running at the end of the time allowed
pub const UNFINISHED: i32 = 97;
const STUCK_S: u64 = 30;
const PROBE_S: u64 = 150;

pub fn is_child() -> bool {
    std::env::var("VC_CHILD").is_ok()
}

fn crashed(st: &std::process::ExitStatus) -> bool {
    // abort (stack overflow is reported this way), bus error, segmentation fault; not 9: out of memory or ended from outside
    matches!(st.signal(), Some(6) | Some(7) | Some(11)) || matches!(st.code(), Some(134) | Some(135) | Some(139))
}

/// per thread: when its concrete run began, in ms since the first one (0: none in progress)
static SLOTS: Mutex<Vec<Arc<AtomicU64>>> = Mutex::new(vec![]);
static START: OnceLock<Instant> = OnceLock::new();
thread_local!(static SLOT: Arc<AtomicU64> = {
    let a = Arc::new(AtomicU64::new(0));
    SLOTS.lock().unwrap().push(a.clone());
    a
});
fn now() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
/// a concrete run in progress
pub struct Running(());
impl Running {
    pub fn new() -> Self {
        SLOT.with(|s| s.store(now(), Ordering::Relaxed));
        Running(())
    }
}
impl Drop for Running {
    fn drop(&mut self) {
        SLOT.with(|s| s.store(0, Ordering::Relaxed));
    }
}
/// ends the process when one concrete run takes longer than a minute, or after `limit` in all
pub fn watch(limit: Duration) {
    let t0 = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let old = SLOTS.lock().unwrap().iter().any(|s| {
            let t = s.load(Ordering::Relaxed);
            t != 0 && now() > t + 60_000
        });
        if old || t0.elapsed() > limit {
            std::process::exit(UNFINISHED);
        }
    });
}

/// runs the same command again as a child; returns the exit code of the whole
pub fn supervise(id: &str, args: &[String]) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let out = Command::new(&exe).args(&args[1..]).env("VC_CHILD", "1").status();
    let st = match out {
        Ok(s) => s,
        Err(_) => return 2,
    };
    let crash = crashed(&st);
    if !crash && st.code() != Some(UNFINISHED) {
        return st.code().unwrap_or(2);
    }
    let how = if crash { "the process was ended by a crash (stack exhausted)" } else { "a contract was still running when its time was over" };
    println!("{}: {}; looking for the input", id, how);
    let p = Command::new(&exe).args(["probe", id]).env("VC_CHILD", "1").stdout(Stdio::piped()).stderr(Stdio::null()).output();
    let p = match p {
        Ok(p) => p,
        Err(_) => return 2,
    };
    let text = String::from_utf8_lossy(&p.stdout).to_string();
    let last: Vec<&str> = text.lines().last().unwrap_or("").split('|').collect();
    let hit = (crashed(&p.status) || p.status.code() == Some(UNFINISHED)) && last.len() == 3;
    if !hit && !crash {
        return 0;
    }
    let (contract, sample) = if hit { (last[0], format!("sample: {} {}\n", last[1], last[2])) } else { ("?", String::new()) };
    let what = if !hit {
        "every function returns: the verifier itself ran out of stack while following the code"
    } else if crashed(&p.status) {
        "every function returns: the stack is exhausted"
    } else {
        "every function returns: still running after 30 s"
    };
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.txt", dir, id);
    let _ = std::fs::write(
        &path,
        format!(
            "property: {}\ncontract: {}\nobligation: {}\ndetail: {}\nconfirmed: {}\n# replay with: {}/check replay {}\n{}",
            id, contract, what, how, hit, root(), path, sample
        ),
    );
    println!("{}: {}", contract, what);
    println!("VIOLATION property={} replay={}{}", id, path, if hit { "" } else { " no-failing-input-found" });
    let _ = std::io::stdout().flush();
    1
}

/// runs `run(contract, seed, sample)` for each, naming each before it starts; ends the process when one does not return
pub fn probe(names: &[String], seeds: &[u64], per: usize, run: &(dyn Fn(usize, u64, usize) + Sync)) {
    static BEAT: AtomicU64 = AtomicU64::new(0);
    let t0 = Instant::now();
    std::thread::spawn(move || {
        let (mut last, mut since) = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let b = BEAT.load(Ordering::SeqCst);
            if b != last {
                last = b;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(STUCK_S) {
                std::process::exit(UNFINISHED);
            }
        }
    });
    for k in 0..per {
        for &s in seeds {
            for (i, n) in names.iter().enumerate() {
                if t0.elapsed() > Duration::from_secs(PROBE_S) {
                    return;
                }
                println!("{}|{}|{}", n, s, k);
                let _ = std::io::stdout().flush();
                BEAT.fetch_add(1, Ordering::SeqCst);
                run(i, s, k);
            }
        }
    }
}
