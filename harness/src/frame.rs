//! Cases, monitors' observations, the worker that runs cases under panic/hang/abort observation.

use crate::rng::Rng;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
    /// Stable identity of what failed (used to match listed findings).
    pub key: String,
    pub what: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(key: impl Into<String>, what: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.into(), what: short(what.into()) })
}

/// What a report of a failure says, if need be without the end of it.
pub fn short(mut s: String) -> String {
    const MOST: usize = 6000;
    if s.len() > MOST {
        let mut n = MOST;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s += " [..]";
    }
    s
}

/// `ensure!(cond, key, format...)`: a monitor's judgement.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($arg:tt)+) => {
        if !($c) { return Err($crate::frame::Fail { key: ($key).to_string(), what: $crate::frame::short(format!($($arg)+)) }); }
    };
}

#[derive(Default)]
pub struct Obs {
    pub evaluations: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
}

impl Obs {
    pub fn merge(&mut self, o: Obs) {
        self.evaluations += o.evaluations;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Case {
    pub idx: u64,
    pub seed: u64,
    pub tier: Tier,
    pub rng: Rng,
    pub obs: Obs,
    pub scratch: PathBuf,
    /// Set when a failing case is run again to be written out.
    pub verbose: bool,
    pub trace: Vec<String>,
}

impl Case {
    /// Remember what is being fed to the code now (only kept when the case is written out).
    pub fn at(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = short(f());
            LAST_TRACE.with(|t| t.borrow_mut().push(s.clone()));
            self.trace.push(s);
        }
    }
    pub fn eval(&mut self) {
        self.obs.evaluations += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.obs.evaluations += n;
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.obs.counters.entry(k).or_insert(0) += n;
    }
    pub fn nontrivial(&mut self, sig: u64) {
        if self.obs.distinct.len() < 2_000_000 {
            self.obs.distinct.insert(sig);
        }
    }
    pub fn nontrivial_len(&self) -> usize {
        self.obs.distinct.len()
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.obs.samples.is_empty() && (self.idx % 7 == 3 || self.idx == 0) {
            let v = f();
            self.obs.samples.push(v);
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
}

thread_local! {
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static LAST_TRACE: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// Panics of threads the library started on its own (the background saver).
static BG_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn mark_case_thread() {
    IN_CASE.with(|c| c.set(true));
}

pub fn background_panic() -> Option<String> {
    BG_PANIC.lock().unwrap().clone()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        if IN_CASE.with(|c| c.get()) {
            LAST_PANIC.with(|p| {
                let mut p = p.borrow_mut();
                if p.is_none() {
                    *p = Some(text);
                }
            });
        } else if let Ok(mut b) = BG_PANIC.lock() {
            if b.is_none() {
                *b = Some(text);
            }
        }
    }));
}

/// Run something of the code under test that may panic; the panic is the observation.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

pub struct CheckDef {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Cases of the quick tier.
    pub quick: u64,
    /// Seconds the thorough tier keeps going (None: the case list is finite and is run completely).
    pub thorough_s: Option<u64>,
    /// Number of cases when the space is finite (exhaustive), whatever the tier.
    pub finite: Option<u64>,
    pub threads: usize,
    pub run: fn(&mut Case) -> R,
}

pub fn run_one(def: &CheckDef, seed: u64, tier: Tier, idx: u64, scratch: &Path, verbose: bool) -> (R, Obs, Vec<String>) {
    mark_case_thread();
    let mut case = Case {
        idx,
        seed,
        tier,
        rng: Rng::for_case(seed, def.id, idx),
        obs: Obs::default(),
        scratch: scratch.to_path_buf(),
        verbose,
        trace: vec![],
    };
    LAST_TRACE.with(|t| t.borrow_mut().clear());
    let r = match caught(|| {
        let r = (def.run)(&mut case);
        (r, case)
    }) {
        Ok((r, case)) => return (r, case.obs, case.trace),
        Err(p) => p,
    };
    let trace = LAST_TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()));
    (fail(format!("panic: {}", strip_line(&r)), format!("the code under test panicked: {}", r)), Obs::default(), trace)
}

fn strip_line(s: &str) -> String {
    match s.rfind(':') {
        Some(i) => s[..i].to_string(),
        None => s.to_string(),
    }
}

pub struct Listed {
    pub property: String,
    pub key: String,
    pub what: String,
}

pub fn load_listed(root: &Path) -> Vec<Listed> {
    let mut out = vec![];
    if let Ok(text) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for line in text.lines() {
            // known: property=C13 key=[...] what fails
            let Some(rest) = line.strip_prefix("known: property=") else { continue };
            let Some((id, rest)) = rest.split_once(" key=[") else { continue };
            let Some((key, what)) = rest.split_once("] ") else { continue };
            out.push(Listed { property: id.to_string(), key: key.to_string(), what: what.to_string() });
        }
    }
    out
}

pub struct WorkerOut {
    pub fails: Vec<(u64, Fail)>,
    pub obs: Obs,
    pub cases: u64,
    pub complete: bool,
}

/// What the watchdog needs to know about each thread: case number + 1 (0: idle) and when it began.
struct Slot {
    case: AtomicU64,
    began_ms: AtomicU64,
}

/// Runs the cases; on a hang or a dead background thread writes the suspects to `suspects` and exits 3.
pub fn run_cases(def: &CheckDef, seed: u64, tier: Tier, scratch: &Path, suspects: &Path, listed: &[String], only: Option<u64>) -> WorkerOut {
    let start = Instant::now();
    let total = if let Some(n) = def.finite {
        n
    } else if tier == Tier::Quick {
        std::env::var("KVMON_CASES").ok().and_then(|v| v.parse().ok()).unwrap_or(def.quick)
    } else {
        u64::MAX
    };
    let cap = match tier {
        Tier::Quick => Duration::from_secs(240),
        Tier::Thorough => Duration::from_secs(def.thorough_s.unwrap_or(600)),
    };
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let finished = AtomicBool::new(false);
    let fails: Mutex<Vec<(u64, Fail)>> = Mutex::new(vec![]);
    let merged: Mutex<Obs> = Mutex::new(Obs::default());
    let threads = if only.is_some() { 1 } else { def.threads };
    let slots: Vec<Slot> = (0..threads).map(|_| Slot { case: AtomicU64::new(0), began_ms: AtomicU64::new(0) }).collect();
    let complete = AtomicBool::new(true);

    std::thread::scope(|s| {
        let mut handles = vec![];
        for t in 0..threads {
            let dir = scratch.join(format!("t{}", t));
            let (slots, next, done, stop, fails, merged, complete) = (&slots, &next, &done, &stop, &fails, &merged, &complete);
            handles.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut obs = Obs::default();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let idx = match only {
                                Some(i) => {
                                    if next.fetch_add(1, Ordering::Relaxed) > 0 {
                                        break;
                                    }
                                    i
                                }
                                None => next.fetch_add(1, Ordering::Relaxed),
                            };
                            if only.is_none() && idx >= total {
                                break;
                            }
                            if start.elapsed() > cap {
                                if def.finite.is_some() || tier == Tier::Quick {
                                    complete.store(false, Ordering::Relaxed);
                                }
                                break;
                            }
                            let _ = std::fs::create_dir_all(&dir);
                            slots[t].began_ms.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                            slots[t].case.store(idx + 1, Ordering::Relaxed);
                            let (r, o, _) = run_one(def, seed, tier, idx, &dir, false);
                            slots[t].case.store(0, Ordering::Relaxed);
                            done.fetch_add(1, Ordering::Relaxed);
                            obs.merge(o);
                            if let Err(f) = r {
                                let known = listed.iter().any(|k| *k == f.key);
                                let mut v = fails.lock().unwrap();
                                if !(known && v.iter().any(|(_, g)| g.key == f.key)) {
                                    v.push((idx, f));
                                }
                                if !known && v.len() >= 3 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        merged.lock().unwrap().merge(obs);
                    })
                    .unwrap(),
            );
        }
        // The watchdog.
        let (slots, finished) = (&slots, &finished);
        let wd = s.spawn(move || {
            let mut bg_since: Option<Instant> = None;
            let mut cpu_at: Vec<(u64, f64)> = vec![(0, 0.0); slots.len()];
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                let now = start.elapsed().as_millis() as u64;
                if bg_since.is_none() && background_panic().is_some() {
                    bg_since = Some(Instant::now());
                }
                let cpu = cpu_seconds();
                let mut stuck = vec![];
                for (i, sl) in slots.iter().enumerate() {
                    let c = sl.case.load(Ordering::Relaxed);
                    if c == 0 {
                        continue;
                    }
                    if cpu_at[i].0 != c {
                        cpu_at[i] = (c, cpu);
                    }
                    let age = now.saturating_sub(sl.began_ms.load(Ordering::Relaxed));
                    let burnt = cpu - cpu_at[i].1;
                    let bg = bg_since.map(|b| b.elapsed() > Duration::from_secs(2)).unwrap_or(false);
                    if (age > 60_000 && burnt > 50.0) || age > 300_000 || (bg && age > 2_000) {
                        stuck.push(c - 1);
                    }
                }
                if !stuck.is_empty() {
                    let all: Vec<u64> = slots.iter().map(|s| s.case.load(Ordering::Relaxed)).filter(|c| *c > 0).map(|c| c - 1).collect();
                    let why = match background_panic() {
                        Some(p) => format!("a background thread of the library panicked: {}", p),
                        None => "the case did not end (hang)".to_string(),
                    };
                    let _ = std::fs::write(suspects, json!({"cases": all, "stuck": stuck, "why": why}).to_string());
                    unsafe { libc::_exit(3) }
                }
                // for aborts: the suspects are whatever is running now
                if now % 500 < 100 {
                    let all: Vec<u64> = slots.iter().map(|s| s.case.load(Ordering::Relaxed)).filter(|c| *c > 0).map(|c| c - 1).collect();
                    let _ = std::fs::write(suspects, json!({"cases": all, "why": "the process died"}).to_string());
                }
            }
        });
        for h in handles {
            let _ = h.join();
        }
        finished.store(true, Ordering::Relaxed);
        let _ = wd.join();
    });
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| f.0);
    // A background panic that hung nothing is still a violation.
    if fails.is_empty() {
        if let Some(p) = background_panic() {
            fails.push((only.unwrap_or(0), Fail { key: format!("bgpanic: {}", strip_line(&p)), what: format!("a background thread of the library panicked: {}", p) }));
        }
    }
    WorkerOut { fails, obs: merged.into_inner().unwrap(), cases: done.into_inner(), complete: complete.into_inner() }
}

pub fn cpu_seconds() -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
        ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
    }
}
