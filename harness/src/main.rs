//! kvmon: workloads and monitors that decide the properties of klavier-core by watching it run.
//!
//!   kvmon check <ID> <quick|thorough>   supervise one check (VERIF_SEED; root from KVMON_ROOT)
//!   kvmon replay <file>                 run the case of a replay file again, in words
//!   kvmon worker ...                    (internal) runs the cases
//!   kvmon crash-child ...               (internal) the process C04 kills

mod frame;
mod gen;
mod refm;
mod repeatck;
mod rng;
mod serial;
mod session;
mod stored;
mod texts;
mod values;

use frame::{CheckDef, Fail, Tier};
use serde_json::{json, Value};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn defs() -> Vec<CheckDef> {
    let mut v = session::defs();
    v.extend(repeatck::defs());
    v.extend(serial::defs());
    v.extend(stored::defs());
    v.extend(texts::defs());
    v.extend(values::defs());
    v
}

fn root() -> PathBuf {
    std::env::var_os("KVMON_ROOT").map(PathBuf::from).unwrap_or_else(|| std::env::current_dir().unwrap())
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}

fn parse_tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let name = format!("kvmon-{}-{}", std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos());
        for base in [PathBuf::from("/dev/shm"), std::env::temp_dir()] {
            let d = base.join(&name);
            if std::fs::create_dir_all(&d).is_ok() && std::fs::write(d.join("probe"), b"x").is_ok() {
                return Scratch(d);
            }
        }
        eprintln!("no scratch directory can be made");
        std::process::exit(2);
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Ran {
    /// None: ended on its own terms (with its output in `out`).
    died: Option<String>,
    signal: Option<i32>,
    out: Option<Value>,
    stderr: String,
}

/// A second build of the monitors under a compiler sanitizer (made by check.sh for the thorough tier).
struct Sanitized {
    exe: PathBuf,
    few: bool,
    reports: PathBuf,
}

/// The exit code the sanitizer is told to use when it reported something.
const SANITIZER_REPORTED: i32 = 66;

fn spawn_worker(id: &str, tier: Tier, seed: u64, scratch: &Path, only: Option<u64>, verbose: bool, limit: Duration) -> Ran {
    spawn_worker_in(None, id, tier, seed, scratch, only, verbose, limit)
}

#[allow(clippy::too_many_arguments)]
fn spawn_worker_in(san: Option<&Sanitized>, id: &str, tier: Tier, seed: u64, scratch: &Path, only: Option<u64>, verbose: bool, limit: Duration) -> Ran {
    let mut tag = only.map(|i| format!("only{}", i)).unwrap_or_else(|| "all".into());
    if san.is_some() {
        tag.push_str("-san");
    }
    let dir = scratch.join(&tag);
    let _ = std::fs::create_dir_all(&dir);
    let out = scratch.join(format!("{}.out.json", tag));
    let err = scratch.join(format!("{}.err", tag));
    let _ = std::fs::remove_file(&out);
    let exe = san.map(|s| s.exe.clone()).unwrap_or_else(|| std::env::current_exe().unwrap());
    let mut cmd = Command::new(exe);
    if let Some(s) = san {
        cmd.env("TSAN_OPTIONS", format!("halt_on_error=0:exitcode={}:report_signal_unsafe=0:suppressions={}:log_path={}", SANITIZER_REPORTED, root().join("tools/tsan.supp").display(), s.reports.display()));
        cmd.env("KVMON_SANITIZED", "1");
        if s.few {
            cmd.env("KVMON_CASES", "150");
        }
    }
    cmd.arg("worker").arg(id).arg(if tier == Tier::Quick { "quick" } else { "thorough" }).arg(seed.to_string()).arg(&dir).arg(&out);
    cmd.arg(only.map(|i| i.to_string()).unwrap_or_else(|| "-".into()));
    cmd.arg(if verbose { "verbose" } else { "-" });
    cmd.stdin(Stdio::null()).stdout(Stdio::null());
    match std::fs::File::create(&err) {
        Ok(f) => cmd.stderr(f),
        Err(_) => cmd.stderr(Stdio::null()),
    };
    let limited = san.is_none() && std::env::var_os("KVMON_NO_AS_LIMIT").is_none();
    unsafe {
        cmd.pre_exec(move || {
            // no core files; a runaway allocation ends the worker, not the sandbox
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            if limited {
                let m = libc::rlimit { rlim_cur: 16 << 30, rlim_max: 16 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &m);
            }
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start the worker: {}", e);
            std::process::exit(2)
        }
    };
    let t0 = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => {}
            Err(_) => break None,
        }
        if t0.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let stderr = std::fs::read(&err).map(|b| String::from_utf8_lossy(&b[..b.len().min(20_000)]).to_string()).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    match status {
        Some(s) if s.code() == Some(0) => {
            let v = std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str(&t).ok());
            Ran { died: if v.is_none() { Some("no output".into()) } else { None }, signal: None, out: v, stderr }
        }
        Some(s) if san.is_some() && s.code() == Some(SANITIZER_REPORTED) => {
            let v = std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str(&t).ok());
            Ran { died: Some("the sanitizer reported".into()), signal: None, out: v, stderr }
        }
        Some(s) => Ran {
            died: Some(match (s.code(), s.signal()) {
                (Some(3), _) => "stopped by the watchdog".to_string(),
                (Some(c), _) => format!("exit code {}", c),
                (_, Some(g)) => format!("signal {}", g),
                _ => "unknown end".into(),
            }),
            signal: s.signal(),
            out: None,
            stderr,
        },
        None => Ran { died: Some("did not end in time".into()), signal: None, out: None, stderr },
    }
}

fn worker(args: &[String]) -> ! {
    let all = defs();
    let def = all.iter().find(|d| d.id == args[0]).expect("unknown check");
    let tier = parse_tier(&args[1]);
    let seed: u64 = args[2].parse().unwrap();
    let dir = PathBuf::from(&args[3]);
    let out = PathBuf::from(&args[4]);
    let only: Option<u64> = args[5].parse().ok();
    let verbose = args[6] == "verbose";
    frame::install_panic_hook();
    let suspects = PathBuf::from(format!("{}.suspects", out.display()));
    let listed: Vec<String> = frame::load_listed(&root()).into_iter().filter(|l| l.property == def.id).map(|l| l.key).collect();
    let v = if verbose {
        // one case, told in words; what it does is written as it goes so that a death leaves it behind
        let idx = only.unwrap();
        let _ = std::fs::create_dir_all(&dir);
        let (r, _, trace) = frame::run_one(def, seed, tier, idx, &dir, true);
        let fails: Vec<Value> = r.err().into_iter().map(|f| json!({"idx": idx, "key": f.key, "what": f.what})).collect();
        json!({"fails": fails, "trace": trace})
    } else {
        let w = frame::run_cases(def, seed, tier, &dir, &suspects, &listed, only);
        json!({
            "fails": w.fails.iter().map(|(i, f)| json!({"idx": i, "key": f.key, "what": f.what})).collect::<Vec<_>>(),
            "evaluations": w.obs.evaluations, "distinct": w.obs.distinct.len(), "counters": w.obs.counters,
            "samples": w.obs.samples, "cases": w.cases, "complete": w.complete,
        })
    };
    std::fs::write(&out, v.to_string()).unwrap();
    if std::env::var_os("KVMON_SANITIZED").is_some() {
        // the sanitizer sets the exit code on the way out
        std::process::exit(0)
    }
    unsafe { libc::_exit(0) }
}

fn check(id: &str, tier: Tier) -> i32 {
    let all = defs();
    let Some(def) = all.iter().find(|d| d.id == id) else {
        eprintln!("unknown check {}", id);
        return 2;
    };
    let root = root();
    let seed = seed();
    let t0 = Instant::now();
    let scratch = Scratch::new();
    let limit = match tier {
        Tier::Quick => Duration::from_secs(700),
        Tier::Thorough => Duration::from_secs(def.thorough_s.unwrap_or(600) + 600),
    };
    let listed = frame::load_listed(&root);
    let ran = spawn_worker(id, tier, seed, &scratch.0, None, false, limit);
    let mut fails: Vec<(u64, Fail)> = vec![];
    let mut out = ran.out.clone().unwrap_or(json!({}));
    if let Some(how) = &ran.died {
        // find the case that did it
        let sus: Value = std::fs::read_to_string(scratch.0.join("all.out.json.suspects")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(json!({}));
        let why = sus["why"].as_str().unwrap_or("").to_string();
        let cases: Vec<u64> = sus["cases"].as_array().map(|a| a.iter().filter_map(|c| c.as_u64()).collect()).unwrap_or_default();
        eprintln!("{}: the worker ended abnormally ({}; {}); trying cases {:?} one by one\n{}", id, how, why, cases, tail(&ran.stderr));
        for c in cases {
            let one = spawn_worker(id, tier, seed, &scratch.0, Some(c), false, Duration::from_secs(90));
            match (&one.died, &one.out) {
                (Some(h), _) => {
                    let sus: Value = std::fs::read_to_string(scratch.0.join(format!("only{}.out.json.suspects", c))).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(json!({}));
                    let w = sus["why"].as_str().unwrap_or("").to_string();
                    fails.push((c, Fail { key: format!("died: {}", h), what: format!("the process running this case ended abnormally: {} ({}) {}", h, w, tail(&one.stderr)) }));
                }
                (None, Some(o)) => {
                    for f in o["fails"].as_array().into_iter().flatten() {
                        fails.push((c, Fail { key: f["key"].as_str().unwrap_or("").into(), what: f["what"].as_str().unwrap_or("").into() }));
                    }
                }
                _ => {}
            }
            if !fails.is_empty() {
                break;
            }
        }
        if fails.is_empty() {
            let memory = matches!(ran.signal, Some(s) if s == libc::SIGSEGV || s == libc::SIGABRT || s == libc::SIGBUS || s == libc::SIGILL);
            if memory || why.contains("background thread") {
                fails.push((0, Fail { key: format!("died: {}", how), what: format!("{} ({}) {}", how, why, tail(&ran.stderr)) }));
            } else {
                eprintln!("{}: no answer: the worker ended abnormally ({}) and no single case reproduces it", id, how);
                return 2;
            }
        }
        out = json!({"evaluations": 0, "distinct": 0, "counters": {}, "samples": [], "cases": 0, "complete": false});
    } else {
        for f in out["fails"].as_array().into_iter().flatten() {
            fails.push((f["idx"].as_u64().unwrap_or(0), Fail { key: f["key"].as_str().unwrap_or("").into(), what: f["what"].as_str().unwrap_or("").into() }));
        }
    }
    // the same workload once more in the sanitized build
    let mut sanitizer = Value::Null;
    let mut report_text = None;
    if let (Some(exe), None) = (std::env::var_os("KVMON_TSAN_EXE"), &ran.died) {
        let san = Sanitized { exe: exe.into(), few: tier == Tier::Quick, reports: scratch.0.join("tsan-report") };
        let s = spawn_worker_in(Some(&san), id, Tier::Quick, seed.wrapping_add(if tier == Tier::Quick { 0 } else { 1000 }), &scratch.0, None, false, Duration::from_secs(900));
        let text: String = std::fs::read_dir(&scratch.0).into_iter().flatten().flatten().filter(|e| e.file_name().to_string_lossy().starts_with("tsan-report")).filter_map(|e| std::fs::read_to_string(e.path()).ok()).collect();
        let reports = text.matches("WARNING: ThreadSanitizer").count();
        let o = s.out.clone().unwrap_or(json!({}));
        sanitizer = json!({"name": "ThreadSanitizer (klavier-core, serdo, rusqlite, SQLite and std instrumented)", "cases_run": o["cases"], "evaluations": o["evaluations"], "observed": o["counters"], "reports": reports});
        if reports > 0 {
            let first: String = text.lines().take(60).collect::<Vec<_>>().join("\n");
            let place = text.lines().find_map(|l| l.strip_prefix("SUMMARY: ThreadSanitizer: ")).unwrap_or("a report").to_string();
            fails.push((0, Fail { key: format!("tsan: {}", place), what: format!("ThreadSanitizer reports: {}", place) }));
            report_text = Some(first);
        }
        for f in o["fails"].as_array().into_iter().flatten() {
            fails.push((f["idx"].as_u64().unwrap_or(0), Fail { key: f["key"].as_str().unwrap_or("").into(), what: f["what"].as_str().unwrap_or("").into() }));
        }
        if s.out.is_none() && reports == 0 {
            // the monitors' own run above has answered; the evidence says that this one did not
            eprintln!("{}: the sanitized run gave no answer ({})\n{}", id, s.died.clone().unwrap_or_default(), tail(&s.stderr));
            sanitizer = json!({"no_answer": s.died.unwrap_or_default()});
        }
    }
    let mut new_fails = vec![];
    for (i, f) in fails {
        if !listed.iter().any(|l| l.property == id && l.key == f.key) {
            new_fails.push((i, f));
        }
    }
    for l in listed.iter().filter(|l| l.property == id) {
        println!("KNOWN-FINDING: property={} {}", id, l.what);
    }
    // replay files
    let evdir = root.join("evidence");
    let _ = std::fs::create_dir_all(evdir.join("replays"));
    let mut lines = vec![];
    for (i, f) in new_fails.iter().take(1) {
        let one = spawn_worker(id, tier, seed, &scratch.0, Some(*i), true, Duration::from_secs(100));
        let mut trace: Vec<String> = one.out.as_ref().and_then(|o| o["trace"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect())).unwrap_or_default();
        if trace.is_empty() {
            trace.push("(the case could not be run to its end again)".into());
        }
        if let (true, Some(t)) = (f.key.starts_with("tsan"), &report_text) {
            trace = t.lines().map(String::from).collect();
        }
        let file = evdir.join("replays").join(format!("{}-{}.json", id, i));
        let v = json!({"property": id, "seed": seed, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "case": i, "key": f.key, "what": f.what,
            "how": format!("/verif/replay.sh {}", file.display()), "trace": trace});
        let _ = std::fs::write(&file, serde_json::to_string_pretty(&v).unwrap());
        lines.push(format!("VIOLATION property={} replay={}", id, file.display()));
        println!("{}: {}", f.key, f.what);
    }
    let mut cov = json!({
        "evaluations": out["evaluations"], "distinct_nontrivial": out["distinct"], "rule": def.rule,
        "samples": out["samples"], "cases_run": out["cases"], "observed": out["counters"],
    });
    if def.finite.is_some() {
        cov["exhaustive"] = json!(out["complete"].as_bool().unwrap_or(false) && new_fails.is_empty());
    }
    if !sanitizer.is_null() {
        cov["sanitizer"] = sanitizer;
    }
    if out["complete"].as_bool() == Some(false) && ran.died.is_none() {
        cov["cut_short_by_time"] = json!(true);
    }
    let ev = json!({
        "property": id, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "seed": seed,
        "level": if id == "C04" { "fault_enumeration" } else { "exploration" },
        "coverage": cov, "assumptions": def.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": new_fails.len(),
    });
    if std::fs::write(evdir.join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        eprintln!("cannot write the evidence file");
        return 2;
    }
    println!("{} {}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s", id, if tier == Tier::Quick { "quick" } else { "thorough" }, out["cases"], out["evaluations"], out["distinct"], t0.elapsed().as_secs_f64());
    for l in &lines {
        println!("{}", l);
    }
    if lines.is_empty() {
        0
    } else {
        1
    }
}

fn tail(s: &str) -> String {
    let n = s.len().saturating_sub(1500);
    let mut i = n;
    while !s.is_char_boundary(i) {
        i += 1;
    }
    s[i..].to_string()
}

fn replay(file: &str) -> i32 {
    let Some(v): Option<Value> = std::fs::read_to_string(file).ok().and_then(|t| serde_json::from_str(&t).ok()) else {
        eprintln!("cannot read {}", file);
        return 2;
    };
    let id = v["property"].as_str().unwrap().to_string();
    let tier = parse_tier(v["tier"].as_str().unwrap_or("quick"));
    let scratch = Scratch::new();
    let one = spawn_worker(&id, tier, v["seed"].as_u64().unwrap(), &scratch.0, v["case"].as_u64(), true, Duration::from_secs(120));
    match (one.died, one.out) {
        (Some(h), _) => {
            println!("the case's process ended abnormally: {}\n{}", h, tail(&one.stderr));
            1
        }
        (None, Some(o)) => {
            for l in o["trace"].as_array().into_iter().flatten() {
                println!("{}", l.as_str().unwrap_or(""));
            }
            let fails = o["fails"].as_array().cloned().unwrap_or_default();
            for f in &fails {
                println!("FAILS {}: {}", f["key"].as_str().unwrap_or(""), f["what"].as_str().unwrap_or(""));
            }
            if fails.is_empty() {
                println!("holds on this tree");
                0
            } else {
                1
            }
        }
        _ => 2,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(&args[2..]),
        Some("crash-child") => session::crash_child(&args[2..]),
        Some("check") => check(&args[2], parse_tier(args.get(3).map(|s| s.as_str()).unwrap_or("quick"))),
        Some("replay") => replay(&args[2]),
        Some("ids") => {
            for d in defs() {
                println!("{}", d.id);
            }
            0
        }
        _ => {
            eprintln!("usage: kvmon check ID TIER | replay FILE | ids");
            2
        }
    };
    std::process::exit(code);
}
