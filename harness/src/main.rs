//! mc: bounded exhaustive exploration of rs_diff_patch.
//!
//!   mc check ID            decide one property (tier from VERIF_TIER), write evidence, report
//!   mc replay FILE         run one recorded case again
//!   mc list                the checks and the sizes of their families
//!   mc worker / mc case    used by `check`

mod bytes;
mod cli;
mod common;
mod cub;
mod engine;
mod env;
mod faults;
mod files;
mod gen;
mod io;
mod model;
mod procs;
mod races;
mod orders;
mod says;
mod special;
mod text;

use engine::*;
use serde_json::{json, Map, Value};
use std::io::Read;
use std::process::{Command, ExitCode, Stdio};
use std::time::{Duration, Instant};

use procs::ROOT;

fn check(id: &str, thorough: bool) -> Option<Check> {
    Some(match id {
        "C01" => text::c01(thorough),
        "C02" => text::c02(thorough),
        "C03" => text::c03(thorough),
        "C04" => text::c04(thorough),
        "C05" => text::c05(thorough),
        "C06" => text::c06(thorough),
        "C07" => bytes::c07(thorough),
        "C14" => bytes::c14(thorough),
        "C31" => bytes::c31(thorough),
        "C32" => says::c32(thorough),
        "C33" => orders::c33(thorough),
        "C15" => files::c15(thorough),
        "C16" => files::c16(thorough),
        "C17" => cli::c17(thorough),
        "C18" => faults::c18(thorough),
        "C19" => faults::c19(thorough),
        "C20" => faults::c20(thorough),
        "C29" => env::c29(thorough),
        "C30" => races::c30(thorough),
        "C26" => cli::c26(thorough),
        "C27" => cli::c27(thorough),
        "C28" => cli::c28(thorough),
        "C21" => cub::c21(thorough),
        "C22" => cub::c22(thorough),
        "C23" => cub::c23(thorough),
        "C24" => io::c24(thorough),
        "C25" => io::c25(thorough),
        "C08" => text::c08(thorough),
        "C09" => text::c09(thorough),
        "C10" => text::c10(thorough),
        "C11" => text::c11(thorough),
        "C12" => text::c12(thorough),
        "C13" => text::c13(thorough),
        _ => return None,
    })
}

const IDS: [&str; 33] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32",
    "C33",
];

fn env_or(name: &str, default: &str) -> String {
    std::env::var(name).ok().filter(|s| !s.is_empty()).unwrap_or_else(|| default.to_string())
}

/// Known findings: lines `open: property=<id> case=<check family case>`; anything else is prose.
fn known_findings(id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(format!("{ROOT}/KNOWN_FINDINGS.txt")).unwrap_or_default();
    let prefix = format!("open: property={id} case=");
    text.lines().filter_map(|l| l.strip_prefix(&prefix)).map(|s| s.to_string()).collect()
}

fn die(msg: String) -> ExitCode {
    eprintln!("mc: error of the check itself: {msg}");
    ExitCode::from(3)
}

/// Runs this program again as a child under a memory limit. Returns (exit code or None, stdout, timed out).
fn child(args: &[String], mem_gb: u64, timeout: Option<Duration>) -> std::io::Result<(Option<i32>, String, bool)> {
    let exe = std::env::current_exe()?;
    let mut c = Command::new("sh")
        .arg("-c")
        .arg(format!("ulimit -v {}; exec \"$0\" \"$@\"", mem_gb << 20))
        .arg(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .spawn()?;
    let mut out = c.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        s
    });
    let start = Instant::now();
    let mut timed_out = false;
    let status = loop {
        if let Some(s) = c.try_wait()? {
            break s;
        }
        if timeout.map_or(false, |t| start.elapsed() > t) {
            timed_out = true;
            let _ = c.kill();
            break c.wait()?;
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    Ok((status.code(), reader.join().unwrap_or_default(), timed_out))
}

fn scratch_base() -> String {
    for d in ["/dev/shm", "/tmp"] {
        let p = format!("{d}/mc.{}", std::process::id());
        if std::fs::create_dir(&p).is_ok() {
            return p;
        }
    }
    panic!("no place for scratch files");
}

/// The scratch directories of a run: removed when it ends.
struct Scratch(String, Option<String>);
impl Scratch {
    fn new() -> Self {
        let a = scratch_base();
        let b = format!("/tmp/mc2.{}", std::process::id());
        let b = std::fs::create_dir(&b).is_ok().then_some(b);
        std::env::set_var("MC_SCRATCH", &a);
        if let Some(b) = &b {
            std::env::set_var("MC_SCRATCH2", b);
        }
        Scratch(a, b)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
        if let Some(b) = &self.1 {
            let _ = std::fs::remove_dir_all(b);
        }
    }
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["check", id] => run_check(id),
        ["worker", id, tier, result, hang, trace] => worker(id, tier, result, hang, trace),
        ["case", id, tier, fam, idx] => one_case(id, tier, fam, idx),
        ["replay", file] => replay(file),
        ["list"] => {
            for id in IDS {
                for t in [false, true] {
                    if let Some(c) = check(id, t) {
                        for f in c.families {
                            println!("{id} {} {:>12}  {}: {}", if t { "thorough" } else { "quick   " }, f.len, f.name, f.bound);
                        }
                    }
                }
            }
            ExitCode::SUCCESS
        }
        _ => die("usage: mc check ID | mc replay FILE | mc list".into()),
    }
}

fn worker(id: &str, tier: &str, result: &str, hang: &str, trace: &str) -> ExitCode {
    install_panic_hook();
    let Some(check) = check(id, tier == "thorough") else { return die(format!("no check {id}")) };
    let wall = env_or("MC_WALL", if tier == "thorough" { "3000" } else { "150" }).parse().unwrap_or(150);
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let out = explore(
        &check,
        &Limits {
            threads: env_or("MC_THREADS", &threads.to_string()).parse().unwrap_or(threads),
            wall: Duration::from_secs(wall),
            hang: Duration::from_secs(hang.parse().unwrap_or(20)),
            trace: (trace != "-").then(|| trace.to_string()),
            known: known_findings(id),
        },
    );
    let found = out.found.map(|f| json!({"family": f.family, "index": f.index, "message": f.fail.msg, "case": f.fail.case}));
    let v = json!({"found": found, "coverage": out.evidence, "known": out.known, "level": check.level, "assumptions": check.assumptions});
    match std::fs::write(result, v.to_string()) {
        Ok(()) => ExitCode::SUCCESS,
        Err(e) => die(format!("{result}: {e}")),
    }
}

fn one_case(id: &str, tier: &str, fam: &str, idx: &str) -> ExitCode {
    install_panic_hook();
    REPLAYING.store(true, std::sync::atomic::Ordering::Relaxed);
    let Some(check) = check(id, tier == "thorough") else { return die(format!("no check {id}")) };
    let fam: usize = fam.parse().unwrap();
    let mut own = None;
    if std::env::var("MC_SCRATCH").is_err() {
        own = Some(Scratch::new());
    }
    let r = run_one(&check.families[fam], idx.parse().unwrap(), &mut Ctx::default());
    drop(own);
    match r {
        Ok(()) => {
            println!("{}", json!({"ok": true}));
            ExitCode::SUCCESS
        }
        Err(f) => {
            println!("{}", json!({"ok": false, "message": f.msg, "case": f.case}));
            ExitCode::from(1)
        }
    }
}

fn replay(file: &str) -> ExitCode {
    let Ok(text) = std::fs::read_to_string(file) else { return die(format!("cannot read {file}")) };
    let Ok(v) = serde_json::from_str::<Value>(&text) else { return die(format!("{file} is not a replay file")) };
    let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
    println!("{}: {}", s("property"), s("family"));
    let args = ["case".to_string(), s("property"), s("tier"), v["family_number"].to_string(), v["index"].to_string()];
    match child(&args, 8, Some(Duration::from_secs(60))) {
        Ok((code, out, timed_out)) => {
            print!("{out}");
            if timed_out {
                println!("no end within 60 s");
            }
            if code == Some(0) {
                println!("the case passes");
                ExitCode::SUCCESS
            } else {
                println!("the case fails");
                ExitCode::from(1)
            }
        }
        Err(e) => die(e.to_string()),
    }
}

fn run_check(id: &str) -> ExitCode {
    let start = Instant::now();
    let tier = env_or("VERIF_TIER", "quick");
    let seed: i64 = env_or("VERIF_SEED", "1").parse().unwrap_or(1);
    let Some(c) = check(id, tier == "thorough") else { return die(format!("no check {id}")) };
    let scratch = Scratch::new();
    let _ = std::fs::create_dir_all(format!("{ROOT}/evidence"));
    let _ = std::fs::create_dir_all(format!("{ROOT}/replays"));
    let evidence_path = format!("{ROOT}/evidence/{id}.json");
    let _ = std::fs::remove_file(&evidence_path);
    let result = format!("{}/result", scratch.0);
    let trace = format!("{}/trace", scratch.0);

    // (family, index, message, case)
    let mut found: Option<(usize, u64, String, Value)> = None;
    let mut coverage = Map::new();
    let mut known: Vec<String> = vec![];
    let mut hang_limit = 20;
    let mut tracing = false;
    for attempt in 0.. {
        let tr = if tracing { trace.clone() } else { "-".to_string() };
        let args: Vec<String> = ["worker", id, &tier, &result, &hang_limit.to_string(), &tr].iter().map(|s| s.to_string()).collect();
        let (code, out, _) = match child(&args, 24, None) {
            Ok(x) => x,
            Err(e) => return die(e.to_string()),
        };
        if code == Some(0) {
            let Some(v) = std::fs::read_to_string(&result).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) else {
                return die("the worker left no result".into());
            };
            coverage = v["coverage"].as_object().cloned().unwrap_or_default();
            known = v["known"].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
            if !v["found"].is_null() {
                let f = &v["found"];
                let (fam, idx) = (f["family"].as_u64().unwrap(), f["index"].as_u64().unwrap());
                let mut what = f.clone();
                if f["case"] == json!("") {
                    // a crash inside the code under test: run it again with a description of the case at hand
                    let args = ["case".to_string(), id.to_string(), tier.clone(), fam.to_string(), idx.to_string()];
                    if let Ok((Some(1), out, false)) = child(&args, 8, Some(Duration::from_secs(60))) {
                        what = serde_json::from_str(&out).unwrap_or(what);
                    }
                }
                found = Some((fam as usize, idx, what["message"].as_str().unwrap_or("").to_string(), what["case"].clone()));
            }
            break;
        }
        if code == Some(3) {
            return ExitCode::from(3);
        }
        // A hang, or the death of the process: find the case and see whether it does it again on its own.
        let mut suspects: Vec<(usize, u64)> = vec![];
        if code == Some(4) {
            for l in out.lines() {
                if let ["MC-HANG", f, i] = l.split_whitespace().collect::<Vec<_>>()[..] {
                    suspects.push((f.parse().unwrap(), i.parse().unwrap()));
                }
            }
        } else if tracing {
            for e in std::fs::read_dir(&trace).into_iter().flatten().flatten() {
                let t = std::fs::read_to_string(e.path()).unwrap_or_default();
                if let [f, i] = t.split_whitespace().collect::<Vec<_>>()[..] {
                    suspects.push((f.parse().unwrap(), i.parse().unwrap()));
                }
            }
        }
        for (f, i) in suspects {
            let args = ["case".to_string(), id.to_string(), tier.clone(), f.to_string(), i.to_string()];
            match child(&args, 8, Some(Duration::from_secs(240))) {
                Ok((_, _, true)) => found = Some((f, i, "does not end within 240 s".into(), Value::Null)),
                Ok((Some(0), _, _)) | Ok((Some(3), _, _)) => (),
                Ok((Some(1), out, _)) => {
                    let v: Value = serde_json::from_str(&out).unwrap_or_default();
                    found = Some((f, i, v["message"].as_str().unwrap_or("").to_string(), v["case"].clone()))
                }
                Ok((code, _, _)) => {
                    found = Some((f, i, format!("the process dies (exit {code:?}; abort, stack overflow or out of memory)"), Value::Null))
                }
                Err(e) => return die(e.to_string()),
            }
            if found.is_some() {
                break;
            }
        }
        if found.is_some() {
            coverage.insert("rule".into(), json!(c.rule));
            coverage.insert("evaluations".into(), json!(1));
            coverage.insert("distinct_nontrivial".into(), json!(1));
            coverage.insert("samples".into(), json!([]));
            if c.level == "model_checking" {
                for k in ["states", "transitions", "traces_validated_against_impl"] {
                    coverage.insert(k.into(), json!(1));
                }
            }
            break;
        }
        if attempt >= 2 {
            return die(format!("the worker ended with {code:?}, and no single case explains it"));
        }
        hang_limit = 120;
        tracing = true;
        let _ = std::fs::create_dir_all(&trace);
    }

    let violations = found.is_some() as u32;
    let mut replay_path = String::new();
    if let Some((f, i, msg, case)) = &found {
        replay_path = format!("{ROOT}/replays/{id}-{tier}.json");
        let v = json!({
            "property": id, "tier": tier, "family": c.families[*f].name, "family_number": f, "index": i,
            "message": msg, "case": case, "how": "harness/target/release/mc replay <this file>",
        });
        if let Err(e) = std::fs::write(&replay_path, serde_json::to_string_pretty(&v).unwrap()) {
            return die(format!("{replay_path}: {e}"));
        }
        coverage.insert("violation".into(), v);
    }
    if let Ok(note) = std::env::var("MC_NOTE") {
        coverage.insert("also_explored".into(), json!(note));
    }
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": c.level, "coverage": coverage,
        "assumptions": c.assumptions, "wall_s": start.elapsed().as_secs_f64(), "violations": violations,
    });
    if let Err(e) = std::fs::write(&evidence_path, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        return die(format!("{evidence_path}: {e}"));
    }
    for k in &known {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    println!(
        "{id} {tier}: {} cases, {} executions, {} distinct non-trivial, {} outcomes, exhaustive={}, {:.1} s",
        coverage.get("cases").unwrap_or(&json!(0)), coverage.get("evaluations").unwrap_or(&json!(0)),
        coverage.get("distinct_nontrivial").unwrap_or(&json!(0)), coverage.get("distinct_outcomes").unwrap_or(&json!(0)),
        coverage.get("exhaustive").unwrap_or(&json!(false)), start.elapsed().as_secs_f64(),
    );
    match found {
        None => ExitCode::SUCCESS,
        Some((f, i, msg, case)) => {
            println!("family {:?} case {i}: {msg}", c.families[f].name);
            println!("{case}");
            let p = std::fs::canonicalize(&replay_path).map(|p| p.display().to_string()).unwrap_or(replay_path);
            println!("VIOLATION property={id} replay={p}");
            ExitCode::from(1)
        }
    }
}
