//! The explorer: runs every index of every family of a check on all cores, catches crashes and hangs,
//! counts what was covered, and reports the simplest violation found.

use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    pub case: Value,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(msg: impl Into<String>, case: Value) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), case })
}

/// Hash values are stored as they are.
#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
}
pub type HashIds = HashSet<u64, BuildHasherDefault<IdHasher>>;

pub fn hash_of(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

const DISTINCT_CAP: usize = 4_000_000; // per worker

#[derive(Default)]
pub struct Ctx {
    /// executions of the code under test
    pub exec: u64,
    distinct: HashIds,
    outcomes: HashIds,
    /// reference model exploration
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub extra: BTreeMap<String, u64>,
    samples: Vec<Value>,
    sample_now: bool,
}

impl Ctx {
    /// Record one distinct, non-trivial case (by its full content).
    pub fn nontrivial(&mut self, case: &impl Hash) {
        if self.distinct.len() < DISTINCT_CAP {
            self.distinct.insert(hash_of(case));
        }
    }
    /// Record an observed outcome, to see that the runs do not all do the same thing.
    pub fn outcome(&mut self, o: &impl Hash) {
        if self.outcomes.len() < DISTINCT_CAP {
            self.outcomes.insert(hash_of(o));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.sample_now && self.samples.len() < 12 {
            self.sample_now = false;
            let v = f();
            let t = v.to_string();
            // large cases are shown in part
            self.samples.push(if t.len() <= 6000 { v } else { Value::String(t.chars().take(2000).chain(" ...".chars()).collect()) });
        }
    }
    pub fn count(&mut self, what: &str, n: u64) {
        if let Some(c) = self.extra.get_mut(what) {
            *c += n;
        } else {
            self.extra.insert(what.to_string(), n);
        }
    }
}

pub struct Family {
    pub name: String,
    pub bound: String,
    pub len: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> R + Sync + Send>,
}

pub fn family(
    name: impl Into<String>,
    bound: impl Into<String>,
    len: u64,
    run: impl Fn(u64, &mut Ctx) -> R + Sync + Send + 'static,
) -> Family {
    Family { name: name.into(), bound: bound.into(), len, run: Box::new(run) }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub families: Vec<Family>,
}

pub struct Found {
    pub family: usize,
    pub index: u64,
    pub fail: Fail,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let what = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let at = info.location().map_or("?".to_string(), |l| format!("{}:{}", l.file(), l.line()));
        PANIC.with(|p| *p.borrow_mut() = format!("panic at {at}: {what}"));
    }));
}

pub fn run_one(f: &Family, idx: u64, ctx: &mut Ctx) -> R {
    LAST_CASE.with(|c| c.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(|| (f.run)(idx, ctx))) {
        Ok(r) => r,
        Err(_) => fail(
            PANIC.with(|p| p.borrow().clone()),
            json!(LAST_CASE.with(|c| c.borrow().clone())),
        ),
    }
}

thread_local! {
    static LAST_CASE: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Only used when replaying: leaves a description of the case in hand for a crash report.
pub fn note_case(f: impl FnOnce() -> String) {
    if REPLAYING.load(Relaxed) {
        LAST_CASE.with(|c| *c.borrow_mut() = f());
    }
}
pub static REPLAYING: AtomicBool = AtomicBool::new(false);

pub struct Outcome {
    pub found: Option<Found>,
    pub evidence: Map<String, Value>,
    pub known: Vec<String>,
}

pub struct Limits {
    pub threads: usize,
    pub wall: Duration,
    pub hang: Duration,
    /// when set, every worker writes the case it works on to a file, to locate crashes of the process
    pub trace: Option<String>,
    pub known: Vec<String>,
}

thread_local! {
    static BEAT: std::cell::RefCell<Option<std::sync::Arc<AtomicU64>>> = const { std::cell::RefCell::new(None) };
}

/// Tells the watchdog that a case of many steps goes on.
pub fn beat() {
    BEAT.with_borrow(|b| {
        if let Some(b) = b {
            b.fetch_add(1, Relaxed);
        }
    });
}

pub fn explore(check: &Check, limits: &Limits) -> Outcome {
    let start = Instant::now();
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(usize, u64, Fail)>> = Mutex::new(None);
    let known_hits: Mutex<Vec<String>> = Mutex::new(vec![]);
    let mut per_family = vec![];
    let mut total = Ctx::default();
    let mut capped = false;
    let mut cases_total = 0u64;

    for (fi, fam) in check.families.iter().enumerate() {
        if stop.load(Relaxed) {
            break;
        }
        let fam_start = Instant::now();
        let chunk = (fam.len / (limits.threads as u64 * 64)).clamp(1, 2048);
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let current: Vec<AtomicU64> = (0..limits.threads).map(|_| AtomicU64::new(u64::MAX)).collect();
        let beats: Vec<std::sync::Arc<AtomicU64>> = current.iter().map(|_| Default::default()).collect();
        let finished = AtomicU64::new(0);
        let out: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
        let sample_every = (fam.len / 3).max(1);
        std::thread::scope(|scope| {
            for w in 0..limits.threads {
                let beats = beats[w].clone();
                let (next, done, current, out, stop, found, finished, known_hits) =
                    (&next, &done, &current, &out, &stop, &found, &finished, &known_hits);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || {
                        let mut ctx = Ctx::default();
                        BEAT.set(Some(beats));
                        let trace = limits.trace.as_ref().map(|d| {
                            std::fs::File::create(format!("{d}/{w}")).expect("trace file")
                        });
                        'outer: loop {
                            let from = next.fetch_add(chunk, Relaxed);
                            if from >= fam.len || stop.load(Relaxed) {
                                break;
                            }
                            for idx in from..(from + chunk).min(fam.len) {
                                current[w].store(idx, Relaxed);
                                if let Some(t) = &trace {
                                    use std::os::unix::fs::FileExt;
                                    let _ = t.write_at(format!("{fi} {idx:20}\n").as_bytes(), 0);
                                }
                                ctx.sample_now = idx % sample_every == sample_every / 2;
                                match run_one(fam, idx, &mut ctx) {
                                    Ok(()) => {
                                        done.fetch_add(1, Relaxed);
                                    }
                                    Err(f) => {
                                        let key = format!("{} {} {}", check.id, fam.name, f.case);
                                        if let Some(k) = limits.known.iter().find(|k| **k == key) {
                                            done.fetch_add(1, Relaxed);
                                            known_hits.lock().unwrap().push(k.clone());
                                            continue;
                                        }
                                        let mut best = found.lock().unwrap();
                                        if best.as_ref().map_or(true, |b| (fi, idx) < (b.0, b.1)) {
                                            *best = Some((fi, idx, f));
                                        }
                                        stop.store(true, Relaxed);
                                        break 'outer;
                                    }
                                }
                            }
                        }
                        current[w].store(u64::MAX, Relaxed);
                        out.lock().unwrap().push(ctx);
                        finished.fetch_add(1, Relaxed);
                    })
                    .expect("spawn");
            }
            // watchdog
            let mut since: Vec<((u64, u64), Instant)> = vec![((u64::MAX, 0), Instant::now()); limits.threads];
            let mut nap = Duration::from_micros(200);
            while finished.load(Relaxed) < limits.threads as u64 {
                std::thread::sleep(nap);
                nap = (nap * 2).min(Duration::from_millis(100));
                if start.elapsed() > limits.wall && !stop.load(Relaxed) {
                    capped = true;
                    stop.store(true, Relaxed);
                }
                for w in 0..limits.threads {
                    let idx = current[w].load(Relaxed);
                    let now = (idx, beats[w].load(Relaxed));
                    if now != since[w].0 {
                        since[w] = (now, Instant::now());
                    } else if idx != u64::MAX && since[w].1.elapsed() > limits.hang {
                        // The thread cannot be stopped: report from here and end the process.
                        println!("MC-HANG {} {}", fi, idx);
                        use std::io::Write;
                        let _ = std::io::stdout().flush();
                        std::process::exit(4);
                    }
                }
            }
        });
        for c in out.into_inner().unwrap() {
            total.exec += c.exec;
            total.states += c.states;
            total.transitions += c.transitions;
            total.traces += c.traces;
            total.distinct.extend(c.distinct);
            total.outcomes.extend(c.outcomes);
            for (k, v) in c.extra {
                *total.extra.entry(k).or_default() += v;
            }
            for s in c.samples {
                if total.samples.len() < 12 {
                    total.samples.push(s);
                }
            }
        }
        let done = done.load(Relaxed);
        cases_total += done;
        per_family.push(json!({
            "family": fam.name, "bound": fam.bound, "size": fam.len, "explored": done,
            "complete": done == fam.len, "wall_s": (fam_start.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
        }));
    }
    let found = found.into_inner().unwrap();
    let mut ev = Map::new();
    ev.insert("rule".into(), json!(check.rule));
    ev.insert("cases".into(), json!(cases_total));
    ev.insert("evaluations".into(), json!(total.exec));
    ev.insert("distinct_nontrivial".into(), json!(total.distinct.len()));
    ev.insert("distinct_outcomes".into(), json!(total.outcomes.len()));
    ev.insert("samples".into(), json!(total.samples));
    ev.insert("families".into(), json!(per_family));
    ev.insert("exhaustive".into(), json!(!capped && found.is_none()));
    if total.states > 0 {
        ev.insert("states".into(), json!(total.states));
        ev.insert("transitions".into(), json!(total.transitions));
        ev.insert("traces_validated_against_impl".into(), json!(total.traces));
    }
    for (k, v) in &total.extra {
        ev.insert(k.clone(), json!(v));
    }
    let mut known = known_hits.into_inner().unwrap();
    known.sort();
    known.dedup();
    Outcome {
        found: found.map(|(fi, index, fail)| Found { family: fi, index, fail }),
        evidence: ev,
        known,
    }
}
