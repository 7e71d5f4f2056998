//! Checks of the two programs under faults: C18, C19 and C20. Every system call of a run, from the first that
//! concerns a file, is a point at which each fault of its kind is injected in turn (tracer/faultrun.c).

use crate::common::*;
use crate::engine::*;
use crate::gen::digits;
use crate::procs::*;
use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
use pw_diff_lib::diff::Diff;
use pw_diff_lib::sequence::Seq;
use serde_json::{json, Value};
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::{Arc, OnceLock};

fn tracer() -> PathBuf {
    std::env::var("MC_TRACER").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from(format!("{ROOT}/target/faultrun")))
}

#[derive(Clone, Debug)]
struct Point {
    name: String,
    count: i64,
    path: String,
}

#[derive(Debug, Default)]
struct Traced {
    points: Vec<Point>,
    code: Option<i32>,
    signal: Option<i32>,
    slow: bool,
    made: bool,
    out: Vec<u8>,
}

impl Traced {
    fn show(&self) -> String {
        match (self.slow, self.code, self.signal) {
            (true, ..) => "no end within 60 s".into(),
            (_, Some(c), _) => format!("exit status {c}"),
            (_, _, s) => format!("killed by signal {}", s.unwrap_or(0)),
        }
    }
}

fn traced(prog: &str, args: &[String], cwd: &Path, to: Option<&Path>, faults: &[(usize, String)]) -> Traced {
    let log = beside("log");
    let _ = fs::remove_file(&log);
    let mut a: Vec<String> = vec!["--log".into(), log.display().to_string(), "--root".into(), std::env::var("MC_SCRATCH").expect("MC_SCRATCH")];
    for (k, f) in faults {
        a.push("--fault".into());
        a.push(format!("{k}:{f}"));
    }
    a.push("--".into());
    a.push(bin(prog).display().to_string());
    a.extend(args.iter().cloned());
    let a: Vec<&std::ffi::OsStr> = a.iter().map(|s| os(s)).collect();
    let r = run(&tracer(), &a, cwd, to);
    let mut t = Traced { slow: r.slow, out: r.out.clone(), ..Traced::default() };
    for l in String::from_utf8_lossy(&fs::read(&log).unwrap_or_default()).lines() {
        let mut w = l.splitn(4, ' ');
        let first = w.next().unwrap_or("");
        match first {
            "exit" => t.code = w.next().and_then(|c| c.parse().ok()),
            "signal" => t.signal = w.next().and_then(|c| c.parse().ok()),
            "made" => t.made = true,
            _ => t.points.push(Point {
                name: w.next().unwrap_or("").to_string(),
                count: w.next().and_then(|c| c.parse().ok()).unwrap_or(-1),
                path: w.next().unwrap_or("").to_string(),
            }),
        }
    }
    if !t.slow && (r.code != Some(0) || (t.code.is_none() && t.signal.is_none())) {
        // not a finding about the programs
        eprintln!("mc: the tracer failed: {r:?}");
        std::process::exit(3);
    }
    if listening() && !t.slow {
        let at = |k: usize| t.points.get(k).map_or(("", ""), |p| (&p.name[..], &p.path[..]));
        let mute = faults.iter().any(|(k, f)| at(*k).1 == "fd2" || (at(*k).0.contains("write") && f.starts_with(['E', 'S'])));
        let how: Vec<String> = faults.iter().map(|(k, f)| format!("call {k} ({} {}): {f}", at(*k).0, at(*k).1)).collect();
        heard(prog, args, t.code, &t.out, &how, mute);
    }
    t
}

/// The runs of the three properties above, for what they say (C32).
pub fn spoken_under_faults(thorough: bool) -> Vec<Family> {
    let mut v = vec![single_faults(in_place(true), thorough), single_faults(add_remove(if thorough { &[0, 1, 2, 4, 5, 7] } else { &[0, 1] }, &[0]), thorough)];
    v.push(single_faults(compares(true).into_iter().filter(|s| thorough || s.name() != "large").collect(), thorough));
    for (f, n) in v.iter_mut().zip(["changes", "additions and removals", "comparisons"]) {
        f.name = format!("every fault at every system call: {n}");
    }
    v
}

const EINTR: i32 = 4;

/// The ways in which the call at a point can go wrong.
fn kinds(p: &Point, thorough: bool) -> Vec<String> {
    let e = |v: &[i32]| v.iter().map(|n| format!("e{n}")).collect::<Vec<_>>();
    let mut out = match p.name.as_str() {
        "open" | "openat" | "openat2" | "creat" => e(&[13, 2, 5, 24, 28, EINTR, 17, 30]).into_iter().chain(["E13".to_string(), "E24".into()]).collect(),
        "read" | "pread" | "readv" => e(&[5, EINTR]).into_iter().chain(["E5".to_string()]).collect(),
        "write" | "pwrite" | "writev" => e(&[5, 28, EINTR, 32]).into_iter().chain(["z".to_string(), "E28".into(), "E5".into()]).collect(),
        "copy_file_range" | "sendfile" | "splice" => e(&[5, 28, EINTR, 18, 22, 38]),
        "close" => e(&[5, EINTR]),
        "rename" | "renameat" | "renameat2" => e(&[5, 13, 18, 16, 28, EINTR]).into_iter().chain(["E18".to_string(), "E13".into()]).collect(),
        "unlink" | "unlinkat" | "rmdir" => e(&[13, 5, 16, 2, EINTR]),
        "stat" | "lstat" | "fstat" | "newfstatat" | "statx" => e(&[5, 13]).into_iter().chain(["E5".to_string(), "E13".into()]).collect(),
        "access" | "faccessat" | "faccessat2" | "readlink" | "readlinkat" | "getdents" | "getcwd" | "lseek" => e(&[5, 13]),
        "chmod" | "fchmod" | "fchmodat" | "chown" | "fchown" | "fchownat" | "lchown" | "utimensat" => e(&[1, 5, 30]),
        "truncate" | "ftruncate" | "fallocate" | "fsync" | "fdatasync" | "link" | "linkat" | "symlink" | "symlinkat" | "mkdir" | "mkdirat" => {
            e(&[5, 28, EINTR, 13])
        }
        "mmap" | "mremap" | "brk" => e(&[12]),
        _ => vec![],
    };
    if p.count > 1 {
        let mut at = vec![1];
        if p.count > 3 {
            at.push(p.count / 2);
        }
        if thorough && p.count > 4 {
            at.push(p.count - 1);
        }
        let transfers = ["write", "pwrite", "copy_file_range", "sendfile", "splice"].contains(&p.name.as_str());
        for n in at {
            out.push(format!("s{n}"));
            if transfers {
                out.push(format!("m{n}"));
            }
        }
        out.push("S1".into());
    }
    out.push("b".into());
    out.push("a".into());
    out
}

fn is_fatal(kind: &str) -> bool {
    matches!(kind.as_bytes()[0], b'b' | b'a' | b'm')
}

/// A selection of them, for pairs of faults.
fn some_kinds(p: &Point) -> Vec<String> {
    let (mut e, mut cut) = (0, 0);
    let mut ks = kinds(p, false);
    ks.retain(|x| match x.as_bytes()[0] {
        b'e' => {
            e += 1;
            e <= 2 || x == "e4"
        }
        b's' => {
            cut += 1;
            cut <= 1
        }
        b'b' => true,
        _ => false,
    });
    ks
}

trait Scenario: Sync + Send {
    fn name(&self) -> String;
    /// lays out the files, runs the program with the faults, and judges the result
    fn go(&self, faults: &[(usize, String)], ctx: &mut Ctx) -> Result<Vec<Point>, Fail>;
    /// other things to try at every point
    fn extra_kinds(&self) -> Vec<String> {
        vec![]
    }
    /// whether a second fault is worth combining with one at this point (reading the patch byte by byte is not)
    fn counts_for_pairs(&self, p: &Point) -> bool {
        !(p.name == "read" && p.count == 1) && !matches!(p.name.as_str(), "mmap" | "munmap" | "brk" | "mremap" | "madvise" | "other" | "fcntl")
    }
}

/// More points than any run has; should one have more, the last index covers the rest.
const MAX_POINTS: u64 = 2000;

fn single_faults(scenarios: Vec<Arc<dyn Scenario>>, thorough: bool) -> Family {
    let n = scenarios.len() as u64;
    let names: Vec<String> = scenarios.iter().map(|s| s.name()).collect();
    let base: Vec<OnceLock<Vec<Point>>> = scenarios.iter().map(|_| OnceLock::new()).collect();
    family(
        "every fault at every system call",
        format!("{n} runs ({}): every system call from the first that names a file of the run; each fails with every error of its kind, is cut short, is interrupted, keeps failing from there on; the process is killed before, after and in the middle of it", names.join("; ")),
        n * MAX_POINTS,
        move |i, ctx| {
            // points first, so that the scenarios are spread over the workers
            let (k, s) = ((i / n) as usize, (i % n) as usize);
            let sc = &scenarios[s];
            let mut result = Ok(());
            let points = base[s].get_or_init(|| match sc.go(&[], ctx) {
                Ok(p) => p,
                Err(f) => {
                    result = Err(f);
                    vec![]
                }
            });
            result?;
            if k == 0 {
                ctx.count("system_calls_in_undisturbed_runs", points.len() as u64);
            }
            let last = if k as u64 + 1 == MAX_POINTS { points.len().max(k + 1) } else { k + 1 };
            for k in k..last {
                let Some(p) = points.get(k) else { break };
                let mut ks = kinds(p, thorough);
                if !thorough && p.name == "read" && p.count == 1 {
                    // A kill here leaves what a kill after the last call that changes something leaves.
                    ks.retain(|k| k.starts_with('e'));
                }
                for kind in ks.into_iter().chain(sc.extra_kinds()) {
                    sc.go(&[(k, kind.clone())], ctx)?;
                    ctx.count(if is_fatal(&kind) { "kills" } else { "faults" }, 1);
                    ctx.nontrivial(&(s, k, &kind));
                }
            }
            Ok(())
        },
    )
}

/// Every error number there is, but for those that are the program's own mistake or, of a look at a file, an answer.
fn other_errors(scenarios: Vec<Arc<dyn Scenario>>) -> Family {
    let n = scenarios.len() as u64;
    let names: Vec<String> = scenarios.iter().map(|s| s.name()).collect();
    let base: Vec<OnceLock<Vec<Point>>> = scenarios.iter().map(|_| OnceLock::new()).collect();
    family(
        "every error number",
        format!("{n} runs ({}): every system call (of those that read the patch byte by byte, the first two and the last two) fails with any error number from 1 to 133 (not EBADF, EFAULT, EINVAL; ENOENT and ENOTDIR only where a file is opened, renamed or removed)", names.join("; ")),
        n * 200,
        move |i, ctx| {
            let (k, s) = ((i / n) as usize, (i % n) as usize);
            let sc = &scenarios[s];
            let mut result = Ok(());
            let points = base[s].get_or_init(|| match sc.go(&[], ctx) {
                Ok(p) => {
                    let single: Vec<usize> = p.iter().enumerate().filter(|(_, p)| p.name == "read" && p.count == 1).map(|p| p.0).collect();
                    let mid = single.get(2..single.len().saturating_sub(2)).unwrap_or_default().to_vec();
                    // what is left out is marked
                    p.into_iter().enumerate().map(|(i, mut p)| {
                        if mid.contains(&i) {
                            p.name.clear();
                        }
                        p
                    }).collect()
                }
                Err(f) => {
                    result = Err(f);
                    vec![]
                }
            });
            result?;
            let left: Vec<usize> = points.iter().enumerate().filter(|(_, p)| kinds(p, false).iter().any(|k| k.starts_with('e')) && !matches!(p.name.as_str(), "mmap" | "mremap" | "brk")).map(|p| p.0).collect();
            let last = if k == 199 { left.len().max(200) } else { k + 1 };
            for at in left.iter().take(last).skip(k) {
                let looks = !["open", "rename", "unlink", "creat"].iter().any(|n| points[*at].name.starts_with(n));
                for e in 1..=133 {
                    if [9, 14, 22].contains(&e) || (looks && [2, 20].contains(&e)) {
                        continue;
                    }
                    sc.go(&[(*at, format!("e{e}"))], ctx)?;
                    ctx.count("faults", 1);
                    ctx.nontrivial(&(s, at, e));
                }
            }
            Ok(())
        },
    )
}

fn double_faults(scenarios: Vec<Arc<dyn Scenario>>, thorough: bool) -> Family {
    let n = scenarios.len() as u64;
    let names: Vec<String> = scenarios.iter().map(|s| s.name()).collect();
    let base: Vec<OnceLock<Vec<(usize, String)>>> = scenarios.iter().map(|_| OnceLock::new()).collect();
    family(
        "two faults",
        format!(
            "{n} runs ({}): every pair of a fault that does not kill at one call (those that read the patch byte by byte left out) and one at any later call of the run that follows{}",
            names.join("; "),
            if thorough { "" } else { " (of each: its first two errors and interruption, one cut, a kill)" }
        ),
        n * MAX_POINTS,
        move |i, ctx| {
            let (j, s) = ((i / n) as usize, (i % n) as usize);
            let sc = &scenarios[s];
            let mut result = Ok(());
            let firsts = base[s].get_or_init(|| match sc.go(&[], ctx) {
                Ok(p) => p
                    .iter()
                    .enumerate()
                    .filter(|(_, p)| sc.counts_for_pairs(p))
                    .flat_map(|(k, p)| if thorough { kinds(p, false) } else { some_kinds(p) }.into_iter().filter(|x| !is_fatal(x)).map(move |x| (k, x)))
                    .collect(),
                Err(f) => {
                    result = Err(f);
                    vec![]
                }
            });
            result?;
            let last = if j as u64 + 1 == MAX_POINTS { firsts.len().max(j + 1) } else { j + 1 };
            for j in j..last {
                let Some(first) = firsts.get(j) else { break };
                let points = sc.go(&[first.clone()], ctx)?;
                for (k, p) in points.iter().enumerate().skip(first.0 + 1) {
                    if !sc.counts_for_pairs(p) {
                        continue;
                    }
                    let ks = if thorough { kinds(p, false) } else { some_kinds(p) };
                    for kind in ks {
                        sc.go(&[first.clone(), (k, kind.clone())], ctx)?;
                        ctx.count("pairs_of_faults", 1);
                        ctx.nontrivial(&(s, first, k, &kind));
                    }
                }
            }
            Ok(())
        },
    )
}

fn cut_then_failing(scenarios: Vec<Arc<dyn Scenario>>) -> Family {
    let n = scenarios.len() as u64;
    let names: Vec<String> = scenarios.iter().map(|s| s.name()).collect();
    let base: Vec<OnceLock<Vec<(usize, String)>>> = scenarios.iter().map(|_| OnceLock::new()).collect();
    family(
        "cut short, and then failing",
        format!("{n} runs ({}): every transfer, cut short in each way; one of the three calls after it fails with each error of its kind", names.join("; ")),
        n * MAX_POINTS,
        move |i, ctx| {
            let (j, s) = ((i / n) as usize, (i % n) as usize);
            let sc = &scenarios[s];
            let mut result = Ok(());
            let firsts = base[s].get_or_init(|| match sc.go(&[], ctx) {
                Ok(p) => p
                    .iter()
                    .enumerate()
                    .flat_map(|(k, p)| kinds(p, false).into_iter().filter(|x| x.starts_with('s')).map(move |x| (k, x)))
                    .collect(),
                Err(f) => {
                    result = Err(f);
                    vec![]
                }
            });
            result?;
            let last = if j as u64 + 1 == MAX_POINTS { firsts.len().max(j + 1) } else { j + 1 };
            for j in j..last {
                let Some(first) = firsts.get(j) else { break };
                let points = sc.go(&[first.clone()], ctx)?;
                for (k, p) in points.iter().enumerate().skip(first.0 + 1).take(3) {
                    for kind in kinds(p, false).into_iter().filter(|x| matches!(x.as_bytes()[0], b'e' | b'z')) {
                        sc.go(&[first.clone(), (k, kind.clone())], ctx)?;
                        ctx.count("pairs_of_faults", 1);
                        ctx.nontrivial(&("cut", s, first, k, &kind));
                    }
                }
            }
            Ok(())
        },
    )
}

fn describe(faults: &[(usize, String)], t: &Traced) -> Value {
    json!(faults
        .iter()
        .map(|(k, f)| {
            let p = t.points.get(*k);
            format!("call {k} ({} {}): {f}", p.map_or("?", |p| &p.name), p.map_or("", |p| &p.path))
        })
        .collect::<Vec<_>>())
}

// ---------------------------------------------------------------- C18

struct InPlace {
    name: &'static str,
    patch: Vec<u8>,
    old: Vec<u8>,
    new: Vec<u8>,
    target: &'static str,
    reverse: bool,
    fails: bool,
}

impl Scenario for InPlace {
    fn name(&self) -> String {
        self.name.to_string()
    }
    fn go(&self, faults: &[(usize, String)], ctx: &mut Ctx) -> Result<Vec<Point>, Fail> {
        note_case(|| format!("{} {faults:?}", self.name));
        beat();
        let w = fresh();
        fs::create_dir(w.join("sub")).expect("scratch directory");
        fs::write(w.join(self.target), &self.old).expect("scratch file");
        fs::write(w.join("bystander"), b"stays").expect("scratch file");
        let patch = beside("patch");
        let mut v: Value = serde_json::from_slice(&self.patch).unwrap();
        let (_, x) = v.as_object_mut().unwrap().iter_mut().next().unwrap();
        x["before_path"] = json!(if self.name.contains("absolute") { w.join(self.target).display().to_string() } else { self.target.to_string() });
        fs::write(&patch, v.to_string()).expect("scratch file");
        let before = tree(&w);
        let mut args = vec![patch.display().to_string()];
        if self.reverse {
            args.push("-r".into());
        }
        let t = traced("pw_patch", &args, &w, None, faults);
        ctx.exec += 1;
        let now = fs::read(w.join(self.target));
        let after = tree(&w);
        let others = differences(&before, &after, self.target);
        ctx.outcome(&(self.name, t.code, t.signal, now.as_ref().ok(), others.len()));
        let case = || json!({"run": self.name, "faults": describe(faults, &t), "ended": t.show(), "file": now.as_ref().map(|b| bytes_str(b)).unwrap_or_else(|e| e.to_string())});
        ctx.sample(case);
        if t.slow {
            return fail("the run does not end", case());
        }
        let now = match &now {
            Ok(n) => n,
            Err(_) => return fail("the file is gone", case()),
        };
        if *now != self.old && *now != self.new {
            return fail("the file is partly written", case());
        }
        if after[self.target].kind != 'f' {
            return fail("the file is no longer one", case());
        }
        if t.code == Some(0) && *now != self.new {
            return fail("success is reported, but the file holds the old content", case());
        }
        if t.code == Some(0) && self.fails {
            return fail("success is reported although a clump failed", case());
        }
        if faults.is_empty() && (t.code.is_none() || (t.code != Some(0)) != self.fails || (!self.fails && *now != self.new)) {
            return fail("the undisturbed run does not work", case());
        }
        // Who is killed, or runs out of memory, cannot clean up; and who may not remove a file, neither.
        let excused = t.code.is_none() || faults.iter().any(|f| f.1.starts_with(['e', 'E']) && t.points.get(f.0).map_or(false, |p| p.name.starts_with("unlink")));
        if !excused && !others.is_empty() {
            return fail(format!("left behind: {others:?}"), case());
        }
        Ok(t.points)
    }
}

fn lines(s: &[&str]) -> Vec<String> {
    s.iter().map(|s| s.to_string()).collect()
}

fn in_place(all: bool) -> Vec<Arc<dyn Scenario>> {
    let mut v: Vec<Arc<dyn Scenario>> = vec![];
    let b = lines(&["one\n", "two\n", "three\n", "four\n"]);
    let a = lines(&["one\n", "2\n", "three\n", "four\n", "five"]);
    let tp = |x: &[String], y: &[String], c: u8| json!({"TextChange": {"before_path": "", "after_path": "o", "clumps": text_patch(x, y, c).0}}).to_string().into_bytes();
    let bp = |x: &[u8], y: &[u8], c: u8| json!({"ByteChange": {"before_path": "", "after_path": "o", "compressed": false, "clumps": byte_patch(x, y, c).0}}).to_string().into_bytes();
    let mut add = |name, patch: Vec<u8>, old: Vec<u8>, new: Vec<u8>, target, reverse, fails| {
        v.push(Arc::new(InPlace { name, patch, old, new, target, reverse, fails }) as Arc<dyn Scenario>)
    };
    let (bb, ba) = (b"\xff\x00\x01\x02\x03".to_vec(), b"\xff\x07\x01\x02\x03\x04".to_vec());
    add("text", tp(&b, &a, 1), text(&b), text(&a), "target", false, false);
    add("binary, reversed", bp(&bb, &ba, 0), ba.clone(), bb.clone(), "target", true, false);
    add("text, absolute path below", tp(&b, &a, 1), text(&b), text(&a), "sub/target", false, false);
    let other = lines(&["some\n", "thing\n", "else\n"]);
    let (blocks, _) = apply_text(&text_patch(&b, &a, 1), &other, false).unwrap_or_default();
    add("text that does not apply", tp(&b, &a, 1), text(&other), blocks, "target", false, true);
    if !all {
        return v;
    }
    add("text, reversed, below", tp(&b, &a, 2), text(&a), text(&b), "sub/target", true, false);
    add("binary", bp(&bb, &ba, 1), bb.clone(), ba.clone(), "target", false, false);
    add("binary that does not apply", bp(&bb, &ba, 0), b"\xff\xfe".to_vec(), b"\xff\xfe".to_vec(), "sub/target", false, true);
    add("text to nothing", tp(&b, &[], 0), text(&b), vec![], "target", false, false);
    add("text from nothing", tp(&[], &a, 0), vec![], text(&a), "target", false, false);
    add("text already applied", tp(&b, &a, 2), text(&a), text(&a), "target", false, false);
    let big_bytes: Vec<u8> = (0..20_000u32).map(|i| (i * 7 + i / 256) as u8 | 0x80).collect();
    let mut big_bytes2 = big_bytes.clone();
    big_bytes2[10_000] = 1;
    let bc = json!({"ByteChange": {"before_path": "", "after_path": "o", "compressed": false, "clumps": [
        {"context_lengths": [0, 0], "before": {"start": 10_000, "items": [big_bytes[10_000]]}, "after": {"start": 10_000, "items": [1]}}]}});
    add("large binary", bc.to_string().into_bytes(), big_bytes, big_bytes2, "target", false, false);
    v
}

pub fn c18(thorough: bool) -> Check {
    let families = vec![
        single_faults(in_place(true), thorough),
        double_faults(if thorough { in_place(true) } else { in_place(false)[..2].to_vec() }, thorough),
        other_errors(if thorough { in_place(true) } else { in_place(false)[..2].to_vec() }),
        cut_then_failing(in_place(true)),
    ];
    Check {
        id: "C18",
        level: "fault_enumeration",
        rule: "a case is one run of pw_patch in which the k-th system call is disturbed in one way (or two calls are); all are distinct and count as non-trivial. After the run the file must hold exactly its old or its new content, exit status 0 needs the new content, and a run that fails on its own must leave the directory as it was. Kills at every point show the content at every moment.",
        assumptions: vec![
            "a crash is the death of the process; what a power failure does to data not yet on the disk is not modelled",
            "a process that is killed or aborts, or whose unlink fails, may leave its temporary file",
            "errors that mean the caller's own mistake (EBADF, EFAULT, EINVAL on plain transfers) are not injected",
        ],
        families,
    }
}

// ---------------------------------------------------------------- C19

struct AddRemove {
    name: String,
    kind: &'static str,
    reverse: bool,
    content: Vec<u8>,
    /// what is at the path before: 0 nothing, 1 the content, 2 other content, 3 empty file, 4 directory,
    /// 5 dangling link, 6 link to a file, 7 parent directory missing, 8 nothing, until somebody creates a file during the run
    pre: u8,
    target: &'static str,
}

impl AddRemove {
    fn creates(&self) -> bool {
        self.kind.ends_with("Add") != self.reverse
    }
}

impl Scenario for AddRemove {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn extra_kinds(&self) -> Vec<String> {
        if self.pre == 8 {
            vec![format!("c{}", self.target)]
        } else {
            vec![]
        }
    }
    fn go(&self, faults: &[(usize, String)], ctx: &mut Ctx) -> Result<Vec<Point>, Fail> {
        note_case(|| format!("{} {faults:?}", self.name));
        beat();
        let w = fresh();
        let target = w.join(self.target);
        if self.pre != 7 {
            fs::create_dir_all(target.parent().unwrap()).expect("scratch directory");
        }
        fs::write(w.join("bystander"), b"stays").expect("scratch file");
        match self.pre {
            1 => fs::write(&target, &self.content).expect("scratch file"),
            2 => fs::write(&target, b"precious\n").expect("scratch file"),
            3 => fs::write(&target, b"").expect("scratch file"),
            4 => fs::create_dir(&target).expect("scratch directory"),
            5 => std::os::unix::fs::symlink("nowhere", &target).expect("scratch link"),
            6 => std::os::unix::fs::symlink(w.join("bystander"), &target).expect("scratch link"),
            _ => (),
        }
        let patch = beside("patch");
        let mut v = json!({self.kind: {"path": self.target}});
        if self.kind.starts_with("Text") {
            let s = String::from_utf8(self.content.clone()).unwrap();
            v[self.kind]["lines"] = json!(s.split_inclusive('\n').collect::<Vec<_>>());
        } else {
            v[self.kind]["compressed"] = json!(false);
            v[self.kind]["bytes"] = json!(self.content);
        }
        fs::write(&patch, v.to_string()).expect("scratch file");
        let before = tree(&w);
        let mut args = vec![patch.display().to_string()];
        if self.reverse {
            args.push("-r".into());
        }
        // the path of the intruder is made absolute here: the tracer has another working directory
        let real: Vec<(usize, String)> =
            faults.iter().map(|(k, f)| (*k, f.strip_prefix('c').map_or(f.clone(), |p| format!("c{}", w.join(p).display())))).collect();
        let t = traced("pw_patch", &args, &w, None, &real);
        ctx.exec += 1;
        let after = tree(&w);
        let others = differences(&before, &after, self.target);
        let now = after.get(self.target).map(|e| (e.kind, e.content.clone()));
        ctx.outcome(&(&self.name, t.code, t.signal, &now));
        let case = || json!({"run": self.name, "faults": describe(faults, &t), "ended": t.show(), "content": now.as_ref().map(|n| bytes_str(&n.1))});
        ctx.sample(case);
        if t.slow {
            return fail("the run does not end", case());
        }
        if !others.is_empty() {
            return fail(format!("other files are touched: {others:?}"), case());
        }
        let ok = t.code == Some(0);
        if self.creates() {
            if ok && now != Some(('f', self.content.clone())) {
                return fail("success is reported, but the file is not completely in place", case());
            }
            if ok && (t.made || !matches!(self.pre, 0 | 8)) {
                return fail("success is reported although something else was there", case());
            }
            if !matches!(self.pre, 0 | 8) && before.get(self.target) != after.get(self.target) {
                return fail("what was there is changed", case());
            }
            if t.made && now != Some(('f', b"other\n".to_vec())) {
                return fail("the file somebody else created meanwhile is changed", case());
            }
        } else {
            if ok && now.is_some() {
                return fail("success is reported, but the file is still there", case());
            }
            if now.is_some() && before.get(self.target) != after.get(self.target) {
                return fail("the file is changed instead of removed", case());
            }
        }
        if faults.is_empty() {
            let works = if self.creates() { matches!(self.pre, 0 | 8) } else { matches!(self.pre, 1 | 2 | 3 | 5 | 6) };
            if ok != works {
                return fail(format!("the undisturbed run should {}", if works { "work" } else { "fail" }), case());
            }
        }
        Ok(t.points)
    }
}

fn add_remove(pres: &[u8], contents: &[usize]) -> Vec<Arc<dyn Scenario>> {
    let mut v: Vec<Arc<dyn Scenario>> = vec![];
    for kind in ["TextAdd", "TextRemove", "ByteAdd", "ByteRemove"] {
        for reverse in [false, true] {
            for pre in pres {
                for c in contents {
                    let content: Vec<u8> = match (c, kind.starts_with("Text")) {
                        (0, true) => b"x\ny".to_vec(),
                        (0, false) => vec![255, 0, 1],
                        (1, _) => vec![],
                        (_, true) => "one\ntwo\n".repeat(20).into_bytes(),
                        (_, false) => vec![254; 60],
                    };
                    let s = AddRemove {
                        name: format!("{kind}{} content {c} before {pre}", if reverse { " reversed" } else { "" }),
                        kind,
                        reverse,
                        content,
                        pre: *pre,
                        target: if *pre == 7 || *c == 1 { "sub/target" } else { "target" },
                    };
                    if s.pre == 8 && !s.creates() {
                        continue;
                    }
                    v.push(Arc::new(s));
                }
            }
        }
    }
    v
}

pub fn c19(thorough: bool) -> Check {
    let all: Vec<u8> = (0..=8).collect();
    let families = vec![
        single_faults(add_remove(&all, if thorough { &[0, 1, 2] } else { &[0] }), thorough),
        double_faults(add_remove(if thorough { &all } else { &[0, 1] }, &[0]), thorough),
        other_errors(if thorough { add_remove(&[0, 1], &[0]) } else { add_remove(&[0, 1], &[0]).into_iter().filter(|s| s.name().contains("Add content 0 before 0") || s.name().contains("Remove content 0 before 1") || s.name().contains("ByteRemove reversed content 0 before 0")).collect() }),
        cut_then_failing(add_remove(if thorough { &all } else { &[0] }, &[0])),
        crate::races::creations(if thorough { 3 } else { 2 }),
    ];
    Check {
        id: "C19",
        level: "fault_enumeration",
        rule: "a case is one run of pw_patch with an addition or removal, in either direction, with something or nothing at the path, in which one system call (or two) is disturbed in one way, or before which somebody else creates the file; or one schedule of two runs for one file; all are distinct and count as non-trivial. Whatever was at the path of a file to be created must stay exactly as it was; exit status 0 needs the file complete, or gone.",
        assumptions: vec!["a creation that fails may leave an incomplete file, as long as it is reported"],
        families,
    }
}

// ---------------------------------------------------------------- C20

struct Compare {
    name: &'static str,
    before: Option<Vec<u8>>,
    after: Option<Vec<u8>>,
    context: u8,
}

impl Compare {
    /// Does the patch turn the first file into the second?
    fn right(&self, w: &Path, out: &[u8]) -> Result<(), String> {
        let d = Diff::from_reader(&mut &out[..]).map_err(|e| format!("the output is not a patch: {e}"))?;
        let mut got = vec![];
        match (&d, &self.before, &self.after) {
            (Diff::TextChange(c), Some(b), Some(_)) => {
                let l = Seq::<String>::read(&b[..]).map_err(|e| e.to_string())?;
                c.apply_into(&l, &mut got, false).map_err(|e| e.to_string())?;
            }
            (Diff::ByteChange(c), Some(b), Some(_)) => {
                c.apply_into(&Seq::<u8>::from(&b[..]), &mut got, false).map_err(|e| e.to_string())?;
            }
            (Diff::TextAdd(p), None, Some(_)) => p.write_into(&mut got).map_err(|e| e.to_string())?,
            (Diff::ByteAdd(p), None, Some(_)) => p.write_into(&mut got).map_err(|e| e.to_string())?,
            (Diff::TextRemove(_), Some(_), None) | (Diff::ByteRemove(_), Some(_), None) => (),
            _ => return Err(format!("a {}", crate::files::kind(&d))),
        }
        // from the directory of the run, the patch has to lead to the first file
        let names = crate::files::path_of(&d);
        if names[0].file_name() != Some("one".as_ref()) || names[0].parent().map_or(false, |p| p.file_name().map_or(false, |n| n != w.file_name().unwrap_or_default())) {
            return Err(format!("it is for {:?}", names[0]));
        }
        if got == self.after.clone().unwrap_or_default() {
            Ok(())
        } else {
            Err("its effect is another".into())
        }
    }
}

impl Scenario for Compare {
    fn name(&self) -> String {
        self.name.to_string()
    }
    fn go(&self, faults: &[(usize, String)], ctx: &mut Ctx) -> Result<Vec<Point>, Fail> {
        note_case(|| format!("{} {faults:?}", self.name));
        beat();
        let w = fresh();
        for (n, c) in [("one", &self.before), ("two", &self.after)] {
            if let Some(c) = c {
                fs::write(w.join(n), c).expect("scratch file");
            }
        }
        let before = tree(&w);
        let t = traced("pw_diff", &[format!("-c{}", self.context), "one".into(), "two".into()], &w, Some(&beside("out")), faults);
        ctx.exec += 1;
        let changed = differences(&before, &tree(&w), "");
        ctx.outcome(&(self.name, t.code, t.signal, &t.out));
        let case = || json!({"run": self.name, "faults": describe(faults, &t), "ended": t.show(), "output": bytes_str(&t.out)});
        ctx.sample(case);
        if t.slow {
            return fail("the run does not end", case());
        }
        if !changed.is_empty() {
            return fail(format!("files are touched: {changed:?}"), case());
        }
        if t.code == Some(0) {
            if let Err(m) = self.right(&w, &t.out) {
                return fail(format!("success is reported, but {m}"), case());
            }
        }
        if faults.is_empty() && (t.code == Some(0)) != (self.before.is_some() || self.after.is_some()) {
            return fail("the undisturbed run does not work", case());
        }
        Ok(t.points)
    }
    fn counts_for_pairs(&self, p: &Point) -> bool {
        !matches!(p.name.as_str(), "mmap" | "munmap" | "brk" | "mremap" | "madvise" | "other" | "fcntl" | "close")
    }
}

fn compares(all: bool) -> Vec<Arc<dyn Scenario>> {
    let mut v: Vec<Arc<dyn Scenario>> = vec![];
    let mut add = |name, b: Option<&[u8]>, a: Option<&[u8]>, context| {
        v.push(Arc::new(Compare { name, before: b.map(|b| b.to_vec()), after: a.map(|a| a.to_vec()), context }) as Arc<dyn Scenario>)
    };
    add("text", Some(b"a\nb\nc\n"), Some(b"a\nB\nc\n"), 0);
    add("removed text", Some(b"a\nb"), None, 2);
    add("added binary", None, Some(b"\xff\0"), 2);
    if !all {
        return v;
    }
    add("binary", Some(b"a\xffb"), Some(b"a\xfeb"), 0);
    add("added text", None, Some(b"a\nb"), 2);
    add("removed binary", Some(b"\xff\0"), None, 2);
    add("equal", Some(b"a\n"), Some(b"a\n"), 2);
    add("text and binary", Some(b"a\n"), Some(b"\xff\n"), 1);
    add("binary and text", Some(b"\xff\n"), Some(b"a\n"), 1);
    add("from nothing", Some(b""), Some(b"a"), 2);
    add("to nothing", Some(b"a"), Some(b""), 2);
    add("neither", None, None, 2);
    add("several clumps", Some(b"a\nb\nc\nd\ne\nf\n"), Some(b"A\nb\nc\nd\ne\nF\n"), 1);
    // long enough to be read and written in several pieces; varied, as comparing long runs of equal bytes takes long
    let line = |n: u32| (0..900u32).map(|i| (33 + (i * i * 7 + i / 64 + n * (i + 31)) % 90) as u8).chain([b'\n']).collect::<Vec<u8>>();
    let big: Vec<u8> = (1..=10).flat_map(line).collect();
    let big2: Vec<u8> = [1, 2, 3, 4, 20, 6, 8, 9, 10].into_iter().flat_map(line).collect();
    add("large", Some(&big), Some(&big2), 1);
    v
}

pub fn c20(thorough: bool) -> Check {
    let mut families = vec![single_faults(compares(true), thorough), double_faults(compares(thorough), thorough), other_errors(compares(thorough).into_iter().filter(|s| s.name() != "large").collect()),
        cut_then_failing(compares(true).into_iter().filter(|s| s.name() != "large").collect())];
    families.push(family(
        "outputs that take nothing",
        "/dev/full as standard output, and a pipe without a reader, for each of the runs",
        compares(true).len() as u64 * 2,
        |i, ctx| {
            let all = small_inputs();
            let Some((b, a)) = all.get(i as usize / 2) else { return Ok(()) };
            let w = fresh();
            for (n, c) in [("one", b), ("two", a)] {
                if let Some(c) = c {
                    fs::write(w.join(n), c).expect("scratch file");
                }
            }
            let prog = bin("pw_diff").display().to_string();
            let script = if i % 2 == 0 {
                "\"$0\" one two > /dev/full".to_string()
            } else {
                // the reader is gone before the program starts
                "{ sleep 0.05; \"$0\" one two; echo $? > status; } | true; exit $(cat status)".to_string()
            };
            let w2 = w.clone();
            let mut r = run(Path::new("/bin/sh"), &[os("-c"), os(&script), os(&prog)], &w, None);
            if i % 2 == 1 {
                // sh may not wait for the left side
                for _ in 0..200 {
                    if let Some(c) = fs::read_to_string(w2.join("status")).ok().and_then(|s| s.trim().parse().ok()) {
                        r.code = Some(c);
                        break;
                    }
                    std::thread::sleep(std::time::Duration::from_millis(10));
                }
            }
            ctx.exec += 1;
            ctx.nontrivial(&("full", i));
            if r.ok() {
                return fail("success is reported, but nothing was written", json!({"before": b, "after": a, "output": if i % 2 == 0 { "/dev/full" } else { "closed pipe" }}));
            }
            Ok(())
        },
    ));
    families.push(family(
        "names of any bytes",
        "the first file, the second or the patch file has a name that is, holds, begins or ends with any byte but / and NUL; change, removal, addition; text and binary",
        254 * 4 * 3 * 3 * 2,
        |i, ctx| {
            use std::os::unix::ffi::OsStrExt;
            let d = digits(i, &[254, 4, 3, 3, 2]);
            let b = d[0] as u8 + 1 + (d[0] >= 46) as u8;
            let name = [vec![b], vec![b'n', b, b'n'], vec![b, b'n'], vec![b'n', b]][d[1] as usize].clone();
            if name == b"." || (d[1] != 1 && d[4] == 1 && b < 128) {
                return Ok(());
            }
            let mut names = [std::ffi::OsStr::new("one"), std::ffi::OsStr::new("two"), std::ffi::OsStr::new("patch")];
            names[d[2] as usize] = std::ffi::OsStr::from_bytes(&name);
            crate::cli::named(&crate::cli::Named { names, what: d[3], binary: d[4] == 1, dashes: true, input: false }, ctx)
        },
    ));
    Check {
        id: "C20",
        level: "fault_enumeration",
        rule: "a case is one run of pw_diff in which one system call (or two) is disturbed in one way; all are distinct and count as non-trivial. The files must stay as they are; with exit status 0 the output must be a complete patch of which the effect on the first file is the second.",
        assumptions: vec![
            "a stat that says a file does not exist is an answer, not a fault",
            "standard output is open (Rust's runtime replaces a closed one by /dev/null, and takes EBADF on it for success)",
        ],
        families,
    }
}

fn small_inputs() -> Vec<(Option<Vec<u8>>, Option<Vec<u8>>)> {
    let s = |b: &[u8]| Some(b.to_vec());
    vec![
        (s(b"a\nb\nc\n"), s(b"a\nB\nc\n")),
        (s(b"a\n"), s(b"a\n")),
        (s(b""), s(b"")),
        (s(b"a\xff"), s(b"b\xff")),
        (s(b"a"), None),
        (None, s(b"a")),
        (s(b"\xff"), None),
        (None, s(b"\xff")),
        (None, s(b"")),
    ]
}
