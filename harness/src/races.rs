//! C30: runs at the same time. Two real processes are run under a scheduler (tracer/race.c) that decides at
//! every system call on a shared file which of them goes on; all schedules up to a number of preemptions.

use crate::common::*;
use crate::engine::*;
use crate::procs::*;
use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
use pw_diff_lib::diff::Diff;
use pw_diff_lib::sequence::Seq;
use serde_json::json;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

fn tracer() -> PathBuf {
    std::env::var("MC_RACE").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from(format!("{ROOT}/target/race")))
}

type Schedule = Vec<(usize, char)>;

/// One of the two programs and what it is to do if it is alone.
#[derive(Clone)]
struct Job {
    prog: &'static str,
    patch: Option<Vec<u8>>,
    args: Vec<&'static str>,
}

#[derive(Debug, Default)]
struct Seen {
    /// who makes the step, and its call
    steps: Vec<(usize, String)>,
    /// number of steps made when a program ended
    ended: [Option<usize>; 2],
    codes: [Option<i32>; 2],
    killed: [bool; 2],
    /// the call that was made to fail
    failed: [Option<String>; 2],
    stuck: bool,
    /// contents of the watched files, in the order in which they were seen
    states: [Vec<Option<Vec<u8>>>; 2],
    last: [Option<Vec<u8>>; 2],
    outs: [Vec<u8>; 2],
}

/// What one run does to a file when it is alone.
#[derive(Clone)]
struct Side {
    path: &'static str,
    old: Option<Vec<u8>>,
    new: Option<Vec<u8>>,
    code: i32,
}

enum Rule {
    /// different files: each run ends as if it were alone
    Apart([Side; 2]),
    /// one file changed by both: what it may hold on the way, at the end, and at the end without preemption
    Same { states: Vec<Vec<u8>>, finals: Vec<Vec<u8>>, serial: [Vec<u8>; 2] },
    /// one file created by both
    Create([Vec<u8>; 2]),
    /// one file removed by both
    Remove(Vec<u8>),
    /// created by the first and removed by the second
    CreateRemove(Vec<u8>),
    /// changed by the first and removed by the second
    ChangeRemove(Vec<u8>, Vec<u8>),
    /// the first compares the file the second changes with another one
    Diff { versions: [Vec<u8>; 2], other: Vec<u8> },
    /// the first compares another file with the one the second changes
    DiffTo { versions: [Vec<u8>; 2], other: Vec<u8> },
    /// both compare
    Diffs([Vec<u8>; 2]),
}

struct Race {
    name: String,
    files: Vec<(&'static str, Vec<u8>)>,
    jobs: [Job; 2],
    watch: Vec<&'static str>,
    rule: Rule,
    same_pid: bool,
}

/// The effect of a patch, as the library applies it.
fn effect(patch: &[u8], file: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    match Diff::from_reader(&mut &patch[..]).ok()? {
        Diff::TextChange(d) => d.apply_into(&Seq::<String>::read(file).ok()?, &mut out, false).ok().filter(|s| s.failed == 0)?,
        Diff::ByteChange(d) => d.apply_into(&Seq::<u8>::read(file).ok()?, &mut out, false).ok().filter(|s| s.failed == 0).map(|_| Default::default())?,
        _ => return None,
    };
    Some(out)
}

impl Race {
    fn lay_out(&self) -> (PathBuf, [PathBuf; 2]) {
        let w = fresh();
        for d in ["one", "two"] {
            fs::create_dir(w.join(d)).expect("scratch directory");
        }
        for (n, c) in self.files.iter().chain(std::iter::once(&("bystander", b"stays".to_vec()))) {
            fs::write(w.join(n), c).expect("scratch file");
        }
        let p = [beside("patch0"), beside("patch1")];
        for (p, j) in p.iter().zip(&self.jobs) {
            fs::write(p, j.patch.as_deref().unwrap_or(b"")).expect("scratch file");
        }
        (w, p)
    }

    fn command(&self, k: usize, patches: &[PathBuf; 2]) -> Vec<String> {
        let j = &self.jobs[k];
        j.args.iter().map(|a| if *a == "@" { patches[k].display().to_string() } else { a.to_string() }).collect()
    }

    /// None: this cannot be had here
    fn go(&self, first: usize, schedule: &Schedule, ctx: &mut Ctx) -> Result<Option<Seen>, Fail> {
        note_case(|| format!("{} first {first} {schedule:?}", self.name));
        beat();
        let (w, patches) = self.lay_out();
        let before = tree(&w);
        let (log, outs) = (beside("log"), [beside("out0"), beside("out1")]);
        let _ = fs::remove_file(&log);
        let mut a: Vec<String> = vec!["--log".into(), log.display().to_string(), "--root".into(), std::env::var("MC_SCRATCH").expect("MC_SCRATCH")];
        let mut opt = |k: &str, v: String| a.extend([k.to_string(), v]);
        for p in patches.iter().chain(&outs) {
            opt("--private", p.display().to_string());
        }
        for p in &outs {
            opt("--out", p.display().to_string());
        }
        for p in &self.watch {
            opt("--watch", w.join(p).display().to_string());
        }
        opt("--first", first.to_string());
        for (k, c) in schedule {
            opt("--at", format!("{k}:{c}"));
        }
        if self.same_pid {
            a.push("--same-pid".into());
        }
        a.push("--".into());
        for k in 0..2 {
            if k == 1 {
                a.push("---".into());
            }
            a.push(bin(self.jobs[k].prog).display().to_string());
            a.extend(self.command(k, &patches));
        }
        let a: Vec<&std::ffi::OsStr> = a.iter().map(|s| os(s)).collect();
        let r = run(&tracer(), &a, &w, None);
        ctx.exec += 1;
        if r.code == Some(4) && self.same_pid {
            return Ok(None);
        }
        let mut s = Seen { stuck: r.slow, ..Seen::default() };
        let text = String::from_utf8_lossy(&fs::read(&log).unwrap_or_default()).into_owned();
        let mut complete = false;
        for l in text.lines() {
            let mut f = l.splitn(4, ' ');
            let mut next = || f.next().unwrap_or("");
            match next() {
                "step" => {
                    let _ = next();
                    let p = next().parse().unwrap_or(0);
                    let call = next().to_string();
                    if call.starts_with("failed ") {
                        s.failed[p] = Some(call.clone());
                    }
                    s.steps.push((p, call));
                }
                x @ ("exit" | "signal") => {
                    let p: usize = next().parse().unwrap_or(0);
                    s.ended[p] = Some(s.steps.len());
                    if x == "exit" {
                        s.codes[p] = next().parse().ok();
                    } else {
                        s.killed[p] = next() == "9" && schedule.iter().any(|(_, c)| *c == 'k');
                    }
                }
                "state" => {
                    let _ = next();
                    let k: usize = next().parse().unwrap_or(0);
                    let h = next();
                    s.states[k].push((h != "-").then(|| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()));
                }
                "deadlock" => s.stuck = true,
                "end" => complete = true,
                _ => (),
            }
        }
        if !s.stuck && (r.code != Some(0) || !complete) {
            // not a finding about the programs
            eprintln!("mc: the scheduler failed: {r:?} {text}");
            std::process::exit(3);
        }
        for k in 0..2 {
            s.last[k] = s.states[k].last().cloned().flatten();
            s.outs[k] = fs::read(&outs[k]).unwrap_or_default();
        }
        ctx.count("schedules", 1);
        ctx.count("steps", s.steps.len() as u64);
        ctx.nontrivial(&(&self.name, first, schedule));
        ctx.outcome(&(&self.name, s.codes, &s.states));
        let case = || {
            json!({"runs": self.name, "first": first, "switches (s), kills (k) and failing calls (f)": format!("{schedule:?}"),
                "steps": s.steps.iter().map(|(p, c)| format!("{p} {}", short(c, &w))).collect::<Vec<_>>(),
                "ended": [show(&s, 0), show(&s, 1)],
                "files": s.last.iter().take(self.watch.len()).map(|l| l.as_ref().map_or("none".into(), |b| bytes_str(b))).collect::<Vec<String>>()})
        };
        ctx.sample(case);
        if s.stuck {
            return fail("the runs do not end", case());
        }
        for k in 0..2 {
            if s.codes[k].is_none() && !s.killed[k] {
                return fail(format!("run {k} crashed"), case());
            }
        }
        let after = tree(&w);
        let mut others: Vec<String> = vec![];
        for d in differences(&before, &after, "") {
            if !self.watch.iter().any(|p| d.split(' ').next() == Some(p)) {
                others.push(d);
            }
        }
        // who is killed, or cannot remove a file, cannot clean up
        let excused = s.killed.iter().filter(|k| **k).count() + s.failed.iter().flatten().filter(|c| c.contains("unlink")).count();
        if others.len() > excused || others.iter().any(|o| !o.ends_with(" is new")) {
            return fail(format!("besides: {others:?}"), case());
        }
        if let Err(m) = self.judge(first, schedule, &s) {
            return fail(m, case());
        }
        // a killed change can be repeated
        for k in 0..2 {
            let hurt = s.killed[k] || s.failed[k].is_some() && s.codes[k] != Some(0);
            let Some(want) = self.repeated(k).filter(|_| hurt) else { continue };
            let args = self.command(k, &patches);
            let args: Vec<&std::ffi::OsStr> = args.iter().map(|s| os(s)).collect();
            let r = run(&bin(self.jobs[k].prog), &args, &w, None);
            ctx.exec += 1;
            let now = fs::read(w.join(self.watch[k.min(self.watch.len() - 1)])).ok();
            if r.code != Some(0) || !now.as_ref().map_or(false, |n| want.contains(n)) {
                return fail(format!("repeating run {k}: {}, the file is {}", r.show(), now.map_or("none".into(), |n| bytes_str(&n))), case());
            }
        }
        Ok(Some(s))
    }

    /// What the file may hold after the k-th run was killed and is repeated.
    fn repeated(&self, k: usize) -> Option<Vec<Vec<u8>>> {
        match &self.rule {
            Rule::Apart(s) if s[k].code == 0 && s[k].old.is_some() => s[k].new.clone().map(|n| vec![n]),
            Rule::Same { finals, .. } => Some(finals.clone()),
            Rule::Diff { versions, .. } | Rule::DiffTo { versions, .. } if k == 1 => Some(vec![versions[1].clone()]),
            _ => None,
        }
    }

    fn judge(&self, first: usize, schedule: &Schedule, s: &Seen) -> Result<(), String> {
        let ok = [s.codes[0] == Some(0), s.codes[1] == Some(0)];
        let serial = schedule.is_empty();
        // which of them may have failed, or not ended
        let hurt = [0, 1].map(|k| s.killed[k] || s.failed[k].is_some());
        match &self.rule {
            Rule::Apart(sides) => {
                for (k, x) in sides.iter().enumerate() {
                    if !s.killed[k] && s.codes[k] != Some(x.code) && (!hurt[k] || ok[k]) {
                        return Err(format!("run {k} ends with {} instead of {}", show(s, k), x.code));
                    }
                    if s.last[k] != x.new && !(hurt[k] && !ok[k] && (s.last[k] == x.old || x.old.is_none())) {
                        return Err(format!("{} is not as it should be after run {k}", x.path));
                    }
                    for c in &s.states[k] {
                        // what is being created grows
                        let grows = x.old.is_none() && c.as_ref().zip(x.new.as_ref()).map_or(false, |(c, n)| n.starts_with(c));
                        if *c != x.old && *c != x.new && !grows {
                            return Err(format!("{} held something else on the way: {}", x.path, c.as_ref().map_or("none".into(), |c| bytes_str(c))));
                        }
                    }
                }
            }
            Rule::Same { states, finals, serial: in_turn } => {
                for k in 0..2 {
                    if !hurt[k] && !ok[k] {
                        return Err(format!("run {k} ends with {}", show(s, k)));
                    }
                }
                for c in &s.states[0] {
                    if !c.as_ref().map_or(false, |c| states.contains(c)) {
                        return Err(format!("the file held something else on the way: {}", c.as_ref().map_or("none".into(), |c| bytes_str(c))));
                    }
                }
                let last = s.last[0].as_ref().unwrap();
                if ok[0] && ok[1] && !finals.contains(last) {
                    return Err("the file is not the result of the patches".into());
                }
                if serial && *last != in_turn[first] {
                    return Err("the file is not the result of one patch after the other".into());
                }
                if (ok[0] || ok[1]) && *last == states[0] && !finals.contains(last) {
                    return Err("a run reported success, but the file holds the old content".into());
                }
            }
            Rule::Create(contents) => {
                if ok[0] && ok[1] || !ok[0] && !ok[1] && !hurt[0] && !hurt[1] {
                    return Err(format!("{} created the file", if ok[0] { "both" } else { "none" }));
                }
                if !ok[0] && !ok[1] {
                    // what one of them did not complete: it is its own as far as it goes
                    let part = |c: &Vec<u8>| (0..2).any(|k| hurt[k] && contents[k].starts_with(c));
                    if s.states[0].iter().flatten().any(|c| !part(c)) || s.last[0].is_none() && !(hurt[0] && hurt[1]) {
                        return Err("the file is neither that of a run nor missing in favour of the other".into());
                    }
                    return Ok(());
                }
                let want = &contents[ok[1] as usize];
                for c in s.states[0].iter().flatten() {
                    if !want.starts_with(c) {
                        return Err(format!("the file held something else on the way: {}", bytes_str(c)));
                    }
                }
                if s.last[0].as_ref() != Some(want) {
                    return Err("the file is not that of the run that created it".into());
                }
            }
            Rule::Remove(old) => {
                if ok[0] && ok[1] || !ok[0] && !ok[1] && !(hurt[0] && hurt[1]) {
                    return Err(format!("{} removed the file", if ok[0] { "both" } else { "none" }));
                }
                if s.states[0].iter().flatten().any(|c| c != old) || s.last[0].is_some() != (!ok[0] && !ok[1]) {
                    return Err("the file was changed, or is still there".into());
                }
            }
            Rule::CreateRemove(content) => {
                if !ok[0] && !hurt[0] {
                    return Err("the file could not be created".into());
                }
                if s.states[0].iter().flatten().any(|c| !content.starts_with(c)) {
                    return Err("the file held something else on the way".into());
                }
                if ok[1] && s.last[0].is_some() || ok[0] && !ok[1] && s.last[0].as_ref() != Some(content) {
                    return Err("the file is not as the exit statuses say".into());
                }
            }
            Rule::ChangeRemove(old, new) => {
                if s.states[0].iter().flatten().any(|c| c != old && c != new) {
                    return Err("the file held something else on the way".into());
                }
                if !ok[1] && !hurt[1] {
                    return Err("the file could not be removed".into());
                }
                if !ok[0] && !hurt[0] && s.last[0].is_some() {
                    return Err("the change failed, but the file is there".into());
                }
                if ok[0] && !ok[1] && s.last[0].as_ref() != Some(new) || !ok[1] && s.last[0].is_none() {
                    return Err("the file is not as the exit statuses say".into());
                }
                if ok[1] && s.last[0].is_some() && (!ok[0] || s.last[0].as_ref() != Some(new)) {
                    return Err("the file is not as the exit statuses say".into());
                }
            }
            Rule::Diff { versions, other } | Rule::DiffTo { versions, other } => {
                if !hurt[1] && !ok[1] || ok[1] && s.last[0].as_ref() != Some(&versions[1]) {
                    return Err("the change did not succeed".into());
                }
                if s.states[0].iter().any(|c| !c.as_ref().map_or(false, |c| versions.contains(c))) {
                    return Err("the file held something else on the way".into());
                }
                if !hurt[0] || ok[0] {
                    if !ok[0] {
                        return Err(format!("comparing ends with {}", show(s, 0)));
                    }
                    if matches!(self.rule, Rule::DiffTo { .. }) {
                        if !versions.iter().any(|v| effect(&s.outs[0], other).as_ref() == Some(v)) {
                            return Err("the patch turns the other file neither into the old nor into the new content".into());
                        }
                    } else if !versions.iter().any(|v| effect(&s.outs[0], v).as_ref() == Some(other)) {
                        return Err("the patch turns neither the old nor the new content into the other file".into());
                    }
                }
            }
            Rule::Diffs(files) => {
                for k in (0..2).filter(|k| !hurt[*k] || ok[*k]) {
                    if !ok[k] || effect(&s.outs[k], &files[k]).as_ref() != Some(&files[1 - k]) {
                        return Err(format!("the output of run {k} is not the patch"));
                    }
                }
            }
        }
        Ok(())
    }

    /// Everything from here with at most `left` more events.
    fn explore(&self, first: usize, schedule: &Schedule, extra: Option<char>, left: usize, ctx: &mut Ctx) -> R {
        let Some(s) = self.go(first, schedule, ctx)? else { return Ok(()) };
        if left == 0 {
            return Ok(());
        }
        for next in self.events(schedule, &s, extra) {
            if extra.is_some() && left == 1 && next.1 == 's' && !schedule.iter().any(|(_, c)| Some(*c) == extra) {
                continue; // nothing would happen to anyone
            }
            let mut t = schedule.clone();
            t.push(next);
            self.explore(first, &t, extra, left - 1, ctx)?;
        }
        Ok(())
    }

    /// The events that can be added behind a schedule.
    fn events(&self, schedule: &Schedule, s: &Seen, extra: Option<char>) -> Vec<(usize, char)> {
        let from = schedule.last().map_or(1, |l| l.0 + 1);
        let mut v = vec![];
        for k in from..s.steps.len() {
            if s.ended.iter().all(|e| e.map_or(true, |e| e > k)) {
                v.push((k, 's'));
            }
            if let Some(x) = extra.filter(|x| !schedule.iter().any(|(_, c)| c == x)) {
                v.push((k, x));
            }
        }
        v
    }
}

fn short(call: &str, w: &Path) -> String {
    call.replace(&format!("{}/", w.display()), "")
}

fn show(s: &Seen, k: usize) -> String {
    match (s.killed[k], s.codes[k]) {
        (true, _) => "killed".into(),
        (_, Some(c)) => format!("exit status {c}"),
        _ => "a crash".into(),
    }
}

fn lines(s: &[&str]) -> Vec<String> {
    s.iter().map(|s| s.to_string()).collect()
}

fn change(path: &str, x: &[String], y: &[String], c: u8) -> Vec<u8> {
    json!({"TextChange": {"before_path": path, "after_path": "o", "clumps": text_patch(x, y, c).0}}).to_string().into_bytes()
}
fn byte_change(path: &str, x: &[u8], y: &[u8], c: u8) -> Vec<u8> {
    json!({"ByteChange": {"before_path": path, "after_path": "o", "compressed": false, "clumps": byte_patch(x, y, c).0}}).to_string().into_bytes()
}
fn whole(kind: &str, path: &str, content: &[u8]) -> Vec<u8> {
    if kind.starts_with("Text") {
        let t: Vec<String> = String::from_utf8(content.to_vec()).unwrap().split_inclusive('\n').map(|s| s.to_string()).collect();
        json!({kind: {"path": path, "lines": t}})
    } else {
        json!({kind: {"path": path, "compressed": false, "bytes": content}})
    }
    .to_string()
    .into_bytes()
}

fn patch_job(patch: Vec<u8>, reverse: bool) -> Job {
    Job { prog: "pw_patch", patch: Some(patch), args: if reverse { vec!["-r", "@"] } else { vec!["@"] } }
}
fn diff_job(x: &'static str, y: &'static str) -> Job {
    Job { prog: "pw_diff", patch: None, args: vec![x, y] }
}

fn races() -> Vec<Race> {
    let mut v: Vec<Race> = vec![];
    let old = lines(&["1\n", "2\n", "3\n", "4\n", "5\n", "6\n"]);
    let p = lines(&["1\n", "two\n", "3\n", "4\n", "5\n", "6\n"]);
    let q = lines(&["1\n", "2\n", "3\n", "4\n", "five\n", "6\n", "7"]);
    let pq = lines(&["1\n", "two\n", "3\n", "4\n", "five\n", "6\n", "7"]);
    let (to, tp, tq, tpq) = (text(&old), text(&p), text(&q), text(&pq));
    let (bo, bp, bq, bpq) = (b"\xff123456".to_vec(), b"\xff1x3456".to_vec(), b"\xff1234yz6".to_vec(), b"\xff1x34yz6".to_vec());
    let side = |path, old: Option<&Vec<u8>>, new: Option<&Vec<u8>>, code| Side { path, old: old.cloned(), new: new.cloned(), code };
    for same_pid in [false, true] {
        let mut add = |name: &str, files: &[(&'static str, &Vec<u8>)], jobs: [Job; 2], watch: &[&'static str], rule: Rule| {
            v.push(Race {
                name: format!("{name}{}", if same_pid { ", equal process ids" } else { "" }),
                files: files.iter().map(|(n, c)| (*n, c.to_vec())).collect(),
                jobs,
                watch: watch.to_vec(),
                rule,
                same_pid,
            })
        };
        let (a, b) = ("a", "b");
        add("two texts in one directory", &[(a, &to), (b, &tq)], [patch_job(change(a, &old, &p, 1), false), patch_job(change(b, &old, &q, 0), true)], &[a, b],
            Rule::Apart([side(a, Some(&to), Some(&tp), 0), side(b, Some(&tq), Some(&to), 0)]));
        add("a text and binary data in one directory", &[(a, &to), (b, &bo)], [patch_job(change(a, &old, &p, 1), false), patch_job(byte_change(b, &bo, &bq, 1), false)], &[a, b],
            Rule::Apart([side(a, Some(&to), Some(&tp), 0), side(b, Some(&bo), Some(&bq), 0)]));
        add("the same text patch twice", &[(a, &to)], [patch_job(change(a, &old, &p, 1), false), patch_job(change(a, &old, &p, 1), false)], &[a],
            Rule::Same { states: vec![to.clone(), tp.clone()], finals: vec![tp.clone()], serial: [tp.clone(), tp.clone()] });
        add("two text patches for one file", &[(a, &to)], [patch_job(change(a, &old, &p, 0), false), patch_job(change(a, &old, &q, 0), false)], &[a],
            Rule::Same { states: vec![to.clone(), tp.clone(), tq.clone(), tpq.clone()], finals: vec![tp.clone(), tq.clone(), tpq.clone()], serial: [tpq.clone(), tpq.clone()] });
        if same_pid {
            add("two lots of binary data in one directory", &[(a, &bo), (b, &bq)], [patch_job(byte_change(a, &bo, &bp, 1), false), patch_job(byte_change(b, &bo, &bq, 1), true)], &[a, b],
                Rule::Apart([side(a, Some(&bo), Some(&bp), 0), side(b, Some(&bq), Some(&bo), 0)]));
            continue;
        }
        add("texts of one name in two directories", &[("one/a", &to), ("two/a", &to)],
            [patch_job(change("one/a", &old, &p, 1), false), patch_job(change("two/a", &old, &q, 1), false)], &["one/a", "two/a"],
            Rule::Apart([side("one/a", Some(&to), Some(&tp), 0), side("two/a", Some(&to), Some(&tq), 0)]));
        let other = b"no\nsuch\nlines\n".to_vec();
        add("one text to which the patch does not apply, and one binary", &[(a, &other), (b, &bo)],
            [patch_job(change(a, &old, &p, 0), false), patch_job(byte_change(b, &bo, &bp, 0), false)], &[a, b],
            Rule::Apart([
                side(a, Some(&other), Some(&apply_text(&text_patch(&old, &p, 0), &lines(&["no\n", "such\n", "lines\n"]), false).map(|x| x.0).unwrap_or_default()), 1),
                side(b, Some(&bo), Some(&bp), 0),
            ]));
        add("forward and in reverse", &[(a, &to)], [patch_job(change(a, &old, &p, 1), false), patch_job(change(a, &old, &p, 1), true)], &[a],
            Rule::Same { states: vec![to.clone(), tp.clone()], finals: vec![to.clone(), tp.clone()], serial: [to.clone(), tp.clone()] });
        add("two binary patches for one file", &[(a, &bo)], [patch_job(byte_change(a, &bo, &bp, 0), false), patch_job(byte_change(a, &bo, &bq, 0), false)], &[a],
            Rule::Same { states: vec![bo.clone(), bp.clone(), bq.clone(), bpq.clone()], finals: vec![bp.clone(), bq.clone(), bpq.clone()], serial: [bpq.clone(), bpq.clone()] });
        add("two files created", &[], [patch_job(whole("TextAdd", a, &to), false), patch_job(whole("ByteRemove", b, &bo), true)], &[a, b],
            Rule::Apart([side(a, None, Some(&to), 0), side(b, None, Some(&bo), 0)]));
        add("one file created by both", &[], [patch_job(whole("TextAdd", a, &to), false), patch_job(whole("ByteAdd", a, &bo), false)], &[a], Rule::Create([to.clone(), bo.clone()]));
        add("one file restored by both", &[], [patch_job(whole("TextRemove", a, &to), true), patch_job(whole("TextRemove", a, &tq), true)], &[a], Rule::Create([to.clone(), tq.clone()]));
        add("one file removed by both", &[(a, &to)], [patch_job(whole("TextRemove", a, &to), false), patch_job(whole("ByteAdd", a, &bo), true)], &[a], Rule::Remove(to.clone()));
        add("created and removed", &[], [patch_job(whole("TextAdd", a, &to), false), patch_job(whole("TextAdd", a, &to), true)], &[a], Rule::CreateRemove(to.clone()));
        add("changed and removed", &[(a, &to)], [patch_job(change(a, &old, &p, 1), false), patch_job(whole("TextRemove", a, &to), false)], &[a], Rule::ChangeRemove(to.clone(), tp.clone()));
        add("a text compared while it is changed", &[(a, &to), (b, &tq)], [diff_job(a, b), patch_job(change(a, &old, &p, 1), false)], &[a],
            Rule::Diff { versions: [to.clone(), tp.clone()], other: tq.clone() });
        add("binary data compared while it is changed", &[(a, &bo), (b, &bq)], [diff_job(a, b), patch_job(byte_change(a, &bo, &bp, 1), false)], &[a],
            Rule::Diff { versions: [bo.clone(), bp.clone()], other: bq.clone() });
        add("a text compared while it becomes binary", &[(a, &to), (b, &tq)],
            [diff_job(a, b), patch_job(byte_change(a, &to, b"\xff2\n3\n4\n5\n6\n", 1), false)], &[a],
            Rule::Diff { versions: [to.clone(), b"\xff2\n3\n4\n5\n6\n".to_vec()], other: tq.clone() });
        add("binary data compared while it becomes a text", &[(a, &bo), (b, &tq)], [diff_job(a, b), patch_job(byte_change(a, &bo, b"123456", 1), false)], &[a],
            Rule::Diff { versions: [bo.clone(), b"123456".to_vec()], other: tq.clone() });
        // longer, shorter, and the changed file on the other side
        let long = lines(&["zero\n", "1\n", "two\n", "3\n", "and\n", "4\n", "5\n", "6\n", "more\n", "and more\n"]);
        let (tl, bl) = (text(&long), b"\xffabc1x345yz6more".to_vec());
        add("a text compared while it grows", &[(a, &to), (b, &tq)], [diff_job(a, b), patch_job(change(a, &old, &long, 1), false)], &[a],
            Rule::Diff { versions: [to.clone(), tl.clone()], other: tq.clone() });
        add("binary data compared while it shrinks", &[(a, &bl), (b, &bq)], [diff_job(a, b), patch_job(byte_change(a, &bo, &bl, 1), true)], &[a],
            Rule::Diff { versions: [bl.clone(), bo.clone()], other: bq.clone() });
        add("a text compared with one that grows", &[(a, &to), (b, &tq)], [diff_job(b, a), patch_job(change(a, &old, &long, 1), false)], &[a],
            Rule::DiffTo { versions: [to.clone(), tl.clone()], other: tq.clone() });
        add("a text compared with one that shrinks", &[(a, &tl), (b, &tq)], [diff_job(b, a), patch_job(change(a, &old, &long, 1), true)], &[a],
            Rule::DiffTo { versions: [tl.clone(), to.clone()], other: tq.clone() });
        add("binary data compared with data that grows", &[(a, &bo), (b, &bq)], [diff_job(b, a), patch_job(byte_change(a, &bo, &bl, 1), false)], &[a],
            Rule::DiffTo { versions: [bo.clone(), bl.clone()], other: bq.clone() });
        add("binary data compared with data that becomes a text", &[(a, &bo), (b, &tq)], [diff_job(b, a), patch_job(byte_change(a, &bo, b"123456", 1), false)], &[a],
            Rule::DiffTo { versions: [bo.clone(), b"123456".to_vec()], other: tq.clone() });
        add("compared twice", &[(a, &to), (b, &tq)], [diff_job(a, b), diff_job(b, a)], &[], Rule::Diffs([to.clone(), tq.clone()]));
    }
    v
}

/// More steps than any two runs take; should two take more, the last index covers the rest.
const MAX_STEPS: u64 = 400;

fn all(name: &'static str, what: &str, extra: Option<char>, events: usize) -> Family {
    some(name, what, extra, events, |_| true)
}

/// For C19: one of two runs that create or remove a file has a call fail.
pub fn creations(events: usize) -> Family {
    let what = format!("one call of either fails (EIO); all schedules with up to {} preemptions besides", events - 1);
    some("another run at the same time", &what, Some('f'), events, |r| matches!(r, Rule::Create(_) | Rule::Remove(_) | Rule::CreateRemove(_) | Rule::ChangeRemove(..)))
}

fn some(name: &'static str, what: &str, extra: Option<char>, events: usize, which: fn(&Rule) -> bool) -> Family {
    let races: Vec<Race> = races().into_iter().filter(|r| which(&r.rule)).filter(|r| extra != Some('k') || matches!(r.rule, Rule::Apart(_) | Rule::Same { .. } | Rule::Diff { .. } | Rule::DiffTo { .. })).collect();
    let n = races.len() as u64;
    let names: Vec<&str> = races.iter().map(|r| r.name.as_str()).collect();
    let bound = format!("{n} pairs of runs ({}): {what}", names.join("; "));
    let base: Vec<OnceLock<Vec<(usize, char)>>> = (0..2 * n).map(|_| OnceLock::new()).collect();
    family(name, bound, 2 * n * MAX_STEPS, move |i, ctx| {
        let (k, first, r) = ((i / (2 * n)) as usize, (i / n % 2) as usize, (i % n) as usize);
        let race = &races[r];
        let mut result = Ok(());
        let firsts = base[(i % (2 * n)) as usize].get_or_init(|| match race.go(first, &vec![], ctx) {
            Ok(Some(s)) => race.events(&vec![], &s, extra),
            Ok(None) => {
                ctx.count("pairs_of_runs_not_possible_here", 1);
                vec![]
            }
            Err(f) => {
                result = Err(f);
                vec![]
            }
        });
        result?;
        let last = if k as u64 + 1 == MAX_STEPS { firsts.len().max(k + 1) } else { k + 1 };
        for k in k..last {
            let Some(e) = firsts.get(k) else { break };
            race.explore(first, &vec![*e], extra, events - 1, ctx)?;
        }
        Ok(())
    })
}

pub fn c30(thorough: bool) -> Check {
    let (a, b) = if thorough { (3, 3) } else { (2, 1) };
    Check {
        id: "C30",
        level: "exploration",
        rule: "a case is one schedule: two real processes, of which a scheduler lets one go on at a time, from one system call on a shared file to the next; all schedules with so many preemptions (and kills) are run, starting with either. All are distinct and count as non-trivial. The files are read after every step.",
        assumptions: vec![
            "only calls on files other than the patch and the output are scheduling points: the others touch nothing the other process can see",
            "reads of a single byte are no points of their own",
            "a file that is being created may be seen partly written",
            "of two changes of one file at the same time one may be lost; the file is then the complete result of the other",
            "a process that is killed may leave its temporary file",
        ],
        families: vec![
            all("two runs at a time", &format!("all schedules with at most {a} preemptions, starting with either (equal process ids: as in two containers)"), None, a),
            all("one of two runs killed", &format!("one is killed before any of its steps, and repeated when the other has ended; all schedules with up to {b} preemptions besides"), Some('k'), b + 1),
            all("a call of one of two runs fails", &format!("one call of either fails (EIO); all schedules with up to {b} preemptions besides"), Some('f'), b + 1),
        ],
    }
}
