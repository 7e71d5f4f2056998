//! C29: what the commands and the library do depends on the files and the arguments alone.

use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::procs::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::ffi::{CString, OsString};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant, SystemTime};

extern "C" {
    fn close(fd: i32) -> i32;
    fn rmdir(path: *const std::ffi::c_char) -> i32;
}

/// A run of one of the programs: what it is given.
struct Scene {
    name: &'static str,
    files: Vec<(&'static str, &'static [u8])>,
    /// pw_patch; pw_diff if there is none
    patch: Option<Value>,
    args: Vec<&'static str>,
}

fn scenes() -> Vec<Scene> {
    let tc = json!([{"context_lengths": [1, 1], "before": {"start": 0, "items": ["a\n", "b\n", "c\n"]}, "after": {"start": 0, "items": ["a\n", "B\n", "c\n"]}}]);
    let bc = json!([{"context_lengths": [1, 0], "before": {"start": 0, "items": [200, 1]}, "after": {"start": 0, "items": [200, 2]}}]);
    let t = json!({"TextChange": {"before_path": "@", "after_path": "other", "clumps": tc}});
    let b = json!({"ByteChange": {"before_path": "@", "after_path": "other", "compressed": false, "clumps": bc}});
    let ta = json!({"TextAdd": {"path": "@", "lines": ["x\n", "y"]}});
    let tr = json!({"TextRemove": {"path": "@", "lines": ["x\n", "y"]}});
    let ba = json!({"ByteAdd": {"path": "@", "compressed": false, "bytes": [255, 0]}});
    let br = json!({"ByteRemove": {"path": "@", "compressed": false, "bytes": [255, 0]}});
    let s = |name, files: &[(&'static str, &'static [u8])], patch: Option<&Value>, args: &[&'static str]| Scene { name, files: files.to_vec(), patch: patch.cloned(), args: args.to_vec() };
    vec![
        s("text change", &[("target", b"a\nb\nc\n")], Some(&t), &[]),
        s("text change, displaced", &[("target", b"z\na\nb\nc\n")], Some(&t), &[]),
        s("text change, fuzzy", &[("target", b"q\nb\nc\n")], Some(&t), &[]),
        s("text change, reversed", &[("target", b"a\nB\nc\n")], Some(&t), &["-r"]),
        s("text change, already applied", &[("target", b"a\nB\nc\n")], Some(&t), &[]),
        s("text change that does not apply", &[("target", b"no\nsuch\n")], Some(&t), &[]),
        s("text change, no target", &[], Some(&t), &[]),
        s("binary change", &[("target", b"\xc8\x01")], Some(&b), &[]),
        s("binary change, reversed", &[("target", b"\xc8\x02")], Some(&b), &["-r"]),
        s("binary change that does not apply", &[("target", b"\xc8\x07")], Some(&b), &[]),
        s("text addition", &[], Some(&ta), &[]),
        s("text addition, the file exists", &[("target", b"mine\n")], Some(&ta), &[]),
        s("text addition, reversed", &[("target", b"x\ny")], Some(&ta), &["-r"]),
        s("text removal", &[("target", b"x\ny")], Some(&tr), &[]),
        s("text removal, no file", &[], Some(&tr), &[]),
        s("text removal, reversed", &[], Some(&tr), &["-r"]),
        s("binary addition", &[], Some(&ba), &[]),
        s("binary addition, reversed", &[("target", b"\xff\x00")], Some(&ba), &["-r"]),
        s("binary removal", &[("target", b"\xff\x00")], Some(&br), &[]),
        s("binary removal, reversed", &[], Some(&br), &["-r"]),
        s("no patch", &[("target", b"a\nb\nc\n")], Some(&json!({"Text": 1})), &[]),
        s("diff of texts", &[("target", b"a\nb\nc\nd\ne\nf\n"), ("other", b"a\nb\nc\nD\ne\nf\ng")], None, &[]),
        s("diff of texts, context 0", &[("target", b"a\nb\nc\nd\ne\nf\n"), ("other", b"a\nb\nc\nD\ne\nf\ng")], None, &["-c", "0"]),
        s("diff of texts with many like lines", &[("target", b"a\na\nb\na\na\nb\na\nb\n"), ("other", b"a\nb\na\na\na\nb\nb\na\n")], None, &["-c", "1"]),
        s("diff of texts of one size", &[("target", b"a\nb\nc\n"), ("other", b"a\nB\nc\n")], None, &[]),
        s("diff of binary data", &[("target", b"\xff123"), ("other", b"\xff1x3")], None, &[]),
        s("diff of like files", &[("target", b"a\nb\n"), ("other", b"a\nb\n")], None, &[]),
        s("diff, text added", &[("other", b"a\nb\n")], None, &[]),
        s("diff, binary data removed", &[("target", b"\xff1")], None, &[]),
        s("diff of nothing", &[], None, &[]),
    ]
}

const VERBOSITY: [&[&str]; 8] = [&[], &["-v"], &["-vv"], &["-vvv"], &["-vvvv"], &["--verbose"], &["-v", "-v", "-v"], &["-vvvvvvvvvvvv"]];

fn environments() -> Vec<Vec<(&'static str, OsString)>> {
    let e = |v: &[(&'static str, &str)]| v.iter().map(|(k, x)| (*k, OsString::from(x))).collect::<Vec<_>>();
    vec![
        vec![],
        e(&[("TMPDIR", "/nonexistent")]),
        e(&[("TMPDIR", "")]),
        e(&[("TMPDIR", "/dev/null"), ("TMP", "/dev/null"), ("TEMP", "/dev/null")]),
        e(&[("HOME", "/nonexistent"), ("USER", "nobody"), ("PATH", "")]),
        e(&[("RUST_LOG", "trace"), ("RUST_BACKTRACE", "full"), ("RUST_LOG_STYLE", "always")]),
        e(&[("RUST_BACKTRACE", "1"), ("RUST_MIN_STACK", "100000")]),
        e(&[("LANG", "C"), ("LC_ALL", "C")]),
        e(&[("LANG", "de_DE.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("LANGUAGE", "de")]),
        e(&[("TZ", "Pacific/Kiritimati")]),
        e(&[("NO_COLOR", "1"), ("TERM", "dumb"), ("COLUMNS", "1"), ("LINES", "1")]),
        e(&[("CLICOLOR_FORCE", "1"), ("TERM", "xterm"), ("COLUMNS", "x")]),
        e(&[("PWD", "/nonexistent"), ("OLDPWD", "/")]),
        e(&[("POSIXLY_CORRECT", "1"), ("SIMPLE_BACKUP_SUFFIX", ".bak"), ("VERSION_CONTROL", "numbered"), ("PATCH_GET", "1")]),
        e(&[("DIFF_OPTIONS", "-c 0"), ("PW_DIFF_CONTEXT", "0"), ("CONTEXT", "0"), ("VERBOSE", "1"), ("REVERSE", "1"), ("DRY_RUN", "1"), ("DEBUG", "1")]),
        e(&[("CI", "1"), ("CARGO_MANIFEST_DIR", "/nonexistent"), ("SOURCE_DATE_EPOCH", "0")]),
        vec![("LANG", OsString::from_vec(vec![0xff, 0xfe])), ("EMPTY", OsString::new())],
    ]
}

const STDIN: [&str; 5] = ["nothing", "closed", "a pipe with data", "endless zeros", "a pipe nobody writes to"];
const STDERR: [&str; 6] = ["nowhere", "a pipe", "closed", "a full device", "a broken pipe", "open for reading only"];
/// of pw_diff: a file, appended to a file, a pipe; of pw_patch: nowhere, closed, a full device, a broken pipe
const STDOUT: u64 = 4;
/// how the target is named, and from where
const FORMS: [&str; 11] = [
    "by its name",
    "with ./",
    "absolutely",
    "absolutely, from /",
    "from the directory above",
    "from a directory below",
    "with .. in the middle",
    "absolutely, from a directory that has been removed",
    "through a symbolic link to another directory and ..",
    "through a symbolic link to its directory",
    "with doubled slashes and . in the middle",
];
/// how the patch file is given: absolutely, relatively, as a pipe, by way of a link
const GIVEN: u64 = 4;
/// the times of the target, of the other file and of the patch, in seconds before now
const TIMES: [&str; 7] = ["as they come", "all equal", "all 1970", "all in the future", "the target newer", "the target older", "the patch older than the files"];
const ARGV0: [&str; 4] = ["", "pw", "pw_diff -r", "/nonexistent/x"];

/// What the system says about the moment and the machine (tracer/circ.c): the clock, the random numbers (of which the
/// seeds of hash tables are made), which streams are terminals, the user, the numbers of the process, the host, processors.
fn machines() -> Vec<String> {
    let mut v = vec![String::new()];
    let years = [-2_208_988_800i64, -1, 0, 1, 951_782_400, 1_000_000_000, 1_234_567_890, 1_709_164_800, 2_147_483_647, 2_147_483_648, 4_294_967_295, 4_294_967_296, 253_402_300_800];
    v.extend(years.iter().map(|t| format!("time={t}")));
    v.push("time=1700000000;nanos=999999999".into());
    // each hour of a day, each day of a week and each month of a year
    v.extend((0..24).map(|h| format!("time={}", 1_700_000_000 + h * 3600)));
    v.extend((1..7).map(|d| format!("time={}", 1_700_000_000 + d * 86_400)));
    v.extend((1..12).map(|m| format!("time={}", 1_700_000_000 + m * 2_629_746i64)));
    v.extend((0..4).flat_map(|k| (0..16).map(move |x| format!("random={}", x * 17 + k * 0x155))));
    v.extend((1..8).map(|t| format!("tty={}", (0..3).filter(|f| t >> f & 1 == 1).map(|f| f.to_string()).collect::<String>())));
    v.extend([0u64, 1, 1000, 65534, 4_294_967_295].map(|u| format!("user={u}")));
    v.extend([1u64, 2, 255, 256, 32768, 65536, 4_194_303].map(|p| format!("process={p}")));
    v.extend(["localhost", "", "other.example.org"].map(|h| format!("host={h}")));
    v.extend([1, 2, 3, 7, 64, 1024].map(|n| format!("processors={n}")));
    v.extend(["", "0", "1", "5", "yes", "no", "true", "false", "on", "always", "never", "never-heard-of", "/", "/nonexistent", ".", "-r", ".orig", "C", "de_DE.UTF-8", "trace"].map(|x| format!("variables={x}")));
    v
}

#[derive(Clone, Copy, Debug, Hash, PartialEq, Default)]
struct How {
    verbosity: u64,
    env: u64,
    stdin: u64,
    stderr: u64,
    stdout: u64,
    form: u64,
    given: u64,
    /// 0: the program's own
    argv0: u64,
    times: u64,
    machine: u64,
}

const DIMS: usize = 10;
fn radices() -> [u64; DIMS] {
    [VERBOSITY.len() as u64, environments().len() as u64, STDIN.len() as u64, STDERR.len() as u64, STDOUT, FORMS.len() as u64, GIVEN, ARGV0.len() as u64 + 1, TIMES.len() as u64, machines().len() as u64]
}
fn preloaded() -> String {
    let p = std::env::var("MC_PRELOAD").unwrap_or_else(|_| format!("{ROOT}/target/circ.so"));
    assert!(Path::new(&p).exists(), "{p} is missing");
    p
}
fn how(d: &[u64]) -> How {
    How { verbosity: d[0], env: d[1], stdin: d[2], stderr: d[3], stdout: d[4], form: d[5], given: d[6], argv0: d[7], times: d[8], machine: d[9] }
}

/// What is observed: exit status, tree, output.
#[derive(Debug, PartialEq, Clone, Hash)]
struct Effect {
    code: Option<i32>,
    tree: BTreeMap<String, (char, u32, Vec<u8>)>,
    out: Vec<u8>,
}

fn name_of(form: u64, w: &Path, file: &str) -> String {
    match form {
        0 => file.to_string(),
        1 => format!("./{file}"),
        2 | 3 | 7 => w.join(file).display().to_string(),
        4 => format!("{}/{file}", w.file_name().unwrap().to_string_lossy()),
        5 => format!("../{file}"),
        8 => format!("link/../{file}"),
        9 => format!("{}/here/{file}", w.display()),
        10 => format!(".//sub/.//..//./{file}"),
        _ => format!("sub/../{file}"),
    }
}

fn perform(s: &Scene, h: &How) -> (Effect, String) {
    perform_with(s, h, machines()[h.machine as usize].clone())
}

/// `circumstances` for tracer/circ.c; @W stands for the working directory.
fn perform_with(s: &Scene, h: &How, circumstances: String) -> (Effect, String) {
    let w = fresh();
    fs::create_dir(w.join("sub")).expect("scratch directory");
    fs::create_dir(w.join("other-sub")).expect("scratch directory");
    std::os::unix::fs::symlink("../other-sub", w.join("sub/link")).expect("link");
    std::os::unix::fs::symlink(".", w.join("here")).expect("link");
    fs::write(w.join("bystander"), b"stays").expect("scratch file");
    for (n, c) in &s.files {
        fs::write(w.join(n), c).expect("scratch file");
    }
    let gone = beside("gone");
    let cwd = match h.form {
        3 => PathBuf::from("/"),
        4 => w.parent().unwrap().to_path_buf(),
        5 => w.join("sub"),
        8 => w.join("sub"),
        7 => {
            let _ = fs::create_dir(&gone);
            gone.clone()
        }
        _ => w.clone(),
    };
    let (patch, out) = (beside("patch"), beside("out"));
    let mut args: Vec<String> = VERBOSITY[h.verbosity as usize].iter().map(|s| s.to_string()).collect();
    args.extend(s.args.iter().map(|s| s.to_string()));
    let mut feed = vec![];
    if let Some(p) = &s.patch {
        let mut p = p.clone();
        let (_, x) = p.as_object_mut().unwrap().iter_mut().next().unwrap();
        for key in ["path", "before_path"] {
            if x.get(key).is_some() {
                x[key] = json!(name_of(h.form, &w, "target"));
            }
        }
        fs::write(&patch, p.to_string()).expect("scratch file");
        args.push(match h.given {
            1 if h.form != 7 => relative(&cwd, &patch),
            2 => {
                feed = p.to_string().into_bytes();
                "/dev/stdin".into()
            }
            3 => {
                let l = beside("patch-link");
                if fs::symlink_metadata(&l).is_err() {
                    std::os::unix::fs::symlink(&patch, &l).expect("link");
                }
                l.display().to_string()
            }
            _ => patch.display().to_string(),
        });
    } else {
        args.extend([name_of(h.form, &w, "target"), name_of(h.form, &w, "other")]);
    }
    if h.times > 0 {
        let now = SystemTime::now();
        for (file, k) in [(w.join("target"), 0), (w.join("other"), 1), (patch.clone(), 2)] {
            let ago = |s: u64| now - Duration::from_secs(s);
            let t = match (h.times, k) {
                (1, _) => ago(1000),
                (2, _) => SystemTime::UNIX_EPOCH,
                (3, _) => now + Duration::from_secs(1 << 30),
                (4, 0) | (5, 1 | 2) | (6, 0 | 1) => ago(10),
                _ => ago(100_000),
            };
            if let Ok(f) = fs::File::options().write(true).open(&file) {
                f.set_modified(t).expect("time of a file");
            }
        }
    }
    let prog = if s.patch.is_some() { "pw_patch" } else { "pw_diff" };
    let mut c = Command::new(bin(prog));
    if h.argv0 > 0 {
        c.arg0(ARGV0[h.argv0 as usize - 1]);
    }
    c.args(&args).current_dir(&cwd).env_clear();
    for (k, v) in &environments()[h.env as usize] {
        c.env(k, v);
    }
    if !circumstances.is_empty() {
        c.env("LD_PRELOAD", preloaded()).env("MC_CIRC", circumstances.replace("@W", &w.display().to_string()));
    }
    let full = || Stdio::from(fs::File::options().write(true).open("/dev/full").expect("/dev/full"));
    let broken = || {
        let (r, w) = std::io::pipe().expect("pipe");
        drop(r);
        Stdio::from(w)
    };
    let mut shut = vec![];
    let mut keep: Vec<std::io::PipeWriter> = vec![];
    let stdin = if feed.is_empty() { h.stdin } else { 5 };
    c.stdin(match stdin {
        2 | 5 => {
            let (r, mut w) = std::io::pipe().expect("pipe");
            w.write_all(if stdin == 5 { &feed } else { b"y\ny\n{}\n" }).expect("pipe");
            Stdio::from(r)
        }
        3 => Stdio::from(fs::File::open("/dev/zero").expect("/dev/zero")),
        4 => {
            let (r, w) = std::io::pipe().expect("pipe");
            keep.push(w);
            Stdio::from(r)
        }
        _ => Stdio::null(),
    });
    if stdin == 1 {
        shut.push(0);
    }
    let mut read_err = None;
    c.stderr(match h.stderr {
        1 => {
            let (r, w) = std::io::pipe().expect("pipe");
            read_err = Some(r);
            Stdio::from(w)
        }
        3 => full(),
        4 => broken(),
        5 => Stdio::from(fs::File::open("/dev/null").expect("/dev/null")),
        _ => Stdio::null(),
    });
    if h.stderr == 2 {
        shut.push(2);
    }
    let mut read_out = None;
    c.stdout(if s.patch.is_some() {
        match h.stdout {
            2 => full(),
            3 => broken(),
            k => {
                if k == 1 {
                    shut.push(1);
                }
                Stdio::null()
            }
        }
    } else {
        match h.stdout {
            1 => {
                fs::write(&out, b"before\n").expect("scratch file");
                Stdio::from(fs::File::options().append(true).open(&out).expect("output"))
            }
            2 => {
                let (r, w) = std::io::pipe().expect("pipe");
                read_out = Some(r);
                Stdio::from(w)
            }
            // read and write, not truncated: longer content before
            3 => {
                fs::write(&out, b"").expect("scratch file");
                Stdio::from(fs::File::options().read(true).write(true).open(&out).expect("output"))
            }
            _ => Stdio::from(fs::File::create(&out).expect("output")),
        }
    });
    let remove = (h.form == 7).then(|| CString::new(gone.as_os_str().as_bytes()).unwrap());
    if !shut.is_empty() || remove.is_some() {
        // SAFETY: only system calls between fork and exec
        unsafe {
            c.pre_exec(move || {
                if let Some(r) = &remove {
                    rmdir(r.as_ptr());
                }
                for fd in &shut {
                    close(*fd);
                }
                Ok(())
            });
        }
    }
    let mut child = c.spawn().unwrap_or_else(|e| panic!("cannot run {prog}: {e}"));
    drop(c);
    let start = Instant::now();
    let mut nap = Duration::from_micros(300);
    let (status, slow) = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break (s, false);
        }
        if start.elapsed() > Duration::from_secs(60) {
            let _ = child.kill();
            break (child.wait().expect("wait"), true);
        }
        std::thread::sleep(nap);
        nap = (nap * 3 / 2).min(Duration::from_millis(20));
    };
    drop(keep);
    drop(read_err);
    let mut o = vec![];
    if let Some(mut r) = read_out {
        r.read_to_end(&mut o).expect("pipe");
    } else if s.patch.is_none() {
        o = fs::read(&out).expect("output");
        if h.stdout == 1 {
            o = o.strip_prefix(b"before\n").map_or(b"the output is not appended".to_vec(), |o| o.to_vec());
        }
    }
    let ended = match (slow, status.code(), status.signal()) {
        (true, ..) => "no end within 60 s".to_string(),
        (_, Some(c), _) => format!("exit status {c}"),
        (_, _, s) => format!("killed by signal {}", s.unwrap_or(0)),
    };
    let tree = tree(&w).into_iter().map(|(k, e)| (k, (e.kind, e.mode, e.content))).collect();
    // the names of the files in a patch are as they are given
    if let Ok(mut v) = serde_json::from_slice::<Value>(&o) {
        if let Some((_, x)) = v.as_object_mut().and_then(|m| m.iter_mut().next()) {
            let mut named = false;
            for (key, file) in [("path", ""), ("before_path", "target"), ("after_path", "other")] {
                if let Some(p) = x.get(key).and_then(|p| p.as_str()) {
                    let file = if file.is_empty() { p.rsplit('/').next().unwrap_or("").to_string() } else { file.to_string() };
                    if p == name_of(h.form, &w, &file) {
                        x[key] = json!(file);
                        named = true;
                    }
                }
            }
            if named && h.form != 0 {
                o = serde_json::to_vec_pretty(&v).unwrap();
            } else if named {
                // what it is compared with
                o = serde_json::to_vec_pretty(&serde_json::from_slice::<Value>(&o).unwrap()).unwrap();
            }
        }
    }
    (Effect { code: if slow { None } else { status.code() }, tree, out: o }, ended)
}

/// `to` as seen from `from`.
fn relative(from: &Path, to: &Path) -> String {
    let mut up = PathBuf::new();
    for a in from.ancestors() {
        if let Ok(rest) = to.strip_prefix(a) {
            return up.join(rest).display().to_string();
        }
        up.push("..");
    }
    to.display().to_string()
}

fn vary(name: &str, bound: String, hows: Vec<How>) -> Family {
    let scenes = scenes();
    let n = scenes.len() as u64;
    let base: Vec<OnceLock<Effect>> = scenes.iter().map(|_| OnceLock::new()).collect();
    let len = hows.len() as u64 * n;
    let names: Vec<&str> = scenes.iter().map(|s| s.name).collect();
    family(name, format!("{n} runs ({}); {bound}", names.join("; ")), len, move |i, ctx| {
        let (h, k) = (&hows[(i / n) as usize], (i % n) as usize);
        let s = &scenes[k];
        beat();
        note_case(|| format!("{} {h:?}", s.name));
        let want = base[k].get_or_init(|| perform(s, &How::default()).0);
        let (got, ended) = perform(s, h);
        ctx.exec += 1;
        ctx.nontrivial(&(k, h));
        ctx.outcome(&(k, &got));
        let env: Vec<String> = environments()[h.env as usize].iter().map(|(k, v)| format!("{k}={}", v.to_string_lossy())).collect();
        let case = || {
            json!({"run": s.name, "verbosity": VERBOSITY[h.verbosity as usize], "environment": env, "standard input": STDIN[h.stdin as usize],
                "standard error": STDERR[h.stderr as usize], "standard output": h.stdout, "target named": FORMS[h.form as usize], "patch given": h.given,
                "argv0": h.argv0, "moment and machine": machines()[h.machine as usize], "times": TIMES[h.times as usize], "ended": ended, "usual status": want.code})
        };
        ctx.sample(case);
        if got.code != want.code {
            return fail("the exit status is another one than usual", case());
        }
        if got.out != want.out {
            return fail(format!("the output is another one than usual: {}", bytes_str(&got.out)), case());
        }
        if got.tree != want.tree {
            let d: Vec<&String> = got.tree.keys().chain(want.tree.keys()).filter(|k| got.tree.get(*k) != want.tree.get(*k)).collect();
            return fail(format!("the effect on {d:?} is another one than usual"), case());
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- files that are looked at

/// What the file is taken to be instead: a file with such a content, or a directory with a file in it.
const INSTEAD: [&[u8]; 9] = [b"", b"1\n", b"0\n", b"true\n", b"context = 0\nreverse = true\nverbose = 3\n", b"{\"context\": 0, \"reverse\": true}\n", b"-r\n", b"\xff\xfe", b"a directory"];

/// `.`, `..` and doubled slashes taken away.
fn plain_path(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for part in p.split('/') {
        match part {
            "" | "." => (),
            ".." => {
                out.pop();
            }
            x => out.push(x),
        }
    }
    format!("/{}", out.join("/"))
}

/// The files that a run looks at, but for those it is given, those it creates, and the directories they are in; with @W
/// for the working directory.
fn looked_at(s: &Scene) -> (Vec<String>, u64) {
    let log = beside("log");
    let _ = fs::remove_file(&log);
    let _ = perform_with(s, &How::default(), format!("log={}", log.display()));
    let text = String::from_utf8_lossy(&fs::read(&log).unwrap_or_default()).into_owned();
    let w = fresh();
    let lines: Vec<(bool, &str, String)> = text.lines().filter_map(|l| Some((l.starts_with('c'), l.get(2..)?, plain_path(l.get(2..)?)))).collect();
    let mut given: Vec<String> = [w.join("target"), w.join("other"), beside("patch"), beside("out")].iter().map(|p| p.display().to_string()).collect();
    given.extend(lines.iter().filter(|l| l.0).map(|l| l.2.clone()));
    let mut found: Vec<String> = lines
        .iter()
        .filter(|(_, _, p)| !given.iter().any(|g| g == p || g.starts_with(&format!("{}/", p.trim_end_matches('/')))) && (!p.starts_with("/dev/") || p.starts_with("/dev/shm/")))
        .map(|(_, l, _)| l.replace(&w.display().to_string(), "@W"))
        .collect();
    found.sort();
    found.dedup();
    (found, lines.len() as u64)
}

/// A file that is looked at beside those given can be anything; the effect must be the same.
fn other_files(ctx: &mut Ctx, s: &Scene) -> R {
    beat();
    note_case(|| s.name.into());
    let want = perform(s, &How::default()).0;
    let (found, noted) = looked_at(s);
    ctx.exec += 2;
    ctx.count("looks noted", noted);
    ctx.nontrivial(&s.name);
    ctx.outcome(&found);
    ctx.count("other files looked at", found.len() as u64);
    ctx.sample(|| json!({"run": s.name, "files looked at": found}));
    let instead = beside("instead");
    for f in &found {
        for c in INSTEAD {
            beat();
            let _ = fs::remove_file(&instead);
            let _ = fs::remove_dir_all(&instead);
            if c == b"a directory" {
                fs::create_dir(&instead).expect("scratch directory");
                fs::write(instead.join("target.rej"), b"1\n").expect("scratch file");
            } else {
                fs::write(&instead, c).expect("scratch file");
            }
            let (got, ended) = perform_with(s, &How::default(), format!("redirect={f};to={}", instead.display()));
            ctx.exec += 1;
            if got != want {
                return fail(
                    "the effect depends on a file that was not given",
                    json!({"run": s.name, "file": f, "its content": bytes_str(c), "ended": ended, "usual status": want.code, "output": bytes_str(&got.out), "usual output": bytes_str(&want.out)}),
                );
            }
        }
    }
    let _ = fs::remove_file(&instead);
    let _ = fs::remove_dir_all(&instead);
    Ok(())
}

// ---------------------------------------------------------------- spellings

fn plain(prog: &str, args: &[String], w: &Path) -> Ran {
    let a: Vec<&std::ffi::OsStr> = args.iter().map(|s| os(s)).collect();
    run(&bin(prog), &a, w, Some(&beside("out")))
}

fn spellings(c: u64) -> Vec<Vec<String>> {
    let (x, y) = ("x", "y");
    let v = |a: &[&str]| a.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let c = c.to_string();
    vec![
        v(&["-c", &c, x, y]),
        v(&[&format!("-c{c}"), x, y]),
        v(&[&format!("-c={c}"), x, y]),
        v(&["--context", &c, x, y]),
        v(&[&format!("--context={c}"), x, y]),
        v(&[x, y, "-c", &c]),
        v(&[x, "-c", &c, y]),
        v(&["-c", &c, "--", x, y]),
        v(&["-v", "-c", &c, x, y]),
        v(&[&format!("-vc{c}"), x, y]),
        v(&[&format!("-vvc={c}"), x, y]),
    ]
}

/// A text of 600 lines, or so many bytes, with a change in the middle.
fn middle(binary: bool) -> (Vec<u8>, Vec<u8>) {
    let (mut x, mut y) = (vec![], vec![]);
    for i in 0..601u32 {
        if binary {
            x.push((i % 251) as u8 | if i == 0 { 0x80 } else { 0 });
            y.push(if i == 300 { 0xff } else { x[i as usize] });
        } else {
            x.extend(format!("{i}\n").bytes());
            y.extend(if i == 300 { "changed\n".into() } else { format!("{i}\n") }.bytes());
        }
    }
    if binary {
        x[0] = 0xff;
        y[0] = 0xff;
    }
    (x, y)
}

fn spelled(binary: bool, context: Option<u64>, args: &[String], ctx: &mut Ctx) -> R {
    beat();
    note_case(|| format!("{binary} {args:?}"));
    let w = fresh();
    let (x, y) = middle(binary);
    fs::write(w.join("x"), x).expect("scratch file");
    fs::write(w.join("y"), y).expect("scratch file");
    let r = plain("pw_diff", args, &w);
    ctx.exec += 1;
    ctx.nontrivial(&(binary, args));
    let v: Value = serde_json::from_slice(&r.out).unwrap_or(Value::Null);
    let key = if binary { "ByteChange" } else { "TextChange" };
    let clumps = v[key]["clumps"].as_array().cloned().unwrap_or_default();
    let lengths: Vec<Value> = clumps.iter().map(|c| c["context_lengths"].clone()).collect();
    ctx.outcome(&(r.code, format!("{lengths:?}")));
    let case = || json!({"arguments": args, "binary": binary, "context": context, "ended": r.show(), "context_lengths": lengths});
    ctx.sample(case);
    let c = context.unwrap_or(2);
    if !r.ok() || lengths != [json!([c, c])] {
        return fail("the context is another one than asked for", case());
    }
    Ok(())
}

/// Command lines that are not understood: (program, arguments); P is a patch file that would apply.
fn not_understood() -> Vec<(&'static str, Vec<&'static str>)> {
    let mut v: Vec<(&'static str, Vec<&'static str>)> = vec![];
    for a in [
        &["pw_diff"][..],
        &["pw_diff", "x"],
        &["pw_diff", "x", "y", "y"],
        &["pw_diff", "--nope", "x", "y"],
        &["pw_diff", "-z", "x", "y"],
        &["pw_diff", "-r", "x", "y"],
        &["pw_diff", "-c", "256", "x", "y"],
        &["pw_diff", "-c", "257", "x", "y"],
        &["pw_diff", "-c", "65536", "x", "y"],
        &["pw_diff", "-c", "18446744073709551616", "x", "y"],
        &["pw_diff", "-c", "-1", "x", "y"],
        &["pw_diff", "-c=-1", "x", "y"],
        &["pw_diff", "-c", "", "x", "y"],
        &["pw_diff", "-c", "two", "x", "y"],
        &["pw_diff", "-c", "1.5", "x", "y"],
        &["pw_diff", "-c", "0x1", "x", "y"],
        &["pw_diff", "-c", " 1", "x", "y"],
        &["pw_diff", "-c", "1 ", "x", "y"],
        &["pw_diff", "-c", "1", "-c", "2", "x", "y"],
        &["pw_diff", "x", "y", "-c"],
        &["pw_diff", "--context", "x", "y"],
        &["pw_diff", "--", "x", "y", "-v"],
        &["pw_patch"],
        &["pw_patch", "-r"],
        &["pw_patch", "-v"],
        &["pw_patch", "P", "P"],
        &["pw_patch", "P", "x"],
        &["pw_patch", "-z", "P"],
        &["pw_patch", "--nope", "P"],
        &["pw_patch", "P", "--nope"],
        &["pw_patch", "-c", "1", "P"],
        &["pw_patch", "-r", "-r", "P"],
        &["pw_patch", "--reverse=yes", "P"],
        &["pw_patch", "--", "-r", "P"],
        &["pw_patch", "--", "P", "-r"],
    ] {
        v.push((a[0], a[1..].to_vec()));
    }
    v
}

fn refuse(prog: &'static str, args: &[&'static str], ctx: &mut Ctx) -> R {
    beat();
    note_case(|| format!("{prog} {args:?}"));
    let w = fresh();
    fs::write(w.join("x"), b"a\nb\nc\n").expect("scratch file");
    fs::write(w.join("y"), b"a\nB\nc\n").expect("scratch file");
    let clumps = text_patch(&["a\n", "b\n", "c\n"].map(|s| s.to_string()), &["a\n", "B\n", "c\n"].map(|s| s.to_string()), 1).0;
    fs::write(w.join("P"), json!({"TextChange": {"before_path": "x", "after_path": "y", "clumps": clumps}}).to_string()).expect("scratch file");
    let before = tree(&w);
    let args: Vec<String> = args.iter().map(|s| s.to_string()).collect();
    let r = plain(prog, &args, &w);
    ctx.exec += 1;
    ctx.nontrivial(&(prog, &args));
    ctx.outcome(&r.code);
    let changed = differences(&before, &tree(&w), "");
    let case = || json!({"program": prog, "arguments": args, "ended": r.show(), "output": bytes_str(&r.out), "changed": changed});
    ctx.sample(case);
    if r.code.is_none() || r.ok() || !r.out.is_empty() || !changed.is_empty() {
        return fail("a command line that makes no sense is not refused", case());
    }
    Ok(())
}

// ---------------------------------------------------------------- messages (C32)

/// A run in the usual circumstances, through `run`.
fn spoken(s: &Scene, verbosity: &[&str]) {
    let w = fresh();
    for (n, c) in &s.files {
        fs::write(w.join(n), c).expect("scratch file");
    }
    let mut args: Vec<String> = verbosity.iter().chain(&s.args).map(|s| s.to_string()).collect();
    let Some(p) = &s.patch else {
        args.extend(["target".into(), "other".into()]);
        plain("pw_diff", &args, &w);
        return;
    };
    fs::write(beside("patch"), p.to_string().replace('@', "target")).expect("scratch file");
    args.push(beside("patch").display().to_string());
    plain("pw_patch", &args, &w);
}

pub fn spoken_scenes() -> Vec<Family> {
    let all = scenes();
    let n = all.len() as u64;
    let names: Vec<&str> = all.iter().map(|s| s.name).collect();
    let bound = format!("{n} runs ({}), each verbosity ({})", names.join("; "), VERBOSITY.len());
    let bad = not_understood();
    vec![
        family("every verbosity", bound, n * VERBOSITY.len() as u64, move |i, ctx| {
            let (s, v) = (&all[(i % n) as usize], VERBOSITY[(i / n) as usize]);
            beat();
            note_case(|| format!("{} {v:?}", s.name));
            spoken(s, v);
            ctx.exec += 1;
            ctx.nontrivial(&i);
            Ok(())
        }),
        family("command lines that make no sense", format!("{} of them", bad.len()), bad.len() as u64, move |i, ctx| {
            let (prog, args) = &bad[i as usize];
            refuse(prog, args, ctx)
        }),
    ]
}

// ---------------------------------------------------------------- repetition

fn all_results(a: &[u8], b: &[u8], c: u8) -> Vec<Value> {
    let (x, y) = (render(a, 0, true), render(b, 0, true));
    let t = text_patch(&x, &y, c);
    let p = byte_patch(a, b, c);
    let mut v = vec![json!(t.0), json!(p.0)];
    for reverse in [false, true] {
        for f in [&x, &y] {
            v.push(json!(apply_text(&t, f, reverse).map(|r| (r.0, format!("{:?}", r.1)))));
        }
        for f in [a, b] {
            v.push(json!(apply_bytes(&p, f, reverse)));
        }
    }
    v
}

fn again(first: (&[u8], &[u8]), other: (&[u8], &[u8]), c: u8, ctx: &mut Ctx) -> R {
    note_case(|| format!("{first:?} {other:?} {c}"));
    let one = all_results(first.0, first.1, c);
    all_results(other.0, other.1, 1 - c.min(1));
    let two = all_results(first.0, first.1, c);
    ctx.exec += 3;
    ctx.outcome(&one[0].to_string());
    let case = json!({"before": first.0, "after": first.1, "between": [other.0, other.1], "context": c});
    if one != two {
        return fail("repeated, the result is another one", case);
    }
    if first.0 != first.1 {
        ctx.nontrivial(&(first, other, c));
    }
    ctx.sample(|| case);
    Ok(())
}

pub fn c29(thorough: bool) -> Check {
    let r = radices();
    let mut one = vec![];
    let mut pairs = vec![];
    for i in 0..DIMS {
        for x in 0..r[i] {
            let mut d = [0; DIMS];
            d[i] = x;
            if x > 0 || i == 0 {
                one.push(how(&d));
            }
            for j in i + 1..DIMS {
                for y in 1..r[j] {
                    if x > 0 && (thorough || j < 9) {
                        let mut d = d;
                        d[j] = y;
                        pairs.push(how(&d));
                    }
                }
            }
        }
    }
    let mut families = vec![
        vary("one circumstance", format!("each verbosity ({}), environment ({}), standard input ({STDIN:?}), standard error ({STDERR:?}), kind of output, way to name the target ({FORMS:?}), way to give the patch (absolute, relative, a pipe, a link), program name, times of the files ({TIMES:?}), and what the system says about the moment and the machine ({} ways: years, hours, days and months on the clock, random numbers, streams that are terminals, user, process number, host name, processors, the value of whatever environment variable is asked for); compared with the usual ones", r[0], r[1], r[9] - 1), one),
    ];
    families.push(vary("two circumstances", if thorough { "every two of those" } else { "every two of those but the last" }.into(), pairs));
    if thorough {
        let (v, s, f) = (r[0], r[3], r[5]);
        let mut cube = vec![];
        for i in 0..product(&[v, s, f, GIVEN]) {
            let d = digits(i, &[v, s, f, GIVEN]);
            cube.push(How { verbosity: d[0], stderr: d[1], form: d[2], given: d[3], ..How::default() });
        }
        families.push(vary("four circumstances", "every verbosity, standard error, way to name the target and to give the patch".into(), cube));
    }
    let all = scenes();
    families.push(family(
        "files that are looked at",
        format!("each file that one of the {} runs looks at (opens, examines, lists), there or not, beside those it is given or creates, replaced by {} files of different contents and by a directory", all.len(), INSTEAD.len() - 1),
        all.len() as u64,
        move |i, ctx| other_files(ctx, &all[i as usize]),
    ));
    let contexts: Vec<Option<u64>> = std::iter::once(None).chain((0..256).map(Some)).collect();
    let cs = contexts.len() as u64;
    families.push(family(
        "spelling of the context",
        format!("no context option (2) and contexts 0 to 255, {} spellings and places of the option each, text and binary data", spellings(0).len()),
        cs * spellings(0).len() as u64 * 2,
        move |i, ctx| {
            let d = digits(i, &[cs, spellings(0).len() as u64, 2]);
            let c = contexts[d[0] as usize];
            let args = match c {
                Some(c) => {
                    // quick: all spellings of a few, one of each
                    if !thorough && d[1] as usize != c as usize % spellings(0).len() && ![0, 1, 2, 3, 10, 127, 128, 255].contains(&c) {
                        return Ok(());
                    }
                    spellings(c)[d[1] as usize].clone()
                }
                None => match d[1] {
                    0 => vec!["x".into(), "y".into()],
                    1 => vec!["-v".into(), "x".into(), "y".into()],
                    2 => vec!["--".into(), "x".into(), "y".into()],
                    _ => return Ok(()),
                },
            };
            spelled(d[2] == 1, c, &args, ctx)
        },
    ));
    families.push(crate::cli::unusual_names(true));
    let bad = not_understood();
    families.push(family("command lines that make no sense", format!("{} of them, where the files are such that the command would work", bad.len()), bad.len() as u64, move |i, ctx| {
        let (prog, args) = &bad[i as usize];
        refuse(prog, args, ctx)
    }));
    let (n, k) = if thorough { (6, 3) } else { (5, 3) };
    let words = Words::new(&[n, n], k);
    let total = words.len();
    families.push(family(
        "repeated with something else in between",
        format!("all pairs of sequences of at most {n} items, {k} different ones, as lines and as bytes: edit script, clumps and the result of applying them to either, computed twice, with another pair in between; contexts 0 and 2"),
        total * 2,
        move |i, ctx| {
            let a = words.get(i / 2);
            let b = words.get((i / 2 + total / 2) % total);
            again((&a[0], &a[1]), (&b[1], &b[0]), if i % 2 == 0 { 0 } else { 2 }, ctx)
        },
    ));
    families.push(family(
        "repeated, many like items",
        "pairs of sequences of 20 to 200 items (i*i mod m, i*k mod m; m and k from 2 to 12), in which many runs are equally long; computed twice",
        11 * 11 * 4,
        move |i, ctx| {
            let d = digits(i, &[11, 11, 4]);
            let (m, k, n) = (d[0] as usize + 2, d[1] as usize + 2, [20, 50, 100, 200][d[2] as usize]);
            let a: Vec<u8> = (0..n).map(|i| (i * i % m) as u8).collect();
            let b: Vec<u8> = (0..n).map(|i| (i * k % m) as u8).collect();
            beat();
            again((&a, &b), (&b, &a), 2, ctx)
        },
    ));
    Check {
        id: "C29",
        level: "exploration",
        rule: "a case is a run of one of the programs in one combination of circumstances, compared with the run in the usual ones (exit status, output, tree with contents and permissions), a spelling of a command line, or a computation repeated; runs in other circumstances and different inputs count as non-trivial.",
        assumptions: vec!["whatever environment variable is asked for by name is given one of 20 values; sets of variables tried beside that are those that programs of this kind read, and those the libraries in use read"],
        families,
    }
}
