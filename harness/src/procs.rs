//! Running the two programs in scratch directories.

use crate::files::dir;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const ROOT: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/..");

pub fn bin(name: &str) -> PathBuf {
    let d = std::env::var("MC_BIN").unwrap_or_else(|_| format!("{ROOT}/target/cli/debug"));
    PathBuf::from(d).join(name)
}

#[derive(Debug, Clone)]
pub struct Ran {
    /// exit status; None when killed by a signal or stopped for taking too long
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub slow: bool,
    pub out: Vec<u8>,
}

impl Ran {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn show(&self) -> String {
        match (self.slow, self.code, self.signal) {
            (true, ..) => "no end within 60 s".into(),
            (_, Some(c), _) => format!("exit status {c}"),
            (_, _, s) => format!("killed by signal {}", s.unwrap_or(0)),
        }
    }
}

thread_local! {
    /// whether standard error is looked at (C32), and what is wrong with the messages
    static LISTENING: Cell<bool> = const { Cell::new(false) };
    static UNSAID: RefCell<Option<(String, serde_json::Value)>> = const { RefCell::new(None) };
    static HEARD: Cell<u64> = const { Cell::new(0) };
}

/// What is wrong with what the runs of `f` wrote to their standard streams, and how many of them there were.
pub fn listen(f: impl FnOnce()) -> (Option<(String, serde_json::Value)>, u64) {
    LISTENING.set(true);
    HEARD.set(0);
    UNSAID.take();
    f();
    LISTENING.set(false);
    (UNSAID.take(), HEARD.get())
}

pub fn listening() -> bool {
    LISTENING.get()
}

/// Whether a run said what it should, and nothing else. `how`: what was done to it, if anything; `mute`: it could not speak.
pub fn heard(prog: &str, args: &[String], code: Option<i32>, out: &[u8], how: &[String], mute: bool) {
    HEARD.set(HEARD.get() + 1);
    let err = fs::read(beside("err")).unwrap_or_default();
    let quiet = !err.iter().any(|b| b.is_ascii_alphanumeric());
    let verbose = args.iter().any(|a| a.starts_with("-v") || a == "--verbose");
    let wrong = match code {
        _ if prog == "pw_patch" && !out.is_empty() => "the patch command writes to standard output",
        Some(0) if prog == "pw_diff" && how.is_empty() && serde_json::from_slice::<serde_json::Value>(out).is_err() => "the output is not a patch alone",
        Some(c) if c != 0 && quiet && !mute => "the run fails without a message on standard error",
        Some(c) if c != 0 && prog == "pw_diff" && how.is_empty() && !out.is_empty() => "a run that fails writes to standard output",
        Some(0) if how.is_empty() && !verbose && !err.is_empty() => "a run that succeeds writes to standard error though it was not asked to",
        _ => return,
    };
    let show = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(2000)]).into_owned();
    UNSAID.with_borrow_mut(|u| {
        u.get_or_insert((wrong.into(), serde_json::json!({"program": prog, "arguments": args, "faults": how, "exit status": code, "standard error": show(&err), "standard output": show(out)})));
    });
}

/// Runs a program to its end. Standard output goes to the file `to` (and is read back) or nowhere.
pub fn run(prog: &Path, args: &[&std::ffi::OsStr], cwd: &Path, to: Option<&Path>) -> Ran {
    run_from(prog, args, cwd, to, None)
}

/// The same with a file as standard input.
pub fn run_from(prog: &Path, args: &[&std::ffi::OsStr], cwd: &Path, to: Option<&Path>, from: Option<&Path>) -> Ran {
    let spare = beside("out-of-patch");
    let to = if listening() && to.is_none() { Some(spare.as_path()) } else { to };
    let out = match to {
        Some(p) => Stdio::from(fs::File::options().write(true).create(true).truncate(true).open(p).expect("output file")),
        None => Stdio::null(),
    };
    let mut c = Command::new(prog)
        .args(args)
        .current_dir(cwd)
        .env_clear()
        // what is usually there; C29 varies it
        .envs([("HOME", home().as_os_str()), ("PATH", os("/usr/bin:/bin")), ("LANG", os("C.UTF-8")), ("USER", os("user"))])
        .stdin(match from {
            Some(p) => Stdio::from(fs::File::open(p).expect("input file")),
            None => Stdio::null(),
        })
        .stdout(out)
        .stderr(if listening() { Stdio::from(fs::File::create(beside("err")).expect("scratch file")) } else { Stdio::null() })
        .spawn()
        .unwrap_or_else(|e| panic!("cannot run {prog:?}: {e}"));
    let start = Instant::now();
    let mut nap = Duration::from_micros(300);
    let (status, slow) = loop {
        if let Some(s) = c.try_wait().expect("wait") {
            break (s, false);
        }
        if start.elapsed() > Duration::from_secs(60) {
            let _ = c.kill();
            break (c.wait().expect("wait"), true);
        }
        std::thread::sleep(nap);
        nap = (nap * 3 / 2).min(Duration::from_millis(20));
    };
    let out = match to {
        Some(p) if p.is_file() => fs::read(p).expect("output"),
        _ => vec![],
    };
    let name = prog.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
    if listening() && name.starts_with("pw_") && !slow {
        let args: Vec<String> = args.iter().map(|a| a.to_string_lossy().into_owned()).collect();
        heard(&name, &args, status.code(), &out, &[], false);
    }
    Ran { code: if slow { None } else { status.code() }, signal: status.signal(), slow, out }
}

pub fn os(s: &str) -> &std::ffi::OsStr {
    std::ffi::OsStr::new(s)
}

#[derive(Debug, Clone, PartialEq)]
pub struct Entry {
    pub kind: char,
    pub mode: u32,
    pub content: Vec<u8>,
    /// inode and time of the last change of the content (0 for directories, whose entries change)
    pub id: (u64, i64),
}
pub type Tree = BTreeMap<String, Entry>;

/// Everything below a directory.
pub fn tree(root: &Path) -> Tree {
    fn walk(root: &Path, p: &Path, t: &mut Tree) {
        for e in fs::read_dir(p).into_iter().flatten().flatten() {
            let q = e.path();
            let Ok(m) = fs::symlink_metadata(&q) else { continue };
            let name = q.strip_prefix(root).unwrap().to_string_lossy().into_owned();
            let ft = m.file_type();
            let (kind, content) = if ft.is_dir() {
                ('d', vec![])
            } else if ft.is_symlink() {
                ('l', fs::read_link(&q).map(|l| l.as_os_str().as_bytes().to_vec()).unwrap_or_default())
            } else {
                ('f', fs::read(&q).unwrap_or_default())
            };
            let id = if kind == 'd' { (m.ino(), 0) } else { (m.ino(), m.mtime() * 1_000_000_000 + m.mtime_nsec()) };
            t.insert(name, Entry { kind, mode: m.permissions().mode() & 0o7777, content, id });
            if kind == 'd' {
                walk(root, &q, t);
            }
        }
    }
    let mut t = Tree::new();
    walk(root, root, &mut t);
    t
}

/// The entries in which two trees differ, leaving out one path.
pub fn differences(a: &Tree, b: &Tree, but: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for (k, x) in a {
        if k != but {
            match b.get(k) {
                None => v.push(format!("{k} is gone")),
                Some(y) if x != y => v.push(format!("{k} is changed")),
                _ => (),
            }
        }
    }
    v.extend(b.keys().filter(|k| *k != but && !a.contains_key(*k)).map(|k| format!("{k} is new")));
    v
}

/// An empty directory of this thread's own, and a place beside it for outputs.
pub fn fresh() -> PathBuf {
    let p = dir().join("w");
    let _ = fs::remove_dir_all(&p);
    fs::create_dir_all(&p).expect("scratch directory");
    p
}

pub fn home() -> PathBuf {
    dir().join("home")
}

pub fn beside(name: &str) -> PathBuf {
    dir().join(name)
}
