//! Checks of the two programs without faults: C17, C26, C27 and C28.

use crate::common::*;
use crate::engine::*;
use crate::files::is_utf8;
use crate::gen::*;
use crate::model::{some_run, BClump, Explored};
use crate::procs::*;
use crate::special::{look_alikes, size_family, special_texts, SPECIAL};
use crate::text::{clump_json, distinct, hand_clumps, EditGrid};
use serde_json::{json, Value};
use std::ffi::OsStr;
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use std::sync::Arc;

fn put(p: &Path, c: Option<&[u8]>) {
    if let Some(c) = c {
        fs::write(p, c).expect("scratch file");
    }
}

fn got(p: &Path) -> Option<Vec<u8>> {
    fs::read(p).ok()
}

// ---------------------------------------------------------------- C17

struct Trip<'a> {
    before: Option<&'a [u8]>,
    after: Option<&'a [u8]>,
    diff_args: Vec<String>,
    patch_args: Vec<String>,
    reverse_args: Vec<String>,
    /// relative to the working directory `cwd`, which is below the scratch directory
    names: (String, String),
    /// what the two names are: 0 files; symbolic links to files, 1 relative in the same directory, 2 relative in
    /// another, 3 absolute, 4 by way of another link; the second can be the first, by 5 a hard link, 6 a symbolic one
    links: (u64, u64),
}

fn trip(t: &Trip, ctx: &mut Ctx) -> R {
    note_case(|| format!("{:?} {:?} {:?} {:?}", t.before, t.after, t.diff_args, t.names));
    let w = fresh();
    let cwd = w.join("cwd");
    fs::create_dir_all(cwd.join("sub/dir")).expect("scratch directory");
    fs::write(cwd.join("bystander"), b"stays\n").expect("scratch file");
    let abs = |n: &str| if let Some(n) = n.strip_prefix("ABS/") { w.join(n).display().to_string() } else { n.to_string() };
    let (bn, an) = (abs(&t.names.0), abs(&t.names.1));
    let (bp, ap) = (cwd.join(&bn), cwd.join(&an));
    let mut allowed: Vec<String> = vec![];
    for (p, c, link, name) in [(&bp, t.before, t.links.0, "x"), (&ap, t.after, t.links.1, "y")] {
        let (Some(_), true) = (c, link > 0) else {
            put(p, c);
            continue;
        };
        let real = match link {
            1 => cwd.join(format!("real-{name}")),
            2 => cwd.join(format!("sub/real-{name}")),
            5 | 6 => bp.clone(),
            _ => w.join(format!("real-{name}")),
        };
        put(&real, c);
        if link == 5 {
            fs::hard_link(&bp, p).expect("hard link");
            continue;
        }
        let at = match link {
            1 => format!("real-{name}").into(),
            2 => format!("sub/real-{name}").into(),
            3 | 6 => real.clone(),
            _ => {
                let l = cwd.join(format!("sub/dir/link-{name}"));
                std::os::unix::fs::symlink(format!("../../../real-{name}"), &l).expect("link");
                l
            }
        };
        // the names are in the working directory, or in `sub`
        let at = if p.parent() == Some(&cwd.join("sub")) && link < 3 { Path::new("..").join(at) } else { at };
        std::os::unix::fs::symlink(at, p).expect("link");
        if name == "x" {
            // patched through the link, or the link replaced
            allowed.push(real.strip_prefix(&w).unwrap().display().to_string());
        }
    }
    let patch = beside("patch");
    let case = |step: &str, r: &Ran| {
        json!({"before": t.before, "after": t.after, "names": [bn, an], "diff": t.diff_args, "patch": t.patch_args, "step": step, "ended": r.show()})
    };
    let args = |own: &[String], rest: &[&str]| -> Vec<String> { own.iter().cloned().chain(["--".to_string()]).chain(rest.iter().map(|s| s.to_string())).collect() };
    let go = |prog: &str, a: Vec<String>, to: Option<&Path>| {
        let a: Vec<&OsStr> = a.iter().map(|s| OsStr::new(s.as_str())).collect();
        run(&bin(prog), &a, &cwd, to)
    };
    let before_all = tree(&w);
    let r = go("pw_diff", args(&t.diff_args, &[&bn, &an]), Some(&patch));
    ctx.exec += 1;
    let changed = differences(&before_all, &tree(&w), "");
    if !changed.is_empty() {
        return fail(format!("pw_diff changes files: {changed:?}"), case("diff", &r));
    }
    if t.before.is_none() && t.after.is_none() {
        if r.ok() || !r.out.is_empty() {
            return fail("a patch although neither file exists", case("diff", &r));
        }
        return Ok(());
    }
    if !r.ok() {
        return fail("pw_diff fails", case("diff", &r));
    }
    if t.before != t.after {
        ctx.nontrivial(&(t.before, t.after, &t.diff_args, &t.names, &t.patch_args));
    }
    ctx.outcome(&r.out);
    let p = patch.display().to_string();
    let target = bp.strip_prefix(&w).map(|p| p.components().filter(|c| *c != std::path::Component::CurDir).collect::<std::path::PathBuf>().display().to_string()).unwrap_or_default();
    let target = normal(&target);
    for (step, a, want) in [("patch", &t.patch_args, t.after), ("reverse", &t.reverse_args, t.before)] {
        let r = go("pw_patch", args(a, &[&p]), None);
        ctx.exec += 1;
        if !r.ok() {
            return fail(format!("pw_patch fails ({step})"), case(step, &r));
        }
        if got(&bp).as_deref() != want {
            return fail(format!("the file is {:?} ({step})", got(&bp).map(|b| bytes_str(&b))), case(step, &r));
        }
        let mut changed = differences(&before_all, &tree(&w), &target);
        changed.retain(|c| !allowed.iter().any(|a| c.starts_with(a)));
        if !changed.is_empty() {
            return fail(format!("other files are touched: {changed:?}"), case(step, &r));
        }
        ctx.sample(|| case(step, &r));
    }
    Ok(())
}

/// a/../b becomes b
fn normal(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "." | "" => (),
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    v.join("/")
}

fn contents() -> Vec<Option<Vec<u8>>> {
    let mut v: Vec<Option<Vec<u8>>> = vec![None];
    for c in [
        &b""[..], b"\n", b"a", b"a\n", b"a\nb\n", b"b\na", b"a\nb\nc\nd\ne\nf\ng\nh\n", b"a\nB\nc\nd\ne\nf\nG\nh", b"\r\n\r", b"\"\\\x01\n", "é\u{2028}\n😀".as_bytes(), b"\0\0\0", b"\x80", b"\xff\n\xfe\n",
        b"a\n\xff", b"<<<<<<<\n=======\n>>>>>>>\n", b"a\nb\nc\nd\ne\nf\ng\n\xff\n",
    ] {
        v.push(Some(c.to_vec()));
    }
    v.push(Some((0..=255u8).collect()));
    v.push(Some((0..=255u8).rev().collect()));
    v
}

fn strings(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// Names that some programs take for something else than the name of a file.
const UNUSUAL: [&str; 50] = [
    "-", "--", "-c", "-c3", "-v", "--help", "-V", "---", "-1", "+1", "~", "~root", "*", "?", "[a]", "{a,b}", "@p", "%p", "%2e", "$HOME", "${HOME}", "`p`", "$(p)", "#p", "!p", "&", ";", "|p", "<p", ">p", "a=b", "a:b",
    "file:p", "p.gz", "p.orig", "p~", "#p#", ".p.swp", "null", "NUL", "CON", "0", "p.", " ", " p", "p ", "\t", "\u{7f}", "\u{202e}p", "...",
];

/// A round trip with any names of the two files and of the patch file, in one directory.
pub struct Named<'a> {
    pub names: [&'a OsStr; 3],
    /// 0: change, 1: removal, 2: addition
    pub what: u64,
    pub binary: bool,
    /// the names come after `--`
    pub dashes: bool,
    /// something that programs might read instead is to be had on standard input
    pub input: bool,
}

pub fn named(t: &Named, ctx: &mut Ctx) -> R {
    use std::os::unix::ffi::OsStrExt;
    beat();
    note_case(|| format!("{:?} what {} binary {} dashes {}", t.names, t.what, t.binary, t.dashes));
    let w = fresh();
    let (x, y): (&[u8], &[u8]) = if t.binary { (b"\xff\0\x80", b"\xff\x80\n") } else { (b"one\ntwo\nthree\n", b"one\n2\nthree") };
    let (x, y) = ((t.what != 2).then_some(x), (t.what != 1).then_some(y));
    let [one, two, patch] = t.names.map(|n| w.join(n));
    for p in [&one, &two, &patch] {
        fs::create_dir_all(p.parent().unwrap()).expect("scratch directory");
    }
    put(&one, x);
    put(&two, y);
    fs::write(w.join("bystander"), b"stays\n").expect("scratch file");
    let input = beside("input");
    fs::write(&input, json!({"TextAdd": {"path": "bystander2", "lines": ["x\n"]}}).to_string()).expect("scratch file");
    let from = t.input.then_some(input.as_path());
    let with = |names: &[&OsStr]| -> Vec<std::ffi::OsString> { t.dashes.then_some(OsStr::new("--")).into_iter().chain(names.iter().copied()).map(|s| s.to_os_string()).collect() };
    let go = |prog: &str, names: &[&OsStr], rest: Option<&str>, to: Option<&Path>| {
        let a = with(names);
        let a: Vec<&OsStr> = rest.iter().map(|s| OsStr::new(*s)).chain(a.iter().map(|s| &s[..])).collect();
        run_from(&bin(prog), &a, &w, to, from)
    };
    let case = |step: &str, r: &Ran| json!({"names": t.names.map(|n| bytes_str(n.as_bytes())), "what": t.what, "binary": t.binary, "dashes": t.dashes, "step": step, "ended": r.show()});
    let r = go("pw_diff", &[t.names[0], t.names[1]], None, Some(&patch));
    ctx.exec += 1;
    ctx.nontrivial(&(t.names, t.what, t.binary, t.dashes, t.input));
    ctx.outcome(&r.out);
    if !r.ok() {
        // a name that is not UTF-8 cannot be stored
        if r.code.is_some_and(|c| c > 0 && c < 100) && t.names[..2].iter().any(|n| n.to_str().is_none()) {
            ctx.count("refused", 1);
            return Ok(());
        }
        return fail("pw_diff fails", case("diff", &r));
    }
    let before = tree(&w);
    let target = one.strip_prefix(&w).unwrap().to_string_lossy().into_owned();
    for (step, rest, want) in [("patch", None, y), ("reverse", Some("-r"), x)] {
        let r = go("pw_patch", &[t.names[2]], rest, None);
        ctx.exec += 1;
        ctx.sample(|| case(step, &r));
        if !r.ok() {
            return fail(format!("pw_patch fails ({step})"), case(step, &r));
        }
        if got(&one).as_deref() != want {
            return fail(format!("the file is {:?} ({step})", got(&one).map(|b| bytes_str(&b))), case(step, &r));
        }
        let changed = differences(&before, &tree(&w), &target);
        if !changed.is_empty() {
            return fail(format!("other files are touched: {changed:?}"), case(step, &r));
        }
    }
    Ok(())
}

/// Every unusual name in every place.
pub fn unusual_names(input: bool) -> Family {
    let n = UNUSUAL.len() as u64;
    family(
        "unusual names",
        format!("the first file, the second, the patch file, or all three (with one more letter each) are called, or all three or the first are in a directory called, {UNUSUAL:?}; given after -- or, where they do not look like options, without; change, removal, addition; text and binary"),
        n * 6 * 3 * 2 * 2,
        move |i, ctx| {
            let d = digits(i, &[n, 6, 3, 2, 2]);
            let name = UNUSUAL[d[0] as usize];
            let mut names = ["one".to_string(), "two".to_string(), "patch".to_string()];
            if d[1] < 3 {
                names[d[1] as usize] = name.to_string();
            } else if d[1] == 3 {
                names = ["", "2", "3"].map(|s| format!("{name}{s}"));
            } else if d[1] == 4 {
                names = names.map(|s| format!("{name}/{s}"));
            } else {
                names[0] = format!("{name}/{name}/one");
            }
            if d[4] == 0 && names.iter().any(|s| s.starts_with('-') && s != "-") {
                return Ok(());
            }
            let names = [0, 1, 2].map(|j| OsStr::new(&names[j]));
            named(&Named { names, what: d[2], binary: d[3] == 1, dashes: d[4] == 1, input }, ctx)
        },
    )
}

pub fn c17(thorough: bool) -> Check {
    let mut families = vec![];
    let cs = Arc::new(contents());
    let n = cs.len() as u64;
    let flags: Vec<Vec<String>> = [&[][..], &["-c", "0"], &["-c1"], &["--context", "3"], &["--context=255"]].iter().map(|f| strings(f)).collect();
    let f = flags.len() as u64;
    {
        let (cs, flags) = (cs.clone(), flags.clone());
        families.push(family(
            "all pairs of contents",
            format!("{n} contents (missing, empty, text, binary) for either path; {f} settings of the context size"),
            n * n * f,
            move |i, ctx| {
                let d = digits(i, &[n, n, f]);
                trip(
                    &Trip {
                        before: cs[d[0] as usize].as_deref(),
                        after: cs[d[1] as usize].as_deref(),
                        diff_args: flags[d[2] as usize].clone(),
                        patch_args: vec![],
                        reverse_args: strings(&["-r"]),
                        names: ("one".into(), "two".into()),
                    links: (0, 0),
                    },
                    ctx,
                )
            },
        ));
    }
    let (n, cmax) = if thorough { (4, 4) } else { (3, 3) };
    let w = Words::new(&[n, n], 3);
    families.push(family(
        "all pairs of short texts",
        format!("all pairs of texts of at most {n} lines out of 3, modulo renaming; contexts 0..{}; final newline on either side", cmax - 1),
        w.len() * cmax * 4,
        move |i, ctx| {
            let d = digits(i, &[w.len(), cmax, 4]);
            let p = w.get(d[0]);
            let (b, a) = (text(&render(&p[0], 0, d[2] & 1 == 0)), text(&render(&p[1], 0, d[2] & 2 == 0)));
            if (p[0].is_empty() && d[2] & 1 == 1) || (p[1].is_empty() && d[2] & 2 == 2) {
                return Ok(());
            }
            trip(
                &Trip {
                    before: Some(&b),
                    after: Some(&a),
                    diff_args: vec![format!("-c{}", d[1])],
                    patch_args: vec![],
                    reverse_args: strings(&["--reverse"]),
                    names: ("one".into(), "two".into()),
                    links: (0, 0),
                },
                ctx,
            )
        },
    ));
    let names = ["a", "./a", "sub/a", "sub/dir/../a", "../outside", "ABS/cwd/abs", "ABS/other", "-r", "a b", "\"q\"", "é\u{2028}", "new\nline", "\\", ".hidden"];
    let l = names.len() as u64;
    families.push(family(
        "names",
        format!("every pair of different names out of {names:?}, relative to the working directory or absolute; change, removal, addition; text and binary"),
        l * l * 3 * 2,
        move |i, ctx| {
            let d = digits(i, &[l, l, 3, 2]);
            let same = |k: u64| normal(names[k as usize]).replace("sub/dir/../", "sub/");
            if same(d[0]) == same(d[1]) {
                return Ok(());
            }
            let (x, y): (&[u8], &[u8]) = if d[3] == 0 { (b"one\ntwo\nthree\n", b"one\n2\nthree") } else { (b"\xff\0\x80", b"\xff\x80\n") };
            trip(
                &Trip {
                    before: (d[2] != 2).then_some(x),
                    after: (d[2] != 1).then_some(y),
                    diff_args: vec![],
                    patch_args: vec![],
                    reverse_args: strings(&["-r"]),
                    names: (names[d[0] as usize].into(), names[d[1] as usize].into()),
                    links: (0, 0),
                },
                ctx,
            )
        },
    ));
    families.push(unusual_names(false));
    families.push(family(
        "symbolic links",
        "either name or both are symbolic links to the files (relative in the same directory or another, absolute, by way of another link); in the working directory or below; change, removal, addition; text and binary",
        5 * 5 * 2 * 2 * 3 * 2,
        move |i, ctx| {
            let d = digits(i, &[5, 5, 2, 2, 3, 2]);
            let (x, y): (&[u8], &[u8]) = if d[5] == 0 { (b"one\ntwo\nthree\n", b"one\n2\nthree") } else { (b"\xff\0\x80", b"\xff\x80\n") };
            trip(
                &Trip {
                    before: (d[4] != 2).then_some(x),
                    after: (d[4] != 1).then_some(y),
                    diff_args: vec![],
                    patch_args: vec![],
                    reverse_args: strings(&["-r"]),
                    names: (["a", "sub/a"][d[2] as usize].into(), ["b", "sub/b"][d[3] as usize].into()),
                    links: (d[0], d[1]),
                },
                ctx,
            )
        },
    ));
    let same = [("a", "a", 0), ("a", "./a", 0), ("./a", "a", 0), ("sub/a", "sub//a", 0), ("sub/a", "sub/dir/../a", 0), ("a", "ABS/cwd/a", 0), ("ABS/cwd/a", "a", 0), ("-", "-", 0), ("a", "b", 5), ("a", "b", 6), ("a", "sub/b", 5), ("a", "sub/b", 6)];
    let l = same.len() as u64;
    {
        let (cs, flags) = (cs.clone(), flags.clone());
        families.push(family(
            "a file and itself",
            format!("one file given twice, as {same:?} (5 a hard link, 6 a symbolic link to the first); {} contents (or no file); {f} settings of the context size", cs.len()),
            l * cs.len() as u64 * f,
            move |i, ctx| {
                let d = digits(i, &[l, cs.len() as u64, f]);
                let (one, two, link) = same[d[0] as usize];
                let c = cs[d[1] as usize].as_deref();
                trip(
                    &Trip {
                        before: c,
                        after: c,
                        diff_args: flags[d[2] as usize].clone(),
                        patch_args: vec![],
                        reverse_args: strings(&["-r"]),
                        names: (one.into(), two.into()),
                        links: (0, link),
                    },
                    ctx,
                )
            },
        ));
    }
    let verbose: Vec<Vec<String>> = [&[][..], &["-v"], &["-vv"], &["-v", "-v", "-v"], &["-vvvv"], &["--verbose", "-vvvv"]].iter().map(|f| strings(f)).collect();
    families.push(family(
        "reporting",
        "every degree of reporting for each of the two programs; change, removal, addition; text and binary",
        6 * 6 * 3 * 2,
        move |i, ctx| {
            let d = digits(i, &[6, 6, 3, 2]);
            let (x, y): (&[u8], &[u8]) = if d[3] == 0 { (b"one\ntwo\nthree\n", b"one\n2\nthree") } else { (b"\xff\0\x80", b"\xff\x80\n") };
            let v = verbose[d[1] as usize].clone();
            trip(
                &Trip {
                    before: (d[2] != 2).then_some(x),
                    after: (d[2] != 1).then_some(y),
                    diff_args: verbose[d[0] as usize].clone(),
                    patch_args: v.clone(),
                    reverse_args: v.into_iter().chain(["-r".to_string()]).collect(),
                    names: ("one".into(), "two".into()),
                    links: (0, 0),
                },
                ctx,
            )
        },
    ));
    let sizes: Vec<usize> = if thorough { vec![1, 10, 255, 256, 257, 1000, 4000] } else { vec![1, 10, 255, 257, 500] };
    let l = sizes.len() as u64;
    families.push(family(
        "larger files",
        format!("files of {sizes:?} lines with changes at the start, in the middle, at the end, at all of them, everywhere; every context setting; text and binary"),
        l * 5 * f * 2,
        move |i, ctx| {
            let d = digits(i, &[l, 5, f, 2]);
            let n = sizes[d[0] as usize];
            let hit = |p: usize| match d[1] {
                0 => p == 0,
                1 => p == n / 2,
                2 => p + 1 == n,
                3 => p == 0 || p == n / 2 || p + 1 == n,
                _ => true,
            };
            let (mut x, mut y) = (vec![], vec![]);
            for p in 0..n {
                x.extend(format!("line {p}\n").bytes());
                y.extend(format!("{} {p}\n", if hit(p) { "new" } else { "line" }).bytes());
            }
            if d[3] == 1 {
                if n > if thorough { 300 } else { 100 } {
                    return Ok(()); // the byte search takes its time
                }
                x.push(0xff);
                y.insert(0, 0xfe);
            }
            trip(
                &Trip {
                    before: Some(&x),
                    after: Some(&y),
                    diff_args: flags[d[2] as usize].clone(),
                    patch_args: vec![],
                    reverse_args: strings(&["-r"]),
                    names: ("one".into(), "two".into()),
                    links: (0, 0),
                },
                ctx,
            )
        },
    ));
    let few: Vec<Vec<u8>> = special_texts().into_iter().filter(|t| t.len() <= 1).map(|t| text(&t)).collect();
    let l = few.len() as u64;
    families.push(family(
        "special lines",
        format!("every pair out of {l} files of at most one special line (byte order mark, carriage return, blanks, control characters, markers), final newline present or not"),
        l * l,
        move |i, ctx| {
            trip(
                &Trip {
                    before: Some(&few[(i / l) as usize]),
                    after: Some(&few[(i % l) as usize]),
                    diff_args: vec![],
                    patch_args: vec![],
                    reverse_args: strings(&["-r"]),
                    names: ("one".into(), "two".into()),
                    links: (0, 0),
                },
                ctx,
            )
        },
    ));
    let all = look_alikes();
    families.push(family(
        "lines that are easily confused",
        format!("{} pairs of different lines with a common front or end, the same letters, or the same value of a common hash: one file holds the one, the other the other", all.len()),
        all.len() as u64,
        move |i, ctx| {
            let (x, y) = &all[i as usize];
            trip(
                &Trip {
                    before: Some(x.as_bytes()),
                    after: Some(y.as_bytes()),
                    diff_args: vec![],
                    patch_args: vec![],
                    reverse_args: strings(&["-r"]),
                    names: ("one".into(), "two".into()),
                    links: (0, 0),
                },
                ctx,
            )
        },
    ));
    families.push(size_family(thorough, true, move |b, ctx| {
        if b.context != 3 && !thorough {
            return Ok(());
        }
        trip(
            &Trip {
                before: Some(&text(&b.before)),
                after: Some(&text(&b.after)),
                diff_args: vec![format!("-c{}", b.context)],
                patch_args: vec![],
                reverse_args: strings(&["-r"]),
                names: ("one".into(), "two".into()),
                    links: (0, 0),
            },
            ctx,
        )
    }));
    Check {
        id: "C17",
        level: "exploration",
        rule: "a case is two files or a missing file, names, flags: pw_diff is run on them, its output given to pw_patch, then to pw_patch -r; after every step the whole tree is compared with what it has to be. Non-trivial: the two sides differ.",
        assumptions: vec!["both programs run in the same working directory, as the paths in the patch are relative to it"],
        families,
    }
}

// ---------------------------------------------------------------- C26

fn apply_cli(patch: &Value, file: &[u8], reverse: bool, ctx: &mut Ctx) -> (Ran, Option<Vec<u8>>) {
    let w = fresh();
    fs::write(w.join("target"), file).expect("scratch file");
    let p = beside("patch");
    fs::write(&p, patch.to_string()).expect("scratch file");
    let mut args = vec![p.as_os_str()];
    if reverse {
        args.push(os("-r"));
    }
    let r = run(&bin("pw_patch"), &args, &w, None);
    ctx.exec += 1;
    (r, got(&w.join("target")))
}

fn text_case(patch: &TPatch, file: &[String], reverse: bool, must_fail: bool, must_succeed: bool, ctx: &mut Ctx) -> R {
    note_case(|| format!("{:?} {file:?} {reverse}", patch.0));
    let p = json!({"TextChange": {"before_path": "target", "after_path": "other", "clumps": patch.0}});
    let (r, out) = apply_cli(&p, &text(file), reverse, ctx);
    let out = out.unwrap_or_default();
    let case = || json!({"patch": p, "file": file, "reverse": reverse, "ended": r.show(), "result": bytes_str(&out)});
    let ks = mclumps(patch, reverse);
    let mut ex = Explored::default();
    let (done, failed) = (some_run(&ks, file, &out, Some(false), &mut ex), some_run(&ks, file, &out, Some(true), &mut ex));
    ctx.states += ex.states;
    ctx.transitions += ex.transitions;
    ctx.traces += 1;
    ctx.nontrivial(&(p.to_string(), file, reverse));
    ctx.outcome(&(&out, r.code));
    ctx.sample(case);
    if r.code.is_none() {
        return fail("pw_patch does not end by itself", case());
    }
    if must_succeed && !done {
        return fail("a patch applied to its own files leaves conflicts", case());
    }
    // what the file has become shows whether clumps failed, with few exceptions (a file that holds conflict blocks itself)
    let bad = must_fail || !done;
    if !bad && failed && !must_succeed {
        ctx.count("either_way", 1);
        return Ok(());
    }
    ctx.count(if bad { "with_failed_clumps" } else { "without_failed_clumps" }, 1);
    if bad == r.ok() {
        return fail(if bad { "success is reported although a clump failed" } else { "failure is reported although every clump was applied or already applied" }, case());
    }
    Ok(())
}

fn byte_case(patch: &BPatch, data: &[u8], reverse: bool, ctx: &mut Ctx) -> R {
    note_case(|| format!("{:?} {data:?} {reverse}", patch.0));
    let p = json!({"ByteChange": {"before_path": "target", "after_path": "other", "compressed": false, "clumps": patch.0}});
    let (r, out) = apply_cli(&p, data, reverse, ctx);
    let case = || json!({"patch": p, "data": data, "reverse": reverse, "ended": r.show(), "result": out});
    ctx.nontrivial(&(p.to_string(), data, reverse));
    ctx.outcome(&(&out, r.code));
    ctx.sample(case);
    if r.code.is_none() {
        return fail("pw_patch does not end by itself", case());
    }
    // every clump has one place only, so what happens to it follows directly
    let at = |x: &[u8], s: usize| s <= data.len() && data[s..].starts_with(x);
    let mut done = 0;
    let mut failed = 0;
    for k in bclumps(patch, reverse) {
        let BClump { pre, post, pre_start, post_start } = &k;
        if *pre_start >= done && at(pre, *pre_start) {
            done = pre_start + pre.len();
        } else if at(post, *post_start) {
            done = done.max(post_start + post.len());
        } else {
            failed += 1;
        }
    }
    ctx.count(if failed > 0 { "with_failed_clumps" } else { "without_failed_clumps" }, 1);
    if (failed > 0) == r.ok() {
        return fail(format!("{failed} clumps failed"), case());
    }
    Ok(())
}

/// Patches and files they fit more or less.
struct Attempts {
    n: usize,
    m: usize,
    g: EditGrid,
}

struct Attempt {
    patch: TPatch,
    file: Vec<String>,
    reverse: bool,
    must_fail: bool,
    must_succeed: bool,
}

impl Attempts {
    fn new(n: usize, m: usize) -> Self {
        Attempts { n, m, g: EditGrid::new(vec![distinct(n)], m, false) }
    }
    fn bound(&self) -> (String, String) {
        let (n, m) = (self.n, self.m);
        (
            format!("every patch of {n} distinct lines with at most {m} edits, contexts 0 and 2; applied to the file, the result, unrelated lines, nothing, the file with any one line changed, the file displaced, one half patched; both directions"),
            format!("every patch of {n} distinct bytes with at most {m} edits, contexts 0 and 2; applied to the data, the result, other data, nothing, the data with any one byte changed, the data displaced, one half patched; both directions"),
        )
    }
    fn texts(&self) -> u64 {
        self.g.total * 4 * (self.n as u64 + 7)
    }
    fn text(&self, i: u64) -> Option<Attempt> {
        let d = digits(i, &[self.g.total, 2, 2, self.n as u64 + 7]);
        let (b, a) = self.g.get(d[0]);
        let (b, a) = (render16(&b, 0, true), render16(&a, 0, true));
        let patch = text_patch(&b, &a, [0, 2][d[1] as usize]);
        let reverse = d[2] == 1;
        let (from, to) = if reverse { (&a, &b) } else { (&b, &a) };
        let (mut must_fail, mut must_succeed) = (false, false);
        let file: Vec<String> = match d[3] as usize {
            0 => {
                must_succeed = true;
                from.clone()
            }
            1 => to.clone(),
            2 => {
                must_fail = mclumps(&patch, reverse).iter().any(|c| {
                    let core = |l: usize| l > c.ctx.0 + c.ctx.1;
                    core(c.pre.len()) && core(c.post.len())
                });
                (0..8).map(|j| format!("unrelated {j}\n")).collect()
            }
            3 => vec![],
            4 => [vec!["displaced\n".to_string(); 3], from.clone()].concat(),
            5 => [&from[..from.len() / 2], &to[to.len() / 2..]].concat(),
            6 => [&to[..to.len() / 2], &from[from.len() / 2..]].concat(),
            k => {
                let mut f = from.clone();
                *f.get_mut(k - 7)? = "changed\n".into();
                f
            }
        };
        Some(Attempt { patch, file, reverse, must_fail, must_succeed })
    }
    fn datas(&self) -> u64 {
        self.g.total * 4 * (self.n as u64 + 7)
    }
    fn data(&self, i: u64) -> Option<(BPatch, Vec<u8>, bool)> {
        let d = digits(i, &[self.g.total, 2, 2, self.n as u64 + 7]);
        let (b, a) = self.g.get(d[0]);
        let f = |w: &[u16]| w.iter().map(|c| (*c as u8) | 0x80).collect::<Vec<u8>>();
        let (b, a) = (f(&b), f(&a));
        let patch = byte_patch(&b, &a, [0, 2][d[1] as usize]);
        let reverse = d[2] == 1;
        let (from, to) = if reverse { (&a, &b) } else { (&b, &a) };
        let data: Vec<u8> = match d[3] as usize {
            0 => from.clone(),
            1 => to.clone(),
            2 => vec![7; 9],
            3 => vec![],
            4 => [&[7][..], from].concat(),
            5 => [&from[..from.len() / 2], &to[to.len() / 2..]].concat(),
            k => {
                let mut f = from.clone();
                *f.get_mut(k - 6)? = 7;
                f
            }
        };
        Some((patch, data, reverse))
    }
}

pub fn c26(thorough: bool) -> Check {
    let mut families = vec![];
    let (n, m) = if thorough { (6, 2) } else { (4, 2) };
    let t = Attempts::new(n, m);
    let what = t.bound();
    families.push(family("text patches", what.0, t.texts(), move |i, ctx| match t.text(i) {
        Some(t) => text_case(&t.patch, &t.file, t.reverse, t.must_fail, t.must_succeed, ctx),
        None => Ok(()),
    }));
    let t = Attempts::new(n, m);
    families.push(family("binary patches", what.1, t.datas(), move |i, ctx| match t.data(i) {
        Some((patch, data, reverse)) => byte_case(&patch, &data, reverse, ctx),
        None => Ok(()),
    }));
    const KS: [usize; 17] = [1, 2, 3, 8, 9, 100, 127, 128, 255, 256, 257, 300, 511, 512, 513, 768, 1024];
    families.push(family(
        "many clumps",
        format!("{KS:?} clumps of which none fails, all fail, all but the first, the middle or the last one fail, only one of those fails; the others are applied or already applied; text and binary, both directions"),
        KS.len() as u64 * 8 * 2 * 2 * 2,
        move |i, ctx| {
            let d = digits(i, &[KS.len() as u64, 8, 2, 2, 2]);
            let (k, already, binary, reverse) = (KS[d[0] as usize], d[2] == 1, d[3] == 1, d[4] == 1);
            let one = [0, k / 2, k - 1][(d[1] as usize + 1) % 3];
            let fails = |x: usize| match d[1] {
                0 => false,
                1 => true,
                2..=4 => x != one,
                _ => x == one,
            };
            let (mut b, mut a, mut file): (Vec<String>, Vec<String>, Vec<String>) = (vec![], vec![], vec![]);
            for x in 0..k {
                for y in 0..4 {
                    let l = format!("{x} {y}\n");
                    for v in [&mut b, &mut a, &mut file] { v.push(l.clone()); }
                }
                let (old, new) = (format!("old {x}\n"), format!("new {x}\n"));
                file.push(if fails(x) { format!("other {x}\n") } else if already != reverse { new.clone() } else { old.clone() });
                b.push(old);
                a.push(new);
            }
            let (p, content) = if binary {
                let clumps: Vec<Value> =
                    (0..k).map(|x| json!({"context_lengths": [0, 0], "before": {"start": 3 * x, "items": [200]}, "after": {"start": 3 * x, "items": [201]}})).collect();
                let mut content = vec![1u8; 3 * k + 3];
                for x in 0..k {
                    content[3 * x] = if fails(x) { 7 } else if already != reverse { 201 } else { 200 };
                }
                (json!({"ByteChange": {"before_path": "target", "after_path": "other", "compressed": false, "clumps": clumps}}), content)
            } else {
                (json!({"TextChange": {"before_path": "target", "after_path": "other", "clumps": text_patch(&b, &a, 1).0}}), text(&file))
            };
            let case = json!({"clumps": k, "failing": d[1], "already": already, "binary": binary, "reverse": reverse});
            note_case(|| case.to_string());
            let (r, _) = apply_cli(&p, &content, reverse, ctx);
            ctx.nontrivial(&(&case.to_string()));
            let bad = (0..k).any(fails);
            ctx.outcome(&(i, r.code));
            if r.code.is_none() || r.ok() == bad {
                return fail(format!("{} clumps fail: {}", (0..k).filter(|x| fails(*x)).count(), r.show()), case);
            }
            Ok(())
        },
    ));
    let mut special: Vec<String> = SPECIAL.iter().map(|s| s.to_string()).chain(look_alikes().iter().flat_map(|(x, y)| [x.clone(), y.clone()])).filter(|l| l.len() < 300).collect();
    special.sort();
    special.dedup();
    let n = special.len() as u64;
    families.push(family(
        "what clumps are made of",
        format!("each of {n} lines (blank, control and other special characters, markers, look-alikes) as all that a clump expects, writes, or has around its change, once or three times; applied to the file, to the result, to unrelated lines, to nothing, to the file with one line more or less; both directions"),
        n * 5 * 6 * 2,
        move |i, ctx| {
            let d = digits(i, &[n, 5, 6, 2]);
            let x = &special[d[0] as usize];
            let (b, a): (Vec<&str>, Vec<&str>) = match d[1] {
                0 => (vec![x, x, x], vec![x, "new\n", x]),
                1 => (vec![x], vec!["new\n"]),
                2 => (vec![x, x, x], vec!["new\n"]),
                3 => (vec![x, x, x], vec![x, x, x, x]),
                _ => (vec!["other\n", x], vec!["other\n", "new\n", x]),
            };
            let all = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
            let (b, a) = (all(&b), all(&a));
            let patch = text_patch(&b, &a, 2);
            let reverse = d[3] == 1;
            let (from, to) = if reverse { (&a, &b) } else { (&b, &a) };
            let mut must_fail = false;
            let mut file = match d[2] {
                1 => to.clone(),
                2 => {
                    must_fail = mclumps(&patch, reverse).iter().any(|c| c.pre.len() > c.ctx.0 + c.ctx.1 && c.post.len() > c.ctx.0 + c.ctx.1);
                    (0..8).map(|j| format!("unrelated {j}\n")).collect()
                }
                3 => vec![],
                _ => from.clone(),
            };
            match d[2] {
                4 => drop(file.pop()),
                5 => file.insert(0, "more\n".into()),
                _ => (),
            }
            text_case(&patch, &file, reverse, must_fail, d[2] == 0, ctx)
        },
    ));
    families.push(family(
        "what binary clumps are made of",
        "each of the 256 bytes as all that a clump expects or writes, once or three times; applied to the data, the result, other data, nothing, the data with the last byte gone or another; both directions",
        256 * 3 * 6 * 2,
        |i, ctx| {
            let d = digits(i, &[256, 3, 6, 2]);
            let x = d[0] as u8;
            let (b, a) = match d[1] {
                0 => (vec![x], vec![!x]),
                1 => (vec![x; 3], vec![!x]),
                _ => (vec![!x, !x], vec![!x, x, !x]),
            };
            let patch = byte_patch(&b, &a, 0);
            let reverse = d[3] == 1;
            let (from, to) = if reverse { (&a, &b) } else { (&b, &a) };
            let mut data = match d[2] {
                1 => to.clone(),
                2 => vec![x ^ 1; 6],
                3 => vec![],
                _ => from.clone(),
            };
            match d[2] {
                4 => drop(data.pop()),
                5 => *data.last_mut().unwrap() ^= 2,
                _ => (),
            }
            byte_case(&patch, &data, reverse, ctx)
        },
    ));
    {
        let words: [&[u8]; 4] = [&[], &[1], &[2], &[1, 2]];
        let starts = if thorough { 4 } else { 3 };
        let mut one = vec![];
        for x in words {
            for y in words {
                for s in 0..starts {
                    for t in if thorough { 0..starts } else { s..s + 1 } {
                        if x != y {
                            one.push(crate::bytes::clump(s, x, t, y));
                        }
                    }
                }
            }
        }
        let one: Vec<Value> = one.iter().map(|c| json!(c)).collect();
        let datas: [&[u8]; 5] = [&[1, 2, 1], &[1, 2], &[2, 1, 1, 2], &[], &[1, 1, 1]];
        let l = one.len() as u64;
        families.push(family(
            "two hand-made binary clumps",
            format!("every ordered pair of {l} clumps (old and new parts of at most two of two bytes, positions below {starts}), also overlapping and out of order; 5 data; both directions"),
            l * l * 5 * 2,
            move |i, ctx| {
                let d = digits(i, &[l, l, 5, 2]);
                let clumps = json!([one[d[0] as usize], one[d[1] as usize]]);
                let patch = BPatch(serde_json::from_value(clumps).expect("the stored form of clumps"));
                byte_case(&patch, datas[d[2] as usize], d[3] == 1, ctx)
            },
        ));
        let one = if thorough { hand_clumps(&[(0, 0), (1, 1)], 3, &[0, 1], 1) } else { hand_clumps(&[(0, 0), (1, 0)], 3, &[0], 1) };
        let files: [&[u8]; 4] = [&[0, 1, 0], &[1], &[0, 1, 1, 0], &[]];
        let l = one.len() as u64;
        families.push(family(
            "two hand-made text clumps",
            format!("every ordered pair of {l} clumps (one line or none replaced by one or none, with or without context), also overlapping and out of order; 4 files; both directions"),
            l * l * 4 * 2,
            move |i, ctx| {
                let d = digits(i, &[l, l, 4, 2]);
                let mk = |c: &((u8, u8), usize, Vec<u8>, usize, Vec<u8>)| clump_json(c.0, c.1, &render(&c.2, 0, true), c.3, &render(&c.4, 0, true));
                let patch = TPatch(vec![mk(&one[d[0] as usize]), mk(&one[d[1] as usize])]);
                text_case(&patch, &render(files[d[2] as usize], 0, true), d[3] == 1, false, false, ctx)
            },
        ));
    }
    Check {
        id: "C26",
        level: "model_checking",
        rule: "a case is (patch, file, direction) given to pw_patch; all are distinct and count as non-trivial. Oracle: for text, whether the patch machine (as in C08) has a run without a failed clump that gives the file there is afterwards (and: unrelated lines must fail a replacement, the patch's own file must not); for binary patches, what must happen to each clump follows from its one position. The exit status must agree.",
        assumptions: vec!["where runs with and without a failed clump give the same file, either status is accepted"],
        families,
    }
}

// ---------------------------------------------------------------- C27

/// (name, patch, files to lay out)
fn base_patches() -> Vec<(&'static str, Value, Vec<(&'static str, &'static [u8])>)> {
    let tc = json!([{"context_lengths": [1, 1], "before": {"start": 0, "items": ["a\n", "b\n", "c\n"]}, "after": {"start": 0, "items": ["a\n", "B\n", "c\n"]}}]);
    let bc = json!([{"context_lengths": [1, 0], "before": {"start": 0, "items": [200, 1]}, "after": {"start": 0, "items": [200, 2]}}]);
    vec![
        ("text change", json!({"TextChange": {"before_path": "target", "after_path": "other", "clumps": tc}}), vec![("target", b"a\nb\nc\n")]),
        ("text change, to be reversed", json!({"TextChange": {"before_path": "target", "after_path": "other", "clumps": tc}}), vec![("target", b"a\nB\nc\n")]),
        ("binary change", json!({"ByteChange": {"before_path": "target", "after_path": "other", "compressed": false, "clumps": bc}}), vec![("target", b"\xc8\x01")]),
        ("text addition", json!({"TextAdd": {"path": "target", "lines": ["x\n", "y"]}}), vec![]),
        ("text addition, to be reversed", json!({"TextAdd": {"path": "target", "lines": ["x\n", "y"]}}), vec![("target", b"x\ny")]),
        ("text removal", json!({"TextRemove": {"path": "target", "lines": ["x\n", "y"]}}), vec![("target", b"x\ny")]),
        ("text removal, to be reversed", json!({"TextRemove": {"path": "target", "lines": ["x\n", "y"]}}), vec![]),
        ("binary addition", json!({"ByteAdd": {"path": "target", "compressed": false, "bytes": [255, 0]}}), vec![]),
        ("binary addition, to be reversed", json!({"ByteAdd": {"path": "target", "compressed": false, "bytes": [255, 0]}}), vec![("target", b"\xff\0")]),
        ("binary removal", json!({"ByteRemove": {"path": "target", "compressed": false, "bytes": [255, 0]}}), vec![("target", b"\xff\0")]),
        ("binary removal, to be reversed", json!({"ByteRemove": {"path": "target", "compressed": false, "bytes": [255, 0]}}), vec![]),
    ]
}

fn refused(what: &str, patch: Option<&[u8]>, files: &[(&str, &[u8])], reverse: bool, ctx: &mut Ctx) -> R {
    note_case(|| format!("{what}"));
    let w = fresh();
    for (n, c) in files {
        fs::write(w.join(n), c).expect("scratch file");
    }
    fs::write(w.join("other"), b"other\n").expect("scratch file");
    fs::create_dir(w.join("dir")).expect("scratch directory");
    let p = beside("patch");
    let _ = fs::remove_file(&p);
    if let Some(c) = patch {
        fs::write(&p, c).expect("scratch file");
    }
    let t = tree(&w);
    let mut args = vec![p.as_os_str()];
    if reverse {
        args.push(os("-r"));
    }
    let r = run(&bin("pw_patch"), &args, &w, None);
    ctx.exec += 1;
    ctx.nontrivial(&(what, patch, files, reverse));
    ctx.outcome(&r.code);
    let case = || json!({"what": what, "patch": patch.map(bytes_str), "files": files.iter().map(|f| f.0).collect::<Vec<_>>(), "reverse": reverse, "ended": r.show()});
    ctx.sample(case);
    if r.slow || r.ok() {
        return fail("the patch is not refused", case());
    }
    let changed = differences(&t, &tree(&w), "");
    if !changed.is_empty() {
        return fail(format!("refused, but {changed:?}"), case());
    }
    Ok(())
}

/// All places in a value, as pointers.
fn places(v: &Value, at: String, out: &mut Vec<String>) {
    out.push(at.clone());
    match v {
        Value::Object(m) => m.iter().for_each(|(k, x)| places(x, format!("{at}/{k}"), out)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| places(x, format!("{at}/{i}"), out)),
        _ => (),
    }
}

/// The target is missing, but files that could be taken for it are all around.
fn decoys(bases: Arc<Vec<(&'static str, Value, Vec<(&'static str, &'static [u8])>)>>) -> Family {
    let names = ["a", "d/a", "d/e/a", "./a", "../up/a", "d/../a", "ABS/a", "~/a", "a/d/a", "b/d/a", "a/d/e/a", "A", "a.txt", "d/other"];
    let n = names.len() as u64;
    family(
        "no such target, but others like it",
        format!("patches that need their target, naming {names:?}, which is missing, in or beside the directory of the run; files to which they would apply in the directory of the run, of the patch, the home and the root of the scratch tree, below d, e and up, called a, other, a.orig, a~, A or a.txt"),
        bases.len() as u64 * n * 2,
        move |i, ctx| {
            let d = digits(i, &[bases.len() as u64, n, 2]);
            let (what, v, files) = &bases[d[0] as usize];
            let Some((_, content)) = files.first() else { return Ok(()) };
            let w = fresh();
            let cwd = w.join("cwd");
            let name = names[d[1] as usize].replace("ABS", &cwd.join("abs").display().to_string());
            for dir in ["cwd", "cwd/d", "cwd/d/e", "cwd/e", "cwd/~", "cwd/abs", "cwd/b", "patches", "patches/d", "patches/d/e", "patches/up", "up", "up/d", "d", "."] {
                let _ = fs::create_dir_all(w.join(dir));
                for f in ["a", "other", "a.orig", "a~", "A", "a.txt", "target"] {
                    fs::write(w.join(dir).join(f), content).expect("scratch file");
                }
            }
            let _ = fs::create_dir_all(home());
            fs::write(home().join("a"), content).expect("scratch file");
            // a/d/a leads through a file
            let _ = fs::remove_file(cwd.join(&name));
            if cwd.join(&name).exists() {
                return Ok(());
            }
            let mut v = v.clone();
            let (_, x) = v.as_object_mut().unwrap().iter_mut().next().unwrap();
            let k = if x.get("path").is_some() { "path" } else { "before_path" };
            x[k] = json!(name);
            let (file, arg) = [("patches/p", "../patches/p"), ("cwd/p", "p")][d[2] as usize];
            fs::write(w.join(file), v.to_string()).expect("scratch file");
            note_case(|| format!("{what} naming {name:?}, {arg}"));
            beat();
            let before = tree(&w);
            let mut args = vec![os(arg)];
            if what.ends_with("reversed") {
                args.push(os("-r"));
            }
            let r = run(&bin("pw_patch"), &args, &cwd, None);
            ctx.exec += 1;
            ctx.nontrivial(&(i, 0));
            ctx.outcome(&(r.code, what));
            let case = || json!({"what": what, "naming": name.replace(&w.display().to_string(), "."), "patch": arg, "ended": r.show()});
            ctx.sample(case);
            if r.slow || r.ok() {
                return fail("the patch is not refused", case());
            }
            let changed = differences(&before, &tree(&w), "");
            if !changed.is_empty() || fs::read(home().join("a")).ok().as_deref() != Some(*content) {
                return fail(format!("refused, but {changed:?}"), case());
            }
            Ok(())
        },
    )
}

pub fn c27(thorough: bool) -> Check {
    let mut families = vec![];
    let bases = Arc::new(base_patches());
    // the two written forms: as pw_diff writes it, and without spaces
    let forms: Arc<Vec<(usize, Vec<u8>)>> = Arc::new(
        bases.iter().enumerate().flat_map(|(i, b)| [(i, serde_json::to_vec_pretty(&b.1).unwrap()), (i, serde_json::to_vec(&b.1).unwrap())]).collect(),
    );
    let locate = |lens: Vec<u64>| {
        move |mut i: u64| {
            let mut n = 0;
            while i >= lens[n] {
                i -= lens[n];
                n += 1;
            }
            (n, i)
        }
    };
    {
        let lens: Vec<u64> = forms.iter().map(|f| f.1.len() as u64 * 2).collect();
        let total = lens.iter().sum();
        let (bases, forms, find) = (bases.clone(), forms.clone(), locate(lens));
        families.push(family(
            "truncated",
            "11 patches of the six kinds, with files to which they would apply, pretty or compact, cut off before every byte; both directions",
            total,
            move |i, ctx| {
                let (n, j) = find(i);
                let (b, f) = &forms[n];
                refused(&format!("{} cut off", bases[*b].0), Some(&f[..j as usize / 2]), &bases[*b].2, j % 2 == 1, ctx)
            },
        ));
    }
    {
        let bad: Vec<u8> = if thorough { (0..=255).collect() } else { vec![0, b'\n', b'"', b',', b':', b'0', b'[', b'\\', b']', b'{', b'}', 0x80, 0xff] };
        let l = bad.len() as u64;
        let lens: Vec<u64> = forms.iter().map(|f| f.1.len() as u64 * l).collect();
        let total = lens.iter().sum();
        let (bases, forms, find) = (bases.clone(), forms.clone(), locate(lens));
        families.push(family(
            "one byte changed",
            format!("the same patches with any one byte replaced by any of {l}, wherever that gives something that is not JSON; the direction in which the patch would apply"),
            total,
            move |i, ctx| {
                let (n, j) = find(i);
                let (b, f) = &forms[n];
                let mut f = f.clone();
                f[(j / l) as usize] = bad[(j % l) as usize];
                if serde_json::from_slice::<Value>(&f).is_ok() {
                    return Ok(());
                }
                ctx.count("not_json", 1);
                refused(&format!("{} damaged", bases[*b].0), Some(&f), &bases[*b].2, bases[*b].0.ends_with("reversed"), ctx)
            },
        ));
    }
    {
        // missing and mistyped parts
        let mut bad: Vec<(usize, String, Value)> = vec![];
        for (n, b) in bases.iter().enumerate() {
            let mut ps = vec![];
            places(&b.1, String::new(), &mut ps);
            for p in ps {
                let v = b.1.pointer(&p).unwrap();
                let wrong: Vec<Value> = match v {
                    Value::Object(_) => vec![json!(null), json!(true), json!(5), json!("x"), json!([]), json!({})],
                    Value::Array(_) => vec![json!(null), json!(true), json!(5), json!("x"), json!({}), json!({"0": 1}), json!([{}]), json!([null])],
                    Value::Number(_) => vec![json!(null), json!(true), json!(-1), json!(1.5), json!("1"), json!([]), json!([1]), json!({}), json!(1e300)],
                    Value::Bool(_) => vec![json!(null), json!(0), json!("false"), json!([]), json!({})],
                    _ => vec![json!(null), json!(true), json!(5), json!([]), json!(["target"]), json!({})],
                };
                for x in wrong {
                    let mut c = b.1.clone();
                    *c.pointer_mut(&p).unwrap() = x.clone();
                    bad.push((n, format!("{p} = {x}"), c));
                }
                if let Value::Object(m) = v {
                    for k in m.keys() {
                        let mut c = b.1.clone();
                        c.pointer_mut(&p).unwrap().as_object_mut().unwrap().remove(k);
                        bad.push((n, format!("{p}/{k} missing"), c));
                        let mut c = b.1.clone();
                        let m = c.pointer_mut(&p).unwrap().as_object_mut().unwrap();
                        let x = m.remove(k).unwrap();
                        m.insert(format!("{k}x"), x);
                        bad.push((n, format!("{p}/{k} misnamed"), c));
                    }
                }
                if p.ends_with("context_lengths") {
                    for x in [json!([1]), json!([1, 1, 1]), json!([256, 1]), json!([1, -1])] {
                        let mut c = b.1.clone();
                        *c.pointer_mut(&p).unwrap() = x.clone();
                        bad.push((n, format!("{p} = {x}"), c));
                    }
                }
                if p.contains("/bytes/") || (b.0.starts_with("binary") && p.contains("/items/")) {
                    for x in [json!(256), json!(-1), json!("\u{0}")] {
                        let mut c = b.1.clone();
                        *c.pointer_mut(&p).unwrap() = x.clone();
                        bad.push((n, format!("{p} = {x}"), c));
                    }
                }
            }
            let (k, v) = b.1.as_object().unwrap().iter().next().unwrap();
            for other in ["TextChange", "TextAdd", "ByteChange", "ByteRemove", "Unknown"] {
                let (t, same) = (k.contains("Change"), other.contains("Change"));
                if t != same || other == "Unknown" || (k.starts_with("Text") != other.starts_with("Text")) {
                    // another kind has other parts
                    if !(k.starts_with("Byte") && other == "TextChange") {
                        bad.push((n, format!("kind {other}"), json!({other: v})));
                    }
                }
                if other != k {
                    bad.push((n, format!("also a {other}"), json!({k: v, other: v})));
                }
            }
            bad.push((n, "in a list".into(), json!([b.1])));
            bad.push((n, "only the kind".into(), json!(k)));
            bad.push((n, "without the kind".into(), v.clone()));
        }
        let bases = bases.clone();
        let l = bad.len() as u64;
        families.push(family(
            "parts missing or of another type",
            "the same patches with every single part left out, renamed, or replaced by a value of another type or out of range; other kinds; both directions",
            l * 2,
            move |i, ctx| {
                let (n, what, v) = &bad[i as usize / 2];
                refused(&format!("{}: {what}", bases[*n].0), Some(v.to_string().as_bytes()), &bases[*n].2, i % 2 == 1, ctx)
            },
        ));
    }
    {
        let extra: Vec<&[u8]> = vec![b"x", b"{}", b"}", b",", b"null", b"\0", b"\xff", b"\n\n{", b" 0"];
        let l = forms.len() as u64 * extra.len() as u64 * 2;
        let (bases, forms) = (bases.clone(), forms.clone());
        families.push(family(
            "something after the end",
            "the same patches with something else in front or behind",
            l,
            move |i, ctx| {
                let d = digits(i, &[forms.len() as u64, extra.len() as u64, 2]);
                let (b, f) = &forms[d[0] as usize];
                let e = extra[d[1] as usize];
                let f = if d[2] == 0 { [f, e].concat() } else { [e, f].concat() };
                if serde_json::from_slice::<Value>(&f).is_ok() {
                    return Ok(());
                }
                refused(&format!("{} with something else", bases[*b].0), Some(&f), &bases[*b].2, bases[*b].0.ends_with("reversed"), ctx)
            },
        ));
    }
    {
        let junk: Vec<&[u8]> = vec![b"", b" ", b"\n", b"null", b"0", b"[]", b"{}", b"\"\"", b"--- a\n+++ b\n@@ -1 +1 @@\n-x\n+y\n", b"\x7fELF", b"\xef\xbb\xbf{}", b"PK\x03\x04"];
        let l = junk.len() as u64 + 1;
        families.push(family("not a patch", "12 contents that are no patch, and no patch file at all; both directions", l * 2, move |i, ctx| {
            let p = junk.get(i as usize / 2).copied();
            refused("not a patch", p, &[("target", b"a\nb\nc\n")], i % 2 == 1, ctx)
        }));
    }
    {
        // valid patches without a target, or with a target that is not a file, or no place for it
        let bases = bases.clone();
        families.push(family(
            "no such target",
            "the same patches naming a file that is missing, in a missing directory, below a file, a directory, nothing at all; only where the file would have to exist, or could not be created",
            bases.len() as u64 * 5,
            move |i, ctx| {
                let d = digits(i, &[bases.len() as u64, 5]);
                let (what, v, files) = &bases[d[0] as usize];
                let name = ["missing", "none/target", "other/target", "dir", ""][d[1] as usize];
                if d[1] == 0 && files.is_empty() {
                    return Ok(());
                }
                let mut v = v.clone();
                let (_, x) = v.as_object_mut().unwrap().iter_mut().next().unwrap();
                let k = if x.get("path").is_some() { "path" } else { "before_path" };
                x[k] = json!(name);
                refused(&format!("{what} naming {name:?}"), Some(v.to_string().as_bytes()), files, what.ends_with("reversed"), ctx)
            },
        ));
    }
    families.push(decoys(bases.clone()));
    {
        let bad: Vec<Vec<u8>> = vec![
            b"\xff".to_vec(),
            b"a\nb\nc\n\x80".to_vec(),
            b"a\nb\n\xc3\nc\n".to_vec(),
            b"\xffa\nb\nc\n".to_vec(),
            b"a\nB\nc\n\xe2\x82".to_vec(),
            b"a\xed\xa0\x80\nb\nc\n".to_vec(),
            b"\xff\xfea\0\n\0b\0\n\0c\0\n\0".to_vec(),
            [b"a\nb\nc\n".repeat(40_000), b"\xff".to_vec()].concat(),
            [b"a\nB\nc\n".repeat(700), b"\xc3".to_vec(), b"x\n".repeat(4100)].concat(),
        ];
        let bases = bases.clone();
        let n = bad.len() as u64;
        families.push(family(
            "the target of a text patch is not text",
            format!("a text change, applied to {n} contents that are no UTF-8, long or short; both directions"),
            n * 2,
            move |i, ctx| refused("target is not text", Some(bases[0].1.to_string().as_bytes()), &[("target", &bad[i as usize / 2])], i % 2 == 1, ctx),
        ));
    }
    Check {
        id: "C27",
        level: "exploration",
        rule: "a case is (content of the patch file, files, direction) given to pw_patch; all count as non-trivial. The exit status must not be 0 and the whole tree must be as before (content, modes, inodes, modification times).",
        assumptions: vec!["whether a damaged byte leaves valid JSON is decided by serde_json's untyped parser"],
        families,
    }
}

// ---------------------------------------------------------------- C28

const ODD_NAMES: [&str; 6] = ["file", "sub/file", "sub/dir/file", "../up", "ABS/elsewhere/file", "OTHER/file"];

struct Perm {
    mode: u32,
    umask: u32,
    name: usize,
    binary: bool,
    reverse: bool,
    /// the patch: 0 a change, 1 no change at all, 2 fails to apply, 3 leaves nothing
    what: u64,
}

fn perm_case(p: &Perm, ctx: &mut Ctx) -> R {
    note_case(|| format!("mode {:o} umask {:o} name {} binary {} reverse {} what {}", p.mode, p.umask, ODD_NAMES[p.name], p.binary, p.reverse, p.what));
    let w = fresh();
    let cwd = w.join("cwd");
    fs::create_dir_all(cwd.join("sub/dir")).expect("scratch directory");
    fs::create_dir_all(w.join("elsewhere")).expect("scratch directory");
    for f in ["cwd/bystander", "cwd/other", "cwd/sub/bystander", "elsewhere/bystander", "cwd/sub/dir/bystander", "cwd/file.orig", "cwd/sub/dir/file.tmp"] {
        fs::write(w.join(f), f).expect("scratch file");
    }
    let far = std::path::PathBuf::from(std::env::var("MC_SCRATCH2").unwrap_or_else(|_| w.join("far").display().to_string()))
        .join(format!("{:?}", std::thread::current().id()));
    let _ = fs::remove_dir_all(&far);
    fs::create_dir_all(&far).expect("scratch directory");
    fs::write(far.join("bystander"), "far").expect("scratch file");
    let name = ODD_NAMES[p.name];
    let shown = match name.split_once('/') {
        Some(("ABS", n)) => w.join(n).display().to_string(),
        Some(("OTHER", n)) => far.join(n).display().to_string(),
        _ => name.to_string(),
    };
    let target = cwd.join(&shown);
    let (x, y): (&[u8], &[u8]) = match (p.what, p.binary) {
        (1, false) => (b"same\n", b"same\n"),
        (1, true) => (b"\xff", b"\xff"),
        (3, false) => (b"one\n", b""),
        (3, true) => (b"\xff", b""),
        (_, false) => (b"one\ntwo\nthree\n", b"one\n2\nthree"),
        (_, true) => (b"\xff\0\x80", b"\xff\x80\n"),
    };
    let split = |b: &[u8]| -> Vec<String> { String::from_utf8(b.to_vec()).unwrap().split_inclusive('\n').map(|s| s.to_string()).collect() };
    let patch = if p.binary {
        json!({"ByteChange": {"before_path": shown, "after_path": "other", "compressed": false, "clumps": byte_patch(x, y, 2).0}})
    } else {
        assert!(is_utf8(x));
        json!({"TextChange": {"before_path": shown, "after_path": "other", "clumps": text_patch(&split(x), &split(y), 2).0}})
    };
    let pf = beside("patch");
    fs::write(&pf, patch.to_string()).expect("scratch file");
    let (from, to) = if p.reverse { (y, x) } else { (x, y) };
    let from = if p.what == 2 { &b"\xfdunrelated\n"[(!p.binary) as usize..] } else { from };
    fs::write(&target, from).expect("scratch file");
    fs::set_permissions(&target, fs::Permissions::from_mode(p.mode)).expect("mode");
    let (t, far_t) = (tree(&w), tree(&far));
    let prog = bin("pw_patch").display().to_string();
    let mut script = format!("umask {:o}; exec \"$0\" \"$1\"", p.umask);
    if p.reverse {
        script.push_str(" -r");
    }
    let r = run(Path::new("/bin/sh"), &[os("-c"), os(&script), os(&prog), pf.as_os_str()], &cwd, None);
    ctx.exec += 1;
    ctx.nontrivial(&(p.mode, p.umask, p.name, p.binary, p.reverse, p.what));
    let case = || json!({"mode": format!("{:o}", p.mode), "umask": format!("{:o}", p.umask), "target": shown, "patch": patch, "reverse": p.reverse, "ended": r.show()});
    let (t2, far_t2) = (tree(&w), tree(&far));
    let meta = fs::symlink_metadata(&target).ok();
    let mode = meta.as_ref().map(|m| m.permissions().mode() & 0o7777);
    let now = got(&target);
    let _ = fs::remove_dir_all(&far);
    ctx.outcome(&(mode, &now, r.code));
    ctx.sample(case);
    if p.what == 2 {
        if r.ok() {
            return fail("a patch that does not apply is reported as applied", case());
        }
    } else {
        if !r.ok() {
            return fail("pw_patch fails", case());
        }
        if now.as_deref() != Some(to) {
            return fail("the file is not patched", case());
        }
    }
    if mode != Some(p.mode) {
        return fail(format!("the mode is now {:o}", mode.unwrap_or(0)), case());
    }
    let own = target.strip_prefix(&w).map(|p| normal(&p.display().to_string())).unwrap_or_default();
    let mut changed = differences(&t, &t2, &own);
    changed.extend(differences(&far_t, &far_t2, "file"));
    if !changed.is_empty() {
        return fail(format!("other files are touched: {changed:?}"), case());
    }
    Ok(())
}

/// However the application ends, nothing but the target is touched, and its mode stays.
fn outcome_case(i: u64, patch: &Value, file: &[u8], reverse: bool, ctx: &mut Ctx) -> R {
    note_case(|| format!("{patch} {file:?} {reverse}"));
    let w = fresh();
    fs::create_dir(w.join("sub")).expect("scratch directory");
    for f in ["sub/target", "sub/other", "sub/target.orig", "sub/target.rej", "sub/target~", "target", "bystander"] {
        fs::write(w.join(f), f).expect("scratch file");
        if f == "sub/target" && i % 2 == 1 {
            break; // with and without such files
        }
    }
    let mode = [0o640, 0o604, 0o755, 0o200][(i / 2 % 4) as usize];
    fs::write(w.join("sub/target"), file).expect("scratch file");
    fs::set_permissions(w.join("sub/target"), fs::Permissions::from_mode(mode)).expect("mode");
    if i % 3 == 1 {
        // another name of the same content is another file
        fs::hard_link(w.join("sub/target"), w.join("sub/hard")).expect("link");
    }
    let p = beside("patch");
    fs::write(&p, patch.to_string()).expect("scratch file");
    let before = tree(&w);
    let mut args = vec![p.as_os_str()];
    if reverse {
        args.push(os("-r"));
    }
    let v = ["", "-v", "-vv", "-vvv", "-vvvv"][(i % 5) as usize];
    if !v.is_empty() {
        args.push(os(v));
    }
    let r = run(&bin("pw_patch"), &args, &w, None);
    ctx.exec += 1;
    let after = tree(&w);
    ctx.nontrivial(&(patch.to_string(), file, reverse));
    ctx.outcome(&(r.code, after.get("sub/target").map(|e| &e.content)));
    let case = || json!({"patch": patch, "file": bytes_str(file), "reverse": reverse, "reporting": v, "ended": r.show()});
    ctx.sample(case);
    ctx.count(if r.ok() { "applied" } else { "not_applied" }, 1);
    let changed = differences(&before, &after, "sub/target");
    if !changed.is_empty() {
        return fail(format!("other files are touched: {changed:?}"), case());
    }
    match after.get("sub/target") {
        Some(e) if e.kind == 'f' && e.mode == mode => Ok(()),
        Some(e) => fail(format!("the target is now of kind {} with mode {:o}, not {mode:o}", e.kind, e.mode), case()),
        None => fail("the target is gone", case()),
    }
}

pub fn c28(thorough: bool) -> Check {
    let mut families = vec![];
    families.push(family(
        "all permission bits",
        "all 512 permission bits with and without the set-user, set-group and sticky bits (4096); text and binary; forward and reverse",
        4096 * 2 * 2,
        |i, ctx| {
            let d = digits(i, &[4096, 2, 2]);
            perm_case(&Perm { mode: d[0] as u32, umask: 0o22, name: 0, binary: d[1] == 1, reverse: d[2] == 1, what: 0 }, ctx)
        },
    ));
    let modes: Vec<u32> = if thorough { (0..512).collect() } else { vec![0o000, 0o400, 0o444, 0o600, 0o644, 0o755, 0o777, 0o4755] };
    let l = modes.len() as u64;
    families.push(family(
        "places, umasks and outcomes",
        format!("{l} modes; umasks 000, 022, 077, 777; target in the working directory, below it, beside it, elsewhere, on another file system; patch that changes, changes nothing, does not apply, empties; text and binary; forward and reverse"),
        l * 4 * 6 * 4 * 2 * 2,
        move |i, ctx| {
            let d = digits(i, &[l, 4, 6, 4, 2, 2]);
            perm_case(
                &Perm {
                    mode: modes[d[0] as usize],
                    umask: [0, 0o22, 0o77, 0o777][d[1] as usize],
                    name: d[2] as usize,
                    binary: d[4] == 1,
                    reverse: d[5] == 1,
                    what: d[3],
                },
                ctx,
            )
        },
    ));
    let t = Attempts::new(if thorough { 5 } else { 4 }, 2);
    let what = t.bound();
    families.push(family(
        "every outcome, text",
        format!("{}; each degree of reporting in turn", what.0),
        t.texts(),
        move |i, ctx| match t.text(i) {
            Some(t) => {
                let p = json!({"TextChange": {"before_path": "sub/target", "after_path": "sub/other", "clumps": t.patch.0}});
                outcome_case(i, &p, &text(&t.file), t.reverse, ctx)
            }
            None => Ok(()),
        },
    ));
    let t = Attempts::new(if thorough { 5 } else { 3 }, 2);
    families.push(family(
        "every outcome, binary",
        format!("{}; each degree of reporting in turn", t.bound().1),
        t.datas(),
        move |i, ctx| match t.data(i) {
            Some((patch, data, reverse)) => {
                let p = json!({"ByteChange": {"before_path": "sub/target", "after_path": "sub/other", "compressed": false, "clumps": patch.0}});
                outcome_case(i, &p, &data, reverse, ctx)
            }
            None => Ok(()),
        },
    ));
    Check {
        id: "C28",
        level: "exploration",
        rule: "a case is (mode, umask, place of the target, patch, direction) given to pw_patch; all are distinct and count as non-trivial. Afterwards the mode must be as before and everything else in the working directory, beside the target and around it unchanged (content, modes, inodes, modification times, no new entry).",
        assumptions: vec!["run as root, so that files without read permission can be patched at all", "the other file system is /tmp against /dev/shm, where these differ"],
        families,
    }
}
