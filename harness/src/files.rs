//! Checks of patches as files and of comparing two paths: C15 and C16.

use crate::common::text;
use crate::engine::*;
use crate::gen::*;
use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::{ApplyClumpsFuzzy, TextClumpBasics};
use pw_diff_lib::changes::ChangeBasics;
use pw_diff_lib::byte_diff::ByteChangeDiff;
use pw_diff_lib::diff::Diff;
use pw_diff_lib::sequence::Seq;
use pw_diff_lib::text_diff::TextChangeDiff;
use serde_json::json;
use std::cell::RefCell;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::Arc;

thread_local! {
    static DIR: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}

/// A scratch directory of this thread's own; the whole of it is removed when the check ends.
pub fn dir() -> PathBuf {
    DIR.with(|d| {
        d.borrow_mut()
            .get_or_insert_with(|| {
                let p = PathBuf::from(std::env::var("MC_SCRATCH").expect("MC_SCRATCH")).join(format!("{:?}", std::thread::current().id()));
                fs::create_dir_all(&p).expect("scratch directory");
                p
            })
            .clone()
    })
}

/// Unicode, table 3-7: well-formed UTF-8 byte sequences.
pub fn is_utf8(mut b: &[u8]) -> bool {
    loop {
        let (n, lo, hi) = match b.first() {
            None => return true,
            Some(0x00..=0x7f) => (0, 0, 0),
            Some(0xc2..=0xdf) => (1, 0x80, 0xbf),
            Some(0xe0) => (2, 0xa0, 0xbf),
            Some(0xe1..=0xec | 0xee..=0xef) => (2, 0x80, 0xbf),
            Some(0xed) => (2, 0x80, 0x9f),
            Some(0xf0) => (3, 0x90, 0xbf),
            Some(0xf1..=0xf3) => (3, 0x80, 0xbf),
            Some(0xf4) => (3, 0x80, 0x8f),
            _ => return false,
        };
        if b.len() < n + 1 || (n > 0 && !(lo..=hi).contains(&b[1])) || (n > 1 && b[2..=n].iter().any(|c| !(0x80..=0xbf).contains(c))) {
            return false;
        }
        b = &b[n + 1..];
    }
}

pub fn kind(d: &Diff) -> &'static str {
    match d {
        Diff::TextChange(_) => "TextChange",
        Diff::TextAdd(_) => "TextAdd",
        Diff::TextRemove(_) => "TextRemove",
        Diff::ByteChange(_) => "ByteChange",
        Diff::ByteAdd(_) => "ByteAdd",
        Diff::ByteRemove(_) => "ByteRemove",
    }
}

pub fn path_of(d: &Diff) -> Vec<PathBuf> {
    match d {
        Diff::TextChange(c) => vec![c.before_path().to_path_buf(), c.after_path().to_path_buf()],
        Diff::ByteChange(c) => vec![c.before_path().to_path_buf(), c.after_path().to_path_buf()],
        Diff::TextAdd(p) | Diff::TextRemove(p) => vec![p.path().to_path_buf()],
        Diff::ByteAdd(p) | Diff::ByteRemove(p) => vec![p.path().to_path_buf()],
    }
}

/// What a patch does to a file: the new content, or for additions and removals the content carried.
fn effect(d: &Diff, file: &[u8], reverse: bool) -> Option<Vec<u8>> {
    let mut out = vec![];
    match d {
        Diff::TextChange(c) => {
            let lines = Seq::<String>::read(file).ok()?;
            c.apply_into(&lines, &mut out, reverse).expect("a Vec takes everything");
        }
        Diff::ByteChange(c) => {
            c.apply_into(&Seq::<u8>::from(file), &mut out, reverse).expect("a Vec takes everything");
        }
        Diff::TextAdd(p) | Diff::TextRemove(p) => p.write_into(&mut out).expect("a Vec takes everything"),
        Diff::ByteAdd(p) | Diff::ByteRemove(p) => p.write_into(&mut out).expect("a Vec takes everything"),
    }
    Some(out)
}

fn expected_kind(b: Option<&[u8]>, a: Option<&[u8]>) -> &'static str {
    let text = b.map_or(true, is_utf8) && a.map_or(true, is_utf8);
    match (b.is_some(), a.is_some(), text) {
        (true, true, true) => "TextChange",
        (true, true, false) => "ByteChange",
        (true, false, true) => "TextRemove",
        (true, false, false) => "ByteRemove",
        (false, true, true) => "TextAdd",
        (false, true, false) => "ByteAdd",
        _ => "none",
    }
}

fn place(path: &Path, content: Option<&[u8]>) {
    match content {
        Some(c) => fs::write(path, c).expect("scratch file"),
        None => {
            let _ = fs::remove_file(path);
        }
    }
}

fn show(b: Option<&[u8]>) -> serde_json::Value {
    match b {
        None => json!(null),
        Some(b) if b.len() <= 400 => json!(b),
        Some(b) => json!({"length": b.len(), "from": b[..40], "to": b[b.len() - 40..]}),
    }
}

/// Compares two files (or one with nothing), checks the patch, and with `stored` also its written form.
fn compare(b: Option<&[u8]>, a: Option<&[u8]>, context: u8, names: (&str, &str), stored: bool, ctx: &mut Ctx) -> R {
    note_case(|| format!("before={b:?} after={a:?} context={context} names={names:?}"));
    let (bp, ap) = (dir().join(names.0), dir().join(names.1));
    place(&bp, b);
    place(&ap, a);
    let r = compare_placed(b, a, context, &bp, &ap, stored, ctx);
    let _ = fs::remove_file(&bp);
    let _ = fs::remove_file(&ap);
    r
}

fn compare_placed(b: Option<&[u8]>, a: Option<&[u8]>, context: u8, bp: &Path, ap: &Path, stored: bool, ctx: &mut Ctx) -> R {
    let case = || json!({"before": show(b), "after": show(a), "context": context, "names": [bp.file_name().map(|s| s.to_string_lossy()), ap.file_name().map(|s| s.to_string_lossy())]});
    ctx.exec += 1;
    let want = expected_kind(b, a);
    let got = Diff::new(bp, ap, context);
    let d = match got {
        Err(_) if want == "none" => {
            ctx.count("refused", 1);
            return Ok(());
        }
        Err(e) => return fail(format!("error {e}"), case()),
        Ok(d) => d,
    };
    ctx.count(want, 1);
    ctx.nontrivial(&(b, a, context, bp, ap));
    ctx.sample(case);
    if kind(&d) != want {
        return fail(format!("the patch is a {} and should be a {want}", kind(&d)), case());
    }
    let paths = match want {
        "TextChange" | "ByteChange" => vec![bp.to_path_buf(), ap.to_path_buf()],
        _ => vec![bp.to_path_buf()],
    };
    if path_of(&d) != paths {
        return fail(format!("the patch names {:?}", path_of(&d)), case());
    }
    let (x, y) = (b.unwrap_or(b""), a.unwrap_or(b""));
    let whole = match want {
        "TextChange" | "ByteChange" => [y, x],
        "TextAdd" | "ByteAdd" => [y, y],
        _ => [x, x],
    };
    for reverse in [false, true] {
        let from = if reverse { y } else { x };
        if effect(&d, from, reverse).as_deref() != Some(whole[reverse as usize]) {
            return fail(format!("the patch does not carry the content (reverse {reverse})"), case());
        }
    }
    if stored {
        same_when_read_back(&d, &[x, y], &case, ctx)?;
    }
    Ok(())
}

fn same_when_read_back(d: &Diff, files: &[&[u8]], case: &dyn Fn() -> serde_json::Value, ctx: &mut Ctx) -> R {
    same_by(d, |d, w| d.to_writer(w).map_err(|e| e.to_string()), |r| Diff::from_reader(&mut &r[..]).map_err(|e| e.to_string()), files, 4, case, ctx)?;
    // a change can be written and read without being called one
    match d {
        Diff::TextChange(_) => same_by(
            d,
            |d, w| match d {
                Diff::TextChange(c) => c.to_writer(w).map_err(|e| e.to_string()),
                _ => Err("another kind".into()),
            },
            |r| TextChangeDiff::from_reader(&mut &r[..]).map(Diff::TextChange).map_err(|e| e.to_string()),
            files,
            1,
            case,
            ctx,
        ),
        Diff::ByteChange(_) => same_by(
            d,
            |d, w| match d {
                Diff::ByteChange(c) => c.to_writer(w).map_err(|e| e.to_string()),
                _ => Err("another kind".into()),
            },
            |r| ByteChangeDiff::from_reader(&mut &r[..]).map(Diff::ByteChange).map_err(|e| e.to_string()),
            files,
            1,
            case,
            ctx,
        ),
        _ => Ok(()),
    }
}

type Writing = fn(&Diff, &mut Vec<u8>) -> Result<(), String>;
type Reading = fn(&[u8]) -> Result<Diff, String>;

fn same_by(d: &Diff, write: Writing, read: Reading, files: &[&[u8]], variants: usize, case: &dyn Fn() -> serde_json::Value, ctx: &mut Ctx) -> R {
    let mut out = vec![];
    if let Err(e) = write(d, &mut out) {
        return fail(format!("writing the patch: {e}"), case());
    }
    ctx.exec += 1;
    ctx.outcome(&out);
    let e = match read(&out) {
        Ok(e) => e,
        Err(e) => return fail(format!("reading the patch back: {e}"), case()),
    };
    if kind(&e) != kind(d) || path_of(&e) != path_of(d) {
        return fail(format!("read back as {} {:?}", kind(&e), path_of(&e)), case());
    }
    let mut again = vec![];
    let _ = write(&e, &mut again);
    if again != out {
        return fail("written differently the second time", case());
    }
    // the effect on the two files, on nothing, and on the files with something before or after
    for f in files {
        for (pre, post) in [("", ""), ("extra\n", ""), ("", "more"), ("z\nz\nz\n", "\nz")].into_iter().take(variants) {
            let file = [pre.as_bytes(), f, post.as_bytes()].concat();
            for reverse in [false, true] {
                if effect(d, &file, reverse) != effect(&e, &file, reverse) {
                    return fail(format!("the effect on {:?} (reverse {reverse}) differs", String::from_utf8_lossy(&file)), case());
                }
            }
        }
    }
    Ok(())
}

/// A stored patch is read, written, and read again: the clump keeps its numbers.
fn numbers_kept(v: &serde_json::Value, s: usize, t: usize, c: (u8, u8), ctx: &mut Ctx) -> R {
    note_case(|| v.to_string());
    ctx.exec += 1;
    let case = || v.clone();
    let mut stored = v.to_string().into_bytes();
    for round in 0..3 {
        let d = match Diff::from_reader(&mut &stored[..]) {
            Ok(d) => d,
            Err(e) => return fail(format!("reading the patch, round {round}: {e}"), case()),
        };
        let seen = match &d {
            Diff::TextChange(p) => p.clumps().map(|x| (x.before_start(false), x.after_start(false), Some(x.context_lengths()))).collect::<Vec<_>>(),
            Diff::ByteChange(p) => p.clumps().map(|x| (x.before(false).start, x.after(false).start, None)).collect(),
            _ => vec![],
        };
        if seen.len() != 1 || (seen[0].0, seen[0].1) != (s, t) || seen[0].2.map_or(false, |x| x != c) {
            return fail(format!("the clump of the patch is read as {seen:?}, round {round}"), case());
        }
        if let Diff::ByteChange(_) = &d {
            for (file, reverse) in [(&b"\x01\xff\x05"[..], false), (b"\0\x05", true), (b"\x07\x01\xff", false), (b"", false)] {
                let (old, new, at): (&[u8], &[u8], usize) = if reverse { (b"\0", b"\x01\xff", t) } else { (b"\x01\xff", b"\0", s) };
                let want = if at <= file.len() && file[at..].starts_with(old) { [&file[..at], new, &file[at + old.len()..]].concat() } else { file.to_vec() };
                if effect(&d, file, reverse) != Some(want) {
                    return fail(format!("the effect on {file:?} is another one, round {round}"), case());
                }
            }
        }
        let mut out = vec![];
        if let Err(e) = d.to_writer(&mut out) {
            return fail(format!("writing the patch: {e}"), case());
        }
        if round > 0 && out != stored {
            return fail("written differently the second time", case());
        }
        stored = out;
    }
    ctx.nontrivial(&(s, t, c));
    ctx.outcome(&stored);
    ctx.sample(case);
    Ok(())
}

/// Six kinds from contents: (before, after) with either left out.
fn kinds<'a>(x: &'a [u8], y: &'a [u8], k: u64) -> (Option<&'a [u8]>, Option<&'a [u8]>) {
    match k {
        0 => (Some(x), Some(y)),
        1 => (Some(x), None),
        _ => (None, Some(x)),
    }
}

pub fn c15(thorough: bool) -> Check {
    let mut families = vec![];
    // (1) every character
    families.push(family(
        "every character",
        "all 1112064 characters, 64 to a file: as lines of their own, all in one line, inside other text; as change (against the file without them), removal, addition",
        (0x110000 / 64) * 3 * 3,
        |i, ctx| {
            let d = digits(i, &[0x110000 / 64, 3, 3]);
            let chars: Vec<char> = (d[0] as u32 * 64..(d[0] as u32 + 1) * 64).filter_map(char::from_u32).collect();
            if chars.is_empty() {
                return Ok(());
            }
            let text: String = match d[1] {
                0 => chars.iter().map(|c| format!("{c}\n")).collect(),
                1 => chars.iter().collect(),
                _ => chars.iter().map(|c| format!("a{c}\"{c}\\{c}n\n")).collect::<String>() + "end",
            };
            let (b, a) = kinds(text.as_bytes(), b"plain\ntext\n", d[2]);
            compare(b, a, 1, ("before", "after"), true, ctx)
        },
    ));
    // (2) every byte, every pair of bytes
    families.push(family(
        "every pair of bytes",
        "all contents of one or two bytes, alone and behind 0xff, as change (to the reversed content), removal, addition",
        (256 + 65536) * 2 * 3,
        |i, ctx| {
            let d = digits(i, &[256 + 65536, 2, 3]);
            let mut x = if d[0] < 256 { vec![d[0] as u8] } else { vec![((d[0] - 256) >> 8) as u8, (d[0] - 256) as u8] };
            if d[1] == 1 {
                x.insert(0, 0xff);
            }
            let y: Vec<u8> = x.iter().rev().copied().collect();
            let (b, a) = kinds(&x, &y, d[2]);
            compare(b, a, 2, ("before", "after"), true, ctx)
        },
    ));
    // (3) all pairs of short contents made of awkward parts
    let parts: Vec<&str> = vec!["\n", "a\n", "\r\n", "\"", "\\", "\\u0000", "\0", "\u{2028}", "😀", "\u{feff}", "{", "\u{7f}\t"];
    let n = if thorough { 3 } else { 2 };
    let words = Arc::new(all_words(n, parts.len() as u8));
    let l = words.len() as u64;
    families.push(family(
        "pairs of awkward texts",
        format!("all pairs of texts of at most {n} of {parts:?}; contexts 0 and 2; as text, and as binary with 0xfe in front"),
        l * l * 2 * 2,
        move |i, ctx| {
            let d = digits(i, &[l, l, 2, 2]);
            let mk = |w: &[u8]| {
                let mut v: Vec<u8> = if d[3] == 1 { vec![0xfe] } else { vec![] };
                v.extend(w.iter().flat_map(|t| parts[*t as usize].bytes()));
                v
            };
            let (x, y) = (mk(&words[d[0] as usize]), mk(&words[d[1] as usize]));
            compare(Some(&x), Some(&y), [0, 2][d[2] as usize], ("before", "after"), true, ctx)
        },
    ));
    // (4) names
    let names = vec![
        "a", "a b", "\"", "\\", "\\n", "é", "e\u{301}", "\u{2028}", "😀", "\n", "\t", "\u{1}", "\u{7f}", "{}", "null", "--", "-r", "'", "%41", "\u{feff}x",
    ];
    let l = names.len() as u64;
    families.push(family(
        "names",
        format!("every ordered pair of {l} file names with awkward characters; the three kinds, text and binary"),
        l * l * 3 * 2,
        move |i, ctx| {
            let d = digits(i, &[l, l, 3, 2]);
            if d[0] == d[1] {
                return Ok(());
            }
            let (x, y): (&[u8], &[u8]) = if d[3] == 0 { (b"one\ntwo\n", b"two\nthree") } else { (b"\xff\0\x80", b"\0\x80\n") };
            let (b, a) = kinds(x, y, d[2]);
            compare(b, a, 2, (names[d[0] as usize], names[d[1] as usize]), true, ctx)
        },
    ));
    // (5) several clumps, all context sizes, large contents
    let sizes: Vec<usize> = if thorough { vec![0, 1, 2, 3, 10, 255, 256, 257, 1000, 5000] } else { vec![0, 1, 2, 3, 10, 255, 257, 600] };
    let ctxs = [0u8, 1, 2, 3, 100, 127, 128, 254, 255];
    let l = sizes.len() as u64;
    families.push(family(
        "sizes and contexts",
        format!("files of {sizes:?} lines or bytes with a change at the start, in the middle, at the end, at all three, everywhere, or nowhere; contexts {ctxs:?}; text and binary"),
        l * 9 * 6 * 2,
        move |i, ctx| {
            let d = digits(i, &[l, 9, 6, 2]);
            let n = sizes[d[0] as usize];
            let hit = |p: usize| match d[2] {
                0 => p == 0,
                1 => p == n / 2,
                2 => p + 1 == n,
                3 => p == 0 || p == n / 2 || p + 1 == n,
                4 => true,
                _ => false,
            };
            let mut x = vec![];
            let mut y = vec![];
            for p in 0..n {
                if d[3] == 0 {
                    x.extend(format!("line {p}\n").bytes());
                    y.extend(format!("{} {p}\n", if hit(p) { "new" } else { "line" }).bytes());
                } else {
                    x.push((p % 251) as u8 | 0x80);
                    y.push(if hit(p) { 7 } else { (p % 251) as u8 | 0x80 });
                }
            }
            compare(Some(&x), Some(&y), ctxs[d[1] as usize], ("before", "after"), true, ctx)
        },
    ));
    // (6) stored numbers
    let numbers: Vec<usize> = [0u32, 7, 8, 15, 16, 31, 32, 52, 53, 54, 62, 63].iter().flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1]).chain([usize::MAX - 1, usize::MAX]).collect();
    let l = numbers.len() as u64;
    let contexts = [0u8, 1, 2, 127, 128, 200, 254, 255];
    families.push(family(
        "stored numbers",
        format!("patches of one clump with any two of {l} positions (0 to 2^64-1, around the powers of two) and any of 8 x 8 context lengths; text and binary"),
        l * l * 64 * 2,
        move |i, ctx| {
            let d = digits(i, &[l, l, 8, 8, 2]);
            let (s, t, c) = (numbers[d[0] as usize], numbers[d[1] as usize], (contexts[d[2] as usize], contexts[d[3] as usize]));
            let (kind, b, a) = if d[4] == 0 { ("TextChange", json!(["x\n", "y\n"]), json!(["z\n"])) } else { ("ByteChange", json!([1, 255]), json!([0])) };
            let v = json!({kind: {"before_path": "b", "after_path": "a", "compressed": false,
                "clumps": [{"context_lengths": [c.0, c.1], "before": {"start": s, "items": b}, "after": {"start": t, "items": a}}]}});
            numbers_kept(&v, s, t, c, ctx)
        },
    ));
    families.push(crate::special::special_family(false, |b, a, c, ctx| {
        compare(Some(&text(b)), Some(&text(a)), c, ("before", "after"), true, ctx)
    }));
    families.push(crate::special::alike_family(|b, a, c, ctx| {
        let (b, a) = (text(b), text(a));
        compare(Some(&b), Some(&a), c, ("before", "after"), true, ctx)
    }));
    families.push(crate::special::size_family(thorough, true, |big, ctx| {
        let (b, a, c) = (text(&big.before), text(&big.after), big.context);
        for (b, a) in [(Some(&b[..]), Some(&a[..])), (Some(&b[..]), None), (None, Some(&a[..]))] {
            beat();
            compare(b, a, c, ("before", "after"), true, ctx)?;
        }
        Ok(())
    }));
    families.push(crate::special::data_family(thorough, |b, a, c, ctx| {
        let (b, a) = ([b, &[0xff]].concat(), [a, &[0xff]].concat());
        compare(Some(&b), Some(&a), c, ("before", "after"), true, ctx)?;
        compare(Some(&b), None, c, ("before", "after"), true, ctx)?;
        compare(None, Some(&a), c, ("before", "after"), true, ctx)
    }));
    // long runs and other things that are easily packed, or counted in too small numbers
    let sizes = [127usize, 128, 129, 255, 256, 257, 999, 1000, 1023, 1024, 1025, 4096, 32_767, 32_768, 65_535, 65_536, 65_537, 70_000, 131_073];
    let l = sizes.len() as u64;
    families.push(family(
        "long and regular contents",
        format!("{sizes:?} equal bytes (0, a letter, a newline, 255, one of an escape), bytes counting up, two bytes in turn, equal or numbered lines, one long line; text, or made binary by a byte in front, behind or in the middle; as removal, addition and either side of a change"),
        l * 10 * 4 * 4,
        move |i, ctx| {
            beat();
            let d = digits(i, &[l, 10, 4, 4]);
            let n = sizes[d[0] as usize];
            let mut x: Vec<u8> = match d[1] {
                0 => vec![0; n],
                1 => vec![b'a'; n],
                2 => vec![b'\n'; n],
                3 => vec![255; n],
                4 => vec![b'\\'; n],
                5 => (0..n).map(|j| j as u8).collect(),
                6 => (0..n).map(|j| [0, 1][j % 2]).collect(),
                7 => b"same\n".iter().copied().cycle().take(n).collect(),
                8 => (0..).flat_map(|j| format!("{j}\n").into_bytes()).take(n).collect(),
                _ => [&vec![b'\"'; n - 1][..], b"\n"].concat(),
            };
            match d[2] {
                0 => (),
                1 => x.insert(0, 0xfe),
                2 => x.push(0xfe),
                _ => x.insert(n / 2, 0xfe),
            }
            // nothing in common with it
            let other: &[u8] = &[0xfd];
            let (b, a) = match d[3] {
                0 => (Some(&x[..]), None),
                1 => (None, Some(&x[..])),
                // bytes that count up hold the other one, again and again; lines are compared with nothing
                2 => (Some(&x[..]), Some(other)),
                _ => (Some(other), Some(&x[..])),
            };
            compare(b, a, 2, ("before", "after"), true, ctx).map_err(|f| Fail {
                msg: f.msg.chars().take(300).collect(),
                case: json!({"size": n, "content": d[1], "binary": d[2], "side": d[3]}),
            })
        },
    ));
    Check {
        id: "C15",
        level: "exploration",
        rule: "a case is two files (or one and nothing), compared by the real code; the patch is written out and read back. Kind, paths, second written form, and the effect on both files, on both files with lines before and after, in both directions must be the same; the effect must also be the right one. Distinct non-trivial: every case that gives a patch.",
        assumptions: vec!["paths are valid UTF-8 (others cannot be stored and are refused)"],
        families,
    }
}

const CLASSES: [u8; 25] = [
    0x00, 0x0a, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5,
    0xff,
];

/// Names that tell some programs what is in a file.
const NAMES: [&str; 45] = [
    "x.txt", "x.TXT", "x.md", "x.rs", "x.c", "x.json", "x.xml", "x.svg", "x.html", "x.csv", "x.log", "x.sh", "x.png", "x.PNG", "x.jpg", "x.gif", "x.ico", "x.pdf", "x.zip", "x.gz", "x.tar", "x.tgz", "x.bz2", "x.xz", "x.7z",
    "x.exe", "x.dll", "x.so", "x.o", "x.a", "x.class", "x.bin", "x.dat", "x.mp3", "x.diff", "x.patch", "x.orig", "x~", "Makefile", "README", "Cargo.lock", ".gitignore", ".git/config", "a.b/x", "x.utf16",
];

pub fn c16(thorough: bool) -> Check {
    let mut families = vec![];
    // (1) every combination of contents, kinds of path, contexts
    let mut contents: Vec<Option<Vec<u8>>> = vec![None];
    for c in [
        &b""[..], b"\n", b"a", b"a\n", b"a\nb\n", b"\r\n\r", "é\n".as_bytes(), "\u{feff}\u{10ffff}".as_bytes(), b"\0", b"\x80", b"a\n\xff", b"\xc3", b"a\n\xe2\x82", b"\xed\xa0\x80\n", b"\xc0\x80",
        b"\xf4\x90\x80\x80", b"\xff\xfea\0", b"ok\n\xc3\n\xa9",
    ] {
        contents.push(Some(c.to_vec()));
    }
    let big = |tail: &[u8]| {
        let mut v: Vec<u8> = (0..2100).flat_map(|i| [b'x', (i % 95) as u8 + 32, (i / 95) as u8 + 40, b'\n']).collect();
        v.extend_from_slice(tail);
        Some(v)
    };
    contents.push(big(b"end"));
    contents.push(big(b"\xff"));
    let n = contents.len() as u64;
    let contents = Arc::new(contents);
    {
        let contents = contents.clone();
        families.push(family(
            "all pairs of contents",
            format!("{n} contents (missing, empty, text, binary, large) on either side; contexts 0, 1, 2, 255"),
            n * n * 4,
            move |i, ctx| {
                let d = digits(i, &[n, n, 4]);
                compare(contents[d[0] as usize].as_deref(), contents[d[1] as usize].as_deref(), [0, 1, 2, 255][d[2] as usize], ("before", "after"), false, ctx)
            },
        ));
    }
    // (2) valid or not: all short sequences of bytes from the classes of the UTF-8 automaton
    let len = if thorough { 4 } else { 3 };
    let total: u64 = (0..=len).map(|e| 25u64.pow(e)).sum();
    let four: u64 = if thorough { 0 } else { 6 * 25u64.pow(3) };
    families.push(family(
        "all byte classes",
        format!("all contents of at most {len} bytes out of the 25 bytes at the borders of the classes of UTF-8 (of 4 bytes: those beginning with 0xf0 or above), as removal; and as either side of a change"),
        (total + four) * 3,
        move |i, ctx| {
            let d = digits(i, &[total + four, 3]);
            let mut x = vec![];
            if d[0] >= total {
                let e = digits(d[0] - total, &[6, 25, 25, 25]);
                x.push(CLASSES[19 + e[0] as usize]);
                x.extend(e[1..].iter().map(|k| CLASSES[*k as usize]));
            } else {
                let mut j = d[0];
                let (mut l, mut size) = (0, 1);
                while j >= size {
                    j -= size;
                    size *= 25;
                    l += 1;
                }
                x = digits(j, &vec![25; l]).iter().map(|k| CLASSES[*k as usize]).collect();
            }
            match d[1] {
                0 => compare(Some(&x), None, 0, ("before", "after"), false, ctx),
                1 => compare(Some(&x), Some(b"text\n"), 1, ("before", "after"), false, ctx),
                _ => compare(Some(b"text\n"), Some(&x), 1, ("before", "after"), false, ctx),
            }
        },
    ));
    // (3) sequences across the borders of the read buffer
    let seqs: [&[u8]; 8] = [b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xff", b"\xc3\n"];
    families.push(family(
        "around the read buffer",
        "contents of 8192 and 16384 bytes and a little more, with a sequence of 8 (valid or not) at each of the 9 offsets around the border, one line or many; as removal, addition and change",
        2 * 8 * 9 * 2 * 3,
        move |i, ctx| {
            let d = digits(i, &[2, 8, 9, 2, 3]);
            let border = [8192, 16384][d[0] as usize];
            let mut x = vec![b'x'; border + 40];
            if d[3] == 1 {
                for p in (0..x.len()).step_by(64) {
                    x[p] = b'\n';
                }
            }
            let at = border - 4 + d[2] as usize;
            let s = seqs[d[1] as usize];
            x[at..at + s.len()].copy_from_slice(s);
            let (b, a) = kinds(&x, b"other\n", d[4]);
            compare(b, a, 2, ("before", "after"), false, ctx)
        },
    ));
    // (3') text but for one byte, late
    const NS: [usize; 15] = [100, 999, 1000, 1001, 4000, 4095, 4096, 4097, 10_000, 16_384, 32_768, 65_535, 65_536, 70_000, 140_000];
    let bad: [&[u8]; 4] = [b"\xff", b"\xc3", b"\xe2\x82", b"\xc3\xa9"];
    families.push(family(
        "one bad byte among many lines",
        format!("{NS:?} lines of one letter, one of which (first, middle, last but one, last, last without newline) holds a sequence of 4, one valid; as removal, addition and either side of a change"),
        NS.len() as u64 * 4 * 5 * 4,
        move |i, ctx| {
            beat();
            let d = digits(i, &[NS.len() as u64, 4, 5, 4]);
            let n = NS[d[0] as usize];
            let at = [0, n / 2, n - 2, n - 1, n - 1][d[2] as usize];
            let mut x = vec![];
            for l in 0..n {
                x.push(b"abc"[l % 3]);
                if l == at {
                    x.extend_from_slice(bad[d[1] as usize]);
                }
                x.push(b'\n');
            }
            if d[2] == 4 {
                x.pop();
            }
            let (b, a) = match d[3] {
                0 => (Some(&x[..]), None),
                1 => (None, Some(&x[..])),
                2 => (Some(&x[..]), Some(&b"q"[..])),
                _ => (Some(&b"q"[..]), Some(&x[..])),
            };
            compare(b, a, 2, ("before", "after"), false, ctx).map_err(|f| Fail {
                msg: f.msg.chars().take(300).collect(),
                case: json!({"lines": n, "line": at, "bytes": bad[d[1] as usize], "side": d[3]}),
            })
        },
    ));
    // (3") very large
    let sizes: Vec<usize> = if thorough { vec![1 << 20, (1 << 20) + 1, (1 << 22) + 1, (1 << 24) + 1, (1 << 26) + 1] } else { vec![1 << 20, (1 << 20) + 1, (1 << 22) + 1, (1 << 24) + 1] };
    let l = sizes.len() as u64;
    families.push(family(
        "very large",
        format!("{sizes:?} bytes, in one line or in lines of 1024, valid UTF-8 or with a last byte that is not; as removal, addition and either side of a change"),
        l * 2 * 2 * 4,
        move |i, ctx| {
            beat();
            let d = digits(i, &[l, 2, 2, 4]);
            let n = sizes[d[0] as usize];
            let mut x = vec![b'x'; n];
            if d[1] == 1 {
                for (k, p) in (1023..n).step_by(1024).enumerate() {
                    x[p - 8..p].copy_from_slice(format!("{k:08}").as_bytes());
                    x[p] = b'\n';
                }
            }
            if d[2] == 1 {
                x[n - 1] = 0xff;
            }
            let (b, a) = match d[3] {
                0 => (Some(&x[..]), None),
                1 => (None, Some(&x[..])),
                2 => (Some(&x[..]), Some(&b"q"[..])),
                _ => (Some(&b"q"[..]), Some(&x[..])),
            };
            note_case(|| format!("very large {d:?}"));
            let (bp, ap) = (dir().join("before"), dir().join("after"));
            place(&bp, b);
            place(&ap, a);
            let r = compare_placed(b, a, 2, &bp, &ap, false, ctx).map_err(|f| Fail {
                msg: f.msg.chars().take(300).collect(),
                case: json!({"size": n, "lines": d[1], "not UTF-8": d[2], "side": d[3]}),
            });
            let _ = fs::remove_file(&bp);
            let _ = fs::remove_file(&ap);
            r
        },
    ));
    // (4) paths that are something else
    families.push(family(
        "other kinds of path",
        "each side one of: file, missing, missing directory, symbolic link to a file, link chain, directory, file used as a directory, the same file on both sides, symbolic link to nothing, to nothing by way of another, through a missing directory; relative and absolute; text or binary",
        11 * 11 * 2,
        move |i, ctx| {
            let d = digits(i, &[11, 11, 2]);
            let root = dir().join("kinds");
            let _ = fs::remove_dir_all(&root);
            fs::create_dir(&root).expect("scratch directory");
            let content: [&[u8]; 2] = if d[2] == 0 { [b"one\n", b"two\n"] } else { [b"one\xff\n", b"two\n"] };
            let mut side = vec![];
            for s in 0..2 {
                let f = root.join(format!("file{s}"));
                fs::write(&f, content[s]).expect("scratch file");
                let p = match d[s] {
                    0 => f,
                    1 => root.join("none"),
                    2 => root.join("none/x"),
                    3 | 4 => {
                        let l = root.join(format!("link{s}"));
                        std::os::unix::fs::symlink(&f, &l).expect("link");
                        if d[s] == 4 {
                            let m = root.join(format!("link-link{s}"));
                            std::os::unix::fs::symlink(&l, &m).expect("link");
                            m
                        } else {
                            l
                        }
                    }
                    5 => root.clone(),
                    6 => f.join("x"),
                    7 => root.join("file0"),
                    j => {
                        let l = root.join(format!("dangling{s}"));
                        std::os::unix::fs::symlink(if j == 10 { "gone/deeper" } else { "gone" }, &l).expect("link");
                        if j == 9 {
                            let m = root.join(format!("to-dangling{s}"));
                            std::os::unix::fs::symlink(&l, &m).expect("link");
                            m
                        } else {
                            l
                        }
                    }
                };
                let c = match d[s] {
                    0 | 3 | 4 => Some(Some(content[s])),
                    7 => Some(Some(content[0])),
                    5 => None, // cannot be read
                    _ => Some(None),
                };
                side.push((p, c));
            }
            let r = match (&side[0].1, &side[1].1) {
                (Some(b), Some(a)) => compare_placed(*b, *a, 2, &side[0].0, &side[1].0, false, ctx),
                _ => {
                    ctx.exec += 1;
                    match Diff::new(&side[0].0, &side[1].0, 2) {
                        Err(_) => Ok(()),
                        Ok(p) => fail(format!("a {} although one side is a directory", kind(&p)), json!([side[0].0.to_string_lossy(), side[1].0.to_string_lossy()])),
                    }
                }
            };
            let _ = fs::remove_dir_all(&root);
            r
        },
    ));
    // (5) what the files are called, and what may be done with them, says nothing
    let n = NAMES.len() as u64;
    let modes = [0o644, 0o600, 0o755, 0o444, 0o111, 0o000, 0o4755, 0o2755, 0o1777];
    families.push(family(
        "names and permissions",
        format!("files called {NAMES:?} (the first, the second or both, in two directories), or with one of {} permissions (octal 644 600 755 444 111 000 4755 2755 1777); every combination of missing, empty, text and binary (two of each)", modes.len()),
        (n + modes.len() as u64) * 3 * 36,
        move |i, ctx| {
            let d = digits(i, &[n + modes.len() as u64, 3, 6, 6]);
            let root = dir().join("names");
            let _ = fs::remove_dir_all(&root);
            let name = if d[0] < n { NAMES[d[0] as usize] } else { "file" };
            let mut side = vec![];
            for s in 0..2 {
                let here = d[1] == s || d[1] == 2;
                let p = root.join(["one", "two"][s as usize]).join(if here { name } else { "plain" });
                fs::create_dir_all(p.parent().unwrap()).expect("scratch directory");
                let c = [None, Some(&b""[..]), Some(b"a\nb\n"), Some(b"\x89PNG\r\n\x1a\n"), Some(b"a\nc"), Some(b"a\n\0\xff\n")][d[2 + s as usize] as usize];
                place(&p, c);
                if c.is_some() && here && d[0] >= n {
                    use std::os::unix::fs::PermissionsExt;
                    let m = modes[(d[0] - n) as usize];
                    fs::set_permissions(&p, fs::Permissions::from_mode(m)).expect("permissions");
                }
                side.push((p, c));
            }
            // not all may be read by everyone
            if side.iter().any(|(p, c)| c.is_some() && fs::File::open(p).is_err()) {
                return Ok(());
            }
            let r = compare_placed(side[0].1, side[1].1, 2, &side[0].0, &side[1].0, false, ctx);
            let _ = fs::remove_dir_all(&root);
            r
        },
    ));
    families.push(crate::special::special_family(false, |b, a, c, ctx| {
        compare(Some(&text(b)), Some(&text(a)), c, ("before", "after"), false, ctx)
    }));
    families.push(crate::special::size_family(thorough, true, |big, ctx| {
        let (b, a, c) = (text(&big.before), text(&big.after), big.context);
        for (b, a) in [(Some(&b[..]), Some(&a[..])), (Some(&b[..]), None), (None, Some(&a[..]))] {
            beat();
            compare(b, a, c, ("before", "after"), false, ctx)?;
        }
        Ok(())
    }));
    families.push(crate::special::data_family(thorough, |b, a, c, ctx| {
        let (b, a) = ([b, &[0xff]].concat(), [a, &[0xff]].concat());
        compare(Some(&b), Some(&a), c, ("before", "after"), false, ctx)?;
        compare(Some(&b), None, c, ("before", "after"), false, ctx)?;
        compare(None, Some(&a), c, ("before", "after"), false, ctx)
    }));
    Check {
        id: "C16",
        level: "exploration",
        rule: "a case is two paths compared by the real code; distinct non-trivial: every case that gives a patch. Oracle: kind, paths and content follow from which files exist and from a reader of UTF-8 written from table 3-7 of the Unicode standard; a path that cannot be read must give an error.",
        assumptions: vec!["a directory is not a file: comparing one is an error"],
        families,
    }
}
