//! Checks of transfers and of the consuming cursor: C24 and C25.

use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::text::{distinct, EditGrid};
use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
use pw_diff_lib::byte_diff::PathAndBytes;
use pw_diff_lib::diff::Diff;
use pw_diff_lib::sequence::{ConsumableSeq, ConsumableSeqIfce, Seq, WriteDataInto};
use pw_diff_lib::snippet::{Snippet, SnippetWrite};
use pw_diff_lib::text_diff::PathAndLines;
use serde_json::json;
use std::collections::{BTreeSet, HashMap, VecDeque};
use std::io::{self, ErrorKind, Read, Write};
use std::sync::Arc;

// ---------------------------------------------------------------- C24: sources

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Step {
    /// deliver at most so many bytes
    Give(usize),
    Interrupt,
    Fail(ErrorKind),
}

/// Delivers its content as the script says; when the script is used up, all that is left at once.
struct Source<'a> {
    data: &'a [u8],
    steps: &'a [Step],
    at: usize,
    calls: usize,
}

impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        let step = self.steps.get(self.at).copied();
        let max = match step {
            Some(Step::Interrupt) => {
                self.at += 1;
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
            Some(Step::Fail(kind)) => return Err(io::Error::from(kind)),
            Some(Step::Give(n)) => {
                self.at += 1;
                n
            }
            None => usize::MAX,
        };
        let n = max.min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

fn split_lines(bytes: &[u8]) -> Option<Vec<String>> {
    let mut out = vec![];
    let mut line = vec![];
    for b in bytes {
        line.push(*b);
        if *b == b'\n' {
            out.push(String::from_utf8(std::mem::take(&mut line)).ok()?);
        }
    }
    if !line.is_empty() {
        out.push(String::from_utf8(line).ok()?);
    }
    Some(out)
}

fn read_both(data: &[u8], steps: &[Step], ctx: &mut Ctx) -> R {
    note_case(|| format!("data={data:?} steps={steps:?}"));
    let error = steps.iter().find_map(|s| if let Step::Fail(kind) = s { Some(*kind) } else { None });
    let failing = error.is_some();
    let case = || json!({"data": data, "steps": format!("{steps:?}")});
    let src = || Source { data, steps, at: 0, calls: 0 };
    ctx.exec += 2;
    if !steps.is_empty() && !data.is_empty() {
        ctx.nontrivial(&(data, steps));
    }
    let got = Seq::<u8>::read(src());
    ctx.outcome(&format!("{got:?}"));
    match got {
        Ok(s) if !failing => {
            if s[..] != *data {
                return fail(format!("the bytes read are {:?}", &s[..]), case());
            }
            if s != Seq::<u8>::from(data) || s != Seq::<u8>::from(data.to_vec()) {
                return fail("bytes made a sequence otherwise differ", case());
            }
            let mut out = vec![];
            s.write_into_all_from(&mut out, 0).expect("a Vec takes everything");
            if out != data {
                return fail("the bytes written back differ", case());
            }
        }
        Err(e) if Some(e.kind()) == error => (),
        other => return fail(format!("reading bytes gives {other:?}"), case()),
    }
    let want = split_lines(data);
    let got = Seq::<String>::read(src());
    ctx.outcome(&format!("{got:?}"));
    ctx.sample(|| json!({"case": case(), "lines": format!("{got:?}")}));
    match (got, want) {
        (Ok(s), Some(w)) if !failing => {
            if s[..] != w[..] {
                return fail(format!("the lines read are {:?} instead of {w:?}", &s[..]), case());
            }
            let mut out = vec![];
            s.write_into_all_from(&mut out, 0).expect("a Vec takes everything");
            if out != data {
                return fail("the lines written back differ", case());
            }
            let content = String::from_utf8(data.to_vec()).expect("checked");
            for direct in [Seq::<String>::from(content.as_str()), Seq::<String>::from(content)] {
                if direct != s {
                    return fail(format!("lines split from a string are {:?}", &direct[..]), case());
                }
            }
        }
        (Err(e), Some(_)) if Some(e.kind()) == error => (),
        // not valid UTF-8: an error, of the one or the other cause
        (Err(e), None) if e.kind() == ErrorKind::InvalidData || failing => (),
        (other, _) => return fail(format!("reading lines gives {other:?}"), case()),
    }
    Ok(())
}

// ---------------------------------------------------------------- C24: sinks

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Take {
    One,
    Two,
    AllButOne,
    Interrupt,
    Zero,
    Fail(ErrorKind),
}
const FAIL: ErrorKind = ErrorKind::ConnectionReset;
const TAKES: [Take; 6] = [Take::One, Take::Two, Take::AllButOne, Take::Interrupt, Take::Zero, Take::Fail(FAIL)];
/// Every kind of error that means failure.
const ERRORS: [ErrorKind; 38] = [
    ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset, ErrorKind::HostUnreachable, ErrorKind::NetworkUnreachable, ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::NetworkDown, ErrorKind::BrokenPipe, ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::NotADirectory,
    ErrorKind::IsADirectory, ErrorKind::DirectoryNotEmpty, ErrorKind::ReadOnlyFilesystem, ErrorKind::StaleNetworkFileHandle, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero,
    ErrorKind::StorageFull, ErrorKind::NotSeekable, ErrorKind::QuotaExceeded, ErrorKind::FileTooLarge, ErrorKind::ResourceBusy, ErrorKind::ExecutableFileBusy, ErrorKind::Deadlock, ErrorKind::CrossesDevices,
    ErrorKind::TooManyLinks, ErrorKind::InvalidFilename, ErrorKind::ArgumentListTooLong, ErrorKind::Unsupported, ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory, ErrorKind::Other,
];

/// Takes everything, except at the listed calls; with `always`, every other call is answered that way.
struct Sink<'a> {
    out: Vec<u8>,
    plan: &'a [(usize, Take)],
    always: Option<Take>,
    calls: usize,
    broken: bool,
}

impl Write for Sink<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let take = self.plan.iter().find(|p| p.0 == k).map(|p| p.1).or(self.always);
        let n = match take {
            None => buf.len(),
            Some(Take::One) => 1,
            Some(Take::Two) => 2.min(buf.len()),
            Some(Take::AllButOne) => (buf.len() - 1).max(1),
            Some(Take::Interrupt) => {
                if self.always.is_some() && k % 2 == 1 {
                    buf.len()
                } else {
                    return Err(io::Error::from(ErrorKind::Interrupted));
                }
            }
            Some(Take::Zero) => {
                self.broken = true;
                0
            }
            Some(Take::Fail(kind)) => {
                self.broken = true;
                return Err(io::Error::from(kind));
            }
        };
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

type Job = Box<dyn Fn(&mut Sink) -> Result<(), String> + Sync + Send>;

/// Where the place of a clump is a matter of searching (the business of C08 to C13): what comes out when
/// nothing disturbs the transfer.
fn undisturbed(p: &TPatch, file: &[String], reverse: bool) -> Vec<u8> {
    apply_text(p, file, reverse).map(|x| x.0).unwrap_or_default()
}

/// Things that write, with what they have to write.
fn jobs(thorough: bool) -> Vec<(String, Vec<u8>, Job)> {
    let mut v: Vec<(String, Vec<u8>, Job)> = vec![];
    let s = |e: io::Error| e.to_string();
    let lines: Vec<String> = ["one\n", "\n", "é two\n", "three"].iter().map(|x| x.to_string()).collect();
    let data: Vec<u8> = (0..=20u8).chain([255, 10, 13]).collect();
    for from in 0..=lines.len() {
        for to in from..=lines.len() {
            let l = lines.clone();
            v.push((
                format!("Seq<String>::write_into {from}..{to}"),
                text(&lines[from..to]),
                Box::new(move |w| seq(&l).write_into(w, pw_diff_lib::range::Range(from, to)).map_err(s)),
            ));
        }
        let l = lines.clone();
        v.push((
            format!("Seq<String>::write_into_all_from {from}"),
            text(&lines[from..]),
            Box::new(move |w| seq(&l).write_into_all_from(w, from).map_err(s)),
        ));
    }
    for (from, to) in [(0usize, 0usize), (0, 1), (0, 24), (3, 9), (24, 24)] {
        let d = data.clone();
        v.push((
            format!("Seq<u8>::write_into {from}..{to}"),
            data[from..to].to_vec(),
            Box::new(move |w| bseq(&d).write_into(w, pw_diff_lib::range::Range(from, to)).map_err(s)),
        ));
        let d = data.clone();
        v.push((
            format!("Seq<u8>::write_into_all_from {from}"),
            data[from..].to_vec(),
            Box::new(move |w| bseq(&d).write_into_all_from(w, from).map_err(s)),
        ));
    }
    for redn in [None, Some((0u8, 0u8)), Some((1, 0)), Some((0, 1)), Some((1, 2))] {
        let (x, y) = redn.map_or((0, 0), |r| (r.0 as usize, r.1 as usize));
        let l = lines.clone();
        v.push((
            format!("Snippet<String>::write_into {redn:?}"),
            text(&lines[x..lines.len() - y]),
            Box::new(move |w| Snippet { start: 5, items: l.clone().into_boxed_slice() }.write_into(w, redn).map_err(s)),
        ));
        let d = data.clone();
        v.push((
            format!("Snippet<u8>::write_into {redn:?}"),
            data[x..data.len() - y].to_vec(),
            Box::new(move |w| Snippet { start: 5, items: d.clone().into_boxed_slice() }.write_into(w, redn).map_err(s)),
        ));
    }
    {
        let want = text(&lines);
        let p: PathAndLines = serde_json::from_value(json!({"path": "p", "lines": lines})).expect("stored form");
        v.push(("PathAndLines::write_into".into(), want, Box::new(move |w| p.write_into(w).map_err(s))));
        let p: PathAndBytes =
            serde_json::from_value(json!({"path": "p", "compressed": false, "bytes": data})).expect("stored form");
        v.push(("PathAndBytes::write_into".into(), data.clone(), Box::new(move |w| p.write_into(w).map_err(s))));
    }
    // patches: applied cleanly, with an offset, already applied, failing
    let g = EditGrid::new(vec![distinct(6)], if thorough { 2 } else { 1 }, false);
    for i in 0..g.total {
        let (b, a) = g.get(i);
        let (b, a) = (render16(&b, 0, true), render16(&a, 0, i % 2 == 0));
        for c in [0u8, 2] {
            let p = Arc::new(text_patch(&b, &a, c));
            for reverse in [false, true] {
                for shift in [0, 1] {
                    if shift == 1 && c == 0 {
                        continue; // may go anywhere
                    }
                    let (from, to) = if reverse { (&a, &b) } else { (&b, &a) };
                    let pre: Vec<String> = vec!["added\n".into(); shift];
                    let f = [&pre[..], from].concat();
                    let mut want = text(&[&pre[..], to].concat());
                    if shift == 1 {
                        want = undisturbed(&p, &f, reverse);
                    }
                    let p2 = p.clone();
                    v.push((
                        format!("text patch {i} context {c} reverse {reverse} shift {shift}"),
                        want,
                        Box::new(move |w| p2.apply_into(&seq(&f), w, reverse).map(|_| ()).map_err(s)),
                    ));
                }
                let same = if reverse { b.clone() } else { a.clone() };
                if c == 2 {
                    // an outer context line is another one, and that also somewhere else; before and after
                    for (k, applied, shift) in [(0, false, 0), (1, false, 1), (2, true, 0), (3, true, 1), (4, true, 1)] {
                        let Some(m) = mclumps(&p, reverse).into_iter().next() else { continue };
                        let pre: Vec<String> = vec!["added\n".into(); shift];
                        let mut f = if applied == reverse { b.clone() } else { a.clone() };
                        if k != 4 {
                            let at = if m.ctx.0 > 0 {
                                if applied { m.post_start } else { m.pre_start }
                            } else if applied {
                                (m.post_start + m.post.len()).saturating_sub(1)
                            } else {
                                (m.pre_start + m.pre.len()).saturating_sub(1)
                            };
                            if let Some(l) = f.get_mut(at) {
                                *l = "changed\n".into();
                            }
                        }
                        let f = [&pre[..], &f].concat();
                        let p2 = p.clone();
                        v.push((
                            format!("text patch {i} context {c} reverse {reverse}: {}{}{}", if applied { "already applied" } else { "applied" }, if k != 4 { ", another outer line" } else { "" }, if shift > 0 { ", displaced" } else { "" }),
                            undisturbed(&p, &f, reverse),
                            Box::new(move |w| p2.apply_into(&seq(&f), w, reverse).map(|_| ()).map_err(s)),
                        ));
                    }
                    let p2 = p.clone();
                    v.push((
                        format!("text patch {i} context {c} reverse {reverse} already applied"),
                        undisturbed(&p, &same, reverse),
                        Box::new(move |w| p2.apply_into(&seq(&same), w, reverse).map(|_| ()).map_err(s)),
                    ));
                    // a file without any of its lines: conflict blocks, then the file
                    let f: Vec<String> = vec!["other\n".into(), "lines\n".into()];
                    let want = undisturbed(&p, &f, reverse);
                    let p2 = p.clone();
                    v.push((
                        format!("text patch {i} context {c} reverse {reverse} failing"),
                        want,
                        Box::new(move |w| p2.apply_into(&seq(&f), w, reverse).map(|_| ()).map_err(s)),
                    ));
                }
            }
            let (bb, ab) = (text(&b), text(&a));
            let p = Arc::new(byte_patch(&bb, &ab, c));
            for reverse in [false, true] {
                let (from, to) = if reverse { (ab.clone(), bb.clone()) } else { (bb.clone(), ab.clone()) };
                let p2 = p.clone();
                v.push((
                    format!("binary patch {i} context {c} reverse {reverse}"),
                    to,
                    Box::new(move |w| p2.apply_into(&bseq(&from), w, reverse).map(|_| ()).map_err(s)),
                ));
                // already applied; not applicable, but with something to copy
                for (what, f) in [("already applied", if reverse { bb.clone() } else { ab.clone() }), ("failing", b"other data\xff".to_vec())] {
                    let p2 = p.clone();
                    v.push((
                        format!("binary patch {i} context {c} reverse {reverse} {what}"),
                        apply_bytes(&p, &f, reverse).unwrap_or_default(),
                        Box::new(move |w| p2.apply_into(&bseq(&f), w, reverse).map(|_| ()).map_err(s)),
                    ));
                }
            }
        }
    }
    // a stored patch
    for (n, j) in stored_patches().into_iter().enumerate() {
        let d: Diff = serde_json::from_value(j).expect("stored form");
        let mut want = vec![];
        d.to_writer(&mut want).expect("a Vec takes everything");
        v.push((format!("Diff::to_writer {n}"), want, Box::new(move |w| d.to_writer(w).map_err(|e| e.to_string()))));
    }
    v
}

fn stored_patches() -> Vec<serde_json::Value> {
    let change = |kind: &str, x: serde_json::Value, y: serde_json::Value| {
        let clump = json!({"context_lengths": [0, 0], "before": {"start": 0, "items": x}, "after": {"start": 0, "items": y}});
        let mut d = json!({"before_path": "b", "after_path": "a", "clumps": [clump]});
        if kind == "ByteChange" {
            d["compressed"] = json!(false);
        }
        json!({kind: d})
    };
    vec![
        change("TextChange", json!(["é\n"]), json!(["\"\\x"])),
        change("ByteChange", json!([0]), json!([255, 1])),
        json!({"TextAdd": {"path": "p", "lines": ["x\n"]}}),
        json!({"ByteRemove": {"path": "p", "compressed": false, "bytes": [0, 7]}}),
    ]
}

fn sink_run(name: &str, want: &[u8], job: &Job, plan: &[(usize, Take)], always: Option<Take>, ctx: &mut Ctx) -> Result<usize, Fail> {
    note_case(|| format!("{name} {plan:?} {always:?}"));
    let mut sink = Sink { out: vec![], plan, always, calls: 0, broken: false };
    let r = job(&mut sink);
    ctx.exec += 1;
    if !plan.is_empty() || always.is_some() {
        ctx.nontrivial(&(name, plan, always));
    }
    ctx.outcome(&(&sink.out, r.is_ok()));
    let case = || json!({"writer": name, "answers": format!("{plan:?}"), "always": format!("{always:?}"), "written": bytes_str(&sink.out), "result": format!("{r:?}")});
    ctx.sample(case);
    if sink.broken {
        if r.is_ok() {
            return fail("a failed write is not reported", case());
        }
        if !want.starts_with(&sink.out) {
            return fail("after a failed write the sink holds something else than a prefix", case());
        }
    } else {
        if let Err(e) = &r {
            return fail(format!("reported {e}, but no write failed"), case());
        }
        if sink.out != want {
            return fail(format!("expected {:?}", bytes_str(want)), case());
        }
    }
    Ok(sink.calls)
}

pub fn c24(thorough: bool) -> Check {
    let mut families = vec![];
    // (1) all splits of all short contents into reads
    let tokens: [&[u8]; 5] = [b"a", b"\n", "é".as_bytes(), b"\r", b"\xff"];
    let n = if thorough { 7 } else { 5 };
    let words = all_words(n, 5);
    let words: Vec<Vec<u8>> = words
        .into_iter()
        .map(|w| w.iter().flat_map(|t| tokens[*t as usize].iter().copied()).collect::<Vec<u8>>())
        .filter(|w: &Vec<u8>| w.len() <= n + 1)
        .collect();
    families.push(family(
        "all ways of delivering short contents",
        format!("contents of at most {n} of the tokens a, newline, e-acute, CR, 0xff; every split into reads; with an interruption before any one read, before every read, or none; with a failure at any one read, or none"),
        words.len() as u64,
        move |i, ctx| {
            let data = &words[i as usize];
            for parts in compositions(data.len()) {
                let give: Vec<Step> = parts.iter().map(|p| Step::Give(*p)).collect();
                read_both(data, &give, ctx)?;
                let all: Vec<Step> = give.iter().flat_map(|s| [Step::Interrupt, *s]).chain([Step::Interrupt]).collect();
                read_both(data, &all, ctx)?;
                for k in 0..=give.len() {
                    let mut s = give.clone();
                    s.insert(k, Step::Interrupt);
                    read_both(data, &s, ctx)?;
                    s[k] = Step::Fail(FAIL);
                    read_both(data, &s, ctx)?;
                }
            }
            Ok(())
        },
    ));
    families.push(family(
        "every character",
        "every Unicode character, and every pair of characters below 256: as the only line, as the last, in the middle; with and without the newline",
        0x110 + 256,
        |i, ctx| {
            let each = |s: &str, ctx: &mut Ctx| -> R {
                for t in [s.to_string(), format!("{s}\n"), format!("a\n{s}"), format!("a\n{s}\nb"), format!("{s}a\n")] {
                    read_both(t.as_bytes(), &[], ctx)?;
                }
                Ok(())
            };
            beat();
            if i < 0x110 {
                for c in (i as u32 * 4096..(i as u32 + 1) * 4096).filter_map(char::from_u32) {
                    each(c.encode_utf8(&mut [0; 4]), ctx)?;
                }
            } else {
                for c in 0..=255u8 {
                    each(&[(i - 0x110) as u8 as char, c as char].iter().collect::<String>(), ctx)?;
                }
            }
            Ok(())
        },
    ));
    // (2) around the size of the buffers
    let sizes: Vec<usize> = vec![8190, 8191, 8192, 8193, 16383, 16384, 16385];
    let splits: Vec<usize> = vec![1, 7, 4096, 8191, 8192, 8193, 100_000];
    families.push(family(
        "contents around the size of the buffer",
        format!("sizes {sizes:?}, reads of {splits:?}, a newline or two-byte character at every offset around each multiple of the buffer size, line lengths 1, 61, 5000, none; with and without an interruption at every second read"),
        (sizes.len() * splits.len() * 12 * 3 * 4 * 2) as u64,
        move |i, ctx| {
            let d = digits(i, &[sizes.len() as u64, splits.len() as u64, 12, 3, 4, 2]);
            let n = sizes[d[0] as usize];
            let mut data = vec![b'x'; n];
            let step = [1, 61, 5000, usize::MAX][d[4] as usize];
            for p in (0..n).filter(|p| (p + 1) % step == 0) {
                data[p] = b'\n';
            }
            let at = [8188, 8189, 8190, 8191, 8192, 8193, 16380, 16382, 16383, 16384, 0, 1][d[2] as usize];
            if at + 1 >= n {
                return Ok(());
            }
            match d[3] {
                0 => (),
                1 => data[at] = b'\n',
                _ => data[at..at + 2].copy_from_slice("é".as_bytes()),
            }
            let k = splits[d[1] as usize];
            let mut steps = vec![];
            for _ in 0..n / k + 1 {
                if d[5] == 1 {
                    steps.push(Step::Interrupt);
                }
                steps.push(Step::Give(k));
            }
            read_both(&data, &steps, ctx)
        },
    ));
    // (2') very large contents
    let sizes: Vec<usize> = if thorough { vec![1 << 16, (1 << 16) + 1, 1 << 20, (1 << 20) + 1, (1 << 24) + 1, (1 << 26) + 1] } else { vec![1 << 16, (1 << 16) + 1, 1 << 20, (1 << 20) + 1, (1 << 24) + 1] };
    let l = sizes.len() as u64;
    families.push(family(
        "very large contents",
        format!("sizes {sizes:?}; one line or lines of 11, 100 or 70000 bytes; reads as large as asked for, or of 5003 bytes; as text and as bytes, and written again"),
        l * 4 * 2 * 2,
        move |i, ctx| {
            beat();
            let d = digits(i, &[l, 4, 2, 2]);
            let n = sizes[d[0] as usize];
            let mut data = crate::special::noise(n, 9);
            data.iter_mut().for_each(|b| *b = b'a' + *b % 26);
            let step = [usize::MAX, 11, 100, 70_000][d[1] as usize];
            if step < n {
                (step - 1..n).step_by(step).for_each(|p| data[p] = b'\n');
            }
            let case = || json!({"size": n, "line length": step, "reads": d[2], "text": d[3] == 0});
            note_case(|| case().to_string());
            struct Chunks<'a>(&'a [u8]);
            impl std::io::Read for Chunks<'_> {
                fn read(&mut self, to: &mut [u8]) -> std::io::Result<usize> {
                    let n = to.len().min(5003).min(self.0.len());
                    to[..n].copy_from_slice(&self.0[..n]);
                    self.0 = &self.0[n..];
                    Ok(n)
                }
            }
            let mut out = vec![];
            ctx.exec += 1;
            ctx.nontrivial(&d);
            if d[3] == 0 {
                let s = if d[2] == 0 { Seq::<String>::read(&data[..]) } else { Seq::<String>::read(Chunks(&data)) };
                let Ok(s) = s else { return fail("an error", case()) };
                let mut want = data.split_inclusive(|b| *b == b'\n');
                if s.len() != data.split_inclusive(|b| *b == b'\n').count() || s.iter().any(|x| want.next() != Some(x.as_bytes())) {
                    return fail("the lines are others", case());
                }
                if s.write_into_all_from(&mut out, 0).is_err() {
                    return fail("an error", case());
                }
            } else {
                let s = if d[2] == 0 { Seq::<u8>::read(&data[..]) } else { Seq::<u8>::read(Chunks(&data)) };
                let Ok(s) = s else { return fail("an error", case()) };
                if s.write_into_all_from(&mut out, 0).is_err() {
                    return fail("an error", case());
                }
            }
            if out != data {
                return fail("the content is another one", case());
            }
            Ok(())
        },
    ));
    // (3) stored patches read in any way
    let stored: Vec<Vec<u8>> = stored_patches().iter().map(|j| serde_json::to_vec_pretty(j).unwrap()).collect();
    let lens: Vec<u64> = stored.iter().map(|s| s.len() as u64 + 1).collect();
    let total: u64 = lens.iter().sum();
    families.push(family(
        "stored patches delivered in parts",
        "4 stored patches; reads of 1, 2, 3 bytes, an interruption or a failure at every position, a split at every position",
        total,
        move |i, ctx| {
            let (mut n, mut at) = (0, i);
            while at >= lens[n] {
                at -= lens[n];
                n += 1;
            }
            let at = at as usize;
            let data = &stored[n];
            let whole: Diff = serde_json::from_slice(data).expect("stored form");
            let whole = serde_json::to_string(&whole).unwrap();
            let mut plans: Vec<Vec<Step>> = vec![
                vec![Step::Give(at), Step::Interrupt],
                vec![Step::Give(at), Step::Fail(FAIL)],
                vec![Step::Interrupt, Step::Give(at.max(1))],
            ];
            for k in 1..=3 {
                plans.push(vec![Step::Give(k); data.len() / k + 1]);
            }
            for steps in plans {
                if steps[0] == Step::Give(0) {
                    continue;
                }
                note_case(|| format!("{n} {steps:?}"));
                let got = Diff::from_reader(&mut Source { data, steps: &steps, at: 0, calls: 0 });
                ctx.exec += 1;
                ctx.nontrivial(&(n, &steps));
                let case = || json!({"patch": bytes_str(data), "steps": format!("{steps:?}")});
                // a source that fails after everything has been delivered may go unnoticed
                match got {
                    Ok(d) => {
                        if serde_json::to_string(&d).unwrap() != whole {
                            return fail("the patch read differs", case());
                        }
                        if steps.iter().any(|s| matches!(s, Step::Fail(_))) && at < data.len() {
                            return fail("a failed read is not reported", case());
                        }
                    }
                    Err(e) => {
                        if !steps.iter().any(|s| matches!(s, Step::Fail(_))) {
                            return fail(format!("reading fails: {e}"), case());
                        }
                    }
                }
            }
            Ok(())
        },
    ));
    // (4) sinks
    let js = Arc::new(jobs(thorough));
    let dev = if thorough { 3 } else { 2 };
    let n = js.len() as u64;
    families.push(family(
        "sinks that take parts",
        format!("{n} writers (sequences, stored contents, patches applied cleanly, fuzzily, displaced, already applied in each of these ways or failing, stored patches); at most {dev} writes answered by: 1 byte, 2 bytes, all but one, interrupted, nothing, error; and every write answered so (writers of more than 24 writes: one deviation less)"),
        n,
        move |i, ctx| {
            let (name, want, job) = &js[i as usize];
            let calls = sink_run(name, want, job, &[], None, ctx)?;
            for t in TAKES {
                sink_run(name, want, job, &[], Some(t), ctx)?;
            }
            let dev = if calls > 24 { dev - 1 } else { dev };
            // deviations in order of position; each may make further calls, so look one call beyond
            let mut level: Vec<(Vec<(usize, Take)>, usize)> = vec![(vec![], calls)];
            for _ in 0..dev {
                let mut next = vec![];
                for (plan, calls) in &level {
                    let from = plan.last().map_or(0, |p| p.0 + 1);
                    for k in from..*calls {
                        for t in TAKES {
                            let mut p = plan.clone();
                            p.push((k, t));
                            let c = sink_run(name, want, job, &p, None, ctx)?;
                            if !matches!(t, Take::Zero | Take::Fail(_)) {
                                next.push((p, c));
                            }
                        }
                    }
                }
                level = next;
            }
            Ok(())
        },
    ));
    // (5) every kind of error
    let js = Arc::new(jobs(false));
    let few: Vec<&[u8]> = vec![b"", b"a", b"a\n", b"a\nb\nc", "é\nb\n".as_bytes(), b"\xff", b"\n\n"];
    let (e, m, n) = (ERRORS.len() as u64, few.len() as u64, js.len() as u64);
    let stored: Vec<Vec<u8>> = stored_patches().iter().map(|j| serde_json::to_vec_pretty(j).unwrap()).collect();
    families.push(family(
        "every kind of error",
        format!("the {e} kinds of error that there are: at any one read of {m} contents given byte by byte, at every fifth byte of a stored patch, and at any one write (of those of more than 24 writes: the first, the middle and the last) of {n} writers"),
        e * (m + 4 + n),
        move |i, ctx| {
            let d = digits(i, &[e, m + 4 + n]);
            let kind = ERRORS[d[0] as usize];
            if d[1] < m {
                let data = few[d[1] as usize];
                for k in 0..=data.len() {
                    let mut steps = vec![Step::Give(1); k];
                    steps.push(Step::Fail(kind));
                    read_both(data, &steps, ctx)?;
                }
            } else if d[1] < m + 4 {
                let data = &stored[(d[1] - m) as usize];
                for k in (0..data.len()).step_by(5) {
                    let steps: Vec<Step> = (k > 0).then_some(Step::Give(k)).into_iter().chain([Step::Fail(kind)]).collect();
                    ctx.exec += 1;
                    if Diff::from_reader(&mut Source { data, steps: &steps, at: 0, calls: 0 }).is_ok() {
                        return fail("a failed read is not reported", json!({"patch": bytes_str(data), "steps": format!("{steps:?}")}));
                    }
                }
            } else {
                let (name, want, job) = &js[(d[1] - m - 4) as usize];
                let calls = sink_run(name, want, job, &[], None, ctx)?;
                for k in 0..calls {
                    if calls <= 24 || [0, calls / 2, calls - 1].contains(&k) {
                        sink_run(name, want, job, &[(k, Take::Fail(kind))], None, ctx)?;
                    }
                }
            }
            Ok(())
        },
    ));
    Check {
        id: "C24",
        level: "fault_enumeration",
        rule: "a case is a content (or writer) and the complete list of answers its source (or sink) gives; non-trivial when some answer is not the plain one. Oracles: splitting the content after each newline; the known output; a prefix of it after a failure.",
        assumptions: vec!["io::Read and io::Write stand-ins deliver the answers; real system calls are covered by C18..C20"],
        families,
    }
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Upto(usize),
    Skip(usize),
    Rest,
}

trait Item: PartialEq + Clone + std::fmt::Debug {
    fn bytes(items: &[Self]) -> Vec<u8>;
}
impl Item for String {
    fn bytes(items: &[Self]) -> Vec<u8> {
        text(items)
    }
}
impl Item for u8 {
    fn bytes(items: &[Self]) -> Vec<u8> {
        items.to_vec()
    }
}

/// Breadth-first search over the cursor states (position, items written), replaying the path on a fresh cursor.
fn cursor_search<T: Item>(items: &[T], depth: usize, ctx: &mut Ctx) -> R
where
    Seq<T>: WriteDataInto,
{
    let s = Seq(items.to_vec().into_boxed_slice());
    let n = items.len();
    let mut seen: HashMap<(usize, Vec<usize>), usize> = HashMap::new();
    let mut queue: VecDeque<(usize, Vec<usize>, Vec<Op>)> = VecDeque::new();
    seen.insert((0, vec![]), 0);
    queue.push_back((0, vec![], vec![]));
    ctx.states += 1;
    while let Some((at, written, path)) = queue.pop_front() {
        if path.len() == depth {
            continue;
        }
        let mut ops: Vec<Op> = (0..=n).map(Op::Upto).collect();
        ops.extend((0..=n - at).map(Op::Skip));
        ops.push(Op::Rest);
        for op in ops {
            let mut path = path.clone();
            path.push(op);
            // the model
            let mut w = written.clone();
            let to = match op {
                Op::Upto(u) => {
                    w.extend(at..u.max(at));
                    u.max(at)
                }
                Op::Skip(k) => at + k,
                Op::Rest => {
                    w.extend(at..n);
                    n
                }
            };
            // the code
            note_case(|| format!("items={items:?} operations={path:?}"));
            let mut real = ConsumableSeq::<T>::new(&s);
            let mut out: Vec<u8> = vec![];
            for o in &path {
                let r = match o {
                    Op::Upto(u) => real.write_into_upto(&mut out, *u),
                    Op::Skip(k) => {
                        real.advance_consumed_by(*k);
                        Ok(())
                    }
                    Op::Rest => real.write_remainder(&mut out),
                };
                if let Err(e) = r {
                    return fail(format!("reported {e}"), json!({"items": format!("{items:?}"), "operations": format!("{path:?}")}));
                }
            }
            ctx.exec += 1;
            ctx.traces += 1;
            ctx.transitions += 1;
            if path.len() > 1 {
                ctx.nontrivial(&(format!("{items:?}"), &path));
            }
            let chosen: Vec<T> = w.iter().map(|i| items[*i].clone()).collect();
            ctx.outcome(&(&out, real.consumed()));
            ctx.sample(|| json!({"items": format!("{items:?}"), "operations": format!("{path:?}"), "output": bytes_str(&out)}));
            let bad = if out != T::bytes(&chosen) {
                format!("wrote {:?} instead of items {w:?}", bytes_str(&out))
            } else if real.consumed() != to {
                format!("the cursor is at {} instead of {to}", real.consumed())
            } else if real.data() != &s || real.range_from(to).1 != n || real.range_from(to).0 != to {
                "the sequence or its ranges changed".to_string()
            } else if (0..=n).any(|p| (0..=n - p).any(|l| !real.has_subsequence_at(&items[p..p + l], p))) {
                "an item is no longer found".to_string()
            } else {
                String::new()
            };
            if !bad.is_empty() {
                return fail(bad, json!({"items": format!("{items:?}"), "operations": format!("{path:?}")}));
            }
            if !seen.contains_key(&(to, w.clone())) {
                seen.insert((to, w.clone()), path.len());
                ctx.states += 1;
                queue.push_back((to, w, path));
            }
        }
    }
    Ok(())
}

/// Every operation sequence up to a depth, without merging states.
fn cursor_paths<T: Item>(items: &[T], path: &[Op], ctx: &mut Ctx) -> R
where
    Seq<T>: WriteDataInto,
{
    let s = Seq(items.to_vec().into_boxed_slice());
    let n = items.len();
    note_case(|| format!("items={items:?} operations={path:?}"));
    let mut real = ConsumableSeq::<T>::new(&s);
    let mut out: Vec<u8> = vec![];
    let (mut at, mut w, mut skipped) = (0usize, vec![], BTreeSet::new());
    for o in path {
        let r = match o {
            Op::Upto(u) => {
                w.extend(at..(*u).max(at));
                at = at.max(*u);
                real.write_into_upto(&mut out, *u)
            }
            Op::Skip(k) => {
                if at + k > n {
                    return Ok(());
                }
                skipped.extend(at..at + k);
                at += k;
                real.advance_consumed_by(*k);
                Ok(())
            }
            Op::Rest => {
                w.extend(at..n);
                at = n;
                real.write_remainder(&mut out)
            }
        };
        if r.is_err() || real.consumed() != at {
            return fail(format!("{r:?}, cursor at {} instead of {at}", real.consumed()), json!({"items": format!("{items:?}"), "operations": format!("{path:?}")}));
        }
    }
    ctx.exec += 1;
    ctx.traces += 1;
    ctx.transitions += path.len() as u64;
    ctx.nontrivial(&(format!("{items:?}"), path));
    let chosen: Vec<T> = w.iter().map(|i| items[*i].clone()).collect();
    ctx.outcome(&out);
    let all: BTreeSet<usize> = w.iter().copied().chain(skipped.iter().copied()).collect();
    if out != T::bytes(&chosen) || all.len() != w.len() + skipped.len() || all.len() != at {
        return fail(format!("wrote {:?} instead of items {w:?}", bytes_str(&out)), json!({"items": format!("{items:?}"), "operations": format!("{path:?}")}));
    }
    Ok(())
}

static LONG: std::sync::OnceLock<Seq<String>> = std::sync::OnceLock::new();
static LONG_BYTES: std::sync::OnceLock<Seq<u8>> = std::sync::OnceLock::new();

/// 0: write up to, 1: skip to (if it lies ahead), 2: the remainder
fn cursor_long<T: Item>(items: &[T], ops: &[(u64, usize)], ctx: &mut Ctx) -> R
where
    Seq<T>: WriteDataInto,
{
    note_case(|| format!("{} items, operations {ops:?}", items.len()));
    let s = Seq(items.to_vec().into_boxed_slice());
    let n = items.len();
    let mut real = ConsumableSeq::<T>::new(&s);
    let (mut out, mut want): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
    let mut at = 0;
    let case = || json!({"items": n, "operations": format!("{ops:?}")});
    for (kind, to) in ops.iter().chain([(2, 0)].iter()) {
        let (r, now) = match kind {
            0 => (real.write_into_upto(&mut out, *to), at.max(*to)),
            1 if *to >= at => {
                real.advance_consumed_by(to - at);
                (Ok(()), *to)
            }
            1 => continue,
            _ => (real.write_remainder(&mut out), n),
        };
        if *kind != 1 {
            want.extend(T::bytes(&items[at..now]));
        }
        at = now;
        if r.is_err() || real.consumed() != at {
            return fail(format!("{r:?}, cursor at {} instead of {at}", real.consumed()), case());
        }
    }
    ctx.exec += 1;
    ctx.traces += 1;
    ctx.transitions += ops.len() as u64 + 1;
    ctx.nontrivial(&(n, ops, std::mem::size_of::<T>()));
    if out != want {
        return fail(format!("wrote {} bytes, which are not the {} expected", out.len(), want.len()), case());
    }
    Ok(())
}

pub fn c25(thorough: bool) -> Check {
    let mut families = vec![];
    let nmax = if thorough { 7u64 } else { 5 };
    families.push(family(
        "all reachable cursor states",
        format!("sequences of 0..{nmax} distinct items, text and bytes; every operation in every reachable (position, written items) state"),
        (nmax + 1) * 2,
        move |i, ctx| {
            let n = (i / 2) as usize;
            if i % 2 == 0 {
                cursor_search(&render16(&distinct(n), 0, n % 2 == 0), n + 3, ctx)
            } else {
                cursor_search(&(0..n as u8).map(|x| x.wrapping_mul(83)).collect::<Vec<u8>>(), n + 3, ctx)
            }
        },
    ));
    let (n, depth) = if thorough { (4usize, 5u32) } else { (3, 5) };
    let mut ops: Vec<Op> = (0..=n).map(Op::Upto).collect();
    ops.extend((0..=n).map(Op::Skip));
    ops.push(Op::Rest);
    let k = ops.len() as u64;
    let mut len = 0;
    let mut firsts = vec![];
    for d in 0..=depth {
        firsts.push(len);
        len += k.pow(d);
    }
    families.push(family(
        "all operation sequences",
        format!("{n} items (distinct, or with repeats), text and bytes; every sequence of at most {depth} operations (without merging of states)"),
        len * 4,
        move |i, ctx| {
            let (kind, mut i) = (i % 4, i / 4);
            let d = firsts.iter().rposition(|f| *f <= i).unwrap();
            i -= firsts[d];
            let mut path = vec![];
            for _ in 0..d {
                path.push(ops[(i % k) as usize]);
                i /= k;
            }
            match kind {
                0 => cursor_paths(&render16(&distinct(n), 0, true), &path, ctx),
                1 => cursor_paths(&render16(&vec![0; n], 1, false), &path, ctx),
                2 => cursor_paths(&(0..n as u8).collect::<Vec<u8>>(), &path, ctx),
                _ => cursor_paths(&vec![255u8; n], &path, ctx),
            }
        },
    ));
    // long sequences: three steps between positions around the powers of two
    let at: Vec<usize> = if thorough {
        vec![0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 99_999, 100_000]
    } else {
        vec![0, 1, 255, 256, 257, 32768, 65535, 65536, 65537, 99_999, 100_000]
    };
    let m = at.len() as u64;
    families.push(family(
        "long sequences",
        format!("100000 items, text and bytes; all sequences of three operations (write up to, skip to, write the remainder) to the positions {at:?}, then the remainder"),
        (2 * m + 1).pow(3) * 2,
        move |i, ctx| {
            beat();
            let d = digits(i, &[2 * m + 1, 2 * m + 1, 2 * m + 1, 2]);
            let ops: Vec<(u64, usize)> = d[..3].iter().map(|x| if *x == 2 * m { (2, 0) } else { (x % 2, at[(x / 2) as usize]) }).collect();
            if d[3] == 0 {
                cursor_long(&LONG.get_or_init(|| Seq((0..100_000u32).map(|x| format!("{x}\n")).collect())).0, &ops, ctx)
            } else {
                cursor_long(&LONG_BYTES.get_or_init(|| Seq(crate::special::noise(100_000, 5).into_boxed_slice())).0, &ops, ctx)
            }
        },
    ));
    Check {
        id: "C25",
        level: "model_checking",
        rule: "states are (position, items written so far) of a cursor; every operation is tried in every state and replayed on the real cursor from its path; a case is an operation sequence; non-trivial when it has more than one operation. Oracle: a list of item numbers.",
        assumptions: vec!["skips stay within the sequence"],
        families,
    }
}
