//! Checks of the unified diff module: C21, C22 and C23.

use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::text::{distinct, periodic, EditGrid};
use pw_cub_diff_lib::unified_diff::*;
use pw_diff_lib::apply_text::TextClumpBasics;
use pw_diff_lib::changes::{ChangeBasics, Changes};
use pw_diff_lib::range::Range;
use serde_json::{json, Value};
use std::sync::Arc;

// ---------------------------------------------------------------- the reference reader

#[derive(Clone, Debug, PartialEq)]
pub enum Header {
    /// not a header
    No,
    /// a header with a number that is too large
    TooLarge,
    /// (start, length) of the before and the after side
    Yes([(usize, usize); 2]),
    /// forms on which tools differ: taken for a header or not, but if it is, then with these numbers
    Maybe(Option<[(usize, usize); 2]>),
}

/// A clump header: `@@ -start[,length] +start[,length] @@[ heading][newline]`.
pub fn read_header(line: &str) -> Header {
    let mut maybe = false;
    let body = line.strip_suffix('\n').unwrap_or(line);
    maybe |= body.contains('\n'); // not a line
    let mut rest = body;
    let mut out: [(Option<usize>, Option<usize>); 2] = [(None, None); 2];
    let Some(r) = rest.strip_prefix("@@") else { return Header::No };
    rest = r;
    for side in 0..2 {
        let r = rest.trim_start();
        match rest.len() - r.len() {
            0 => return Header::No,
            1 if rest.starts_with(' ') => (),
            _ => maybe = true,
        }
        let Some(r) = r.strip_prefix(['-', '+'][side]) else { return Header::No };
        let (start, r) = read_number(r, &mut maybe);
        let Some(start) = start else { return Header::No };
        let mut length = Some(1);
        rest = r;
        if let Some(r) = r.strip_prefix(',') {
            let (l, r) = read_number(r, &mut maybe);
            let Some(l) = l else { return Header::No };
            length = l;
            rest = r;
        }
        out[side] = (start, length);
    }
    let r = rest.trim_start();
    match rest.len() - r.len() {
        0 => return Header::No,
        1 if rest.starts_with(' ') => (),
        _ => maybe = true,
    }
    let Some(tail) = r.strip_prefix("@@") else { return Header::No };
    if !tail.is_empty() && !tail.starts_with(' ') {
        maybe = true;
    }
    let all = match out {
        [(Some(a), Some(b)), (Some(c), Some(d))] => Some([(a, b), (c, d)]),
        _ => None,
    };
    match (all, maybe) {
        (x, true) => Header::Maybe(x),
        (Some(x), false) => Header::Yes(x),
        (None, false) => Header::TooLarge,
    }
}

/// None: no number here; Some(None): one that is too large.
fn read_number<'a>(s: &'a str, maybe: &mut bool) -> (Option<Option<usize>>, &'a str) {
    let n = s.chars().take_while(|c| c.is_numeric()).map(|c| c.len_utf8()).sum::<usize>();
    let (d, rest) = s.split_at(n);
    if d.is_empty() {
        return (None, rest);
    }
    if !d.is_ascii() || (d.len() > 1 && d.starts_with('0')) {
        *maybe = true;
    }
    let mut x: Option<usize> = Some(0);
    for c in d.bytes() {
        x = x
            .and_then(|x| x.checked_mul(10))
            .and_then(|x| x.checked_add(c.wrapping_sub(b'0') as usize));
    }
    (Some(if d.is_ascii() { x } else { None }), rest)
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub header: [(usize, usize); 2],
    pub before: Vec<String>,
    pub after: Vec<String>,
    pub consumed: usize,
    /// leading and trailing context lines; all of them leading when there is nothing else
    pub ctx: (usize, usize),
    pub all_context: bool,
}

#[derive(Clone, Debug)]
pub enum Ref {
    None,
    Err,
    /// unclear input: any answer, but no crash
    Any,
    Must(Parsed),
}

fn unterminated(l: &mut String) {
    assert_eq!(l.pop(), Some('\n'));
}

pub fn read_clump(lines: &[String], at: usize) -> Ref {
    if at >= lines.len() {
        return Ref::None;
    }
    let header = match read_header(&lines[at]) {
        Header::No => return Ref::None,
        Header::TooLarge => return Ref::Err,
        Header::Maybe(_) => return Ref::Any,
        Header::Yes(h) => h,
    };
    let (nb, na) = (header[0].1, header[1].1);
    if (0..2).any(|s| header[s].0.checked_add(header[s].1).is_none()) {
        return Ref::Any;
    }
    let (mut before, mut after): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let mut kinds: Vec<u8> = vec![];
    let (mut closed_b, mut closed_a) = (false, false);
    let mut marked = true; // nothing to mark yet
    let mut i = at + 1;
    loop {
        let complete = before.len() == nb && after.len() == na;
        let Some(l) = lines.get(i) else {
            if complete {
                break;
            }
            return Ref::Err;
        };
        let kind = l.bytes().next().unwrap_or(0);
        if kind == b'\\' {
            let line = if marked || !lines[i - 1].ends_with('\n') { None } else { Some(()) };
            if line.is_none() {
                return Ref::Any;
            }
            let k = *kinds.last().unwrap();
            if k != b'+' {
                unterminated(before.last_mut().unwrap());
                closed_b = true;
            }
            if k != b'-' {
                unterminated(after.last_mut().unwrap());
                closed_a = true;
            }
            marked = true;
            i += 1;
            continue;
        }
        if complete {
            break;
        }
        let (b, a) = match kind {
            b'-' => (true, false),
            b'+' => (false, true),
            b' ' => (true, true),
            _ => return Ref::Err,
        };
        if (b && closed_b) || (a && closed_a) {
            return Ref::Any; // a line after the last line
        }
        if (b && before.len() == nb) || (a && after.len() == na) {
            return Ref::Err;
        }
        if b {
            before.push(l[1..].to_string());
        }
        if a {
            after.push(l[1..].to_string());
        }
        kinds.push(kind);
        marked = false;
        i += 1;
    }
    let lead = kinds.iter().take_while(|k| **k == b' ').count();
    let trail = kinds.iter().rev().take_while(|k| **k == b' ').count();
    Ref::Must(Parsed {
        header,
        before,
        after,
        consumed: i - at,
        ctx: (lead, trail),
        all_context: lead == kinds.len(),
    })
}

pub fn zero_based(h: (usize, usize)) -> usize {
    if h.1 > 0 {
        h.0.saturating_sub(1)
    } else {
        h.0
    }
}

fn compare(got: &UnifiedDiffClump, p: &Parsed) -> Result<(), String> {
    let want = |what: &str, got: &dyn std::fmt::Debug, want: &dyn std::fmt::Debug| -> Result<(), String> {
        let (g, w) = (format!("{got:?}"), format!("{want:?}"));
        if g == w {
            Ok(())
        } else {
            Err(format!("{what}: {g} instead of {w}"))
        }
    };
    want("before lines", &got.before_lines, &p.before)?;
    want("after lines", &got.after_lines, &p.after)?;
    want("lines used", &got.lines_consumed, &p.consumed)?;
    let sal = &got.starts_and_lengths;
    want(
        "numbers of the header",
        &[(sal.before.start, sal.before.length), (sal.after.start, sal.after.length)],
        &p.header,
    )?;
    let ctx = (p.ctx.0.min(255) as u8, p.ctx.1.min(255) as u8);
    for c in [got.context_lengths, TextClumpBasics::context_lengths(got)] {
        if p.all_context {
            if c != ctx && c != (ctx.0, 0) && c != (0, ctx.0) {
                return Err(format!("context lengths {c:?} of {} context lines", ctx.0));
            }
        } else {
            want("context lengths", &c, &ctx)?;
        }
    }
    for reverse in [false, true] {
        for after in [false, true] {
            let side = (reverse != after) as usize;
            let h = p.header[side];
            if h.0 == 0 && h.1 > 0 {
                continue; // there is no line 0
            }
            let lines = [&p.before, &p.after][side];
            let start = zero_based(h);
            let got_se = if after {
                (got.after_start(reverse), got.after_end(reverse), got.after_length(reverse))
            } else {
                (got.before_start(reverse), got.before_end(reverse), got.before_length(reverse))
            };
            want("start, end and length", &got_se, &(start, start + h.1, h.1))?;
            let n = lines.len();
            let mut ranges = vec![None];
            for (x, y) in [(0, n), (0, n / 2), (n / 2, n), (n.min(1), n)] {
                ranges.push(Some((x, y)));
            }
            for r in ranges {
                let range = r.map(|(x, y)| Range(x, y));
                let l: Vec<String> = if after {
                    got.after_lines(range, reverse).cloned().collect()
                } else {
                    got.before_lines(range, reverse).cloned().collect()
                };
                let (x, y) = r.unwrap_or((0, n));
                want("lines by range", &l, &lines[x..y].to_vec())?;
            }
        }
    }
    Ok(())
}

fn check_parse(lines: &[String], at: usize, ctx: &mut Ctx) -> R {
    note_case(|| format!("{lines:?} at {at}"));
    let want = read_clump(lines, at);
    let got = UnifiedDiffClump::get_from_at(&seq(lines), at);
    ctx.exec += 1;
    let case = || json!({"lines": lines, "at": at});
    match (&want, &got) {
        (Ref::None, Ok(None)) => ctx.count("not_a_clump", 1),
        (Ref::Err, Err(_)) => {
            ctx.count("faulty_clumps", 1);
            ctx.nontrivial(&(lines, at));
        }
        (Ref::Any, _) => ctx.count("unclear_clumps", 1),
        (Ref::Must(p), Ok(Some(c))) => {
            ctx.count("good_clumps", 1);
            ctx.nontrivial(&(lines, at));
            ctx.outcome(&(&p.before, &p.after, p.ctx));
            if let Err(m) = compare(c, p) {
                return fail(m, case());
            }
            ctx.sample(case);
        }
        (Ref::Must(p), Err(_)) if p.ctx.0 > 255 || p.ctx.1 > 255 => (),
        _ => {
            let g = match got {
                Ok(None) => "nothing".to_string(),
                Ok(Some(c)) => format!("before {:?} after {:?}", c.before_lines, c.after_lines),
                Err(e) => format!("the error {e:?}"),
            };
            return fail(format!("parsing gives {g} instead of {want:?}"), case());
        }
    }
    Ok(())
}

const NO_EOL: &str = "\\ No newline at end of file\n";

/// Bodies from tokens; each token list leads to one body.
fn tokens(dict: usize) -> Vec<&'static str> {
    match dict {
        0 => vec!["-x\n", "+y\n", " z\n", NO_EOL, "\n"],
        1 => vec!["--\n", "++\n", "  \t\n", "\\\n", "@@ -1 +1 @@\n"],
        2 => vec!["-\n", "+\r\n", " é \r\n", NO_EOL, "z\n"],
        _ => vec!["-\\ x\n", "+-+ \n", " @@ -1 +1 @@\n", "\\ \n", "--- a\n"],
    }
}

pub fn c21(thorough: bool) -> Check {
    let mut families = vec![];
    // (1) every body of a few lines below every header
    let n = if thorough { 7 } else { 5 };
    let max = if thorough { 4u64 } else { 3 };
    let bodies = Arc::new(all_words(n, 5));
    let total = bodies.len() as u64;
    families.push(family(
        "all short bodies",
        format!("lengths 0..{max} on each side; every body of at most {n} lines of 5 kinds (-, +, context, no-newline marker, other), 4 dictionaries; last line with or without newline; two sets of positions"),
        (max + 1) * (max + 1) * 4 * 2 * 2 * total,
        move |i, ctx| {
            let d = digits(i, &[max + 1, max + 1, 4, 2, 2, total]);
            let body = &bodies[d[5] as usize];
            let t = tokens(d[2] as usize);
            let pos = [(1, 1), (7, 300)][d[3] as usize];
            let mut lines = vec![format!("@@ -{},{} +{},{} @@\n", pos.0, d[0], pos.1, d[1])];
            lines.extend(body.iter().map(|k| t[*k as usize].to_string()));
            if d[4] == 1 {
                let Some(k) = body.last() else { return Ok(()) };
                if t[*k as usize].len() < 2 {
                    return Ok(());
                }
                lines.last_mut().unwrap().pop();
            }
            check_parse(&lines, 0, ctx)
        },
    ));
    // (2) clumps at every place of a text that holds other things
    let (m, total) = {
        let m = if thorough { 6 } else { 5 };
        (m, all_words(m, 6).len() as u64)
    };
    families.push(family(
        "every place of a text",
        format!("texts of at most {m} lines out of: file headers, a clump header without lengths, one with lengths 1,2, removed, added, context line; parsed from every index"),
        total,
        move |i, ctx| {
            let t = ["--- a\t2002-02-21 23:30:39 -0800\n", "@@ -1 +1 @@ head\n", "@@ -3,1 +9,2 @@\n", "-old\n", "+new\n", " same\n"];
            let w = nth_word(i, 6);
            let lines: Vec<String> = w.iter().map(|k| t[*k as usize].to_string()).collect();
            for at in 0..=lines.len() {
                check_parse(&lines, at, ctx)?;
            }
            Ok(())
        },
    ));
    // (3) headers of all sorts above fixed bodies
    let nums: Vec<&str> = vec![
        "0",
        "1",
        "2",
        "3",
        "10",
        "4294967296",
        "18446744073709551614",
        "18446744073709551615",
        "18446744073709551616",
        "99999999999999999999999999",
    ];
    let lens: Vec<&str> = vec!["", ",0", ",1", ",2", ",3", ",18446744073709551616", ","];
    let (a, b) = (nums.len() as u64, lens.len() as u64);
    families.push(family(
        "positions and lengths",
        format!("starts {nums:?}, lengths {lens:?} on either side, above 4 bodies"),
        a * b * a * b * 4,
        move |i, ctx| {
            let d = digits(i, &[a, b, a, b, 4]);
            let h = format!(
                "@@ -{}{} +{}{} @@\n",
                nums[d[0] as usize], lens[d[1] as usize], nums[d[2] as usize], lens[d[3] as usize]
            );
            let body: &[&str] = [
                &["-a\n", "+b\n"][..],
                &[" c\n", "-a\n", "+b\n", " c\n"],
                &["+a\n", "+b\n", "+c\n"],
                &[" a\n", "-b\n", NO_EOL, "+b\n"],
            ][d[4] as usize];
            let lines: Vec<String> = std::iter::once(h).chain(body.iter().map(|s| s.to_string())).collect();
            check_parse(&lines, 0, ctx)
        },
    ));
    // (4) many context lines
    let sizes: Vec<usize> = vec![0, 1, 2, 3, 127, 128, 253, 254, 255, 256, 257, 300, 512];
    let s = sizes.len() as u64;
    families.push(family(
        "long contexts",
        format!("leading, trailing and middle context of {sizes:?} lines, with 0 to 2 changes; ends with or without newline"),
        s * s * s * 3 * 2,
        move |i, ctx| {
            let d = digits(i, &[s, s, s, 3, 2]);
            let mut body: Vec<String> = vec![];
            let c = |n: u64, body: &mut Vec<String>| {
                for j in 0..sizes[n as usize] {
                    body.push(format!(" line {j}\n"));
                }
            };
            c(d[0], &mut body);
            if d[3] > 0 {
                body.push("-old\n".into());
                c(d[1], &mut body);
            }
            if d[3] > 1 {
                body.push("+new\n".into());
                c(d[2], &mut body);
            }
            if (d[3] < 2 && d[2] > 0) || (d[3] < 1 && d[1] > 0) {
                return Ok(()); // the same again
            }
            let b = body.iter().filter(|l| !l.starts_with('+')).count();
            let a = body.iter().filter(|l| !l.starts_with('-')).count();
            if d[4] == 1 && !body.is_empty() {
                body.push(NO_EOL.into());
            }
            let lines: Vec<String> = std::iter::once(format!("@@ -{},{b} +{},{a} @@\n", b.min(1), a.min(1)))
                .chain(body)
                .collect();
            check_parse(&lines, 0, ctx)
        },
    ));
    // (5) what is and what is not a header, above a body that fits
    let dev = if thorough { 4 } else { 3 };
    let like = HeaderLines::new(dev);
    families.push(family(
        "below lines like headers",
        format!("every line that differs from `@@ -1,3 +5,2 @@` in at most {dev} of 13 parts, out of {} variants, above a body of three and two lines", like.variants()),
        like.sets.len() as u64,
        move |i, ctx| {
            let mut lines = vec![like.get(i as usize)];
            lines.extend([" a\n", "-b\n", "+c\n", " d\n", "--- e\n"].map(String::from));
            check_parse(&lines, 0, ctx)
        },
    ));
    // (6) clumps of many lines
    let sizes: Vec<usize> = [127, 128, 255, 256, 257, 1000, 4096, 32_767, 32_768, 65_533, 65_534, 65_535, 65_536, 65_537, 70_000, 131_072].into();
    let n = sizes.len() as u64;
    families.push(family(
        "clumps of many lines",
        format!("{sizes:?} lines: removed, added, removed and then added, in turn, with context between; three lines of context on either side or none; at the start or after as many other lines; final newline or marker; followed by another clump"),
        n * 5 * 2 * 2 * 2,
        move |i, ctx| {
            beat();
            let d = digits(i, &[n, 5, 2, 2, 2]);
            let k = sizes[d[0] as usize];
            let mut body: Vec<String> = vec![];
            let c = |body: &mut Vec<String>| {
                if d[2] == 1 {
                    body.extend((0..3).map(|x| format!(" context {x}\n")));
                }
            };
            c(&mut body);
            for j in 0..k {
                let sign = match d[1] {
                    0 => '-',
                    1 => '+',
                    2 => if j < k / 2 { '-' } else { '+' },
                    3 => ['-', '+'][j % 2],
                    _ => if j == 0 || j == k - 1 { '-' } else { ['+', ' ', ' ', '-'][j % 4] },
                };
                body.push(format!("{sign}line {j}\n"));
            }
            c(&mut body);
            let b = body.iter().filter(|l| !l.starts_with('+')).count();
            let a = body.iter().filter(|l| !l.starts_with('-')).count();
            if d[4] == 1 {
                body.push(NO_EOL.into());
            }
            let at = d[3] as usize * k;
            let mut lines: Vec<String> = (0..at).map(|x| format!("-other {x}\n")).collect();
            lines.push(format!("@@ -{},{b} +{},{a} @@\n", b.min(1), a.min(1)));
            lines.extend(body);
            lines.push("@@ -1 +1 @@\n".into());
            check_parse(&lines, at, ctx).map_err(|f| Fail {
                msg: f.msg.chars().take(300).collect(),
                case: json!({"lines": k, "kind": d[1], "context": d[2] * 3, "at": at, "marker": d[4]}),
            })
        },
    ));
    // (7) an odd line at any place
    let mut odd: Vec<String> = crate::special::SPECIAL.iter().map(|s| s.to_string()).collect();
    for c in (0..128u8).map(char::from).chain("\u{80}\u{a0}\u{2028}\u{feff}é–−＋".chars()) {
        odd.extend([format!("{c}\n"), format!("{c}{c}\n"), format!("{c} x\n"), format!("{c}@ -1 +1 @@\n"), format!("{c}")]);
    }
    for l in ["diff --git a/x b/x", "diff -u x y", "index 83db48f..bf269f4 100644", "Index: x", "==================", "Binary files a and b differ", "Only in x: y", "new file mode 100644", "deleted file mode 100644", "similarity index 90%", "rename from x", "From 0123 Mon Sep 17 00:00:00 2001", "Subject: [PATCH] x", "-- ", "2.40.1", "@@", "@@@ -1 -1 +1 @@@", "*** 1,2 ****", "--- 1,2 ----", "1c1", "rem x", "// x", "/* x", "; x", "<!-- x"] {
        odd.extend([format!("{l}\n"), format!("{l}\r\n"), format!(" {l}\n")]);
    }
    odd.sort();
    odd.dedup();
    odd.retain(|l| !l.is_empty());
    let n = odd.len() as u64;
    families.push(family(
        "an odd line at any place",
        format!("each of {n} lines (every ASCII character in four forms, special characters, lines that other tools write) before, inside and after a clump, once or twice, parsed at the first line and at each one after"),
        n * 6 * 2 * 2,
        move |i, ctx| {
            let d = digits(i, &[n, 6, 2, 2]);
            let mut lines: Vec<String> = [["@@ -1,3 +5,3 @@\n", " a\n", "-b\n", "+c\n", " d\n"], ["@@ -7,0 +8,4 @@\n", "+\n", "+#\n", "+@@ -1 +1 @@\n", "+--- e\n"]][d[2] as usize].map(String::from).to_vec();
            for _ in 0..=d[3] {
                lines.insert(d[1] as usize, odd[d[0] as usize].clone());
            }
            for at in 0..=lines.len() {
                check_parse(&lines, at, ctx)?;
            }
            Ok(())
        },
    ));
    Check {
        id: "C21",
        level: "exploration",
        rule: "a case is (lines, index to parse at), parsed by the real code and by an independent reader written from the unified diff format; non-trivial: a clump header is there and the reference reader finds a clump or a fault. Everything reported is compared: lines on both sides, lines used, header numbers, zero-based start, end, length in both directions, context lengths, lines by range.",
        assumptions: vec![
            "for input on which tools differ (marker lines out of place, a line after the unterminated last line, uncommon spacing in the header, start + length beyond 64 bits) any answer but a crash is accepted",
            "a clump of context lines only may report them as leading or trailing; more than 255 context lines are reported as 255 or refused",
            "a start of 0 with lines is not a position: only the absence of a crash is checked",
        ],
        families,
    }
}

/// The i-th word over k letters, shortest first.
fn nth_word(mut i: u64, k: u64) -> Vec<u8> {
    let mut n = 0;
    let mut size = 1;
    while i >= size {
        i -= size;
        size *= k;
        n += 1;
    }
    let mut w = vec![0; n];
    for j in (0..n).rev() {
        w[j] = (i % k) as u8;
        i /= k;
    }
    w
}

// ---------------------------------------------------------------- C22

fn check_rendered(before: &[String], after: &[String], context: u8, ctx: &mut Ctx) -> R {
    note_case(|| format!("before={before:?} after={after:?} context={context}"));
    let (bs, aa) = (seq(before), seq(after));
    let changes = Changes::<String>::new(seq(before), seq(after));
    let spans: Vec<_> = changes
        .change_clumps(context)
        .map(|c| (c.starts(), c.ends(), c.context_lengths()))
        .collect();
    let texts: Vec<UnifiedClumpText> = UnifiedClumpIter {
        before: &bs,
        after: &aa,
        iter: changes.change_clumps(context),
    }
    .collect();
    ctx.exec += 1;
    let whole: Vec<String> = texts
        .iter()
        .map(|t| {
            let nl = if t.header.ends_with('\n') { "" } else { "\n" };
            format!("{}{nl}{}", t.header, t.lines.concat())
        })
        .collect();
    let case = |i: usize| json!({"before": before, "after": after, "context": context, "clump": i, "text": whole.get(i)});
    if before != after {
        ctx.nontrivial(&(before, after, context));
    }
    ctx.outcome(&whole);
    if texts.len() != spans.len() {
        return fail(format!("{} clumps are rendered, {} expected", texts.len(), spans.len()), case(0));
    }
    ctx.sample(|| case(0));
    let mut rebuilt: Vec<String> = vec![];
    let mut done = 0;
    for (i, t) in whole.iter().enumerate() {
        let lines: Vec<String> = t.split_inclusive('\n').map(|s| s.to_string()).collect();
        let p = match read_clump(&lines, 0) {
            Ref::Must(p) => p,
            other => return fail(format!("not a well formed clump: {other:?}"), case(i)),
        };
        if p.consumed != lines.len() {
            return fail(format!("the header accounts for {} of {} lines", p.consumed, lines.len()), case(i));
        }
        if lines.iter().any(|l| !l.ends_with('\n')) {
            return fail("the text of the clump does not end in a newline", case(i));
        }
        // the lines stand at the positions of the header
        for (side, (text, part)) in [(before, &p.before), (after, &p.after)].into_iter().enumerate() {
            let h = p.header[side];
            let start = zero_based(h);
            if (h.0 == 0 && h.1 > 0) || start + h.1 > text.len() || text[start..start + h.1] != part[..] {
                return fail(
                    format!("the {} lines are not at the position of the header", ["before", "after"][side]),
                    case(i),
                );
            }
            let s = &spans[i];
            let (from, to) = if side == 0 { (s.0 .0, s.1 .0) } else { (s.0 .1, s.1 .1) };
            if (start, start + h.1) != (from, to) {
                return fail(
                    format!(
                        "the {} side is {start}..{}, the clump is {from}..{to}",
                        ["before", "after"][side],
                        start + h.1
                    ),
                    case(i),
                );
            }
        }
        let s = zero_based(p.header[0]);
        if s < done {
            return fail("the clump overlaps the one before", case(i));
        }
        rebuilt.extend_from_slice(&before[done..s]);
        rebuilt.extend_from_slice(&p.after);
        done = s + p.header[0].1;
        // and back
        match UnifiedDiffClump::get_from_at(&seq(&lines), 0) {
            Ok(Some(c)) => {
                if let Err(m) = compare(&c, &p) {
                    return fail(format!("parsed back: {m}"), case(i));
                }
                if c.context_lengths != spans[i].2 {
                    return fail(
                        format!("parsed back: context lengths {:?} instead of {:?}", c.context_lengths, spans[i].2),
                        case(i),
                    );
                }
            }
            Ok(None) => return fail("parsed back: nothing", case(i)),
            Err(e) => return fail(format!("parsed back: {e:?}"), case(i)),
        }
    }
    rebuilt.extend_from_slice(&before[done..]);
    if rebuilt != after {
        return fail("the clumps do not turn the first text into the second", case(0));
    }
    Ok(())
}

pub fn c22(thorough: bool) -> Check {
    let mut families = vec![];
    for (k, n, cs) in if thorough {
        vec![(3usize, 6usize, 4u64), (2, 8, 4), (12, 5, 4)]
    } else {
        vec![(3, 5, 4), (2, 6, 3), (8, 4, 3)]
    } {
        let w = Words::new(&[n, n], k);
        families.push(family(
            format!("all pairs k={k}"),
            format!(
                "all pairs of texts of at most {n} lines out of {k}, modulo renaming; contexts 0..{}; final newline on either side; 2 dictionaries",
                cs - 1
            ),
            w.len() * cs * 4 * 2,
            move |i, ctx| {
                let d = digits(i, &[w.len(), cs, 4, 2]);
                let p = w.get(d[0]);
                let (b, a) = (render(&p[0], d[3] as u8, d[2] & 1 == 0), render(&p[1], d[3] as u8, d[2] & 2 == 0));
                if d[3] == 1 && d[2] > 0 && (p[0].last() == Some(&0) || p[1].last() == Some(&0)) {
                    return Ok(()); // an empty line without newline is none
                }
                check_rendered(&b, &a, d[1] as u8, ctx)
            },
        ));
    }
    for (n, m, dup) in if thorough {
        [(8, 3, true), (20, 2, false)]
    } else {
        [(6, 2, true), (12, 2, false)]
    } {
        let g = EditGrid::new(vec![distinct(n), periodic(n, 3)], m, dup);
        families.push(family(
            format!("edited longer texts {n}"),
            format!(
                "texts of {n} distinct lines and of {n} lines of period 3, at most {m} edits{}; contexts 0 to 4; final newline on either side",
                if dup { " (also with lines of the text)" } else { "" }
            ),
            g.total * 5 * 4,
            move |i, ctx| {
                let d = digits(i, &[g.total, 5, 4]);
                let (b, a) = g.get(d[0]);
                check_rendered(&render16(&b, 0, d[2] & 1 == 0), &render16(&a, 0, d[2] & 2 == 0), d[1] as u8, ctx)
            },
        ));
    }
    let sizes = [120usize, 260, 300];
    let ctxs = [3u8, 100, 127, 128, 200, 254, 255];
    families.push(family(
        "large contexts",
        format!("texts of {sizes:?} lines, one or two changes at the start, middle or end; contexts {ctxs:?}; final newline on either side"),
        (3 * 7 * 6 * 4) as u64,
        move |i, ctx| {
            let d = digits(i, &[3, 7, 6, 4]);
            let n = sizes[d[0] as usize];
            let base = distinct(n).into_iter().map(|x| x + 200).collect::<Vec<u16>>();
            let at = [
                vec![0],
                vec![n / 2],
                vec![n - 1],
                vec![0, n - 1],
                vec![n / 4, n / 2],
                vec![n / 2 - 1, n / 2 + 1],
            ][d[2] as usize]
                .clone();
            let mut other = base.clone();
            for (j, p) in at.iter().enumerate() {
                other[*p] = 5000 + j as u16;
            }
            check_rendered(
                &render16(&base, 0, d[3] & 1 == 0),
                &render16(&other, 0, d[3] & 2 == 0),
                ctxs[d[1] as usize],
                ctx,
            )
        },
    ));
    families.push(crate::special::special_family(thorough, check_rendered));
    families.push(crate::special::alike_family(check_rendered));
    families.push(crate::special::size_pairs(thorough, check_rendered));
    Check {
        id: "C22",
        level: "exploration",
        rule: "a case is (before, after, context), rendered by the real code; non-trivial when the texts differ. Oracle: an independent reader of the unified format must accept the text completely, find its lines at the header's positions in the two texts and in the clump's ranges, and all clumps together must turn the first text into the second; the real parser must give the same back.",
        assumptions: vec!["the text of a clump is its header, a newline, and its lines one after the other"],
        families,
    }
}

// ---------------------------------------------------------------- C23

fn check_header(line: &str, ctx: &mut Ctx) -> R {
    note_case(|| format!("{line:?}"));
    let want = read_header(line);
    let got = starts_and_lengths(line, 17);
    ctx.exec += 1;
    let nums = got
        .as_ref()
        .ok()
        .and_then(|x| x.as_ref())
        .map(|s| [(s.before.start, s.before.length), (s.after.start, s.after.length)]);
    let ok = match (&want, &got) {
        (Header::No, Ok(None)) => true,
        (Header::TooLarge, Err(_)) => true,
        (Header::Yes(h), Ok(Some(_))) => nums == Some(*h),
        (Header::Maybe(_), Ok(None)) | (Header::Maybe(None), Err(_)) => true,
        (Header::Maybe(Some(h)), Ok(Some(_))) => nums == Some(*h),
        _ => false,
    };
    ctx.count(
        match &want {
            Header::No => "not_a_header",
            Header::TooLarge => "number_too_large",
            Header::Yes(_) => "headers",
            Header::Maybe(_) => "unclear_headers",
        },
        1,
    );
    ctx.nontrivial(&line);
    ctx.outcome(&format!("{got:?}"));
    ctx.sample(|| json!(line));
    if !ok {
        return fail(format!("read as {got:?} instead of {want:?}"), json!(line));
    }
    Ok(())
}

fn check_file_line(line: &str, side: usize, want: Option<(&str, Option<&str>)>, ctx: &mut Ctx) -> R {
    note_case(|| format!("{line:?}"));
    ctx.exec += 2;
    let f = [before_path_and_time_stamp, after_path_and_time_stamp];
    let (own, other) = (f[side](line), f[1 - side](line));
    ctx.nontrivial(&line);
    ctx.outcome(&format!("{own:?}"));
    ctx.sample(|| json!(line));
    let case = || -> Value { json!({"line": line, "side": side}) };
    if other.is_some() {
        return fail("taken for the header line of the other file", case());
    }
    let got = own.as_ref().map(|p| (p.file_path.as_str(), p.time_stamp.as_deref()));
    if got != want {
        return fail(format!("read as {got:?} instead of {want:?}"), case());
    }
    Ok(())
}

/// Every line that differs from `@@ -1,3 +5,2 @@` in at most `dev` parts; what the parts are.
struct HeaderLines {
    slots: Vec<Vec<&'static str>>,
    sets: Vec<Vec<(usize, usize)>>,
}

impl HeaderLines {
    fn new(dev: usize) -> Self {
        let slots: Vec<Vec<&'static str>> = vec![
            vec!["@@", "", "@", "@@@", " @@", "##", "@@ @@"],
            vec![" ", "", "  ", "\t", "\n", "\u{a0}", "x"],
            vec!["-", "+", "", "--", "–"],
            vec![
                "1",
                "",
                "0",
                "42",
                "007",
                "18446744073709551615",
                "18446744073709551616",
                "-1",
                "1.5",
                "x",
                "٣",
                "1 2",
            ],
            vec![
                ",3",
                "",
                ",",
                ",0",
                ",1",
                ",00",
                ",18446744073709551616",
                ",-1",
                ".3",
                " ,3",
                ",3,4",
                ",x",
            ],
            vec![" ", "", "  ", "\t", "\n", ","],
            vec!["+", "-", "", "++"],
            vec!["5", "", "0", "123456", "05", "18446744073709551616", "+5", "5a"],
            vec![",2", "", ",", ",0", ",1", ",99999999999999999999", ", 2", ",2,"],
            vec![" ", "", "  ", "\t", "x"],
            vec!["@@", "", "@", "@@@@", "##"],
            vec!["", " heading", " @@", "heading", " -1,2", "\t", " é", " @@ -1 +1 @@"],
            vec!["\n", "", "\r\n", "\n\n", "\nx", "\n\u{0}"],
        ];
        let mut sets: Vec<Vec<(usize, usize)>> = vec![vec![]];
        let mut last = sets.clone();
        for _ in 0..dev {
            let mut next = vec![];
            for s in &last {
                for i in s.last().map_or(0, |x| x.0 + 1)..slots.len() {
                    for j in 1..slots[i].len() {
                        let mut t: Vec<(usize, usize)> = s.clone();
                        t.push((i, j));
                        next.push(t);
                    }
                }
            }
            sets.extend(next.iter().cloned());
            last = next;
        }
        Self { slots, sets }
    }
    fn get(&self, i: usize) -> String {
        self.slots
            .iter()
            .enumerate()
            .map(|(k, s)| s[self.sets[i].iter().find(|x| x.0 == k).map_or(0, |x| x.1)])
            .collect()
    }
    fn variants(&self) -> usize {
        self.slots.iter().map(|s| s.len() - 1).sum()
    }
}

pub fn c23(thorough: bool) -> Check {
    let mut families = vec![];
    let mut nums: Vec<usize> = (0..if thorough { 24 } else { 13 }).collect();
    nums.extend([
        99,
        100,
        255,
        256,
        65535,
        65536,
        u32::MAX as usize,
        u32::MAX as usize + 1,
        usize::MAX / 10,
        usize::MAX / 10 + 1,
        usize::MAX - 1,
        usize::MAX,
    ]);
    let n = nums.len() as u64;
    {
        let nums = nums.clone();
        families.push(family(
            "printed and read back",
            format!("every combination of {n} numbers (0.., around 2^8, 2^16, 2^32, 2^64/10, 2^64) for the four positions and lengths"),
            n * n * n * n,
            move |i, ctx| {
                let d = digits(i, &[n, n, n, n]);
                let v: Vec<usize> = d.iter().map(|x| nums[*x as usize]).collect();
                use pw_cub_diff_lib::text_diff::StartAndLength;
                let sal = StartsAndLengths {
                    before: StartAndLength { start: v[0], length: v[1] },
                    after: StartAndLength { start: v[2], length: v[3] },
                };
                let line = sal.to_string();
                note_case(|| line.clone());
                ctx.exec += 1;
                // a reader of its own agrees
                if read_header(&line) != Header::Yes([(v[0], v[1]), (v[2], v[3])]) {
                    return fail(format!("{v:?} is printed as {line:?}"), json!(v));
                }
                for tail in ["", "\n", " heading @@ -1 +2 @@\n"] {
                    let l = format!("{line}{tail}");
                    match starts_and_lengths(&l, 0) {
                        Ok(Some(s)) if s == sal => (),
                        other => return fail(format!("{l:?} is read as {other:?}"), json!(v)),
                    }
                }
                ctx.nontrivial(&v);
                ctx.outcome(&line);
                ctx.sample(|| json!(line));
                Ok(())
            },
        ));
    }
    // every line that differs from a header in at most d tokens
    let dev = if thorough { 4 } else { 3 };
    let like = HeaderLines::new(dev);
    families.push(family(
        "lines like headers",
        format!("every line that differs from `@@ -1,3 +5,2 @@` in at most {dev} of 13 parts, out of {} variants", like.variants()),
        like.sets.len() as u64,
        move |i, ctx| check_header(&like.get(i as usize), ctx),
    ));
    // all short strings
    let letters = ["@@", "@", " ", "-", "+", "1", ",", "\n"];
    let m = if thorough { 8 } else { 7 };
    let total: u64 = (0..=m).map(|e| 8u64.pow(e)).sum();
    families.push(family(
        "all short lines",
        format!("all lines of at most {m} of {letters:?}"),
        total,
        move |i, ctx| {
            let line: String = nth_word(i, 8).iter().map(|k| letters[*k as usize]).collect();
            check_header(&line, ctx)
        },
    ));
    // the header lines of the files
    let paths = [
        "a",
        "dir/file.txt",
        "./x",
        "/abs/path",
        "é/ü",
        "a\"b",
        "'q'",
        "-",
        "---",
        "+++",
        "@@",
        "a\\b",
        "/dev/null",
        "2002-02-21",
        "a,b;c",
        "12\"",
        "\"",
        "\"a",
        "a\"b\"c",
        "\"\"\"a",
        "(a)",
        "[x]",
        "{a}",
        "<a>",
        "a#b",
        "#",
        "100%",
        "a.",
        "a:",
        "a!",
        "~a",
        "$x",
        "*",
        "?",
        "a\\",
        "C:\\x",
        "\\\"",
        "-0800",
        "1",
        "a/",
        ".",
        "..",
        "/",
        "_",
        "a@b",
        "a=b&c",
        "`a`",
        "^a|b",
        "\u{feff}a",
        "a\u{200b}",
        "e\u{301}",
        "\u{1f600}",
        "a\u{0}b",
        "\u{7f}",
        "23:30:39",
        "x-",
        "--",
        "+",
        "a+++b",
        "\u{fffd}",
    ];
    let quoted = [
        "a b",
        " lead and trail ",
        "tab\there",
        "é ü",
        "a",
        "2002-02-21 23:30:39 -0800",
        "--- a",
        "Thu Feb 21 23:30:39 2002 -0800",
        "x'y",
        " ",
        "\\",
        "a\\",
        "\\n",
        ",",
        "a  b",
        "a b ",
        "a\t2002-02-21 23:30:39 -0800",
        "@@ -1 +1 @@",
        "+++ b",
        "/abs/with space/x",
        "'",
        "x.y",
        "(a b) [c] {d} <e>",
        "a\u{a0}b",
        "\u{1f600} \u{feff}",
        "100% #1",
        "a\rb",
    ];
    let mut stamps: Vec<String> = vec![];
    for date in ["2002-02-21", "0000-00-00", "9999-12-31"] {
        for frac in ["", ".942229878", ".000000000"] {
            for zone in ["-0800", "+0000", "+1400"] {
                stamps.push(format!("{date} 23:30:39{frac} {zone}"));
            }
        }
    }
    for day in ["Thu Feb 21", "Sat Dec 01"] {
        for zone in ["-0800", "+0930"] {
            stamps.push(format!("{day} 00:59:60 2002 {zone}"));
        }
    }
    let all: Vec<(String, String)> = paths
        .iter()
        .map(|p| (p.to_string(), p.to_string()))
        .chain(quoted.iter().map(|p| (format!("\"{p}\""), p.to_string())))
        .collect();
    let seps = ["\t", " ", "  ", " \t "];
    let ends = ["\n", "", "\t\n", " extra\n"];
    let (p, s) = (all.len() as u64, stamps.len() as u64 + 1);
    families.push(family(
        "file header lines",
        format!(
            "{p} paths, quoted or not; no timestamp or one of {} in the two known forms; separators {seps:?}; line ends {ends:?}; both sides",
            s - 1
        ),
        2 * p * s * 4 * 4,
        move |i, ctx| {
            let d = digits(i, &[2, p, s, 4, 4]);
            let (shown, path) = &all[d[1] as usize];
            let marker = ["--- ", "+++ "][d[0] as usize];
            let (sep, end) = (seps[d[3] as usize], ends[d[4] as usize]);
            let stamp = (d[2] > 0).then(|| stamps[d[2] as usize - 1].as_str());
            let line = match stamp {
                Some(t) => format!("{marker}{shown}{sep}{t}{end}"),
                None if end.is_empty() => return Ok(()), // see the assumptions
                None if d[3] > 0 => return Ok(()),
                None => format!("{marker}{shown}{end}"),
            };
            check_file_line(&line, d[0] as usize, Some((path, stamp)), ctx)
        },
    ));
    // every year, day, time of day, fraction and zone, one or two parts at a time differing from a usual time stamp
    const DAYS: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
    const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
    // parts: year, month, day, hour and minute, second, fraction or day of the week, zone
    const PARTS: [u64; 7] = [10_000, 12, 31, 24 * 60, 61, 21, 2 * 2_401];
    let usual: [u64; 7] = [2002, 1, 20, 23 * 60 + 30, 39, 1, 800];
    let mut shapes: Vec<(usize, usize, u64)> = vec![];
    for j in 0..7 {
        for k in j..7 {
            // pairs of parts where there are not too many of them
            let n = PARTS[j] * if k == j { 1 } else { PARTS[k] };
            if k == j || n <= 50_000 {
                shapes.push((j, k, n));
            }
        }
    }
    let total: u64 = shapes.iter().map(|s| s.2).sum();
    families.push(family(
        "all dates and times",
        "both known forms; all years, months with days, hours with minutes, seconds 0..60, fractions (21) or days of the week, zones to 24 hours; one part or two (where that gives no more than 50000) other than usual; on either side",
        total * 2,
        move |i, ctx| {
            let (mut r, form) = (i / 2, i % 2);
            let mut v = usual;
            for (j, k, n) in &shapes {
                if r < *n {
                    v[*j] = r % PARTS[*j];
                    if k != j {
                        v[*k] = r / PARTS[*j];
                    }
                    break;
                }
                r -= n;
            }
            let zone = format!("{}{:02}{:02}", ["-", "+"][(v[6] / 2_401) as usize], v[6] % 2_401 / 100, v[6] % 2_401 % 100);
            let stamp = if form == 0 {
                let f = v[5] as u32;
                let fraction = match f {
                    0 => String::new(),
                    1..=9 => format!(".{:09}", 10u64.pow(f - 1)),
                    10..=18 => format!(".{:09}", 999_999_999 / 10u64.pow(f - 10)),
                    19 => ".000000000".into(),
                    _ => ".942229878".into(),
                };
                format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}{fraction} {zone}", v[0], v[1] + 1, v[2] + 1, v[3] / 60, v[3] % 60, v[4])
            } else {
                format!("{} {} {:02} {:02}:{:02}:{:02} {:04} {zone}", DAYS[v[5] as usize % 7], MONTHS[v[1] as usize], v[2] + 1, v[3] / 60, v[3] % 60, v[4], v[0])
            };
            let side = (i / 2 % 2) as usize;
            check_file_line(&format!("{}a/b\t{stamp}\n", ["--- ", "+++ "][side]), side, Some(("a/b", Some(&stamp))), ctx)
        },
    ));
    let others = [
        "",
        "\n",
        "-",
        "--",
        "---",
        "---\n",
        "--a\n",
        "-- a\n",
        "---- a\n",
        " --- a\n",
        "x--- a\n",
        "++ a\n",
        "++++ a\n",
        "-+- a\n",
        "@@ -1 +1 @@\n",
        "-old\n",
        "+new\n",
        "***\n",
        "*** a\n",
        "=== a\n",
        "diff a b\n",
        "\n--- a\n",
    ];
    families.push(family(
        "lines that are not file headers",
        format!("{others:?}"),
        others.len() as u64 * 2,
        move |i, ctx| check_file_line(others[i as usize / 2], i as usize % 2, None, ctx),
    ));
    Check {
        id: "C23",
        level: "exploration",
        rule: "a case is one line given to the real readers (or four numbers printed and read back); all lines count as non-trivial, being distinct. Oracle: a reader written by hand from the format.",
        assumptions: vec![
            "spacing other than single spaces, a heading glued to the header, leading zeros and digits outside ASCII: a header or not, but never other numbers",
            "paths without quotes hold no white space; a line with neither timestamp nor newline is outside the bounds",
        ],
        families,
    }
}
