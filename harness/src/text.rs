//! Checks of the diff engine and of text patches: C01..C06, C08..C13.

use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::special::*;
use pw_diff_lib::apply_text::{ApplyClumpFuzzy, ApplyClumpsFuzzy, TextClumpBasics, WillApply};
use pw_diff_lib::changes::*;
use pw_diff_lib::common_subsequence::CommonSubsequence;
use pw_diff_lib::range::{Len, Range};
use pw_diff_lib::sequence::{ByteItemIndices, Seq, StringItemIndices};
use pw_diff_lib::text_diff::TextChangeClump;
use serde_json::json;
use std::fmt::Debug;
use std::sync::Arc;

const EOLS: [(bool, bool); 4] = [(true, true), (false, true), (true, false), (false, false)];

/// Distinct byte for each symbol, with the extremes among them.
pub fn byte(dict: u8, sym: u16) -> u8 {
    match dict {
        0 => [0u8, 255, 10, 65, 128, 1, 2, 3][sym as usize % 8].wrapping_add((sym / 8) as u8 * 16),
        _ => sym as u8,
    }
}

// ---------------------------------------------------------------- C01

fn check_script<T: Eq + std::hash::Hash + Clone + Debug>(b: &[T], a: &[T], ch: &[Change], strong: bool) -> Result<(), String> {
    let (mut i, mut j) = (0usize, 0usize);
    let mut prev: Option<bool> = None;
    for c in ch {
        let same = matches!(c, Change::NoChange(_));
        if prev == Some(same) {
            return Err(format!("two neighbouring entries of the same kind at {c:?}"));
        }
        prev = Some(same);
        let (br, ar) = match c {
            Change::NoChange(CommonSubsequence(x, y, l)) => {
                if *l == 0 {
                    return Err(format!("empty entry {c:?}"));
                }
                (Range(*x, x + l), Range(*y, y + l))
            }
            Change::Delete(r, y) => (*r, Range(*y, *y)),
            Change::Insert(x, r) => (Range(*x, *x), *r),
            Change::Replace(r, s) => {
                if r.len() == 0 || s.len() == 0 {
                    return Err(format!("one-sided replacement {c:?}"));
                }
                (*r, *s)
            }
        };
        if br.0 != i || ar.0 != j || br.1 < br.0 || ar.1 < ar.0 || br.1 > b.len() || ar.1 > a.len() {
            return Err(format!("entry {c:?} does not continue at ({i}, {j})"));
        }
        if br.1 == br.0 && ar.1 == ar.0 {
            return Err(format!("empty entry {c:?}"));
        }
        if same && b[br.0..br.1] != a[ar.0..ar.1] {
            return Err(format!("{c:?} claims to be unchanged but differs: {:?} / {:?}", &b[br.0..br.1], &a[ar.0..ar.1]));
        }
        if strong {
            if let Change::Replace(_, _) = c {
                let (x, y) = (&b[br.0..br.1], &a[ar.0..ar.1]);
                let shared = if x.len() * y.len() < 1000 {
                    x.iter().any(|x| y.contains(x))
                } else {
                    let set: std::collections::HashSet<&T> = x.iter().collect();
                    y.iter().any(|y| set.contains(y))
                };
                if shared {
                    return Err(format!("both sides of {c:?} share an item"));
                }
            }
        }
        i = br.1;
        j = ar.1;
    }
    if i != b.len() || j != a.len() {
        return Err(format!("the entries end at ({i}, {j}) and not at ({}, {})", b.len(), a.len()));
    }
    if b == a && ch.iter().any(|c| !matches!(c, Change::NoChange(_))) {
        return Err("equal inputs have a change".into());
    }
    Ok(())
}

fn script_text(b: &[String], a: &[String], ctx: &mut Ctx, strong: bool) -> R {
    note_case(|| format!("before={b:?} after={a:?}"));
    let ch = Changes::<String>::new(seq(b), seq(a));
    ctx.exec += 1;
    if b != a && !b.is_empty() && !a.is_empty() {
        ctx.nontrivial(&(b, a));
    }
    ctx.outcome(&format!("{:?}", ch.changes));
    ctx.sample(|| json!({"before": b, "after": a, "changes": format!("{:?}", ch.changes)}));
    check_script(b, a, &ch.changes, strong)
        .map_err(|m| Fail { msg: m, case: json!({"before": b, "after": a, "changes": format!("{:?}", ch.changes)}) })
}

fn script_bytes(b: &[u8], a: &[u8], ctx: &mut Ctx, strong: bool) -> R {
    note_case(|| format!("before={b:?} after={a:?}"));
    let ch = Changes::<u8>::new(bseq(b), bseq(a));
    ctx.exec += 1;
    if b != a && !b.is_empty() && !a.is_empty() {
        ctx.nontrivial(&(b, a));
    }
    ctx.outcome(&format!("{:?}", ch.changes));
    check_script(b, a, &ch.changes, strong)
        .map_err(|m| Fail { msg: m, case: json!({"before": b, "after": a, "changes": format!("{:?}", ch.changes)}) })
}

/// Pairs (before, after) at the deviation bound: a base and all sets of edits of it.
#[derive(Clone)]
pub struct EditGrid {
    bases: Arc<Vec<Vec<u16>>>,
    edits: Arc<Vec<Vec<Vec<Edit>>>>,
    first: Arc<Vec<u64>>,
    pub total: u64,
}

impl EditGrid {
    pub fn new(bases: Vec<Vec<u16>>, max: usize, dup: bool) -> Self {
        let edits: Vec<Vec<Vec<Edit>>> = bases
            .iter()
            .map(|b| {
                let mut d: Vec<u16> = if dup { b.clone() } else { vec![] };
                d.sort();
                d.dedup();
                edit_sets(b.len(), max, FRESH, &d)
            })
            .collect();
        let mut first = vec![];
        let mut total = 0;
        for e in &edits {
            first.push(total);
            total += e.len() as u64;
        }
        Self { bases: Arc::new(bases), edits: Arc::new(edits), first: Arc::new(first), total }
    }
    pub fn get(&self, idx: u64) -> (Vec<u16>, Vec<u16>) {
        let b = self.first.partition_point(|f| *f <= idx) - 1;
        let base = &self.bases[b];
        (base.clone(), apply_edits(base, &self.edits[b][(idx - self.first[b]) as usize]))
    }
}

pub fn distinct(n: usize) -> Vec<u16> {
    (0..n as u16).collect()
}
/// 0,1,..,p-1,0,1,... of length n
pub fn periodic(n: usize, p: usize) -> Vec<u16> {
    (0..n).map(|i| (i % p) as u16).collect()
}

pub fn c01(thorough: bool) -> Check {
    script_check("C01", false, thorough)
}

fn script_check(id: &'static str, strong: bool, thorough: bool) -> Check {
    let mut families = vec![];
    let (n4, n3, n2) = if thorough { (7, 8, 11) } else { (6, 7, 9) };
    for (k, n) in [(4usize, n4), (3, n3), (2, n2)] {
        let w = Arc::new(Words::new(&[n, n], k));
        let w2 = w.clone();
        families.push(family(
            format!("text pairs k={k}"),
            format!("all pairs of texts of at most {n} lines over {k} different lines, modulo renaming"),
            w.len(),
            move |i, ctx| {
                let p = w.get(i);
                script_text(&render(&p[0], 0, true), &render(&p[1], 0, true), ctx, strong)
            },
        ));
        families.push(family(
            format!("byte pairs k={k}"),
            format!("all pairs of byte sequences of at most {n} bytes over {k} values, modulo renaming"),
            w2.len(),
            move |i, ctx| {
                let p = w2.get(i);
                let f = |w: &[u8]| w.iter().map(|c| byte(0, *c as u16)).collect::<Vec<_>>();
                script_bytes(&f(&p[0]), &f(&p[1]), ctx, strong)
            },
        ));
    }
    let n = if thorough { 6 } else { 5 };
    let w = Words::new(&[n, n], 4);
    families.push(family(
        "awkward lines and missing final newlines",
        format!("all pairs of at most {n} lines over 4 lines x 3 line dictionaries x final newline present or not on either side"),
        w.len() * 12,
        move |i, ctx| {
            let d = digits(i, &[w.len(), 3, 4]);
            let p = w.get(d[0]);
            let (e0, e1) = EOLS[d[2] as usize];
            script_text(&render(&p[0], d[1] as u8, e0), &render(&p[1], d[1] as u8, e1), ctx, strong)
        },
    ));
    let n = if thorough { 14 } else { 10 };
    let g = EditGrid::new(
        vec![distinct(n), periodic(n, 2), periodic(n, 3), periodic(n, 5), periodic(n, 1)],
        if thorough { 3 } else { 2 },
        true,
    );
    let g2 = g.clone();
    families.push(family(
        "edited long texts",
        format!("bases of {n} lines (distinct, periods 1, 2, 3, 5), all sets of at most {} edits", if thorough { 3 } else { 2 }),
        g.total * 2,
        move |i, ctx| {
            let (b, a) = g.get(i / 2);
            let (b, a) = if i % 2 == 0 { (b, a) } else { (a, b) };
            script_text(&render16(&b, 0, true), &render16(&a, 0, true), ctx, strong)
        },
    ));
    families.push(family(
        "edited long byte sequences",
        "as above, bytes",
        g2.total * 2,
        move |i, ctx| {
            let (b, a) = g2.get(i / 2);
            let (b, a) = if i % 2 == 0 { (b, a) } else { (a, b) };
            let f = |w: &[u16]| w.iter().map(|c| byte(1, *c)).collect::<Vec<_>>();
            script_bytes(&f(&b), &f(&a), ctx, strong)
        },
    ));
    // large inputs: many separate changes (sorting many runs), long runs (beyond 255), all byte values
    let sizes: Vec<usize> = if thorough { vec![64, 255, 256, 257, 511, 1000, 3000, 9000] } else { vec![64, 255, 256, 257, 511, 1500] };
    families.push(family(
        "large inputs",
        format!("sizes {sizes:?}; every p-th line replaced / deleted / inserted before / replaced by a repeated line, p in 2..5, first and last p lines swapped"),
        (sizes.len() * 4 * 5) as u64 * 2,
        move |i, ctx| {
            let d = digits(i, &[2, sizes.len() as u64, 4, 5]);
            let (n, p, kind) = (sizes[d[1] as usize], d[2] as usize + 2, d[3]);
            // changes run from the end to the beginning in length, so that the runs are found out of order
            let mut b: Vec<u32> = vec![];
            let mut a: Vec<u32> = vec![];
            if kind == 4 {
                b.extend(0..n as u32);
                a.extend(n as u32 - p as u32..n as u32);
                a.extend(p as u32..n as u32 - p as u32);
                a.extend(0..p as u32);
            } else {
                for x in 0..n as u32 {
                    b.push(x);
                    if x as usize % p == p - 1 {
                        match kind {
                            0 => a.push(1_000_000 + x),
                            1 => (),
                            2 => a.extend([1_000_000 + x, x]),
                            _ => a.push(p as u32 - 1),
                        }
                    } else {
                        a.push(x);
                    }
                }
            }
            if d[0] == 0 {
                let f = |w: &[u32]| w.iter().map(|x| format!("{x}\n")).collect::<Vec<_>>();
                script_text(&f(&b), &f(&a), ctx, strong)
            } else {
                if n > 600 {
                    return Ok(()); // few byte values: quadratic
                }
                let f = |w: &[u32]| w.iter().map(|x| (x % 251) as u8 ^ (x >> 18) as u8).collect::<Vec<_>>();
                script_bytes(&f(&b), &f(&a), ctx, strong)
            }
        },
    ));
    families.push(special_family(thorough, move |b, a, c, ctx| if c == 0 { script_text(b, a, ctx, strong) } else { Ok(()) }));
    families.push(alike_family(move |b, a, c, ctx| if c == 0 { script_text(b, a, ctx, strong) } else { Ok(()) }));
    families.push(size_pairs(thorough, move |b, a, _, ctx| script_text(b, a, ctx, strong)));
    families.push(data_family(thorough, move |b, a, _, ctx| script_bytes(b, a, ctx, strong)));
    for bytes in [true, false] {
        let words = all_words(3, 3);
        let (few, many): (u64, u64) = if thorough { (3, 4) } else { (2, 3) };
        let n = [words.len() as u64, words.len() as u64, few.pow(4), many.pow(4), 2];
        families.push(family(
            format!("inputs of shared runs, {}", if bytes { "bytes" } else { "lines" }),
            format!("all pairs of sequences of at most three runs, of 3, 2 and 1 items, with {few} lengths (0, 1, 3) of own items around and between the runs on one side and {many} (0, 1, 5, 2) on the other, either side first"),
            product(&n),
            move |i, ctx| {
                let d = digits(i, &n);
                let side = |word: &[u8], gaps: u64, lens: &[usize], radix: u64, own: u8| {
                    let g = digits(gaps, &[radix; 4]);
                    let mut out: Vec<u8> = vec![];
                    let mut own = own;
                    for k in 0..=word.len() {
                        for _ in 0..lens[g[k] as usize] {
                            out.push(own);
                            own += 1;
                        }
                        if let Some(w) = word.get(k) {
                            out.extend([&[1u8, 2, 3][..], &[4, 5], &[6]][*w as usize]);
                        }
                    }
                    out
                };
                let (b, a) = (&words[d[0] as usize], &words[d[1] as usize]);
                // gaps behind the last run are the same case again
                if d[2] >= few.pow(4) / few.pow(3 - b.len() as u32) && b.len() < 3 || d[3] >= many.pow(4) / many.pow(3 - a.len() as u32) && a.len() < 3 {
                    return Ok(());
                }
                let b = side(b, d[2] * few.pow(3 - b.len() as u32), &[0, 1, 3], few, 10);
                let a = side(a, d[3] * many.pow(3 - a.len() as u32), &[0, 1, 5, 2], many, 100);
                let (b, a) = if d[4] == 0 { (b, a) } else { (a, b) };
                if bytes {
                    script_bytes(&b, &a, ctx, strong)
                } else {
                    let f = |w: &[u8]| w.iter().map(|x| format!("{x}\n")).collect::<Vec<_>>();
                    script_text(&f(&b), &f(&a), ctx, strong)
                }
            },
        ));
    }
    families.push(family(
        "every byte value",
        "[x], [x,y], against [y], [y,x], [] for all x, y in 0..256",
        65536,
        move |i, ctx| {
            let (x, y) = ((i >> 8) as u8, i as u8);
            script_bytes(&[x], &[y], ctx, strong)?;
            script_bytes(&[x, y], &[y, x], ctx, strong)?;
            script_bytes(&[x, y, x], &[y], ctx, strong)?;
            script_bytes(&[], &[x, y], ctx, strong)
        },
    ));
    Check {
        id,
        level: "exploration",
        rule: "a case is one (before, after) pair; non-trivial when both are non-empty and they differ; distinct by content. The list of changes is walked over both inputs.",
        assumptions: vec!["items are only compared for equality by the code, so inputs are enumerated modulo renaming of items (several concrete dictionaries are used)"],
        families,
    }
}

// ---------------------------------------------------------------- C02

fn lcs_result<T: PartialEq + Debug>(
    b: &[T],
    a: &[T],
    br: Range,
    ar: Range,
    got: Option<CommonSubsequence>,
) -> Result<(), String> {
    let best = longest_run(&b[br.0..br.1], &a[ar.0..ar.1]);
    match got {
        None if best == 0 => Ok(()),
        None => Err(format!("no run found, but there is one of length {best}")),
        Some(CommonSubsequence(x, y, l)) => {
            if l == 0 || x < br.0 || y < ar.0 || x + l > br.1 || y + l > ar.1 {
                Err(format!("run {got:?} is empty or leaves its windows"))
            } else if b[x..x + l] != a[y..y + l] {
                Err(format!("run {got:?} is not common"))
            } else if l != best {
                Err(format!("run {got:?}, but the longest has length {best}"))
            } else {
                Ok(())
            }
        }
    }
}

fn windows(n: usize) -> Vec<Range> {
    let mut v = vec![];
    for i in 0..=n {
        for j in i..=n {
            v.push(Range(i, j));
        }
    }
    v
}

/// All windows of a short sequence, those at the borders of a long one.
fn some_windows(n: usize) -> Vec<Range> {
    if n <= 24 {
        return windows(n);
    }
    let ends = [0, 1, 2, n / 2, 255.min(n), 256.min(n), n - 2, n - 1, n];
    let mut v = vec![];
    for i in ends {
        for j in ends {
            if i <= j {
                v.push(Range(i, j));
            }
        }
    }
    v
}

pub fn c02(thorough: bool) -> Check {
    let mut check = script_check("C02", true, thorough);
    let mut families = vec![];
    let sizes: Vec<(usize, usize)> = if thorough { vec![(4, 5), (3, 6), (2, 7)] } else { vec![(4, 4), (3, 5), (2, 6)] };
    for (k, n) in sizes {
        for bytes in [false, true] {
            let w = Words::new(&[n, n], k);
            families.push(family(
                format!("window queries {} k={k}", if bytes { "bytes" } else { "text" }),
                format!("all pairs of at most {n} items over {k}, all windows of both"),
                w.len(),
                move |i, ctx| {
                    let p = w.get(i);
                    let run = |br: Range, ar: Range, ctx: &mut Ctx, got: Option<CommonSubsequence>, r: Result<(), String>| {
                        ctx.exec += 1;
                        if got.is_some() && (br.len() < p[0].len() || ar.len() < p[1].len()) {
                            ctx.nontrivial(&(&p, br.0, br.1, ar.0, ar.1, bytes));
                        }
                        ctx.outcome(&got.map(|c| (c.0, c.1, c.2)));
                        r.map_err(|m| Fail {
                            msg: m,
                            case: json!({"before": p[0], "after": p[1], "before_window": [br.0, br.1], "after_window": [ar.0, ar.1], "bytes": bytes}),
                        })
                    };
                    note_case(|| format!("{p:?}"));
                    if bytes {
                        let f = |w: &[u8]| w.iter().map(|c| byte(0, *c as u16)).collect::<Vec<_>>();
                        let (b, a) = (f(&p[0]), f(&p[1]));
                        let (sb, sa) = (bseq(&b), bseq(&a));
                        let g = ChangesGenerator::<u8, ByteItemIndices>::new(&sb, &sa);
                        for br in windows(b.len()) {
                            for ar in windows(a.len()) {
                                let got = g.longest_common_subsequence(br, ar);
                                run(br, ar, ctx, got, lcs_result(&b, &a, br, ar, got))?;
                            }
                        }
                    } else {
                        let (b, a) = (render(&p[0], 0, true), render(&p[1], 0, true));
                        let (sb, sa) = (seq(&b), seq(&a));
                        let g = ChangesGenerator::<String, StringItemIndices>::new(&sb, &sa);
                        for br in windows(b.len()) {
                            for ar in windows(a.len()) {
                                let got = g.longest_common_subsequence(br, ar);
                                run(br, ar, ctx, got, lcs_result(&b, &a, br, ar, got))?;
                            }
                        }
                    }
                    Ok(())
                },
            ));
        }
    }
    let pop = popular();
    families.push(family(
        "window queries, lines that come often",
        "texts of 50 to 300 lines with one line at every 1st, 2nd, 3rd, 10th or 50th place on one side or both; windows with ends at 0, 1, 2, n/3, n/2, n-1, n on either side",
        pop.len() as u64,
        move |i, ctx| {
            let p = &pop[i as usize];
            // numbers instead of lines, for the oracle
            let mut ids = std::collections::HashMap::new();
            let mut num = |v: &[String]| {
                v.iter()
                    .map(|l| {
                        let n = ids.len();
                        *ids.entry(l.clone()).or_insert(n)
                    })
                    .collect::<Vec<usize>>()
            };
            let (nb, na) = (num(&p.before), num(&p.after));
            let (sb, sa) = (seq(&p.before), seq(&p.after));
            let g = ChangesGenerator::<String, StringItemIndices>::new(&sb, &sa);
            let ends = |n: usize| {
                let mut e: Vec<usize> = [0, 1, 2, n / 3, n / 2, n.saturating_sub(1), n].into_iter().filter(|x| *x <= n).collect();
                e.sort();
                e.dedup();
                e
            };
            let win = |n: usize| {
                let e = ends(n);
                e.iter().flat_map(|i| e.iter().filter(move |j| *j >= i).map(move |j| Range(*i, *j))).collect::<Vec<_>>()
            };
            for br in win(nb.len()) {
                beat();
                for ar in win(na.len()) {
                    note_case(|| format!("{}, windows {br:?} {ar:?}", p.what));
                    let got = g.longest_common_subsequence(br, ar);
                    ctx.exec += 1;
                    if got.is_some() {
                        ctx.nontrivial(&(i, br.0, br.1, ar.0, ar.1));
                    }
                    ctx.outcome(&got.map(|c| (c.0, c.1, c.2)));
                    lcs_result(&nb, &na, br, ar, got).map_err(|m| Fail { msg: m, case: json!(format!("{}, windows {br:?} {ar:?}", p.what)) })?;
                }
            }
            Ok(())
        },
    ));
    let counts = [100usize, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16384, 32767, 32768, 32769, 65535, 65536, 65537];
    families.push(family(
        "an item that comes very often",
        "one item at 100 to 65537 single places and one run of 5 of it at the front, in the middle or at the end, against 7 of it, on either side, bytes and lines; all of it, and windows without the ends",
        (counts.len() * 3 * 2 * 2) as u64,
        move |i, ctx| {
            let d = digits(i, &[counts.len() as u64, 3, 2, 2]);
            let (n, place, swapped, bytes) = (counts[d[0] as usize], d[1], d[2] == 1, d[3] == 1);
            note_case(|| format!("{n} places, run at place {place}, swapped {swapped}, bytes {bytes}"));
            beat();
            let mut long = vec![];
            for k in 0..n {
                if k == [0, n / 2, n - 1][place as usize] {
                    long.extend([b'x'; 5]);
                    long.push(b'a');
                }
                long.extend([b'x', b'a' + (k % 7) as u8]);
            }
            if place == 2 {
                long.extend([b'x'; 5]);
            }
            let short = [b'x'; 7].to_vec();
            let (b, a) = if swapped { (short, long) } else { (long, short) };
            let whole = (Range(0, b.len()), Range(0, a.len()));
            let inner = (Range(1, b.len() - 1), Range(1, a.len() - 1));
            for (br, ar) in [whole, inner] {
                let got = if bytes {
                    let (sb, sa) = (bseq(&b), bseq(&a));
                    ChangesGenerator::<u8, ByteItemIndices>::new(&sb, &sa).longest_common_subsequence(br, ar)
                } else {
                    let f = |v: &[u8]| v.iter().map(|c| format!("{}\n", *c as char)).collect::<Vec<_>>();
                    let (sb, sa) = (seq(&f(&b)), seq(&f(&a)));
                    ChangesGenerator::<String, StringItemIndices>::new(&sb, &sa).longest_common_subsequence(br, ar)
                };
                ctx.exec += 1;
                ctx.nontrivial(&(i, br.0));
                ctx.outcome(&got.map(|c| (c.0, c.1, c.2)));
                lcs_result(&b, &a, br, ar, got)
                    .map_err(|m| Fail { msg: m, case: json!({"places": n, "run_at": place, "swapped": swapped, "bytes": bytes, "windows": [br.0, br.1, ar.0, ar.1]}) })?;
            }
            Ok(())
        },
    ));
    families.append(&mut check.families);
    check.families = families;
    check.rule = "a case is a pair of inputs and a window of each (all windows), or a pair of inputs whose script's replacements are examined; non-trivial when a run is found in a proper window, or both inputs are non-empty and differ. Oracle: brute force longest common run.";
    check
}

// ---------------------------------------------------------------- C03

type Pos = (usize, usize);
/// Expected clumps: start and end on both sides, context lengths, changes (positions) inside.
#[derive(Debug, PartialEq, Clone)]
struct GClump {
    starts: Pos,
    ends: Pos,
    ctx: (usize, usize),
    changes: Vec<(Pos, Pos)>,
}

fn change_span(c: &Change) -> (Pos, Pos) {
    match c {
        Change::NoChange(CommonSubsequence(x, y, l)) => ((*x, *y), (x + l, y + l)),
        Change::Delete(r, y) => ((r.0, *y), (r.1, *y)),
        Change::Insert(x, r) => ((*x, r.0), (*x, r.1)),
        Change::Replace(r, s) => ((r.0, s.0), (r.1, s.1)),
    }
}

fn expected_clumps(script: &[Change], c: usize) -> Vec<GClump> {
    let mut out: Vec<GClump> = vec![];
    let mut gap: Option<usize> = None; // unchanged items just passed
    for e in script {
        let (s, t) = change_span(e);
        if let Change::NoChange(_) = e {
            let l = t.0 - s.0;
            if let Some(last) = out.last_mut() {
                let take = l.min(c);
                last.ends = (s.0 + take, s.1 + take);
                last.ctx.1 = take;
            }
            gap = Some(l);
        } else {
            let start_new = match (out.is_empty(), gap) {
                (true, _) => true,
                (false, Some(l)) => l >= 2 * c,
                (false, None) => false,
            };
            if start_new {
                let lead = gap.unwrap_or(0).min(c);
                out.push(GClump { starts: (s.0 - lead, s.1 - lead), ends: t, ctx: (lead, 0), changes: vec![(s, t)] });
            } else {
                let last = out.last_mut().unwrap();
                last.ends = t;
                last.ctx.1 = 0;
                last.changes.push((s, t));
            }
            gap = None;
        }
    }
    out
}

fn grouping(script: Vec<Change>, b: &[u8], a: &[u8], c: u8, ctx: &mut Ctx) -> R {
    note_case(|| format!("{script:?} context={c}"));
    grouping_of(Changes::<u8> { before: bseq(b), after: bseq(a), changes: script }, c, ctx)
}

fn grouping_of<T: PartialEq + Clone>(changes: Changes<T>, c: u8, ctx: &mut Ctx) -> R {
    let want = expected_clumps(&changes.changes, c as usize);
    let got: Vec<GClump> = changes
        .change_clumps(c)
        .map(|k| {
            let (br, ar) = k.ranges();
            let cl = k.context_lengths();
            GClump {
                starts: (br.0, ar.0),
                ends: (br.1, ar.1),
                ctx: (cl.0 as usize, cl.1 as usize),
                changes: k.changes.iter().filter(|x| !matches!(x, Change::NoChange(_))).map(change_span).collect(),
            }
        })
        .collect();
    ctx.exec += 1;
    if want.len() > 1 {
        ctx.nontrivial(&(format!("{:?}", changes.changes), c));
    }
    ctx.outcome(&format!("{got:?}"));
    ctx.sample(|| json!({"script": format!("{:?}", changes.changes), "context": c, "clumps": format!("{got:?}")}));
    if got != want {
        return fail(
            format!("clumps are {got:?} instead of {want:?}"),
            json!({"script": format!("{:?}", changes.changes), "context": c}),
        );
    }
    // the entries inside a clump are contiguous and cover it
    for k in changes.change_clumps(c) {
        let (br, ar) = k.ranges();
        let mut at = (br.0, ar.0);
        for e in &k.changes {
            let (s, t) = change_span(e);
            if s != at {
                return fail(format!("clump entry {e:?} does not continue at {at:?}"), json!({"script": format!("{:?}", changes.changes), "context": c}));
            }
            at = t;
        }
        if at != (br.1, ar.1) {
            return fail(format!("clump entries end at {at:?}"), json!({"script": format!("{:?}", changes.changes), "context": c}));
        }
    }
    Ok(())
}

/// A script from unchanged run lengths (first and last may be 0) and change kinds.
fn build_script(runs: &[usize], kinds: &[u64]) -> (Vec<Change>, Vec<u8>, Vec<u8>) {
    let (v, x, y) = plan_script(runs, kinds);
    (v, vec![0; x], vec![0; y])
}

/// As above, with the lengths only.
fn plan_script(runs: &[usize], kinds: &[u64]) -> (Vec<Change>, usize, usize) {
    let (mut x, mut y) = (0usize, 0usize);
    let mut v = vec![];
    for (i, r) in runs.iter().enumerate() {
        if *r > 0 {
            v.push(Change::NoChange(CommonSubsequence(x, y, *r)));
            x += r;
            y += r;
        }
        if i < kinds.len() {
            match kinds[i] {
                0 => {
                    v.push(Change::Delete(Range(x, x + 1), y));
                    x += 1;
                }
                1 => {
                    v.push(Change::Insert(x, Range(y, y + 2)));
                    y += 2;
                }
                _ => {
                    v.push(Change::Replace(Range(x, x + 2), Range(y, y + 1)));
                    x += 2;
                    y += 1;
                }
            }
        }
    }
    (v, x, y)
}

/// A sequence of items without a size, of which there may be any number.
fn nothings(n: usize) -> Seq<()> {
    let mut v: Vec<()> = Vec::new();
    // SAFETY: a vector of items without a size has room for any number of them
    unsafe { v.set_len(n) };
    Seq(v.into_boxed_slice())
}

pub fn c03(thorough: bool) -> Check {
    let mut families = vec![];
    // all scripts of up to 3 (4) changes with runs up to 5 (7), contexts 0..4
    let (nch, maxrun) = if thorough { (4usize, 8u64) } else { (3usize, 7u64) };
    for m in 0..=nch {
        let mut radices = vec![6u64];
        radices.extend(std::iter::repeat(3).take(m));
        // first and last run from 0, inner runs from 1
        for i in 0..=m {
            radices.push(if i == 0 || i == m { maxrun + 1 } else { maxrun });
        }
        let r2 = radices.clone();
        families.push(family(
            format!("scripts of {m} changes"),
            format!("every kind of change, unchanged runs up to {maxrun}, contexts 0..5"),
            product(&radices),
            move |i, ctx| {
                let d = digits(i, &r2);
                let runs: Vec<usize> =
                    (0..=m).map(|j| d[1 + m + j] as usize + if j == 0 || j == m { 0 } else { 1 }).collect();
                let (s, b, a) = build_script(&runs, &d[1..1 + m]);
                grouping(s, &b, &a, d[0] as u8, ctx)
            },
        ));
    }
    // wide contexts: all 256 sizes, runs around c and 2c
    families.push(family(
        "wide contexts",
        "all contexts 0..255; runs before, between and after in {0,1,c-1,c,c+1,2c-1,2c,2c+1,600}; 9 kinds",
        256 * 9 * 9 * 9 * 9,
        move |i, ctx| {
            let d = digits(i, &[256, 9, 9, 9, 9]);
            let c = d[0] as usize;
            let v = |x: u64| [0, 1, c.saturating_sub(1), c, c + 1, (2 * c).saturating_sub(1), 2 * c, 2 * c + 1, 600][x as usize];
            let (l, m, t) = (v(d[1]), v(d[2]), v(d[3]));
            if m == 0 {
                return Ok(()); // two changes without anything between them are one
            }
            let (s, b, a) = build_script(&[l, m, t], &[d[4] / 3, d[4] % 3]);
            grouping(s, &b, &a, c as u8, ctx)
        },
    ));
    // unchanged runs of any length: the items have no size
    const POWERS: [u32; 12] = [8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 48];
    const WIDE: [usize; 8] = [0, 1, 2, 3, 20, 127, 128, 255];
    families.push(family(
        "runs of any length",
        format!("contexts {WIDE:?}; a run between of 2^k + d, k in {POWERS:?}, d in {{-1,0,1,c-1,c,c+1,2c-1,2c,2c+1}}; runs before and after of 0, 1, c + 1 or the same; 9 kinds; items without a size"),
        8 * 12 * 9 * 4 * 4 * 9,
        move |i, ctx| {
            let d = digits(i, &[8, 12, 9, 4, 4, 9]);
            let c = WIDE[d[0] as usize];
            let add = [0, 1, 2, c, c + 1, c + 2, 2 * c, 2 * c + 1, 2 * c + 2][d[2] as usize];
            let m = (1usize << POWERS[d[1] as usize]) + add - 1;
            let v = |x: u64| [0, 1, c + 1, m][x as usize];
            let (script, b, a) = plan_script(&[v(d[3]), m, v(d[4])], &[d[5] / 3, d[5] % 3]);
            note_case(|| format!("{script:?} context={c}"));
            grouping_of(Changes::<()> { before: nothings(b), after: nothings(a), changes: script }, c as u8, ctx)
        },
    ));
    // scripts the engine itself makes
    let n = if thorough { 7 } else { 6 };
    let w = Words::new(&[n, n], 3);
    families.push(family(
        "generated scripts",
        format!("scripts of all pairs of at most {n} items over 3, contexts 0..3"),
        w.len() * 4,
        move |i, ctx| {
            let d = digits(i, &[w.len(), 4]);
            let p = w.get(d[0]);
            let ch = Changes::<u8>::new(bseq(&p[0]), bseq(&p[1]));
            grouping(ch.changes, &p[0], &p[1], d[1] as u8, ctx)
        },
    ));
    families.push(size_pairs(thorough, |b, a, c, ctx| {
        let ch = Changes::<String>::new(seq(b), seq(a));
        grouping(ch.changes, &vec![0; b.len()], &vec![0; a.len()], c, ctx)
    }));
    Check {
        id: "C03",
        level: "exploration",
        rule: "a case is an edit script and a context size; non-trivial when more than one clump is expected. Oracle: a direct computation of the grouping from the run lengths.",
        assumptions: vec![],
        families,
    }
}

// ---------------------------------------------------------------- C04

fn view<C: ChangeBasics>(c: &C, want: (Range, Range)) -> Result<(), String> {
    let (b, a) = want;
    for rev in [false, true] {
        let (x, y) = if rev { (a, b) } else { (b, a) };
        let got = (
            c.before_start(rev), c.before_end(rev), c.before_length(rev), c.before_range(None, rev), c.my_before_range(None, rev),
            c.after_start(rev), c.after_end(rev), c.after_length(rev), c.after_range(None, rev), c.my_after_range(None, rev),
        );
        let want = (
            x.0, x.1, x.1 - x.0, x, Range(0, x.1 - x.0),
            y.0, y.1, y.1 - y.0, y, Range(0, y.1 - y.0),
        );
        if got != want {
            return Err(format!("views are {got:?} instead of {want:?} (reverse={rev})"));
        }
        let (bl, al) = (x.1 - x.0, y.1 - y.0);
        let rs: &[u8] = if bl.max(al) > 60 { &[0, 1, 2, 127, 128, 254, 255] } else { &[0, 1, 2] };
        for &r0 in rs {
            for &r1 in rs {
                let sum = r0 as usize + r1 as usize;
                if sum <= bl {
                    let got = (c.before_range(Some((r0, r1)), rev), c.my_before_range(Some((r0, r1)), rev));
                    let want = (Range(x.0 + r0 as usize, x.1 - r1 as usize), Range(r0 as usize, bl - r1 as usize));
                    if got != want {
                        return Err(format!("reduced before ranges are {got:?} instead of {want:?} (reverse={rev})"));
                    }
                }
                if sum <= al {
                    let got = (c.after_range(Some((r0, r1)), rev), c.my_after_range(Some((r0, r1)), rev));
                    let want = (Range(y.0 + r0 as usize, y.1 - r1 as usize), Range(r0 as usize, al - r1 as usize));
                    if got != want {
                        return Err(format!("reduced after ranges are {got:?} instead of {want:?} (reverse={rev})"));
                    }
                }
            }
        }
    }
    Ok(())
}

fn views(b: &[String], a: &[String], c: u8, ctx: &mut Ctx) -> R {
    note_case(|| format!("before={b:?} after={a:?} context={c}"));
    let case = || json!({"before": b, "after": a, "context": c});
    let changes = Changes::<String>::new(seq(b), seq(a));
    let er = |m: String| Fail { msg: m, case: case() };
    for e in &changes.changes {
        let (s, t) = change_span(e);
        view(e, (Range(s.0, t.0), Range(s.1, t.1))).map_err(|m| er(format!("change {e:?}: {m}")))?;
    }
    for k in changes.change_clumps(c) {
        ctx.exec += 1;
        // what the clump covers, from its entries
        let (first, last) = (change_span(&k.changes[0]), change_span(k.changes.last().unwrap()));
        let want = (Range(first.0 .0, last.1 .0), Range(first.0 .1, last.1 .1));
        if k.starts() != first.0 || k.ends() != last.1 || k.ranges() != want {
            return Err(er(format!("clump covers {want:?} but reports {:?} {:?} {:?}", k.starts(), k.ends(), k.ranges())));
        }
        view(&k, want).map_err(|m| er(format!("clump {:?}: {m}", k.changes)))?;
        let cl = k.context_lengths();
        // the unchanged entries at its two ends
        let shared = |e: &Change| if let Change::NoChange(CommonSubsequence(_, _, l)) = e { *l } else { 0 };
        let (lead, trail) = (shared(&k.changes[0]), shared(k.changes.last().unwrap()));
        if (cl.0 as usize, cl.1 as usize) != (lead, trail) || lead > c as usize || trail > c as usize {
            return Err(er(format!("context lengths are {cl:?}, but {lead} and {trail} lines are shared")));
        }
        let t = TextChangeClump::from(k);
        view(&t, want).map_err(|m| er(format!("stored clump {t:?}: {m}")))?;
        if TextClumpBasics::context_lengths(&t) != cl {
            return Err(er("stored context lengths differ".into()));
        }
        for rev in [false, true] {
            let (x, xs, y, ys) = if rev { (want.1, a, want.0, b) } else { (want.0, b, want.1, a) };
            let bl: Vec<&String> = t.before_lines(None, rev).collect();
            let al: Vec<&String> = t.after_lines(None, rev).collect();
            if bl != xs[x.0..x.1].iter().collect::<Vec<_>>() || al != ys[y.0..y.1].iter().collect::<Vec<_>>() {
                return Err(er(format!("stored lines {bl:?} {al:?} are not the covered ones (reverse={rev})")));
            }
            if t.before(rev).start != x.0 || t.after(rev).start != y.0 || t.before(rev).len() != x.1 - x.0 {
                return Err(er(format!("stored snippet positions are wrong (reverse={rev})")));
            }
            for r in some_windows(bl.len()) {
                if t.before_lines(Some(r), rev).collect::<Vec<_>>() != bl[r.0..r.1] {
                    return Err(er(format!("lines {r:?} of the stored clump are wrong (reverse={rev})")));
                }
            }
            for r in some_windows(al.len()) {
                if t.after_lines(Some(r), rev).collect::<Vec<_>>() != al[r.0..r.1] {
                    return Err(er(format!("after lines {r:?} of the stored clump are wrong (reverse={rev})")));
                }
            }
            // context: shared on both sides, as many as stated, and then a change
            let (s, e) = (cl.0 as usize, cl.1 as usize);
            if s + e > bl.len() || s + e > al.len() || bl[..s] != al[..s] || bl[bl.len() - e..] != al[al.len() - e..] {
                return Err(er(format!("context lengths {cl:?} are not those of shared lines")));
            }
            for off in [-2isize, 0, 3] {
                if t.before_adjusted_start(off, None, rev) != x.0 as isize + off
                    || t.before_adjusted_start(off, Some(cl), rev) != x.0 as isize + off + s as isize
                    || t.after_adjusted_start(off, None, rev) != y.0 as isize + off
                    || t.after_adjusted_start(off, Some(cl), rev) != y.0 as isize + off + s as isize
                    || t.before_adjusted_length(Some(cl), rev) != bl.len() - s - e
                    || t.after_adjusted_length(Some(cl), rev) != al.len() - s - e
                    || t.before_adjusted_length(None, rev) != bl.len()
                {
                    return Err(er(format!("adjusted positions are wrong (offset={off} reverse={rev})")));
                }
            }
            for (sn, len) in [(t.before(rev), bl.len()), (t.after(rev), al.len())] {
                if sn.range(Some(cl)) != Range(s, len - e) || sn.adj_length(Some(cl)) != len - s - e
                    || sn.range(None) != Range(0, len) || sn.adj_length(None) != len
                    || sn.adj_start(1, Some(cl)) != sn.start + 1 + s || sn.adj_start(0, None) != sn.start
                {
                    return Err(er(format!("snippet views are wrong (reverse={rev})")));
                }
            }
        }
        if want.0 .0 > 0 || cl != (c, c) {
            ctx.nontrivial(&(b, a, c, want.0 .0, want.1 .0));
        }
        ctx.outcome(&(want.0 .0, want.0 .1, want.1 .0, want.1 .1, cl));
        ctx.sample(|| json!({"case": case(), "clump": t}));
    }
    Ok(())
}

pub fn c04(thorough: bool) -> Check {
    let mut families = vec![];
    let n = if thorough { 7 } else { 6 };
    let w = Words::new(&[n, n], 3);
    families.push(family(
        "all pairs",
        format!("texts of at most {n} lines over 3, contexts 0..3"),
        w.len() * 4,
        move |i, ctx| {
            let d = digits(i, &[w.len(), 4]);
            let p = w.get(d[0]);
            views(&render(&p[0], 0, true), &render(&p[1], 0, true), d[1] as u8, ctx)
        },
    ));
    let g = EditGrid::new(vec![distinct(12), periodic(12, 4)], if thorough { 3 } else { 2 }, false);
    families.push(family("edited texts", "bases of 12 lines, edits of new lines, contexts 0..4", g.total * 5, move |i, ctx| {
        let d = digits(i, &[g.total, 5]);
        let (b, a) = g.get(d[0]);
        views(&render16(&b, 0, true), &render16(&a, 0, true), d[1] as u8, ctx)
    }));
    families.push(wide_family(views));
    families.push(special_family(thorough, views));
    families.push(alike_family(views));
    families.push(size_pairs(thorough, views));
    Check {
        id: "C04",
        level: "exploration",
        rule: "a case is a pair of texts and a context size, with every clump, direction and sub-range; non-trivial when a clump does not start at line 0 or has less context than asked for.",
        assumptions: vec![],
        families,
    }
}

// ---------------------------------------------------------------- C05, C06: round trip

fn round_trip(b: &[String], a: &[String], c: u8, reverse: bool, ctx: &mut Ctx) -> R {
    note_case(|| format!("before={b:?} after={a:?} context={c} reverse={reverse}"));
    let p = text_patch(b, a, c);
    let (from, to) = if reverse { (a, b) } else { (b, a) };
    let case = |out: &[u8]| json!({"before": b, "after": a, "context": c, "reverse": reverse, "patch": text_patch_json(&p), "output": bytes_str(out)});
    let (out, n) = apply_text(&p, from, reverse).map_err(|m| Fail { msg: m, case: case(b"") })?;
    ctx.exec += 1;
    ctx.transitions += 1;
    ctx.traces += 1;
    if a != b && !a.is_empty() && !b.is_empty() {
        ctx.nontrivial(&(b, a, c));
    }
    ctx.outcome(&(&out, n));
    ctx.sample(|| case(&out));
    if out != text(to) {
        return fail(format!("applied to {from:?} the patch gives {:?} instead of {:?}", bytes_str(&out), bytes_str(&text(to))), case(&out));
    }
    if n != (Counts { clean: p.0.len(), ..Counts::default() }) {
        return fail(format!("{} clumps, but reported {n:?}", p.0.len()), case(&out));
    }
    if a != b && p.0.is_empty() {
        return fail("different texts, but an empty patch", case(&out));
    }
    if reverse {
        // forward and then reverse
        let (mid, _) = apply_text(&p, b, false).map_err(|m| Fail { msg: m, case: case(b"") })?;
        let mid = Seq::<String>::from(String::from_utf8(mid).unwrap_or_default());
        let (back, _) = apply_text(&p, &mid, true).map_err(|m| Fail { msg: m, case: case(b"") })?;
        ctx.exec += 2;
        ctx.transitions += 2;
        if back != text(b) {
            return fail("forward and then reverse does not restore the file", case(&back));
        }
    }
    Ok(())
}

fn round_trip_check(id: &'static str, reverse: bool, thorough: bool) -> Check {
    let mut families = vec![];
    for (k, n, cs) in if thorough { vec![(4usize, 7usize, 4u64), (3, 7, 5), (2, 9, 5)] } else { vec![(4, 6, 2), (3, 6, 4), (2, 7, 4)] } {
        let w = Words::new(&[n, n], k);
        families.push(family(
            format!("all pairs k={k}"),
            format!("texts of at most {n} lines over {k} lines, modulo renaming, contexts 0..{}", cs - 1),
            w.len() * cs,
            move |i, ctx| {
                let d = digits(i, &[w.len(), cs]);
                let p = w.get(d[0]);
                // one state per text pair's end point: counted once, at context 0
                if d[1] == 0 {
                    ctx.states += 1;
                }
                round_trip(&render(&p[0], 0, true), &render(&p[1], 0, true), d[1] as u8, reverse, ctx)
            },
        ));
    }
    let n = if thorough { 6 } else { 5 };
    let w = Words::new(&[n, n], 3);
    families.push(family(
        "awkward lines and missing final newlines",
        format!("texts of at most {n} lines over 3 x 3 dictionaries x final newline present or not x contexts 0..3"),
        w.len() * 48,
        move |i, ctx| {
            let d = digits(i, &[w.len(), 3, 4, 4]);
            let p = w.get(d[0]);
            let (e0, e1) = EOLS[d[2] as usize];
            round_trip(&render(&p[0], d[1] as u8, e0), &render(&p[1], d[1] as u8, e1), d[3] as u8, reverse, ctx)
        },
    ));
    let (n, m) = if thorough { (14, 3) } else { (12, 2) };
    let g = EditGrid::new(vec![distinct(n), periodic(n, 1), periodic(n, 2), periodic(n, 3), periodic(n, 5)], m, true);
    families.push(family(
        "edited texts",
        format!("bases of {n} lines (distinct, periods 1, 2, 3, 5), at most {m} edits (delete, replace, insert; new or repeated lines), contexts 0..3"),
        g.total * 4,
        move |i, ctx| {
            let d = digits(i, &[g.total, 4]);
            let (b, a) = g.get(d[0]);
            round_trip(&render16(&b, 0, true), &render16(&a, 0, true), d[1] as u8, reverse, ctx)
        },
    ));
    let g = EditGrid::new(vec![distinct(if thorough { 12 } else { 10 })], 3, false);
    families.push(family(
        "three edits",
        "distinct lines, at most 3 edits with new lines, contexts 0..2",
        g.total * 3,
        move |i, ctx| {
            let d = digits(i, &[g.total, 3]);
            let (b, a) = g.get(d[0]);
            round_trip(&render16(&b, 0, true), &render16(&a, 0, true), d[1] as u8, reverse, ctx)
        },
    ));
    families.push(wide_family(move |b, a, c, ctx| round_trip(b, a, c, reverse, ctx)));
    families.push(special_family(thorough, move |b, a, c, ctx| round_trip(b, a, c, reverse, ctx)));
    families.push(alike_family(move |b, a, c, ctx| round_trip(b, a, c, reverse, ctx)));
    families.push(size_pairs(thorough, move |b, a, c, ctx| round_trip(b, a, c, reverse, ctx)));
    Check {
        id,
        level: "model_checking",
        rule: "states are pairs of texts (current file, patch target), transitions are real applications of real patches; a case is (before, after, context); non-trivial when both texts are non-empty and differ. Oracle: the target text, byte for byte, and the counts.",
        assumptions: vec!["texts are enumerated modulo renaming of lines, with three concrete dictionaries"],
        families,
    }
}

/// Contexts up to 255 with two changes at distances around c and 2c in texts of distinct lines.
fn wide_family(run: impl Fn(&[String], &[String], u8, &mut Ctx) -> R + Sync + Send + 'static) -> Family {
    const CS: [usize; 12] = [3, 4, 10, 100, 126, 127, 128, 129, 200, 253, 254, 255];
    family(
        "wide contexts",
        format!("contexts {CS:?}; unchanged runs before in {{0, c-1, c+1}}, between in {{2c-1, 2c, 2c+1, 1}}, after in {{0, c-1, c+1}}; changes delete / insert / replace"),
        (CS.len() * 3 * 4 * 3 * 9) as u64,
        move |i, ctx| {
            let d = digits(i, &[CS.len() as u64, 3, 4, 3, 3, 3]);
            let c = CS[d[0] as usize];
            let l = [0, c - 1, c + 1][d[1] as usize];
            let m = [1, 2 * c - 1, 2 * c, 2 * c + 1][d[2] as usize];
            let t = [0, c - 1, c + 1][d[3] as usize];
            let n = l + m + t + 2;
            let mut b: Vec<String> = (0..n).map(|x| format!("{x}\n")).collect();
            let mut a = b.clone();
            for (pos, kind) in [(l + m + 1, d[5]), (l, d[4])] {
                match kind {
                    0 => {
                        a.remove(pos);
                    }
                    1 => {
                        b.remove(pos);
                    }
                    _ => a[pos] = format!("new {pos}\n"),
                }
            }
            run(&b, &a, c as u8, ctx)
        },
    )
}

pub fn c05(thorough: bool) -> Check {
    round_trip_check("C05", false, thorough)
}
pub fn c06(thorough: bool) -> Check {
    round_trip_check("C06", true, thorough)
}

// ---------------------------------------------------------------- C08, C09, C10: any patch, any file

pub struct ApplyCase {
    pub patch: TPatch,
    pub file: Vec<String>,
    pub reverse: bool,
}

pub struct ApplyFamily {
    pub name: String,
    pub bound: String,
    pub len: u64,
    pub get: Box<dyn Fn(u64) -> ApplyCase + Sync + Send>,
}

pub fn clump_json(ctx: (u8, u8), pre_start: usize, pre: &[String], post_start: usize, post: &[String]) -> TextChangeClump {
    serde_json::from_value(json!({
        "context_lengths": [ctx.0, ctx.1],
        "before": {"start": pre_start, "items": pre},
        "after": {"start": post_start, "items": post},
    }))
    .expect("the stored form of a clump")
}

/// Single hand-made clumps over two letters: context words, one-line bodies, small positions.
pub fn hand_clumps(ctxs: &[(usize, usize)], starts: usize, deltas: &[isize], body: usize) -> Vec<((u8, u8), usize, Vec<u8>, usize, Vec<u8>)> {
    let mut out = vec![];
    let bodies = all_words(body, 2);
    for &(s, e) in ctxs {
        for lead in all_words(s, 2).into_iter().filter(|w| w.len() == s) {
            for trail in all_words(e, 2).into_iter().filter(|w| w.len() == e) {
                for x in &bodies {
                    for y in &bodies {
                        if x == y {
                            continue;
                        }
                        let pre = [&lead[..], x, &trail].concat();
                        let post = [&lead[..], y, &trail].concat();
                        for st in 0..starts {
                            for d in deltas {
                                let ps = st as isize + d;
                                if ps >= 0 {
                                    out.push(((s as u8, e as u8), st, pre.clone(), ps as usize, post.clone()));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

pub fn apply_families(thorough: bool) -> Vec<ApplyFamily> {
    let mut v: Vec<ApplyFamily> = vec![];
    // FA: all triples
    for (k, max, cs) in if thorough {
        vec![(3usize, [4usize, 4, 5], 3u64), (2, [5, 5, 6], 4), (4, [3, 3, 5], 3)]
    } else {
        vec![(3, [3, 3, 4], 3), (2, [4, 4, 5], 3), (4, [3, 2, 4], 2)]
    } {
        let w = Words::new(&max, k);
        v.push(ApplyFamily {
            name: format!("all triples k={k}"),
            bound: format!("before, after, file of at most {max:?} lines over {k}, contexts 0..{}, both directions", cs - 1),
            len: w.len() * cs * 2,
            get: Box::new(move |i| {
                let d = digits(i, &[w.len(), cs, 2]);
                let p = w.get(d[0]);
                ApplyCase {
                    patch: text_patch(&render(&p[0], 0, true), &render(&p[1], 0, true), d[1] as u8),
                    file: render(&p[2], 0, true),
                    reverse: d[2] == 1,
                }
            }),
        });
    }
    // FA': final newlines
    {
        let w = Words::new(&if thorough { [3, 3, 4] } else { [2, 3, 3] }, 3);
        v.push(ApplyFamily {
            name: "missing final newlines".into(),
            bound: "small triples, final newline present or not on each, context 0..2".into(),
            len: w.len() * 8 * 3,
            get: Box::new(move |i| {
                let d = digits(i, &[w.len(), 8, 3]);
                let p = w.get(d[0]);
                let e = |n: u64| d[1] >> n & 1 == 0;
                ApplyCase {
                    patch: text_patch(&render(&p[0], 0, e(0)), &render(&p[1], 0, e(1)), d[2] as u8),
                    file: render(&p[2], 0, e(2)),
                    reverse: false,
                }
            }),
        });
    }
    // FB: deviation-bounded edits of the original or of the result
    {
        let (n, m) = if thorough { (7, 2) } else { (6, 1) };
        let g = EditGrid::new(vec![distinct(n)], 2, false);
        let mut first = vec![];
        let mut total = 0u64;
        let mut sets: Vec<Vec<Vec<Edit>>> = vec![];
        for i in 0..g.total {
            let (b, a) = g.get(i);
            for x in [&b, &a] {
                let mut dups = b.clone();
                dups.extend(&a);
                dups.sort();
                dups.dedup();
                first.push(total);
                let s = edit_sets(x.len(), m, 200, &dups);
                total += s.len() as u64;
                sets.push(s);
            }
        }
        v.push(ApplyFamily {
            name: "edited originals and results".into(),
            bound: format!("base of {n} distinct lines, at most 2 edits make the patch; the file is the original or the result with at most {m} further edits (new or repeated lines); contexts 1..3, both directions"),
            len: total * 6,
            get: Box::new(move |i| {
                let d = digits(i, &[total, 3, 2]);
                let at = first.partition_point(|f| *f <= d[0]) - 1;
                let (b, a) = g.get(at as u64 / 2);
                let base = if at % 2 == 0 { &b } else { &a };
                let f = apply_edits(base, &sets[at][(d[0] - first[at]) as usize]);
                ApplyCase {
                    patch: text_patch(&render16(&b, 0, true), &render16(&a, 0, true), d[1] as u8 + 1),
                    file: render16(&f, 0, true),
                    reverse: d[2] == 1,
                }
            }),
        });
    }
    // FC: partly applied patches on repetitive texts
    {
        let (n, m) = if thorough { (7, 3) } else { (5, 3) };
        let g = EditGrid::new(vec![periodic(n, 1), periodic(n, 2), periodic(n, 3)], m, true);
        v.push(ApplyFamily {
            name: "partly applied, repetitive".into(),
            bound: format!("bases of {n} lines with periods 1, 2, 3, at most {m} edits; the file has every subset of the first 4 clumps applied already; contexts 0..2, both directions"),
            len: g.total * 3 * 2 * 16,
            get: Box::new(move |i| {
                let d = digits(i, &[g.total, 3, 2, 16]);
                let (b, a) = g.get(d[0]);
                let (b, a) = (render16(&b, 0, true), render16(&a, 0, true));
                let patch = text_patch(&b, &a, d[1] as u8);
                let reverse = d[2] == 1;
                let mut file = vec![];
                let mut c = 0;
                let from = if reverse { &a } else { &b };
                for (j, k) in mclumps(&patch, reverse).iter().enumerate() {
                    if k.pre_start < c || k.pre_start + k.pre.len() > from.len() {
                        break; // an ill-formed patch: other checks see to it
                    }
                    file.extend_from_slice(&from[c..k.pre_start]);
                    let applied = j < 4 && d[3] >> j & 1 == 1;
                    file.extend_from_slice(if applied { &k.post } else { &k.pre });
                    c = k.pre_start + k.pre.len();
                }
                file.extend_from_slice(&from[c..]);
                ApplyCase { patch, file, reverse }
            }),
        });
    }
    // FD: hand-edited clump lists: any order, overlapping, inconsistent positions
    {
        let one = if thorough {
            hand_clumps(&[(0, 0), (1, 1), (2, 0), (1, 2), (2, 2), (3, 0)], 4, &[-1, 0, 1, 2], 2)
        } else {
            hand_clumps(&[(0, 0), (1, 1), (2, 0), (2, 2)], 3, &[-1, 0, 1], 1)
        };
        let files = all_words(if thorough { 6 } else { 5 }, 2);
        let l = one.len() as u64;
        v.push(ApplyFamily {
            name: "one hand-made clump".into(),
            bound: "every single clump over 2 letters with contexts up to 2 (3), any small position on either side; all files of at most 5 (6) lines over 2; both directions".into(),
            len: l * files.len() as u64 * 2,
            get: Box::new(move |i| {
                let d = digits(i, &[l, files.len() as u64, 2]);
                let c = &one[d[0] as usize];
                ApplyCase {
                    patch: TPatch(vec![clump_json(c.0, c.1, &render(&c.2, 0, true), c.3, &render(&c.4, 0, true))]),
                    file: render(&files[d[1] as usize], 0, true),
                    reverse: d[2] == 1,
                }
            }),
        });
        let two = if thorough {
            hand_clumps(&[(0, 0), (1, 1), (2, 0)], 3, &[-1, 0, 1], 1)
        } else {
            hand_clumps(&[(0, 0), (1, 1)], 3, &[0, 1], 1)
        };
        let files = all_words(if thorough { 5 } else { 4 }, 2);
        let l = two.len() as u64;
        v.push(ApplyFamily {
            name: "two hand-made clumps".into(),
            bound: "every ordered pair of clumps over 2 letters, also overlapping and out of order; all files of at most 4 (5) lines over 2; both directions".into(),
            len: l * l * files.len() as u64 * 2,
            get: Box::new(move |i| {
                let d = digits(i, &[l, l, files.len() as u64, 2]);
                let mk = |c: &((u8, u8), usize, Vec<u8>, usize, Vec<u8>)| {
                    clump_json(c.0, c.1, &render(&c.2, 0, true), c.3, &render(&c.4, 0, true))
                };
                ApplyCase {
                    patch: TPatch(vec![mk(&two[d[0] as usize]), mk(&two[d[1] as usize])]),
                    file: render(&files[d[2] as usize], 0, true),
                    reverse: d[3] == 1,
                }
            }),
        });
    }
    // FD': recorded positions far from anything in the file
    {
        const FAR: [u64; 10] = [0, 1, 3, 1_000, 65_536, 1 << 31, (1 << 32) + 1, 1 << 40, (1 << 53) + 1, (1 << 62) - 1];
        let contexts: [(usize, usize); 4] = [(0, 0), (1, 1), (2, 1), (0, 2)];
        let files: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 1, 2, 3, 4], vec![5, 6, 0, 7, 1, 2, 3, 8], vec![0, 1, 9, 3, 4, 0, 1, 2, 3, 4], vec![0, 10, 3]];
        let far = FAR.len() as u64;
        v.push(ApplyFamily {
            name: "far positions".into(),
            bound: format!("two clumps (contexts {contexts:?}; replacing, adding or removing a line), recorded at any of {FAR:?} before and after; {} files of 0..10 lines that hold what they expect, what they write, or neither; both directions", files.len()),
            len: far * far * far * far * 4 * 3 * files.len() as u64 * 2,
            get: Box::new(move |i| {
                let d = digits(i, &[far, far, far, far, 4, 3, files.len() as u64, 2]);
                let (s, e) = contexts[d[4] as usize];
                let (x, y): (&[u8], &[u8]) = [(&[2u8][..], &[9u8][..]), (&[2], &[]), (&[], &[9])][d[5] as usize];
                let (lead, trail) = (&[0u8, 1][2 - s..], &[3u8, 4][..e]);
                let mk = |from: u64, to: u64, x: &[u8], y: &[u8]| {
                    let item = |b: &[u8]| render(&[lead, b, trail].concat(), 0, true);
                    clump_json((s as u8, e as u8), FAR[from as usize] as usize, &item(x), FAR[to as usize] as usize, &item(y))
                };
                ApplyCase {
                    patch: TPatch(vec![mk(d[0], d[1], x, y), mk(d[2], d[3], y, x)]),
                    file: render(&files[d[6] as usize], 0, true),
                    reverse: d[7] == 1,
                }
            }),
        });
    }
    // FE: lines that look alike
    {
        let n = SPECIAL.len() as u64;
        v.push(ApplyFamily {
            name: "special lines".into(),
            bound: format!("one line out of {n} special ones replaced by another, in a file that has a third; in the middle or at the end, final newlines present or not on each of the three; contexts 1, both directions"),
            len: n * n * n * 9 * 2,
            get: Box::new(move |i| {
                let d = digits(i, &[n, n, n, 9, 2]);
                let mk = |j: usize| {
                    let mut l = SPECIAL[d[j] as usize].to_string();
                    if d[3] == 0 {
                        return vec!["before\n".to_string(), l, "after\n".to_string()];
                    }
                    if (d[3] - 1) >> j & 1 == 1 && l.len() > 1 {
                        l.pop();
                    }
                    vec!["before\n".to_string(), l]
                };
                ApplyCase { patch: text_patch(&mk(0), &mk(1), 1), file: mk(2), reverse: d[4] == 1 }
            }),
        });
        v.push(ApplyFamily {
            name: "special lines as context".into(),
            bound: "a change with two lines of context on each side, the outer or the inner one of which is a special line, another special line in the file; both directions".into(),
            len: n * n * 4 * 2,
            get: Box::new(move |i| {
                let d = digits(i, &[n, n, 4, 2]);
                let mk = |l: &str, m: &str| {
                    let mut v: Vec<String> = ["p\n", "q\n", m, "r\n", "s\n"].iter().map(|s| s.to_string()).collect();
                    v[[0, 1, 3, 4][d[2] as usize]] = l.to_string();
                    v
                };
                let (x, y) = (SPECIAL[d[0] as usize], SPECIAL[d[1] as usize]);
                let reverse = d[3] == 1;
                ApplyCase {
                    patch: text_patch(&mk(x, "old\n"), &mk(x, "new\n"), 2),
                    file: mk(y, if reverse { "new\n" } else { "old\n" }),
                    reverse,
                }
            }),
        });
    }
    // FF: lines that are easily confused
    {
        let all = look_alikes();
        let n = all.len() as u64;
        v.push(ApplyFamily {
            name: "lines that are easily confused".into(),
            bound: format!("{n} pairs of lines (common fronts, ends and middles, letters, case, blanks, composition, values of 14 common hashes): the patch replaces, writes, adds, removes, or has as inner or outer context one of them where the file has the other, or that on the next line; both directions"),
            len: n * 2 * 8 * 2 * 2,
            get: Box::new(move |i| {
                let d = digits(i, &[n, 2, 8, 2, 2]);
                let (x, y) = &all[d[0] as usize];
                let (x, y) = if d[1] == 0 { (x, y) } else { (y, x) };
                let mk = |l: &str, ctx: [usize; 2], m: Option<&str>| {
                    let mut v: Vec<String> = vec![];
                    for (j, c) in ["p\n", "q\n", "", "r\n", "s\n"].iter().enumerate() {
                        if j == 2 {
                            v.extend(m.map(String::from));
                        } else {
                            v.push(if ctx.contains(&j) { l.to_string() } else { c.to_string() });
                        }
                    }
                    v
                };
                let none = [9, 9];
                let (b, a, mut file) = match d[2] {
                    0 => (mk(x, none, Some(x)), mk(x, none, Some("new\n")), mk(y, none, Some(y))),
                    1 => (mk(x, none, Some("old\n")), mk(x, none, Some(x)), mk(y, none, Some(y))),
                    2 => (mk(x, none, Some(x)), mk(x, none, None), mk(y, none, Some(y))),
                    3 => (mk(x, none, None), mk(x, none, Some(x)), mk(y, none, Some(y))),
                    4 => (mk(x, none, Some(x)), mk(x, none, Some(y)), mk(y, none, Some(y))),
                    5 => (mk(x, [0, 9], Some("old\n")), mk(x, [0, 9], Some("new\n")), mk(y, [0, 9], Some("old\n"))),
                    6 => (mk(x, [1, 9], Some("old\n")), mk(x, [1, 9], Some("new\n")), mk(y, [1, 9], Some("old\n"))),
                    _ => (mk(x, [1, 3], Some("old\n")), mk(x, [1, 3], Some("new\n")), mk(y, [1, 3], Some("new\n"))),
                };
                if d[3] == 1 {
                    // further on, the real one
                    file.extend(b.iter().cloned());
                }
                ApplyCase { patch: text_patch(&b, &a, 2), file, reverse: d[4] == 1 }
            }),
        });
    }
    // FG: long clumps, of which one line is another
    {
        let sizes: Vec<usize> = (1..=10).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1000, 1025]).collect();
        let n = sizes.len() as u64;
        v.push(ApplyFamily {
            name: "one line of many is another".into(),
            bound: format!("a clump that replaces, adds or removes {sizes:?} lines, with two lines of context; in the file (the original or the result, two lines further down or not) one of the first or last four of its lines, or the middle one, is another by its last or first character; both directions"),
            len: n * 3 * 10 * 2 * 2 * 2 * 2,
            get: Box::new(move |i| {
                let d = digits(i, &[n, 3, 10, 2, 2, 2, 2]);
                let n = sizes[d[0] as usize];
                let block = |t: &str| (0..n).map(|j| format!("{t} {j}\n")).collect::<Vec<_>>();
                let around = |m: Vec<String>| [vec!["p\n".to_string(), "q\n".into()], m, vec!["r\n".into(), "s\n".into()]].concat();
                let (b, a) = match d[1] {
                    0 => (around(block("old")), around(block("new"))),
                    1 => (around(vec![]), around(block("new"))),
                    _ => (around(block("old")), around(vec![])),
                };
                let mut file = if d[3] == 0 { b.clone() } else { a.clone() };
                let p = match d[2] as usize {
                    j @ 0..=3 => 2 + j,
                    j @ 4..=7 => (file.len() + 1).saturating_sub(j),
                    8 => file.len() / 2,
                    _ => usize::MAX,
                };
                if let Some(l) = file.get_mut(p) {
                    let at = if d[4] == 0 { l.len() - 1 } else { 0 };
                    l.insert(at, '!');
                }
                if d[5] == 1 {
                    file.splice(0..0, ["first\n".to_string(), "second\n".into()]);
                }
                ApplyCase { patch: text_patch(&b, &a, 2), file, reverse: d[6] == 1 }
            }),
        });
    }
    v
}

/// Files to apply a large patch to: the source itself; with lines in front; with lines missing in front; with one
/// expected line of the first, middle or last clump changed, or an outermost context line of it; the result; every other clump applied.
fn big_files(ks: &[MClump], src: &[String], variant: u64) -> Option<Vec<String>> {
    let mut f = src.to_vec();
    let j = [0, ks.len() / 2, ks.len().checked_sub(1)?][(variant % 3) as usize];
    let k = &ks[j];
    match variant {
        0 => (),
        1 => drop(f.splice(0..0, ["x1\n", "x2\n", "x3\n"].map(String::from))),
        2 => {
            if ks[0].pre_start < 2 {
                return None;
            }
            f.drain(0..2);
        }
        3..=5 => {
            // a line that is not context
            if k.pre.len() <= k.ctx.0 + k.ctx.1 {
                return None;
            }
            f[k.pre_start + k.ctx.0] = "another\n".into();
        }
        6..=8 => {
            if k.ctx.0 == 0 {
                return None;
            }
            f[k.pre_start] = "another\n".into();
        }
        9..=11 => {
            if k.ctx.1 == 0 {
                return None;
            }
            f[k.pre_start + k.pre.len() - 1] = "another\n".into();
        }
        _ => {
            // 12: all applied, 13: all but every other one, 14: all but the first
            let mut out = vec![];
            let mut c = 0;
            for (i, k) in ks.iter().enumerate() {
                out.extend_from_slice(&src[c..k.pre_start]);
                let applied = variant == 12 || (variant == 13 && i % 2 == 1) || (variant == 14 && i > 0);
                out.extend_from_slice(if applied { &k.post } else { &k.pre });
                c = k.pre_start + k.pre.len();
            }
            out.extend_from_slice(&src[c..]);
            f = out;
        }
    }
    Some(f)
}

const BIG_FILES: u64 = 15;

fn apply_json(c: &ApplyCase, out: Option<&(Vec<u8>, Counts)>) -> serde_json::Value {
    json!({
        "patch": text_patch_json(&c.patch), "file": c.file, "reverse": c.reverse,
        "output": out.map(|o| bytes_str(&o.0)), "counts": out.map(|o| format!("{:?}", o.1)),
    })
}

fn apply_check(
    id: &'static str,
    thorough: bool,
    rule: &'static str,
    oracle: impl Fn(&ApplyCase, &(Vec<u8>, Counts), &mut Explored) -> Result<(), String> + Sync + Send + 'static,
) -> Check {
    let oracle = Arc::new(oracle);
    let big_oracle = oracle.clone();
    let mut families: Vec<Family> = apply_families(thorough)
        .into_iter()
        .map(|f| {
            let oracle = oracle.clone();
            let get = f.get;
            family(f.name, f.bound, f.len, move |i, ctx| {
                let c = get(i);
                note_case(|| apply_json(&c, None).to_string());
                let got = apply_text(&c.patch, &c.file, c.reverse)
                    .map_err(|m| Fail { msg: m, case: apply_json(&c, None) })?;
                ctx.exec += 1;
                ctx.traces += 1;
                if got.1.fuzzy + got.1.already + got.1.already_fuzzy > 0 {
                    ctx.nontrivial(&(&got.0, &c.file, i));
                }
                ctx.count("runs_clean", (got.1.clean > 0) as u64);
                ctx.count("runs_fuzzy", (got.1.fuzzy > 0) as u64);
                ctx.count("runs_already_applied", (got.1.already + got.1.already_fuzzy > 0) as u64);
                ctx.count("runs_failed", (got.1.failed > 0) as u64);
                ctx.outcome(&got);
                ctx.sample(|| apply_json(&c, Some(&got)));
                let mut ex = Explored::default();
                let r = oracle(&c, &got, &mut ex);
                ctx.states += ex.states;
                ctx.transitions += ex.transitions;
                r.map_err(|m| Fail { msg: m, case: apply_json(&c, Some(&got)) })
            })
        })
        .collect();
    families.push(size_family(thorough, true, move |b, ctx| {
        let mut c = ApplyCase { patch: text_patch(&b.before, &b.after, b.context), file: vec![], reverse: false };
        for reverse in [false, true] {
            let ks = mclumps(&c.patch, reverse);
            c.reverse = reverse;
            let src = if reverse { &b.after } else { &b.before };
            for variant in 0..BIG_FILES {
                if (src.len() > 3000 || ks.len() > 100) && variant % 3 != 0 && !thorough {
                    continue;
                }
                let Some(file) = big_files(&ks, src, variant) else { continue };
                beat();
                note_case(|| format!("{}, file {variant}, reverse {reverse}", b.what));
                c.file = file;
                let bad = |m: String| Fail { msg: format!("file {variant}, reverse {reverse}: {m}"), case: json!(null) };
                let got = apply_text(&c.patch, &c.file, reverse).map_err(&bad)?;
                ctx.exec += 1;
                ctx.traces += 1;
                if variant > 0 {
                    ctx.nontrivial(&(&b.what, variant, reverse));
                }
                ctx.outcome(&got);
                let mut ex = Explored::default();
                let r = big_oracle(&c, &got, &mut ex);
                ctx.states += ex.states;
                ctx.transitions += ex.transitions;
                r.map_err(&bad)?;
            }
        }
        Ok(())
    }));
    Check {
        id,
        level: "model_checking",
        rule,
        assumptions: vec!["patches are well formed clump by clump (stated context really is shared); files and patches are small"],
        families,
    }
}

pub fn c08(thorough: bool) -> Check {
    apply_check(
        "C08",
        thorough,
        "a case is (patch, file, direction), run on the real code; non-trivial when some clump was placed fuzzily or found already applied. Oracle: the output must be accepted by the nondeterministic patch machine (states and transitions are its reachable ones, explored exhaustively per case).",
        |c, got, ex| {
            if safe_output(&mclumps(&c.patch, c.reverse), &c.file, &got.0, ex) {
                Ok(())
            } else {
                Err("the output is not the file with disjoint matching regions replaced".into())
            }
        },
    )
}

pub fn c09(thorough: bool) -> Check {
    apply_check(
        "C09",
        thorough,
        "a case is (patch, file, direction), run on the real code; non-trivial when some clump was placed fuzzily or found already applied. Oracle: the patch machine with running displacement and counters must have a run with this output and exactly these counts.",
        |c, got, ex| {
            let n = got.1;
            if n.clean + n.fuzzy + n.already + n.already_fuzzy + n.failed != c.patch.0.len() {
                return Err(format!("{} clumps, but counted {n:?}", c.patch.0.len()));
            }
            if truthful_report(&mclumps(&c.patch, c.reverse), &c.file, &got.0, n, ex) {
                Ok(())
            } else {
                Err(format!("no run of the patch machine gives this output with counts {n:?}"))
            }
        },
    )
}

pub fn c10(thorough: bool) -> Check {
    let mut check = apply_check(
        "C10",
        thorough,
        "a case is (patch, file, direction); the application and all questions about it must return. Non-trivial when some clump was placed fuzzily or found already applied. Crashes (overflow checks on), hangs (watchdog) and unbounded output are violations.",
        |c, _, ex| {
            let s = seq(&c.file);
            let _ = c.patch.is_already_applied(&s, c.reverse);
            for k in &c.patch.0 {
                for off in [-3isize, -1, 0, 1, 3] {
                    let _ = k.will_apply(&s, off, c.reverse);
                    let _ = ApplyClumpFuzzy::is_already_applied(k, &s, off, c.reverse);
                    ex.transitions += 2;
                }
            }
            ex.states += 1;
            Ok(())
        },
    );
    // byte patches, same shapes
    let w = Words::new(&if thorough { [4, 4, 5] } else { [3, 4, 4] }, 3);
    check.families.push(family(
        "binary: all triples",
        "before, after, data over 3 values, contexts 0..2, both directions",
        w.len() * 6,
        move |i, ctx| {
            use pw_diff_lib::apply_bytes::ApplyClumpsClean;
            let d = digits(i, &[w.len(), 3, 2]);
            let p = w.get(d[0]);
            note_case(|| format!("{p:?} context={} reverse={}", d[1], d[2]));
            let patch = byte_patch(&p[0], &p[1], d[1] as u8);
            let case = || json!({"before": p[0], "after": p[1], "data": p[2], "context": d[1], "reverse": d[2]});
            let out = apply_bytes(&patch, &p[2], d[2] == 1).map_err(|m| Fail { msg: m, case: case() })?;
            let _ = patch.already_applied(&bseq(&p[2]), d[2] == 1);
            ctx.exec += 2;
            ctx.states += 1;
            ctx.transitions += 2;
            ctx.traces += 1;
            if p[2] != p[0] && p[2] != p[1] {
                ctx.nontrivial(&(&p, d[1], d[2]));
            }
            ctx.outcome(&out);
            Ok(())
        },
    ));
    // long patches on short files and short patches on long files, wide contexts
    const CS: [u8; 8] = [0, 1, 2, 3, 127, 128, 254, 255];
    const NS: [usize; 7] = [0, 1, 2, 3, 10, 300, 700];
    check.families.push(family(
        "sizes and contexts far apart",
        format!("texts and files of {NS:?} lines (distinct, constant or shifted), contexts {CS:?}, both directions"),
        (NS.len() * NS.len() * NS.len() * CS.len() * 3 * 2) as u64,
        move |i, ctx| {
            let d = digits(i, &[CS.len() as u64, NS.len() as u64, NS.len() as u64, NS.len() as u64, 3, 2]);
            let c = CS[d[0] as usize];
            let (b, a, f) = (NS[d[1] as usize], NS[d[2] as usize], NS[d[3] as usize]);
            let ln = |x: usize| format!("{x}\n");
            let before: Vec<String> = (0..b).map(ln).collect();
            let after: Vec<String> = (0..a).map(|x| if x % 150 == 1 { format!("new {x}\n") } else { ln(x) }).collect();
            let file: Vec<String> = (0..f).map(|x| match d[4] { 0 => ln(x), 1 => ln(1), _ => ln(x + 5) }).collect();
            note_case(|| format!("sizes {b} {a} {f} context {c} kind {} reverse {}", d[4], d[5]));
            let case = || json!({"before": b, "after": a, "file": f, "context": c, "kind": d[4], "reverse": d[5]});
            let p = text_patch(&before, &after, c);
            let (out, n) = apply_text(&p, &file, d[5] == 1).map_err(|m| Fail { msg: m, case: case() })?;
            let _ = p.is_already_applied(&seq(&file), d[5] == 1);
            ctx.exec += 2;
            ctx.states += 1;
            ctx.transitions += 1;
            ctx.traces += 1;
            ctx.outcome(&(out.len(), n));
            if f > 0 && !p.0.is_empty() {
                ctx.nontrivial(&(b, a, f, c, d[4], d[5]));
            }
            Ok(())
        },
    ));
    check
}

// ---------------------------------------------------------------- C11

/// Expected result of a displaced application: every clump placed at a known line of the file.
fn displaced_output(file: &[String], places: &[(usize, &MClump)]) -> Vec<u8> {
    let mut out = vec![];
    let mut c = 0;
    for (p, k) in places {
        out.extend(text(&file[c..*p]));
        out.extend(text(&k.post));
        c = p + k.pre.len();
    }
    out.extend(text(&file[c..]));
    out
}

pub fn c11(thorough: bool) -> Check {
    let mut families = vec![];
    // (1) distinct lines; blocks of new lines inserted at, or lines deleted from, places outside the clumps
    let (n, dmax) = if thorough { (10usize, 6u64) } else { (9usize, 4u64) };
    let g = EditGrid::new(vec![distinct(n)], 2, false);
    // two displacements: place (0..=n+2 in the source text) and amount (-dmax..=dmax) each
    let places = n as u64 + 3;
    let am = 2 * dmax + 1;
    let len = g.total * 4 * 2 * places * am * places * 3;
    let g1 = g.clone();
    families.push(family(
        "lines added or removed around the clumps",
        format!("base of {n} distinct lines, at most 2 edits, contexts 0..3, both directions; at every place outside the clumps up to {dmax} lines added or removed, and at a second place one line added or removed"),
        len,
        move |i, ctx| {
            let d = digits(i, &[g1.total, 4, 2, places, am, places, 3]);
            let (q1, d1) = (d[3] as usize, d[4] as isize - dmax as isize);
            let (q2, d2) = (d[5] as usize, d[6] as isize - 1);
            if (d2 == 0 && q2 != 0) || (d1 == 0 && q1 != 0) {
                return Ok(()); // same case as q = 0
            }
            let (b, a) = g1.get(d[0]);
            let (b, a) = (render16(&b, 0, true), render16(&a, 0, true));
            let reverse = d[2] == 1;
            let patch = text_patch(&b, &a, d[1] as u8);
            let ks = mclumps(&patch, reverse);
            if ks.is_empty() || ks.iter().any(|k| k.pre.is_empty()) {
                return Ok(()); // nothing to look for: no place is better than another
            }
            let src = if reverse { &a } else { &b };
            if q1 > src.len() || q2 > src.len() {
                return Ok(());
            }
            // map each line of the source to the file
            let inside = |q: usize| ks.iter().any(|k| q >= k.pre_start && q < k.pre_start + k.pre.len());
            let mut removed = vec![false; src.len()];
            let mut added = vec![0usize; src.len() + 1];
            for (q, x) in [(q1, d1), (q2, d2)] {
                if x > 0 {
                    if ks.iter().any(|k| q > k.pre_start && q < k.pre_start + k.pre.len()) {
                        return Ok(());
                    }
                    added[q] += x as usize;
                } else {
                    for y in q..q + (-x) as usize {
                        if y >= src.len() || inside(y) || removed[y] {
                            return Ok(());
                        }
                        removed[y] = true;
                    }
                }
            }
            let mut file: Vec<String> = vec![];
            let mut pos = vec![0usize; src.len() + 1];
            let mut fresh = 0;
            for y in 0..=src.len() {
                for _ in 0..added[y] {
                    file.push(format!("added {fresh}\n"));
                    fresh += 1;
                }
                pos[y] = file.len();
                if y < src.len() && !removed[y] {
                    file.push(src[y].clone());
                }
            }
            // is every displacement within what is promised?
            let mut offset = 0isize;
            let mut want = Counts::default();
            let mut list = vec![];
            for (j, k) in ks.iter().enumerate() {
                let off = pos[k.pre_start] as isize - k.pre_start as isize;
                let step = off - offset;
                if let Some(next) = ks.get(j + 1) {
                    let between = next.pre_start - (k.pre_start + k.pre.len());
                    if step > 0 && step as usize >= between {
                        return Ok(());
                    }
                }
                if step == 0 {
                    want.clean += 1
                } else {
                    want.fuzzy += 1
                }
                offset = off;
                list.push((pos[k.pre_start], k));
            }
            let c = ApplyCase { patch, file, reverse };
            note_case(|| apply_json(&c, None).to_string());
            let got = apply_text(&c.patch, &c.file, reverse).map_err(|m| Fail { msg: m, case: apply_json(&c, None) })?;
            ctx.exec += 1;
            if want.fuzzy > 0 {
                ctx.nontrivial(&(&c.file, d[0], d[1], d[2]));
            }
            ctx.outcome(&got);
            ctx.sample(|| apply_json(&c, Some(&got)));
            let out = displaced_output(&c.file, &list);
            if got.0 != out {
                return fail(format!("displaced clumps: expected {:?}", bytes_str(&out)), apply_json(&c, Some(&got)));
            }
            if got.1 != want {
                return fail(format!("displaced clumps: expected counts {want:?}"), apply_json(&c, Some(&got)));
            }
            Ok(())
        },
    ));
    // (2) single clump, two copies of what it expects: the nearest is taken
    let far = if thorough { 12u64 } else { 9 };
    families.push(family(
        "two copies of the expected lines",
        format!("one clump (3 kinds of change, contexts 0..3 with full context) expected at line 0..{far}; copies of its lines at every pair of places up to {far} apart; both directions"),
        3 * 4 * far * far * far * 3 * 2,
        move |i, ctx| {
            let d = digits(i, &[3, 4, far, far, far, 3, 2]);
            let c = d[1] as usize;
            let lead = d[2] as usize; // lines before the clump in the original
            let fresh = |t: &str, n: usize| (0..n).map(|x| format!("{t}{x}\n")).collect::<Vec<_>>();
            let reverse = d[6] == 1;
            let context: Vec<String> = fresh("c", 2 * c);
            let (x, y): (Vec<String>, Vec<String>) = match d[0] {
                0 => (vec!["old\n".into()], vec![]),
                1 => (vec![], vec!["new\n".into(), "newer\n".into()]),
                _ => (vec!["old\n".into()], vec!["new\n".into()]),
            };
            let mk = |m: &[String]| [&fresh("l", lead)[..], &context[..c], m, &context[c..], &fresh("t", 3)].concat();
            let (b, a) = (mk(&x), mk(&y));
            let patch = text_patch(&b, &a, c as u8);
            let ks = mclumps(&patch, reverse);
            if ks.len() != 1 || ks[0].pre.is_empty() || ks[0].ctx != (c, c) {
                return Ok(());
            }
            let k = &ks[0];
            // file: g1 new lines, copy, g2 new lines, copy, 0..2 new lines
            let (g1, g2, g3) = (d[3] as usize, d[4] as usize, d[5] as usize);
            let file = [&fresh("f", g1)[..], &k.pre, &fresh("g", g2), &k.pre, &fresh("h", g3)].concat();
            let (p1, p2) = (g1, g1 + k.pre.len() + g2);
            let dist = |p: usize| (p as isize - k.pre_start as isize).unsigned_abs();
            let best = dist(p1).min(dist(p2));
            let cse = ApplyCase { patch: TPatch(patch.0), file, reverse };
            note_case(|| apply_json(&cse, None).to_string());
            let got = apply_text(&cse.patch, &cse.file, reverse).map_err(|m| Fail { msg: m, case: apply_json(&cse, None) })?;
            ctx.exec += 1;
            ctx.nontrivial(&(i, 2));
            ctx.outcome(&got);
            let ok = [p1, p2].iter().any(|p| dist(*p) == best && got.0 == displaced_output(&cse.file, &[(*p, k)]));
            let n = got.1;
            if !ok || n.clean != (best == 0) as usize || n.fuzzy != (best != 0) as usize || n.failed + n.already + n.already_fuzzy != 0 {
                return fail(format!("expected lines are at {p1} and {p2}, expected place {}: not applied at the nearest", k.pre_start), apply_json(&cse, Some(&got)));
            }
            // the search itself, starting from any part already dealt with
            use pw_diff_lib::sequence::{ConsumableSeq, ConsumableSeqIfce};
            let s = seq(&cse.file);
            for done in 0..=cse.file.len() {
                let mut pd = ConsumableSeq::<String>::new(&s);
                pd.advance_consumed_by(done);
                let got = cse.patch.0[0].will_apply_nearby(&pd, None, 0, reverse);
                let cand: Vec<isize> = [p1, p2].iter().filter(|p| **p >= done).map(|p| *p as isize - k.pre_start as isize).filter(|o| *o != 0).collect();
                let best = cand.iter().map(|o| o.abs()).min();
                ctx.exec += 1;
                let ok = match (got, best) {
                    (Some((o, WillApply::Cleanly)), Some(b)) => o.abs() == b && cand.contains(&o),
                    (None, None) => true,
                    _ => false,
                };
                // a search that starts before the part dealt with is not promised anything about order
                if !ok && k.pre_start >= done {
                    return fail(format!("search with {done} lines dealt with gives {got:?}, candidates {cand:?}"), apply_json(&cse, None));
                }
            }
            Ok(())
        },
    ));
    // (3) large displacements of the last clump
    const DS: [isize; 26] = [
        -70_000, -32_769, -5000, -1025, -1024, -1000, -900, -300, -256, -255, -128, -17, 17, 127, 128, 255, 256, 300, 900, 1000, 1023, 1024, 5000, 32_768, 65_536, 70_000,
    ];
    families.push(family(
        "large displacements",
        format!("one clump among distinct lines displaced by {DS:?}, contexts 0..3, 127, 255, 3 kinds, both directions; also with the displaced clump as the second of two, the first in its place"),
        (DS.len() * 6 * 3 * 2 * 2) as u64,
        move |i, ctx| {
            let d = digits(i, &[DS.len() as u64, 6, 3, 2, 2]);
            let c = [0u8, 1, 2, 3, 127, 255][d[1] as usize];
            let reverse = d[3] == 1;
            let by = DS[d[0] as usize];
            let second = d[4] == 1;
            beat();
            let gone = (-by).max(0) as usize;
            let place = 1400 + gone;
            let mut b: Vec<String> = (0..place + 600).map(|x| format!("{x}\n")).collect();
            let mut a = b.clone();
            match d[2] {
                0 => {
                    a.remove(place);
                }
                1 => a.insert(place, "new\n".into()),
                _ => a[place] = "new\n".into(),
            }
            if second {
                a[300] = "first\n".into();
                if d[2] == 1 {
                    b[301] = "second\n".into();
                }
            }
            let patch = text_patch(&b, &a, c);
            let ks = mclumps(&patch, reverse);
            let n = 1 + second as usize;
            if ks.len() != n || ks[n - 1].pre.is_empty() {
                return Ok(());
            }
            let src = if reverse { &a } else { &b };
            // lines added or removed between the two, or in front
            let from = if second { 700 } else { 0 };
            let mut file: Vec<String> = src[..from].to_vec();
            file.extend((0..by.max(0)).map(|x| format!("added {x}\n")));
            file.extend_from_slice(&src[from + gone..]);
            let p = (ks[n - 1].pre_start as isize + by) as usize;
            let case = json!({"context": c, "displacement": by, "kind": d[2], "reverse": reverse, "second": second});
            note_case(|| case.to_string());
            let got = apply_text(&patch, &file, reverse).map_err(|m| Fail { msg: m, case: case.clone() })?;
            ctx.exec += 1;
            ctx.nontrivial(&(i, 3));
            ctx.outcome(&got.1);
            let mut want = vec![(p, &ks[n - 1])];
            if second {
                want.insert(0, (ks[0].pre_start, &ks[0]));
            }
            // the displaced clump may not overtake what has been dealt with
            if got.0 != displaced_output(&file, &want) || got.1 != (Counts { fuzzy: 1, clean: n - 1, ..Counts::default() }) {
                return fail(format!("not applied at its displaced place (counts {:?})", got.1), case);
            }
            Ok(())
        },
    ));
    // (4) many clumps, displaced more and more
    const KS: [usize; 9] = [2, 3, 8, 17, 64, 100, 255, 256, 300];
    families.push(family(
        "many displaced clumps",
        format!("{KS:?} clumps, 30 lines apart, among distinct lines; before each one, every second, every seventh or only the last: up to 9 lines added or removed, or both in turn; contexts 1..3, both directions"),
        (KS.len() * 4 * 6 * 3 * 2) as u64,
        move |i, ctx| {
            let d = digits(i, &[KS.len() as u64, 4, 6, 3, 2]);
            let k = KS[d[0] as usize];
            let step = [1, 2, 7, k][d[1] as usize];
            let reverse = d[4] == 1;
            beat();
            let b: Vec<String> = (0..30 * (k + 1)).map(|x| format!("{x}\n")).collect();
            let mut a = vec![];
            for (x, l) in b.iter().enumerate() {
                match (x % 30 == 29 && x / 30 < k).then_some(x / 30 % 3) {
                    None => a.push(l.clone()),
                    Some(0) => a.push(format!("new {x}\n")),
                    Some(1) => (),
                    _ => a.extend([format!("new {x}\n"), l.clone()]),
                }
            }
            let patch = text_patch(&b, &a, d[3] as u8 + 1);
            let ks = mclumps(&patch, reverse);
            let case = json!({"clumps": k, "step": step, "kind": d[2], "context": d[3] + 1, "reverse": reverse});
            if ks.len() != k {
                return fail(format!("{} clumps instead of {k}", ks.len()), case);
            }
            let src = if reverse { &a } else { &b };
            let mut file = vec![];
            let mut places = vec![];
            let mut want = Counts::default();
            let mut at = 0;
            for (j, m) in ks.iter().enumerate() {
                let by: isize = if (j + 1) % step != 0 {
                    0
                } else {
                    match d[2] {
                        0 => 1,
                        1 => 9,
                        2 => -1,
                        3 => -9,
                        4 => [3, -3][(j / step) % 2],
                        _ => [5, -2, 1][(j / step) % 3],
                    }
                };
                // the change is made a few lines in front of the clump
                let q = m.pre_start - 12;
                file.extend_from_slice(&src[at..q]);
                for x in 0..by.max(0) {
                    file.push(format!("added {j} {x}\n"));
                }
                let q = q + (-by).max(0) as usize;
                file.extend_from_slice(&src[q..m.pre_start]);
                places.push((file.len(), m));
                file.extend_from_slice(&m.pre);
                at = m.pre_start + m.pre.len();
                if by == 0 {
                    want.clean += 1
                } else {
                    want.fuzzy += 1
                }
            }
            file.extend_from_slice(&src[at..]);
            note_case(|| case.to_string());
            let got = apply_text(&patch, &file, reverse).map_err(|m| Fail { msg: m, case: case.clone() })?;
            ctx.exec += 1;
            ctx.nontrivial(&(i, 4));
            ctx.outcome(&got.1);
            if got.0 != displaced_output(&file, &places) || got.1 != want {
                return fail(format!("not applied at the displaced places (counts {:?} instead of {want:?})", got.1), case);
            }
            Ok(())
        },
    ));
    Check {
        id: "C11",
        level: "exploration",
        rule: "a case is (patch, displaced file, direction); non-trivial when at least one clump is displaced. Expected lines are unique (or two copies, family 2), so the expected output is known exactly.",
        assumptions: vec!["clumps that expect no line at all (pure insertion without context) are left out: nothing determines their place"],
        families,
    }
}

// ---------------------------------------------------------------- C12

pub fn c12(thorough: bool) -> Check {
    let mut families = vec![];
    let n = if thorough { 12 } else { 9 };
    let m = if thorough { 3 } else { 2 };
    let g = EditGrid::new(vec![distinct(n)], m, false);
    let cs = 4u64; // contexts 2..5
    families.push(family(
        "outer context lines changed",
        format!("base of {n} distinct lines, at most {m} edits, contexts 2..5, both directions; every number of outermost context lines changed on each side of each of the first two clumps; replaced by new lines or by a line from elsewhere"),
        g.total * cs * 2 * 2 * 25 * 25,
        move |i, ctx| {
            let d = digits(i, &[g.total, cs, 2, 2, 25, 25]);
            let reverse = d[2] == 1;
            let (b, a) = g.get(d[0]);
            let (b, a) = (render16(&b, 0, true), render16(&a, 0, true));
            let patch = text_patch(&b, &a, d[1] as u8 + 2);
            let ks = mclumps(&patch, reverse);
            if ks.is_empty() || (ks.len() < 2 && d[5] != 0) {
                return Ok(());
            }
            let src = if reverse { &a } else { &b };
            let mut file = src.clone();
            let mut want = Counts::default();
            let mut out: Vec<u8> = vec![];
            let mut c = 0;
            let mut expect = vec![];
            for (j, k) in ks.iter().enumerate() {
                let (x, y) = match j {
                    0 => ((d[4] / 5) as usize, (d[4] % 5) as usize),
                    1 => ((d[5] / 5) as usize, (d[5] % 5) as usize),
                    _ => (0, 0),
                };
                let (s, e) = k.ctx;
                let r = x.max(y);
                if x > s || y > e || (r > 0 && r >= s.max(e)) {
                    return Ok(());
                }
                for z in 0..x {
                    file[k.pre_start + z] = if d[3] == 0 { format!("changed {j} {z}\n") } else { "z\n".into() };
                }
                for z in 0..y {
                    file[k.pre_start + k.pre.len() - 1 - z] = if d[3] == 0 { format!("changed {j} {z} t\n") } else { "z\n".into() };
                }
                let red = (r.min(s), r.min(e));
                if r == 0 {
                    want.clean += 1
                } else {
                    want.fuzzy += 1
                }
                expect.push(if r == 0 { WillApply::Cleanly } else { WillApply::WithReductions((red.0 as u8, red.1 as u8)) });
                let end = k.pre_start + k.pre.len() - red.1;
                out.extend(text(&file[c..k.pre_start + red.0]));
                out.extend(text(&k.post[red.0..k.post.len() - red.1]));
                c = end;
            }
            out.extend(text(&file[c..]));
            let cse = ApplyCase { patch, file, reverse };
            note_case(|| apply_json(&cse, None).to_string());
            let s = seq(&cse.file);
            for (k, e) in cse.patch.0.iter().zip(&expect) {
                let got = k.will_apply(&s, 0, reverse);
                ctx.exec += 1;
                if got.as_ref() != Some(e) {
                    return fail(format!("decision is {got:?}, expected {e:?}"), apply_json(&cse, None));
                }
            }
            let got = apply_text(&cse.patch, &cse.file, reverse).map_err(|m| Fail { msg: m, case: apply_json(&cse, None) })?;
            ctx.exec += 1;
            if want.fuzzy > 0 {
                ctx.nontrivial(&(&cse.file, &got.0, d[0], d[1]));
            }
            ctx.outcome(&got);
            ctx.sample(|| apply_json(&cse, Some(&got)));
            if got.0 != out {
                return fail(format!("expected {:?}", bytes_str(&out)), apply_json(&cse, Some(&got)));
            }
            if got.1 != want {
                return fail(format!("expected counts {want:?}"), apply_json(&cse, Some(&got)));
            }
            Ok(())
        },
    ));
    // wide contexts: reductions up to 254 (u8 arithmetic)
    const CS: [usize; 5] = [100, 127, 128, 200, 255];
    families.push(family(
        "wide contexts",
        format!("contexts {CS:?}, one change in 600 distinct lines at 3 places, outermost 1, c/2, c-2, c-1 context lines changed on either or both sides, 3 kinds, both directions"),
        (CS.len() * 3 * 5 * 5 * 3 * 2) as u64,
        move |i, ctx| {
            let d = digits(i, &[CS.len() as u64, 3, 5, 5, 3, 2]);
            let c = CS[d[0] as usize];
            let at = [c, 300, c / 2][d[1] as usize];
            let v = |x: u64| [0, 1, c / 2, c - 2, c - 1][x as usize];
            let (x, y) = (v(d[2]), v(d[3]));
            let reverse = d[5] == 1;
            let b: Vec<String> = (0..600).map(|x| format!("{x}\n")).collect();
            let mut a = b.clone();
            match d[4] {
                0 => {
                    a.remove(at);
                }
                1 => a.insert(at, "new\n".into()),
                _ => a[at] = "new\n".into(),
            }
            let patch = text_patch(&b, &a, c as u8);
            let ks = mclumps(&patch, reverse);
            let case = json!({"context": c, "at": at, "changed": [x, y], "kind": d[4], "reverse": reverse});
            note_case(|| case.to_string());
            if ks.len() != 1 {
                return fail("one change, but not one clump", case);
            }
            let k = &ks[0];
            let (s, e) = k.ctx;
            let r = x.max(y);
            if x > s || y > e || r >= s.max(e) {
                return Ok(());
            }
            let mut file = if reverse { a.clone() } else { b.clone() };
            for z in 0..x {
                file[k.pre_start + z] = format!("changed {z}\n");
            }
            for z in 0..y {
                file[k.pre_start + k.pre.len() - 1 - z] = format!("changed {z} t\n");
            }
            let red = (r.min(s), r.min(e));
            let got = apply_text(&patch, &file, reverse).map_err(|m| Fail { msg: m, case: case.clone() })?;
            ctx.exec += 1;
            ctx.nontrivial(&(i, 2));
            ctx.outcome(&got.1);
            let want = [
                text(&file[..k.pre_start + red.0]),
                text(&k.post[red.0..k.post.len() - red.1]),
                text(&file[k.pre_start + k.pre.len() - red.1..]),
            ]
            .concat();
            if got.0 != want || got.1.fuzzy != (r > 0) as usize || got.1.clean != (r == 0) as usize {
                return fail(format!("wrong result with counts {:?}", got.1), case);
            }
            Ok(())
        },
    ));
    Check {
        id: "C12",
        level: "exploration",
        rule: "a case is (patch, file with changed outer context, direction); non-trivial when some context line was changed. The expected output, decision per clump and counts are known exactly.",
        assumptions: vec!["base lines are distinct, so that the place of each clump is unique"],
        families,
    }
}

// ---------------------------------------------------------------- C13

fn already_complete(b: &[String], a: &[String], c: u8, ctx: &mut Ctx) -> R {
    note_case(|| format!("before={b:?} after={a:?} context={c}"));
    let p = text_patch(b, a, c);
    ctx.exec += 2;
    if a != b {
        ctx.nontrivial(&(b, a, c));
    }
    if !p.is_already_applied(&seq(a), false) {
        return fail("the patch is not recognised as already applied to its result", json!({"before": b, "after": a, "context": c}));
    }
    if !p.is_already_applied(&seq(b), true) {
        return fail("the reversed patch is not recognised as already applied to the original", json!({"before": b, "after": a, "context": c}));
    }
    Ok(())
}

pub fn c13(thorough: bool) -> Check {
    let mut families = vec![];
    for (k, n) in if thorough { [(4usize, 6usize), (3, 7), (2, 9)] } else { [(4, 5), (3, 6), (2, 8)] } {
        let w = Words::new(&[n, n], k);
        families.push(family(
            format!("result recognised k={k}"),
            format!("all pairs of at most {n} lines over {k}, contexts 0..3"),
            w.len() * 4,
            move |i, ctx| {
                let d = digits(i, &[w.len(), 4]);
                let p = w.get(d[0]);
                already_complete(&render(&p[0], 0, true), &render(&p[1], 0, true), d[1] as u8, ctx)
            },
        ));
    }
    let n = if thorough { 12 } else { 10 };
    let g = EditGrid::new(vec![distinct(n), periodic(n, 2), periodic(n, 3)], if thorough { 3 } else { 2 }, true);
    families.push(family(
        "result recognised, edited texts",
        format!("bases of {n} lines, edits, contexts 0..3, final newline on or off"),
        g.total * 4 * 4,
        move |i, ctx| {
            let d = digits(i, &[g.total, 4, 4]);
            let (b, a) = g.get(d[0]);
            let (e0, e1) = EOLS[d[2] as usize];
            already_complete(&render16(&b, 0, e0), &render16(&a, 0, e1), d[1] as u8, ctx)
        },
    ));
    families.push(wide_family(already_complete));
    families.push(special_family(thorough, already_complete));
    families.push(alike_family(already_complete));
    families.push(size_pairs(thorough, already_complete));
    let cases: Vec<(usize, usize)> = one_of_many();
    families.push(family(
        "one clump of many is not applied",
        format!("1 to 400 clumps; all of them applied but one, each in turn (of more than 33: those around powers of two and at the ends): its result lines are in the file nowhere; contexts 0..2, both directions"),
        cases.len() as u64 * 3 * 2,
        move |i, ctx| {
            let d = digits(i, &[cases.len() as u64, 3, 2]);
            let ((k, j), c, reverse) = (cases[d[0] as usize], d[1] as u8, d[2] == 1);
            let b: Vec<String> = (0..10 * k + 5).map(|x| format!("{x}\n")).collect();
            let mut a = b.clone();
            for x in 0..k {
                a[10 * x + 5] = format!("new {x}\n");
            }
            let patch = text_patch(&b, &a, c);
            let mut file = if reverse { b } else { a };
            file[10 * j + 5] = "another\n".into();
            let case = json!({"clumps": k, "not applied": j, "context": c, "reverse": reverse});
            note_case(|| case.to_string());
            ctx.exec += 1;
            ctx.nontrivial(&(i, 13));
            if patch.is_already_applied(&seq(&file), reverse) {
                return fail("called already applied, but the result lines of a clump are not in the file", case);
            }
            file[10 * j + 5] = if reverse { format!("{}\n", 10 * j + 5) } else { format!("new {j}\n") };
            if !patch.is_already_applied(&seq(&file), reverse) {
                return fail("result lines in their places, but not called already applied", case);
            }
            Ok(())
        },
    ));
    for f in apply_families(thorough) {
        let get = f.get;
        families.push(family(f.name, f.bound, f.len, move |i, ctx| {
            let c = get(i);
            note_case(|| apply_json(&c, None).to_string());
            let ks = mclumps(&c.patch, c.reverse);
            let yes = c.patch.is_already_applied(&seq(&c.file), c.reverse);
            ctx.exec += 1;
            ctx.outcome(&yes);
            if yes {
                ctx.count("said_already_applied", 1);
                ctx.nontrivial(&(i, &c.file));
                for k in &ks {
                    if !k.reductions().iter().any(|r| occurs(&c.file, MClump::reduced(&k.post, *r)).is_some()) {
                        return fail("called already applied, but the result lines of a clump are not in the file", apply_json(&c, None));
                    }
                }
            }
            // expected lines nowhere, result lines in their places: the file must stay as it is
            let absent = ks.iter().all(|k| {
                k.reductions().iter().all(|r| {
                    let p = MClump::reduced(&k.pre, *r);
                    occurs(&c.file, p).is_none()
                })
            });
            let there = ks.iter().all(|k| at(&c.file, &k.post, k.post_start));
            if absent && there && !ks.is_empty() {
                ctx.count("left_alone_cases", 1);
                ctx.nontrivial(&(i, &c.file));
                let got = apply_text(&c.patch, &c.file, c.reverse).map_err(|m| Fail { msg: m, case: apply_json(&c, None) })?;
                ctx.exec += 1;
                if got.0 != text(&c.file) || got.1 != (Counts { already: ks.len(), ..Counts::default() }) {
                    return fail("an already applied patch changed the file or was counted otherwise", apply_json(&c, Some(&got)));
                }
                if !yes {
                    return fail("result lines in their places, but not called already applied", apply_json(&c, None));
                }
            }
            Ok(())
        }));
    }
    Check {
        id: "C13",
        level: "exploration",
        rule: "a case is (patch, file, direction); non-trivial when the patch changes something and is, or must be, recognised as already applied. Oracles: by construction (result of the patch), by searching the result lines in the file, and unchanged output.",
        assumptions: vec![],
        families,
    }
}
