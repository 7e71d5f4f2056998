//! Texts whose lines, sizes or numbers are out of the ordinary, shared by the checks of text patches.

use crate::common::text;
use crate::engine::*;
use crate::gen::*;
use pw_diff_lib::sequence::Seq;
use std::sync::Arc;

/// Lines that look alike, look like something else, or hold characters that programs treat specially.
pub const SPECIAL: [&str; 40] = [
    "a\n", "a\r\n", "a \n", " a\n", "a\t\n", "A\n", "\n", "\r\n", " \n", "a\ra\n", "\u{feff}a\n", "\u{feff}\n", "a\u{0}\n", "\u{0}\n", "e\u{301}\n", "\u{e9}\n", "a\u{2028}\n", "a\u{85}\n",
    "a\u{b}\n", "a\u{c}\n", "a\u{1a}\n", "\u{fffd}\n", "-a\n", "+a\n", "--- a\n", "+++ a\n", "@@ -1 +1 @@\n", "<<<<<<<\n", "=======\n", ">>>>>>>\n", "\\ No newline at end of file\n", "\\\n",
    "\"a\"\n", "\u{200b}a\n", "\u{10ffff}\n", "\u{ad}a\n", "ａ\n", "\u{1b}[0m\n", "\t\n", "\\n\n",
];

/// The text goes through the code's own reader.
pub fn read_lines(bytes: &[u8]) -> Result<Vec<String>, String> {
    match Seq::<String>::read(bytes) {
        Ok(s) => Ok(s.0.to_vec()),
        Err(e) => Err(format!("reading {bytes:?}: {e}")),
    }
}

/// All texts of at most two special lines, with and without the final newline.
pub fn special_texts() -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = vec![vec![]];
    let cut = |l: &str| l[..l.len() - 1].to_string();
    for x in SPECIAL {
        v.push(vec![x.into()]);
        if x.len() > 1 {
            v.push(vec![cut(x)]);
        }
    }
    for x in SPECIAL {
        for y in SPECIAL {
            v.push(vec![x.into(), y.into()]);
        }
    }
    for x in SPECIAL {
        for y in ["a\n", "\u{feff}\n", "a\r\n", "\u{0}\n"] {
            v.push(vec![x.into(), cut(y)]);
            if x.len() > 1 {
                v.push(vec![y.into(), cut(x)]);
            }
        }
    }
    v.sort();
    v.dedup();
    v.sort_by_key(|t| text(t).len());
    v
}

/// Pairs of different lines that a careless comparison takes for equal: a shared front or end, length, letters or sum,
/// a number, what some notion of text ignores, or the same value of a weak hash (found by search).
pub fn look_alikes() -> &'static Vec<(String, String)> {
    static ALL: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v: Vec<(String, String)> = [
            ("ab\n", "ba\n"), ("ad\n", "bc\n"), ("1\n", "01\n"), ("1\n", "1.0\n"), ("1\n", "+1\n"), ("ß\n", "ss\n"), ("ß\n", "ẞ\n"), ("i\n", "İ\n"), ("k\n", "\u{212a}\n"), ("é\n", "e\u{301}\n"), ("ﬁ\n", "fi\n"),
            ("a b\n", "a  b\n"), ("a b\n", "ab\n"), ("a b\n", "a\tb\n"), ("a b\n", "a\u{a0}b\n"), ("a\u{0}b\n", "a\u{0}c\n"), ("a\u{0}\n", "a\n"), ("aXb\n", "aYb\n"), ("aa\n", "aaa\n"), ("null\n", "\n"), ("null\n", "NULL\n"), ("true\n", "True\n"),
            ("a # x\n", "a # y\n"), ("// x\n", "// y\n"), ("$Id: 1 $\n", "$Id: 2 $\n"), ("a;\n", "a\n"), ("a\r\n", "a\n"), ("a\r\r\n", "a\r\n"), ("a\u{200d}\n", "a\n"), ("\u{1f600}\n", "\u{1f601}\n"), ("Aa\n", "BB\n"), ("\u{3b1}\n", "a\n"), ("plumless\n", "buckeroo\n"), ("costarring\n", "liquid\n"), ("creamwove\n", "quists\n"),
        ]
        .iter()
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect();
        // a shared front, a shared end, one byte apart in the middle
        for n in [8, 16, 32, 64, 80, 127, 128, 132, 255, 256, 512, 1000, 1024, 2048, 4096, 8192, 65_536] {
            let x = "x".repeat(n);
            v.push((format!("{x}1\n"), format!("{x}2\n")));
            v.push((format!("1{x}\n"), format!("2{x}\n")));
            v.push((format!("{x}1{x}\n"), format!("{x}2{x}\n")));
            v.push((format!("{x}\n"), format!("{x}x\n")));
        }
        let hashes: [fn(&str) -> u64; 14] = [
            |l| l.bytes().fold(0u32, |h, c| h.wrapping_mul(31).wrapping_add(c as u32)) as u64,
            |l| l.bytes().fold(5381u32, |h, c| h.wrapping_mul(33).wrapping_add(c as u32)) as u64,
            |l| l.bytes().fold(5381u32, |h, c| h.wrapping_mul(33) ^ c as u32) as u64,
            |l| l.bytes().fold(0u32, |h, c| h.wrapping_mul(65599).wrapping_add(c as u32)) as u64,
            |l| l.bytes().fold(0x811c_9dc5u32, |h, c| (h ^ c as u32).wrapping_mul(0x0100_0193)) as u64,
            |l| l.bytes().fold(0x811c_9dc5u32, |h, c| h.wrapping_mul(0x0100_0193) ^ c as u32) as u64,
            |l| l.bytes().fold(0u32, |h, c| h.rotate_left(5) ^ c as u32) as u64,
            |l| l.bytes().fold(0u64, |h, c| h.wrapping_mul(31).wrapping_add(c as u64)) & 0xffff_ffff,
            |l| l.bytes().fold(0u64, |h, c| h + c as u64),
            |l| l.bytes().fold(0u64, |h, c| h ^ c as u64) | (l.len() as u64) << 8,
            |l| sip(l) & 0xffff_ffff,
            |l| sip(l) >> 32,
            |l| l.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, c| (h ^ c as u64).wrapping_mul(0x100_0000_01b3)) & 0xffff_ffff,
            |l| l.bytes().fold((1u32, 0u32), |(a, b), c| ((a + c as u32) % 65521, (b + a + c as u32) % 65521)).into_u64(),
        ];
        for h in hashes {
            let mut seen = std::collections::HashMap::new();
            for i in 0..400_000u64 {
                let l = format!("line {i}\n");
                if let Some(m) = seen.insert(h(&l), l.clone()) {
                    v.push((m, l));
                    break;
                }
            }
        }
        v
    })
}

fn sip(l: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::hash::DefaultHasher::new();
    l.hash(&mut h);
    h.finish()
}

trait IntoU64 {
    fn into_u64(self) -> u64;
}

impl IntoU64 for (u32, u32) {
    fn into_u64(self) -> u64 {
        (self.1 as u64) << 16 | self.0 as u64
    }
}

/// Pairs of lines that are easily confused: every text of at most two of them and a third line against every other.
pub fn alike_family(run: impl Fn(&[String], &[String], u8, &mut Ctx) -> R + Sync + Send + 'static) -> Family {
    let all = look_alikes();
    let words: Vec<Vec<u8>> = all_words(2, 3);
    let (p, n) = (all.len() as u64, words.len() as u64);
    family(
        "lines that are easily confused",
        format!("{p} pairs of different lines (a common front, end or middle of up to 65536 bytes, the same letters, case, blanks, composition, or the same value of 14 common hashes); all texts of at most two out of the pair and a third line; final newline present or not; contexts 0 and 1"),
        p * n * n * 4 * 2,
        move |i, ctx| {
            let d = digits(i, &[p, n, n, 4, 2]);
            let (x, y) = &all[d[0] as usize];
            if x.len() > 20_000 && d[3] != 0 {
                return Ok(());
            }
            let mk = |j: u64, cut: bool| {
                let mut v: Vec<String> = words[j as usize].iter().map(|s| [x.clone(), y.clone(), "third\n".into()][*s as usize].clone()).collect();
                if cut {
                    if let Some(l) = v.last_mut() {
                        l.pop();
                        if l.is_empty() {
                            v.pop();
                        }
                    }
                }
                v
            };
            run(&mk(d[1], d[3] & 1 == 1), &mk(d[2], d[3] & 2 == 2), d[4] as u8, ctx)
        },
    )
}

type Run = dyn Fn(&[String], &[String], u8, &mut Ctx) -> R + Sync + Send;

/// Every pair out of: one special line or two against one special line or two (one of them in common, or not).
pub fn special_family(thorough: bool, run: impl Fn(&[String], &[String], u8, &mut Ctx) -> R + Sync + Send + 'static) -> Family {
    special_family_of(thorough, Arc::new(run))
}

fn special_family_of(thorough: bool, run: Arc<Run>) -> Family {
    let all = special_texts();
    // quick: every text against every text of at most one line
    let few: Vec<Vec<String>> = all.iter().filter(|t| t.len() <= 1 || thorough).cloned().collect();
    let (n, m) = (all.len() as u64, few.len() as u64);
    family(
        "special lines",
        format!(
            "{n} texts: all of at most two lines out of {} that look alike or hold special characters (byte order mark, carriage return, blanks, NUL, composed and decomposed letters, patch and conflict markers), final newline present or not; against {m} of them, in either order; contexts 0 and 1; read by the code's own reader",
            SPECIAL.len()
        ),
        n * m * 2 * 2,
        move |i, ctx| {
            let d = digits(i, &[n, m, 2, 2]);
            let (mut b, mut a) = (&all[d[0] as usize], &few[d[1] as usize]);
            if d[2] == 1 {
                std::mem::swap(&mut b, &mut a);
            }
            let mut sides = vec![];
            for t in [b, a] {
                let got = read_lines(&text(t)).map_err(|m| Fail { msg: m, case: serde_json::json!(t) })?;
                if got != *t {
                    return fail(format!("read as {got:?}"), serde_json::json!(t));
                }
                sides.push(got);
            }
            run(&sides[0], &sides[1], d[3] as u8, ctx)
        },
    )
}

/// One of the large cases: what it is, before, after, context.
pub struct Big {
    pub what: String,
    pub before: Vec<String>,
    pub after: Vec<String>,
    pub context: u8,
}

#[derive(Clone, Copy)]
enum Shape {
    /// lines, place of the change (0 start, 1 middle, 2 end), kind, context
    Lines(usize, u8, u8, u8),
    /// length of the long line, which of the five it is, where it changes (0 first, 1 last byte, 2 neighbour, 3 loses its newline, 4 middle, 5 exchanged), kind
    Length(usize, u8, u8),
    /// number of changes, lines between them, context, further lines before the first and after the last
    Clumps(usize, usize, u8, usize, usize),
    /// lines, context: changes all over the text, several of them close to its end
    Several(usize, u8),
    /// lines, every how many lines the same line comes, context, kind of the other side
    Popular(usize, usize, u8, u8),
    /// replaced lines, with two unchanged ones between each
    Replaced(usize),
    /// size of the changed block, kind, context
    Block(usize, u8, u8),
}

fn shapes(thorough: bool) -> Vec<Shape> {
    let mut v = vec![];
    let mut lines = vec![127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 70_000, 100_000];
    if thorough {
        lines.extend([131_073, 300_000]);
    }
    for n in lines {
        for place in 0..3 {
            for kind in 0..3 {
                for c in [0u8, 3, 255] {
                    if n > 5000 && !thorough && (c == 0 || kind == 1) {
                        continue;
                    }
                    v.push(Shape::Lines(n, place, kind, c));
                }
            }
        }
    }
    let mut lengths = vec![126, 127, 128, 254, 255, 256, 257, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 8194, 16384, 65534, 65535, 65536, 65537, 100_000];
    if thorough {
        lengths.push(1 << 20);
    }
    for l in lengths {
        for which in 0..5 {
            for change in 0..6 {
                v.push(Shape::Length(l, which, change));
            }
        }
    }
    let mut counts = vec![2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500];
    if thorough {
        counts.extend([1000, 1024, 4000]);
    }
    for k in counts {
        for (gap, c) in [(1, 0), (2, 1), (6, 3), (7, 3), (8, 3), (20, 10)] {
            if k > 300 && gap > 8 {
                continue;
            }
            v.push(Shape::Clumps(k, gap, c, 0, 0));
        }
    }
    for k in [2, 40, 100, 130, 255, 256, 257, 300] {
        for (gap, c) in [(1, 0), (1, 3), (5, 3), (7, 3), (1, 255), (30, 20)] {
            for (head, tail) in [(0, 300), (300, 0), (300, 300)] {
                if k * gap > 2000 {
                    continue;
                }
                v.push(Shape::Clumps(k, gap, c, head, tail));
            }
        }
    }
    for n in [100, 1000, 5000, 40_000, 66_000, 80_000, 140_000] {
        for c in [0, 3] {
            v.push(Shape::Several(n, c));
        }
    }
    for n in [50, 99, 100, 101, 199, 200, 201, 255, 256, 257, 300, 500, 1000, 2000] {
        for every in [1, 2, 3, 10, 50] {
            for kind in 0..6 {
                if n <= 300 || every >= 10 || (kind >= 2 && every > 1) {
                    v.push(Shape::Popular(n, every, [0, 3][n % 2], kind));
                }
            }
        }
    }
    v.extend([65, 129, 257, 513, 1025, 1500].map(Shape::Replaced));
    if thorough {
        v.extend([2049, 4097].map(Shape::Replaced));
    }
    for n in [127usize, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 5000, 40_000, 66_000] {
        for kind in 0..7 {
            for c in [0, 2, 3, 128, 255] {
                if (n > 6000 || kind > 2) && c != 3 {
                    continue;
                }
                v.push(Shape::Block(n, kind, c));
            }
        }
    }
    v
}

fn build(s: Shape) -> Big {
    let num = |n: usize| (0..n).map(|x| format!("{x}\n")).collect::<Vec<_>>();
    let (before, after, context, what);
    match s {
        Shape::Lines(n, place, kind, c) => {
            let b = num(n);
            let mut a = b.clone();
            let p = [0, n / 2, n - 1][place as usize];
            match kind {
                0 => {
                    a.remove(p);
                }
                1 => a.insert(if place == 2 { n } else { p }, "new\n".into()),
                _ => a[p] = "new\n".into(),
            }
            what = format!("{n} lines, change {kind} at {p}, context {c}");
            (before, after, context) = (b, a, c);
        }
        Shape::Length(l, which, change) => {
            let mut b = num(5);
            let which = which as usize;
            b[which] = format!("{}\n", "long ".repeat(l / 5 + 1)[..l - 1].to_string());
            let mut a = b.clone();
            match change {
                0 => a[which].replace_range(0..1, "L"),
                1 => {
                    a[which].pop();
                    a[which].pop();
                    a[which].push_str("!\n");
                }
                2 => a[(which + 1) % 5] = "changed\n".into(),
                // in the middle; two bytes exchanged there
                4 => {
                    let at = l / 2 - 1;
                    a[which].replace_range(at..at + 1, "#");
                }
                5 => {
                    let at = (l / 2 - 1) / 5 * 5;
                    a[which].replace_range(at..at + 2, "ol");
                }
                _ => {
                    a.truncate(which + 1);
                    a[which].pop();
                }
            }
            what = format!("line {which} of 5 has {l} bytes, change {change}");
            (before, after, context) = (b, a, 2);
        }
        Shape::Clumps(k, gap, c, head, tail) => {
            let b = num(head + k * (gap + 1) + gap + tail);
            let mut a = vec![];
            for (x, l) in b.iter().enumerate() {
                if x < head || x >= head + k * (gap + 1) {
                    a.push(l.clone());
                    continue;
                }
                let x = x - head;
                if x % (gap + 1) == gap {
                    match x / (gap + 1) % 3 {
                        0 => a.push(format!("new {x}\n")),
                        1 => (),
                        _ => a.extend([format!("new {x}\n"), l.clone()]),
                    }
                } else {
                    a.push(l.clone());
                }
            }
            what = format!("{k} changes every {} lines, {head} lines in front, {tail} lines behind, context {c}", gap + 1);
            (before, after, context) = (b, a, c);
        }
        Shape::Several(n, c) => {
            let b = num(n);
            let mut a = vec![];
            let places = [2, n / 4, n / 2, n / 2 + 15, n - 40, n - 28, n - 16, n - 3];
            for (x, l) in b.iter().enumerate() {
                match places.iter().position(|p| *p == x) {
                    None => a.push(l.clone()),
                    Some(j) if j % 3 == 0 => a.push(format!("new {x}\n")),
                    Some(j) if j % 3 == 1 => (),
                    _ => a.extend([format!("new {x}\n"), l.clone()]),
                }
            }
            what = format!("{n} lines, {} changes, context {c}", places.len());
            (before, after, context) = (b, a, c);
        }
        Shape::Popular(n, every, c, kind) => {
            let with = |own: &str, every: usize, n: usize| (0..n).map(|x| if x % every == every - 1 { "same\n".to_string() } else { format!("{own} {x}\n") }).collect::<Vec<_>>();
            let b = with("before", every, n);
            what = format!("{n} lines, every {every}. of them the same, the other side of kind {kind}, context {c}");
            context = c;
            let (x, y) = match kind {
                // nothing else in common
                0 => (b, with("after", every, n)),
                1 => (b, with("after", every + 1, n)),
                // the one line
                2 => (b, vec!["same\n".to_string()]),
                3 => (b, with("after", n / 2, n)),
                // more in common
                4 => {
                    let mut a = b.clone();
                    a.drain(n / 3..n / 3 + 2);
                    a[n / 2] = "new\n".into();
                    a.insert(n / 4, "same\n".into());
                    (b, a)
                }
                _ => {
                    let mut a = b.clone();
                    a.rotate_left(n / 3);
                    (b, a)
                }
            };
            (before, after) = (x, y);
        }
        Shape::Replaced(k) => {
            let b = num(3 * k + 2);
            let a = b.iter().enumerate().map(|(x, l)| if x % 3 == 2 { format!("new {x}\n") } else { l.clone() }).collect();
            what = format!("{k} replaced lines");
            (before, after, context) = (b, a, 1);
        }
        Shape::Block(n, kind, c) => {
            let all = num(n + 20);
            let cut = [&all[..10], &all[10 + n..]].concat();
            let other = [&all[..10], &(0..n).map(|x| format!("new {x}\n")).collect::<Vec<_>>(), &all[10 + n..]].concat();
            what = format!("block of {n} lines, change {kind}, context {c}");
            context = c;
            (before, after) = match kind {
                0 => (all, cut),
                1 => (cut, all),
                2 => (all, other),
                // a single line on the other side, with lines around or without any
                3 => (all, [&other[..11], &other[10 + n..]].concat()),
                4 => ([&other[..11], &other[10 + n..]].concat(), all),
                5 => (all, other[10..11].to_vec()),
                _ => (other[10..11].to_vec(), all),
            };
        }
    }
    Big { what, before, after, context }
}

/// Large texts: many lines, long lines, many changes, large changes; sizes around the powers of two.
/// `light`: without those where the search space of the patch machine, or the number of reductions, multiplies.
pub fn size_family(thorough: bool, light: bool, run: impl Fn(&Big, &mut Ctx) -> R + Sync + Send + 'static) -> Family {
    let mut v = shapes(thorough);
    if light {
        v.retain(|s| match s {
            Shape::Lines(n, _, _, c) => *n <= 1025 || (*c < 255 && *n < 10_000) || (*c == 3 && [32768, 65535, 65536, 65537, 70_000].contains(n)),
            Shape::Clumps(k, gap, c, head, _) => *k <= 33 || (*gap, *c) == (8, 3) || ((*gap, *c) == (7, 3) && *head == 0),
            Shape::Several(n, c) => *c == 3 && *n != 140_000,
            Shape::Popular(n, every, _, kind) => *n <= 300 && (*every > 1 || *kind == 4) && (*n <= 101 || *every >= 10),
            Shape::Block(n, _, c) => *n <= 1000 || *c == 3,
            _ => true,
        });
    }
    family(
        "sizes",
        "texts of up to 100000 (300000) lines with one change at the start, in the middle or at the end; of up to 140000 lines with eight changes; of up to 2000 lines most or some of which are the same; five lines one of which has 126 to 100000 (1048576) bytes; up to 1500 (4097) changes, with few or hundreds of lines in front and behind; a changed block of up to 66000 lines, on both sides, on one, or for a single line; sizes around the powers of two from 2^7 to 2^16; contexts 0 to 255".to_string(),
        v.len() as u64,
        move |i, ctx| {
            let b = build(v[i as usize]);
            note_case(|| b.what.clone());
            let t0 = std::time::Instant::now();
            let r = run(&b, ctx);
            if std::env::var("MC_SLOW").is_ok() && t0.elapsed().as_secs_f64() > 0.5 {
                eprintln!("{:.1} s: {}", t0.elapsed().as_secs_f64(), b.what);
            }
            r.map_err(|mut f| {
                f.msg.truncate(f.msg.char_indices().nth(2000).map_or(f.msg.len(), |x| x.0));
                Fail { msg: f.msg, case: serde_json::json!(b.what) }
            })
        },
    )
}

/// The texts with a line that comes often, up to 300 lines.
pub fn popular() -> Vec<Big> {
    shapes(false).into_iter().filter(|s| matches!(s, Shape::Popular(n, _, _, _) if *n <= 300)).map(build).collect()
}

/// As `size_family`, for checks that take the two texts and the context.
pub fn size_pairs(thorough: bool, run: impl Fn(&[String], &[String], u8, &mut Ctx) -> R + Sync + Send + 'static) -> Family {
    size_family(thorough, false, move |b, ctx| {
        beat();
        run(&b.before, &b.after, b.context, ctx)
    })
}

/// Bytes without long repeats, the same every time.
pub fn noise(n: usize, start: u32) -> Vec<u8> {
    let mut x = start;
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            (x >> 24) as u8
        })
        .collect()
}

/// Large data: (what it is, before, after, context).
pub fn big_data(thorough: bool) -> Vec<(String, Vec<u8>, Vec<u8>, u8)> {
    let mut v = vec![];
    let mut sizes = vec![127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193];
    sizes.extend([16384, 32767, 32768, 32769]);
    if thorough {
        sizes.extend([65535, 65536, 65537]);
    }
    for n in sizes {
        for place in 0..3 {
            for kind in 0..3 {
                for c in [0u8, 3, 255] {
                    if n > 5000 && (c != 3 || kind == 1 || (n > 10000 && kind == 0)) {
                        continue;
                    }
                    let b = noise(n, 1);
                    let mut a = b.clone();
                    let p = [0, n / 2, n - 1][place];
                    match kind {
                        0 => drop(a.remove(p)),
                        1 => a.insert(if place == 2 { n } else { p }, !b[p]),
                        _ => a[p] = !b[p],
                    }
                    v.push((format!("{n} bytes, change {kind} at {p}, context {c}"), b, a, c));
                }
            }
        }
    }
    for k in [2usize, 15, 16, 17, 64, 100, 127, 128, 129, 255, 256, 257] {
        for (gap, c) in [(1usize, 0u8), (7, 3), (8, 3), (20, 10)] {
            let b = noise(k * (gap + 1) + gap, 7);
            let mut a = vec![];
            for (x, l) in b.iter().enumerate() {
                if x % (gap + 1) == gap {
                    match x / (gap + 1) % 3 {
                        0 => a.push(!*l),
                        1 => (),
                        _ => a.extend([!*l, *l]),
                    }
                } else {
                    a.push(*l);
                }
            }
            v.push((format!("{k} changes every {} bytes, context {c}", gap + 1), b, a, c));
        }
    }
    for k in [300usize, 520, 1030] {
        let b = noise(3 * k + 2, 11);
        let a = b.iter().enumerate().map(|(x, l)| if x % 3 == 2 { !*l } else { *l }).collect();
        v.push((format!("{k} replaced bytes"), b, a, 0));
    }
    for n in [127usize, 128, 129, 255, 256, 257, 1000, 5000, 9000] {
        for kind in 0..3 {
            for c in [0u8, 3, 255] {
                let all = noise(n + 40, 3);
                let cut = [&all[..20], &all[20 + n..]].concat();
                let other = [&all[..20], &noise(n, 99)[..], &all[20 + n..]].concat();
                let (b, a) = match kind {
                    0 => (all, cut),
                    1 => (cut, all),
                    _ => (all, other),
                };
                v.push((format!("block of {n} bytes, change {kind}, context {c}"), b, a, c));
            }
        }
    }
    v
}

pub fn data_family(thorough: bool, run: impl Fn(&[u8], &[u8], u8, &mut Ctx) -> R + Sync + Send + 'static) -> Family {
    let v = big_data(thorough);
    family(
        "sizes",
        "data of up to 32769 (65537) bytes with one change at the start, in the middle or at the end; up to 1030 changes; a changed block of up to 9000 bytes; sizes around the powers of two; contexts 0 to 255".to_string(),
        v.len() as u64,
        move |i, ctx| {
            beat();
            let (what, b, a, c) = &v[i as usize];
            let t0 = std::time::Instant::now();
            let r = run(b, a, *c, ctx);
            if std::env::var("MC_SLOW").is_ok() && t0.elapsed().as_secs_f64() > 0.5 {
                eprintln!("{:.1} s: {what}", t0.elapsed().as_secs_f64());
            }
            r.map_err(|mut f| {
                f.msg.truncate(f.msg.char_indices().nth(2000).map_or(f.msg.len(), |x| x.0));
                Fail { msg: f.msg, case: serde_json::json!(what) }
            })
        },
    )
}

/// How many, and one of them: each in turn; of more than 33, those around powers of two and at the ends.
pub fn one_of_many() -> Vec<(usize, usize)> {
    let mut v = vec![];
    for k in [1usize, 2, 3, 4, 7, 8, 9, 17, 33, 65, 129, 257, 400] {
        for j in 0..k {
            let near = |x: usize| x.is_power_of_two();
            if k <= 33 || j == 0 || j + 2 >= k || near(j) || near(j + 1) || (j > 0 && near(j - 1)) || j == 100 {
                v.push((k, j));
            }
        }
    }
    v
}
