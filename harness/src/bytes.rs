//! Checks of binary patches: C07 and C14.

use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::special::{data_family, noise, one_of_many};
use crate::text::{byte, distinct, periodic, EditGrid};
use pw_diff_lib::apply_bytes::{ApplyClumpClean, ApplyClumpsClean};
use pw_diff_lib::byte_diff::ByteChangeClump;
use serde_json::json;
use std::sync::Arc;

// ---------------------------------------------------------------- C07

fn round_trip(b: &[u8], a: &[u8], c: u8, ctx: &mut Ctx) -> R {
    note_case(|| format!("before={b:?} after={a:?} context={c}"));
    let p = byte_patch(b, a, c);
    if a != b && !a.is_empty() && !b.is_empty() {
        ctx.nontrivial(&(b, a, c));
    }
    for (from, to, reverse) in [(b, a, false), (a, b, true)] {
        let case = |out: &[u8]| json!({"before": b, "after": a, "context": c, "reverse": reverse, "patch": p.0, "output": out});
        let out = apply_bytes(&p, from, reverse).map_err(|m| Fail { msg: m, case: case(&[]) })?;
        ctx.exec += 1;
        ctx.transitions += 1;
        ctx.traces += 1;
        ctx.outcome(&out);
        if !reverse {
            ctx.sample(|| case(&out));
        }
        if out != to {
            return fail(format!("applied to {from:?} the patch gives {out:?} instead of {to:?}"), case(&out));
        }
        if !p.already_applied(&bseq(to), reverse) {
            return fail("the result is not recognised as having the patch applied", case(&out));
        }
    }
    Ok(())
}

pub fn c07(thorough: bool) -> Check {
    let mut families = vec![];
    for (k, n, cs) in if thorough { vec![(4usize, 7usize, 4u64), (3, 8, 5), (2, 10, 5)] } else { vec![(4, 6, 2), (3, 6, 4), (2, 8, 4)] } {
        let w = Words::new(&[n, n], k);
        families.push(family(
            format!("all pairs k={k}"),
            format!("sequences of at most {n} bytes over {k} values (0, 255, newline, 'A' among them), modulo renaming, contexts 0..{}", cs - 1),
            w.len() * cs,
            move |i, ctx| {
                let d = digits(i, &[w.len(), cs]);
                let p = w.get(d[0]);
                if d[1] == 0 {
                    ctx.states += 1;
                }
                let f = |w: &[u8]| w.iter().map(|c| byte(0, *c as u16)).collect::<Vec<_>>();
                round_trip(&f(&p[0]), &f(&p[1]), d[1] as u8, ctx)
            },
        ));
    }
    let (n, m) = if thorough { (14, 3) } else { (12, 2) };
    let g = EditGrid::new(vec![distinct(n), periodic(n, 1), periodic(n, 2), periodic(n, 3), periodic(n, 5)], m, true);
    families.push(family(
        "edited sequences",
        format!("bases of {n} bytes (distinct, periods 1, 2, 3, 5), at most {m} edits (delete, replace, insert; new or repeated bytes), contexts 0..3"),
        g.total * 4,
        move |i, ctx| {
            let d = digits(i, &[g.total, 4]);
            let (b, a) = g.get(d[0]);
            let f = |w: &[u16]| w.iter().map(|c| byte(1, *c)).collect::<Vec<_>>();
            round_trip(&f(&b), &f(&a), d[1] as u8, ctx)
        },
    ));
    families.push(family(
        "every byte value",
        "[x], [x,y], [x,y,x] against [y], [y,x], [] and back for all x, y in 0..256, contexts 0 and 2",
        65536 * 2,
        move |i, ctx| {
            let c = [0, 2][(i & 1) as usize];
            let (x, y) = ((i >> 9) as u8, (i >> 1) as u8);
            round_trip(&[x], &[y], c, ctx)?;
            round_trip(&[x, y], &[y, x], c, ctx)?;
            round_trip(&[x, y, x], &[y], c, ctx)?;
            round_trip(&[], &[x, y], c, ctx)
        },
    ));
    const CS: [usize; 10] = [3, 4, 100, 126, 127, 128, 129, 200, 254, 255];
    families.push(family(
        "wide contexts",
        format!("contexts {CS:?}; unchanged runs before in {{0, c-1, c+1}}, between in {{1, 2c-1, 2c, 2c+1}}, after in {{0, c-1, c+1}}; 9 kinds of changes"),
        (CS.len() * 3 * 4 * 3 * 9) as u64,
        move |i, ctx| {
            let d = digits(i, &[CS.len() as u64, 3, 4, 3, 3, 3]);
            let c = CS[d[0] as usize];
            let l = [0, c - 1, c + 1][d[1] as usize];
            let m = [1, 2 * c - 1, 2 * c, 2 * c + 1][d[2] as usize];
            let t = [0, c - 1, c + 1][d[3] as usize];
            let n = l + m + t + 2;
            // no long repeats: a counter in two bytes
            let mut b: Vec<u8> = (0..n).map(|x| if x % 2 == 0 { (x / 2 % 199) as u8 } else { 200 + (x / 398 % 50) as u8 }).collect();
            let mut a = b.clone();
            for (pos, kind) in [(l + m + 1, d[5]), (l, d[4])] {
                match kind {
                    0 => {
                        a.remove(pos);
                    }
                    1 => {
                        b.remove(pos);
                    }
                    _ => a[pos] = 255,
                }
            }
            round_trip(&b, &a, c as u8, ctx)
        },
    ));
    families.push(data_family(thorough, round_trip));
    Check {
        id: "C07",
        level: "model_checking",
        rule: "states are pairs of byte sequences (current data, patch target), transitions are real applications of real patches, forward and in reverse; a case is (before, after, context); non-trivial when both are non-empty and differ. Oracle: the target, byte for byte.",
        assumptions: vec!["sequences are enumerated modulo renaming of byte values in the first family; all values in the third"],
        families,
    }
}

// ---------------------------------------------------------------- C14

struct Case {
    patch: BPatch,
    data: Vec<u8>,
    reverse: bool,
    /// the counts are checked (C31), or else the answers about single clumps (C14)
    report: bool,
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    note_case(|| json!({"patch": c.patch.0, "data": c.data, "reverse": c.reverse}).to_string());
    let ks = bclumps(&c.patch, c.reverse);
    let case = |out: &[u8]| json!({"patch": c.patch.0, "data": c.data, "reverse": c.reverse, "output": out});
    let (out, counts) = apply_bytes_counted(&c.patch, &c.data, c.reverse).map_err(|m| Fail { msg: m, case: case(&[]) })?;
    ctx.exec += 1;
    ctx.traces += 1;
    ctx.outcome(&out);
    let there = ks.iter().filter(|k| at(&c.data, &k.pre, k.pre_start)).count();
    if there < ks.len() {
        ctx.nontrivial(&(format!("{:?}", c.patch.0), &c.data, c.reverse));
    }
    if there > 0 && there < ks.len() {
        ctx.count("cases_with_some_clumps_in_place", 1);
    }
    ctx.sample(|| case(&out));
    let mut ex = Explored::default();
    if c.report {
        ctx.outcome(&counts);
        let ok = reported_bytes(&ks, &c.data, &out, (counts.clean, counts.already), &mut ex);
        ctx.states += ex.states;
        ctx.transitions += ex.transitions;
        if counts.clean + counts.already + counts.failed != ks.len() || counts.fuzzy + counts.already_fuzzy > 0 {
            return fail(format!("{counts:?} is not every one of {} clumps once, as clean, already applied or failed", ks.len()), case(&out));
        }
        if !ok {
            return fail(format!("the report {counts:?} does not describe what was done"), case(&out));
        }
        return Ok(());
    }
    let ok = safe_bytes(&ks, &c.data, &out, &mut ex);
    ctx.states += ex.states;
    ctx.transitions += ex.transitions;
    if !ok {
        return fail("the output is not the data with the recorded bytes replaced at the recorded positions", case(&out));
    }
    let all = ks.iter().all(|k| at(&c.data, &k.post, k.post_start));
    if c.patch.already_applied(&bseq(&c.data), c.reverse) != all {
        return fail(format!("already applied: reported {}, but it is {all}", !all), case(&out));
    }
    for (k, m) in c.patch.0.iter().zip(&ks) {
        let got = (k.will_apply(&bseq(&c.data), c.reverse), k.is_already_applied(&bseq(&c.data), c.reverse));
        let want = (at(&c.data, &m.pre, m.pre_start), at(&c.data, &m.post, m.post_start));
        if got != want {
            return fail(format!("clump {k:?}: (applies, already applied) is {got:?} and should be {want:?}"), case(&out));
        }
    }
    Ok(())
}

pub fn clump(pre_start: usize, pre: &[u8], post_start: usize, post: &[u8]) -> ByteChangeClump {
    serde_json::from_value(json!({
        "context_lengths": [0, 0],
        "before": {"start": pre_start, "items": pre},
        "after": {"start": post_start, "items": post},
    }))
    .expect("the stored form of a clump")
}

static BULK: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();

fn any_data(thorough: bool, report: bool) -> Vec<Family> {
    let mut families = vec![];
    for (k, max, cs) in if thorough {
        vec![(3usize, [4usize, 5, 6], 3u64), (2, [6, 6, 6], 4)]
    } else {
        vec![(3, [3, 4, 4], 3), (2, [4, 5, 5], 3)]
    } {
        let w = Words::new(&max, k);
        families.push(family(
            format!("all triples k={k}"),
            format!("before, after, data of at most {max:?} bytes over {k}, contexts 0..{}, both directions", cs - 1),
            w.len() * cs * 2,
            move |i, ctx| {
                let d = digits(i, &[w.len(), cs, 2]);
                let p = w.get(d[0]);
                run(&Case { patch: byte_patch(&p[0], &p[1], d[1] as u8), data: p[2].clone(), reverse: d[2] == 1, report }, ctx)
            },
        ));
    }
    // several clumps: data is any small edit of the original or result, or partly applied
    let (n, m) = if thorough { (9, 3) } else { (6, 3) };
    let g = EditGrid::new(vec![distinct(n), periodic(n, 1), periodic(n, 2), periodic(n, 3)], m, true);
    families.push(family(
        "partly applied",
        format!("bases of {n} bytes (distinct, periods 1, 2, 3), at most {m} edits; every subset of the clumps applied already, at unshifted places; contexts 0..1, both directions"),
        g.total * 2 * 2 * 8,
        move |i, ctx| {
            let d = digits(i, &[g.total, 2, 2, 8]);
            let (b, a) = g.get(d[0]);
            let f = |w: &[u16]| w.iter().map(|c| byte(1, *c)).collect::<Vec<_>>();
            let (b, a) = (f(&b), f(&a));
            let patch = byte_patch(&b, &a, d[1] as u8);
            let reverse = d[2] == 1;
            let from = if reverse { &a } else { &b };
            let mut data = vec![];
            let mut c = 0;
            for (j, k) in bclumps(&patch, reverse).iter().enumerate() {
                if k.pre_start < c || k.pre_start + k.pre.len() > from.len() {
                    break;
                }
                data.extend_from_slice(&from[c..k.pre_start]);
                data.extend_from_slice(if j < 3 && d[3] >> j & 1 == 1 { &k.post } else { &k.pre });
                c = k.pre_start + k.pre.len();
            }
            data.extend_from_slice(&from[c..]);
            run(&Case { patch, data, reverse, report }, ctx)
        },
    ));
    {
        let (n, m) = if thorough { (7, 2) } else { (6, 1) };
        let g = EditGrid::new(vec![distinct(n)], 2, false);
        let l = g.total;
        let g2 = Arc::new(EditGrid::new(vec![distinct(n)], m, true));
        let l2 = g2.total;
        families.push(family(
            "edited data",
            format!("base of {n} distinct bytes, at most 2 edits make the patch, data is the base with at most {m} edits of its own; contexts 0..2, both directions"),
            l * l2 * 6,
            move |i, ctx| {
                let d = digits(i, &[l, l2, 3, 2]);
                let (b, a) = g.get(d[0]);
                let (_, x) = g2.get(d[1]);
                let f = |w: &[u16]| w.iter().map(|c| byte(1, *c)).collect::<Vec<_>>();
                run(&Case { patch: byte_patch(&f(&b), &f(&a), d[2] as u8), data: f(&x), reverse: d[3] == 1, report }, ctx)
            },
        ));
    }
    // hand-made clumps: any two, overlapping, out of order, inconsistent
    let (wl, st, fl) = if thorough { (2usize, 4usize, 6usize) } else { (2, 3, 5) };
    let words = all_words(wl, 2);
    let mut one = vec![];
    for x in &words {
        for y in &words {
            for s in 0..st {
                for t in 0..st {
                    one.push((s, x.clone(), t, y.clone()));
                }
            }
        }
    }
    let one = Arc::new(one);
    let files = Arc::new(all_words(fl, 2));
    let (l, fcount) = (one.len() as u64, files.len() as u64);
    {
        let (one, files) = (one.clone(), files.clone());
        families.push(family(
            "one hand-made clump",
            format!("old and new parts of at most {wl} bytes over 2 at every position below {st} on either side; all data of at most {fl} bytes over 2; both directions"),
            l * fcount * 2,
            move |i, ctx| {
                let d = digits(i, &[l, fcount, 2]);
                let c = &one[d[0] as usize];
                run(&Case { patch: BPatch(vec![clump(c.0, &c.1, c.2, &c.3)]), data: files[d[1] as usize].clone(), reverse: d[2] == 1, report }, ctx)
            },
        ));
    }
    // pairs: positions on the other side follow the size difference or not
    let two: Arc<Vec<_>> = Arc::new(
        one.iter().filter(|c| if thorough { c.0 <= 3 && c.2 <= 2 } else { c.0 == c.2 || (c.0 == 1 && c.2 == 2) }).cloned().collect(),
    );
    let files: Arc<Vec<_>> = Arc::new(files.iter().filter(|f| f.len() <= if thorough { 4 } else { 3 }).cloned().collect());
    let (l, fcount) = (two.len() as u64, files.len() as u64);
    families.push(family(
        "two hand-made clumps",
        "every ordered pair of clumps as above, also overlapping and out of order; all data of at most 3 (4) bytes over 2; both directions",
        l * l * fcount * 2,
        move |i, ctx| {
            let d = digits(i, &[l, l, fcount, 2]);
            let mk = |c: &(usize, Vec<u8>, usize, Vec<u8>)| clump(c.0, &c.1, c.2, &c.3);
            run(
                &Case { patch: BPatch(vec![mk(&two[d[0] as usize]), mk(&two[d[1] as usize])]), data: files[d[2] as usize].clone(), reverse: d[3] == 1, report },
                ctx,
            )
        },
    ));
    // long recorded parts of which one byte is another
    let sizes: Vec<usize> = (1..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513]).chain(1000..1040).chain([4095, 4096, 4097, 4100, 8191, 8192, 8193, 16_385, 40_001, 65_535, 65_536, 65_537, 100_003]).collect();
    let l = sizes.len() as u64;
    families.push(family(
        "one byte of many is another",
        format!("a clump that replaces one of {l} sizes of data from 1 to 100003 bytes by other data of that size, at the start or further on; of what is there one byte differs, in the highest or lowest bit: one of the first or last nine, the middle; both directions, expected and already applied"),
        l * 2 * 20 * 2 * 2 * 2,
        move |i, ctx| {
            beat();
            let d = digits(i, &[l, 2, 20, 2, 2, 2]);
            let n = sizes[d[0] as usize];
            let start = [0, 5][d[1] as usize];
            let (x, y) = (crate::special::noise(n, 5), crate::special::noise(n, 77));
            let p = match d[2] as usize {
                j @ 0..=8 => j,
                j @ 9..=17 => (n + 17).wrapping_sub(j + 9),
                18 => n / 2,
                _ => usize::MAX, // none
            };
            if (p >= n && p != usize::MAX) || (d[2] == 19 && d[3] == 1) {
                return Ok(());
            }
            let mut data = [&vec![1; start][..], if d[4] == 0 { &x } else { &y }, b"end"].concat();
            if p < n {
                data[start + p] ^= [1, 0x80][d[3] as usize];
            }
            let c = Case { patch: BPatch(vec![clump(start, &x, start, &y)]), data, reverse: d[5] == 1, report };
            run(&c, ctx).map_err(|mut f| {
                f.msg.truncate(f.msg.char_indices().nth(300).map_or(f.msg.len(), |x| x.0));
                Fail { msg: f.msg, case: json!({"size": n, "start": start, "differs at": p, "bit": d[3], "file": d[4], "reverse": d[5] == 1}) }
            })
        },
    ));
    families.push(data_family(thorough, move |b, a, c, ctx| {
        let mut patch = byte_patch(b, a, c);
        for reverse in [false, true] {
            let ks = bclumps(&patch, reverse);
            let src = if reverse { a } else { b };
            for variant in 0..9u64 {
                beat();
                let mut data = src.to_vec();
                let Some(last) = ks.len().checked_sub(1) else { continue };
                let k = &ks[[0, ks.len() / 2, last][(variant % 3) as usize]];
                match variant {
                    0 => (),
                    1 => data.insert(0, 1),
                    2 => data.truncate(data.len() - 1),
                    // a recorded byte is another
                    3..=5 if !k.pre.is_empty() => data[k.pre_start + k.pre.len() / 2] ^= 1,
                    3..=5 => continue,
                    // partly applied: all, every other clump, all but the first
                    _ => {
                        data.clear();
                        let mut at = 0;
                        for (i, k) in ks.iter().enumerate() {
                            data.extend_from_slice(&src[at..k.pre_start]);
                            let applied = variant == 6 || (variant == 7 && i % 2 == 1) || (variant == 8 && i > 0);
                            data.extend_from_slice(if applied { &k.post } else { &k.pre });
                            at = k.pre_start + k.pre.len();
                        }
                        data.extend_from_slice(&src[at..]);
                    }
                }
                let c = Case { patch, data, reverse, report };
                run(&c, ctx)?;
                patch = c.patch;
            }
        }
        Ok(())
    }));
    let cases: Vec<(usize, usize)> = one_of_many();
    families.push(family(
        "one clump of many is not applied",
        format!("1 to 400 clumps; all of them applied but one, each in turn (of more than 33: those around powers of two and at the ends), or all of them not applied but one; both directions"),
        cases.len() as u64 * 2 * 2 * 2,
        move |i, ctx| {
            let d = digits(i, &[cases.len() as u64, 2, 2, 2]);
            let ((k, j), reverse) = (cases[d[0] as usize], d[2] == 1);
            let b = noise(10 * k + 5, 11);
            let mut a = b.clone();
            for x in 0..k {
                a[10 * x + 5] = !b[10 * x + 5];
            }
            let c = d[1] as usize;
            let part = |x: usize| 10 * x + 5 - c..10 * x + 6 + c;
            let patch = BPatch((0..k).map(|x| clump(part(x).start, &b[part(x)], part(x).start, &a[part(x)])).collect());
            let (from, to) = if reverse { (a, b) } else { (b, a) };
            let (mut data, one) = if d[3] == 0 { (to, from) } else { (from, to) };
            data[10 * j + 5] = one[10 * j + 5];
            run(&Case { patch, data, reverse, report }, ctx)?;
            Ok(())
        },
    ));
    // hand-made clumps far apart in a lot of data; expected result computed directly
    const AT: [usize; 12] = [0, 1, 255, 256, 65_535, 65_536, 65_537, 131_072, 1 << 20, (1 << 20) + 1, (1 << 21) + 3, (1 << 21) + 100_000];
    let n = AT.len() as u64;
    families.push(family(
        "hand-made clumps in a lot of data",
        format!("2.3 MB of data, two clumps (replace, delete, insert) at every pair of different places out of {AT:?}, in order or swapped, and all twelve together; some of them not in place"),
        n * n * 9 * 2 + 27 * 2,
        move |i, ctx| {
            beat();
            let (places, kinds, missing): (Vec<usize>, Vec<u64>, usize) = if i < n * n * 9 * 2 {
                let d = digits(i, &[n, n, 3, 3, 2]);
                if d[0] == d[1] {
                    return Ok(());
                }
                (vec![AT[d[0] as usize], AT[d[1] as usize]], vec![d[2], d[3]], if d[4] == 1 { 0 } else { usize::MAX })
            } else {
                let d = digits(i - n * n * 9 * 2, &[3, 3, 3, 2]);
                (AT.to_vec(), (0..12).map(|x| d[x % 3]).collect(), if d[3] == 1 { 5 } else { usize::MAX })
            };
            let data = BULK.get_or_init(|| noise((1 << 21) + 200_000, 5));
            let mut shift = 0isize;
            let mut ks = vec![];
            let mut want = vec![];
            let (mut done, mut clean) = (0, 0);
            for (j, (p, kind)) in places.iter().zip(&kinds).enumerate() {
                let mut pre: Vec<u8> = if *kind == 2 { vec![] } else { data[*p..*p + 1].to_vec() };
                let post: Vec<u8> = if *kind == 1 { vec![] } else { vec![1, 2, 3] };
                if j == missing {
                    pre = vec![!data[*p]];
                }
                let after = (*p as isize + shift) as usize;
                shift += post.len() as isize - pre.len() as isize;
                // applied if it is in place and not behind what has been replaced
                let applies = j != missing && *p >= done;
                if applies {
                    want.extend_from_slice(&data[done..*p]);
                    want.extend_from_slice(&post);
                    done = *p + pre.len();
                    clean += 1;
                }
                ks.push((*p, pre, after, post));
            }
            want.extend_from_slice(&data[done..]);
            let patch = BPatch(ks.iter().map(|k| clump(k.0, &k.1, k.2, &k.3)).collect());
            let case = json!({"places": places, "kinds": kinds, "not in place": missing.min(99)});
            note_case(|| case.to_string());
            // nothing may be recognised as already applied, or the result is not determined
            if ks.iter().any(|k| at(data, &k.3, k.2)) {
                return Ok(());
            }
            let (out, counts) = apply_bytes_counted(&patch, data, false).map_err(|m| Fail { msg: m, case: case.clone() })?;
            ctx.exec += 1;
            ctx.traces += 1;
            ctx.nontrivial(&i);
            ctx.outcome(&out.len());
            if report {
                let want = Counts { clean, failed: ks.len() - clean, ..Counts::default() };
                if counts != want {
                    return fail(format!("the report is {counts:?} instead of {want:?}"), case);
                }
                return Ok(());
            }
            if out != want {
                let p = out.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(out.len().min(want.len()));
                return fail(format!("{} bytes instead of {}, first difference at {p}", out.len(), want.len()), case);
            }
            Ok(())
        },
    ));
    families
}

pub fn c31(thorough: bool) -> Check {
    Check {
        id: "C31",
        level: "model_checking",
        rule: "a case is (patch, data, direction), run on the real code; non-trivial when some clump's old bytes are not in place. Oracle: the nondeterministic byte patch machine with a report: some run of it must give the output with just the counts the code reports (states and transitions are its reachable ones, explored exhaustively per case).",
        assumptions: vec!["where both images of a clump are in place, either answer is accepted"],
        families: any_data(thorough, true),
    }
}

pub fn c14(thorough: bool) -> Check {
    let families = any_data(thorough, false);
    Check {
        id: "C14",
        level: "model_checking",
        rule: "a case is (patch, data, direction), run on the real code; non-trivial when some clump's old bytes are not in place. Oracle: the output must be accepted by the nondeterministic byte patch machine (states and transitions are its reachable ones, explored exhaustively per case); the answers about already being applied are compared with a direct look at the data.",
        assumptions: vec!["where both images of a clump are in place, either answer is accepted"],
        families,
    }
}
