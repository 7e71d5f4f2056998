//! C33: patches made from one original in different places, applied and taken back in any order.

use crate::common::*;
use crate::engine::*;
use crate::gen::digits;
use crate::model::{BClump, Counts};
use crate::procs::*;
use serde_json::{json, Value};
use std::fs;

/// An edit of a slot of two lines: how many of them go (the first ones), and how many new ones stand in their place.
const EDITS: [(usize, usize); 9] = [(0, 2), (2, 0), (1, 1), (1, 3), (0, 1), (1, 0), (2, 1), (2, 5), (0, 6)];

#[derive(Clone)]
struct Layout {
    slots: usize,
    gap: usize,
    /// lines before the first slot and after the last
    edge: usize,
    /// the new lines are the same everywhere
    same: bool,
    /// by slot: the patch and the edit
    edits: Vec<Option<(usize, usize)>>,
}

impl Layout {
    fn slot_at(&self, s: usize) -> usize {
        self.edge + s * (2 + self.gap)
    }

    /// The text with the edits of some of the patches.
    fn text(&self, with: usize) -> Vec<String> {
        let mut v = vec![];
        let old = |v: &mut Vec<String>, n: usize, what: String| (0..n).for_each(|x| v.push(format!("{what} {x}\n")));
        old(&mut v, self.edge, "first".into());
        for s in 0..self.slots {
            if s > 0 {
                old(&mut v, self.gap, format!("between {s}"));
            }
            let (gone, new) = match self.edits[s] {
                Some((p, e)) if with >> p & 1 == 1 => EDITS[e],
                _ => (0, 0),
            };
            for x in 0..new {
                v.push(if self.same { "new\n".into() } else { format!("new {s} {x}\n") });
            }
            (gone..2).for_each(|x| v.push(format!("slot {s} {x}\n")));
        }
        old(&mut v, self.edge, "last".into());
        v
    }

    /// How far the lines at a place in the original are moved by some of the patches.
    fn shift(&self, at: usize, by: usize) -> isize {
        (0..self.slots)
            .filter(|s| self.slot_at(*s) < at)
            .filter_map(|s| self.edits[s].filter(|(p, _)| by >> p & 1 == 1).map(|(_, e)| EDITS[e].1 as isize - EDITS[e].0 as isize))
            .sum()
    }

    fn show(&self, context: u8) -> Value {
        json!({"gap": self.gap, "edge": self.edge, "context": context, "same new lines": self.same,
               "slots": self.edits.iter().map(|e| e.map(|(p, e)| json!({"patch": p, "lines removed and added": EDITS[e]}))).collect::<Vec<_>>()})
    }
}

/// Slots are given to patches in the order of their numbers (other numberings are the same case).
fn in_order(edits: &[Option<(usize, usize)>]) -> Option<usize> {
    let mut n = 0;
    for (p, _) in edits.iter().flatten() {
        if *p > n {
            return None;
        }
        n = n.max(p + 1);
    }
    Some(n)
}

fn every_order(l: &Layout, patches: usize, context: u8, ctx: &mut Ctx) -> R {
    let base = l.text(0);
    let made: Vec<TPatch> = (0..patches).map(|p| text_patch(&base, &l.text(1 << p), context)).collect();
    note_case(|| l.show(context).to_string());
    for with in 0..1usize << patches {
        let file = l.text(with);
        for (p, patch) in made.iter().enumerate() {
            for reverse in [false, true] {
                // is every displacement within what C11 promises?
                let ks = mclumps(patch, reverse);
                if ks.is_empty() || ks.iter().any(|k| k.pre.is_empty() || k.post.is_empty()) {
                    continue; // nothing to look for
                }
                let (mut offset, mut fuzzy, mut far) = (0, 0, false);
                for (j, k) in ks.iter().enumerate() {
                    let origin = if reverse { k.post_start } else { k.pre_start };
                    let off = l.shift(origin, with & !(1 << p));
                    let step = off - offset;
                    if let Some(next) = ks.get(j + 1) {
                        let (between, other) = (next.pre_start - (k.pre_start + k.pre.len()), next.post_start - (k.post_start + k.post.len()));
                        far |= step > 0 && step as usize >= between.min(other);
                    }
                    fuzzy += (step != 0) as usize;
                    offset = off;
                }
                if far {
                    continue;
                }
                ctx.exec += 1;
                let show = |got: &dyn std::fmt::Debug| json!({"case": l.show(context), "applied": with, "patch": p, "reverse": reverse, "got": format!("{got:?}")});
                let got = apply_text(patch, &file, reverse).or_else(|m| fail(m, show(&"")))?;
                let there = with >> p & 1 == 1;
                let now = if there == reverse { with ^ 1 << p } else { with };
                if there == reverse {
                    ctx.nontrivial(&(&file, p, &l.edits, reverse, context));
                }
                ctx.outcome(&got);
                if got.0 != text(&l.text(now)) {
                    let what = match (there, reverse) {
                        (false, false) => "applied after others, a patch does not make its own change alone",
                        (true, true) => "taken back out of turn, a patch does not undo its own change alone",
                        (true, false) => "applied again after others, a patch changes the text",
                        (false, true) => "taken back without having been applied, a patch changes the text",
                    };
                    return fail(what, show(&bytes_str(&got.0)));
                }
                let n = ks.len();
                let Counts { clean, fuzzy: f, already, already_fuzzy, failed } = got.1;
                let right = if there == reverse { (clean, f) == (n - fuzzy, fuzzy) && already + already_fuzzy == 0 } else { clean + f == 0 && already + already_fuzzy == n };
                if failed > 0 || !right {
                    return fail(format!("of {n} clumps, {fuzzy} are displaced by other patches; the patch {} applied before; the report says {:?}", if there { "is" } else { "is not" }, got.1), show(&bytes_str(&got.0)));
                }
                // it is known whether it is applied
                use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
                let known = patch.is_already_applied(&seq(&file), reverse);
                if known != (there != reverse) {
                    return fail(format!("whether it is applied already is reported as {known}"), show(&""));
                }
            }
        }
    }
    ctx.sample(|| l.show(context));
    Ok(())
}

/// The same with bytes; replaced pieces keep their length, as nothing is looked for elsewhere.
fn bytes_in_every_order(edits: &[Option<(usize, usize)>], patches: usize, gap: usize, kind: usize, context: u8, ctx: &mut Ctx) -> R {
    let slots = edits.len();
    let data = |with: usize| -> Vec<u8> {
        let mut v: Vec<u8> = (0..slots * (gap + 3) + gap).map(|x| (x % [256, 11, 4][kind]) as u8).collect();
        for (s, e) in edits.iter().enumerate() {
            if let Some((p, e)) = e.filter(|(p, _)| with >> p & 1 == 1) {
                let at = gap + s * (gap + 3);
                (at..at + e + 1).for_each(|y| v[y] = 200 + 5 * p as u8 + s as u8);
            }
        }
        v
    };
    let case = json!({"bytes": (["distinct", "11 in turn", "4 in turn"][kind]), "gap": gap, "context": context, "edits": edits});
    note_case(|| case.to_string());
    let base = data(0);
    let made: Vec<BPatch> = (0..patches).map(|p| byte_patch(&base, &data(1 << p), context)).collect();
    for with in 0..1usize << patches {
        let now = data(with);
        for (p, patch) in made.iter().enumerate() {
            // repeated bytes can be aligned in more than one way
            let own = |k: &BClump| {
                let end = k.pre_start + k.pre.len();
                (0..slots).all(|s| edits[s].is_none_or(|e| e.0 == p) || end <= gap + s * (gap + 3) || k.pre_start >= gap + s * (gap + 3) + 3)
            };
            if !bclumps(patch, false).iter().all(|k| k.pre_start == k.post_start && k.pre.len() == k.post.len() && own(k)) {
                continue;
            }
            for reverse in [false, true] {
                ctx.exec += 1;
                let there = with >> p & 1 == 1;
                let want = data(if there == reverse { with ^ 1 << p } else { with });
                let got = apply_bytes_counted(patch, &now, reverse).or_else(|m| fail(m, case.clone()))?;
                ctx.nontrivial(&(&now, p, reverse, context, kind));
                ctx.outcome(&got);
                let n = bclumps(patch, reverse).len();
                let counts = if there == reverse { Counts { clean: n, ..Default::default() } } else { Counts { already: n, ..Default::default() } };
                if got.0 != want || got.1 != counts {
                    return fail(
                        format!("with the patches {with:b} applied, patch {p} ({}) gives something else than its own change", if reverse { "reversed" } else { "forward" }),
                        json!({"case": case, "got": format!("{got:?}"), "expected": want}),
                    );
                }
            }
        }
    }
    ctx.sample(|| case);
    Ok(())
}

/// All orders of n things.
fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut all = vec![];
    for o in orders(n - 1) {
        for at in 0..n {
            let mut o = o.clone();
            o.insert(at, n - 1);
            all.push(o);
        }
    }
    all
}

/// With the commands: three patches made from one original, applied in one order and taken back in another, each twice.
fn with_the_commands(thorough: bool) -> Family {
    let all = orders(3);
    let kinds: &'static [[usize; 3]] = if thorough { &[[0, 1, 3], [2, 2, 2], [4, 5, 6], [3, 0, 1], [1, 4, 0], [6, 2, 5]] } else { &[[0, 1, 3], [4, 5, 6]] };
    family(
        "with the commands",
        format!("three patches made by the diff command from one original of three places of two lines, 8 lines between them ({} combinations of edits, contexts 1 to 3), applied by the patch command in each of 6 orders, each twice, and taken back in each of 6 orders, each twice", kinds.len()),
        (kinds.len() * 36 * 3) as u64,
        move |i, ctx| {
            let d = digits(i, &[kinds.len() as u64, 6, 6, 3]);
            let (on, off, context) = (&all[d[1] as usize], &all[d[2] as usize], d[3] as u8 + 1);
            let l = Layout { slots: 3, gap: 8, edge: 4, same: false, edits: (0..3).map(|p| Some((p, kinds[d[0] as usize][p]))).collect() };
            let w = fresh();
            let case = |step: String| json!({"case": l.show(context), "applied in the order": on, "taken back in the order": off, "step": step});
            note_case(|| case(String::new()).to_string());
            fs::write(w.join("file"), text(&l.text(0))).expect("scratch file");
            let context = context.to_string();
            for p in 0..3 {
                fs::write(w.join("other"), text(&l.text(1 << p))).expect("scratch file");
                let r = run(&bin("pw_diff"), &[os("-c"), os(&context), os("file"), os("other")], &w, Some(&w.join(format!("patch{p}"))));
                ctx.exec += 1;
                if !r.ok() {
                    return fail("pw_diff fails", case(r.show()));
                }
            }
            let mut with = 0;
            for (p, reverse) in on.iter().map(|p| (*p, false)).chain(off.iter().map(|p| (*p, true))).flat_map(|x| [x, x]) {
                let name = format!("patch{p}");
                let mut args = vec![os(&name)];
                if reverse {
                    args.push(os("-r"));
                }
                let r = run(&bin("pw_patch"), &args, &w, None);
                ctx.exec += 1;
                with = if reverse { with & !(1 << p) } else { with | 1 << p };
                let got = fs::read(w.join("file")).unwrap_or_default();
                ctx.outcome(&got);
                ctx.nontrivial(&(i, with, reverse));
                if !r.ok() || got != text(&l.text(with)) {
                    return fail(
                        format!("patch {p} {}: {}, and the file is {:?}", if reverse { "taken back" } else { "applied" }, r.show(), bytes_str(&got)),
                        case(format!("the edits of {with:b} should be there")),
                    );
                }
            }
            ctx.sample(|| case(String::new()));
            Ok(())
        },
    )
}

pub fn c33(thorough: bool) -> Check {
    let mut families = vec![];
    // (slots, patches, what a slot can be, gaps, numberings of the patches are the same case)
    let every = |patches: usize, kinds: &[usize]| (0..patches).flat_map(|p| kinds.iter().map(move |e| (p, *e))).collect::<Vec<_>>();
    const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7];
    // patches that shift each other more with each clump
    const SHIFTS: &[usize] = &[8, 1, 2];
    let chain = vec![(0, 2), (1, 8), (1, 1)];
    let bounds = if thorough {
        vec![(4usize, 3usize, every(3, ALL), 7u64, true), (5, 3, every(3, &ALL[..5]), 4, true), (6, 2, every(2, SHIFTS), 9, true), (8, 2, chain, 8, false)]
    } else {
        vec![(4, 3, every(3, &ALL[..4]), 4, true), (3, 3, every(3, ALL), 6, true), (5, 2, every(2, SHIFTS), 6, true), (7, 2, chain, 5, false)]
    };
    for (slots, patches, options, gaps, alike) in bounds {
        let ways = 1 + options.len() as u64;
        let len = ways.pow(slots as u32) * 3 * gaps * 3;
        let shown: Vec<_> = (0..patches).map(|p| options.iter().filter(|o| o.0 == p).map(|o| EDITS[o.1]).collect::<Vec<_>>()).collect();
        families.push(family(
            format!("{slots} places, {} ways each", ways - 1),
            format!("an original of distinct lines with {slots} places of 2 lines; each is left alone or belongs to one of {patches} patches, which makes one of its edits (lines removed, lines added: {shown:?}) there; 0 to {} lines more than the context between them; contexts 1 to 3; new lines distinct or the same everywhere, edits at or away from the ends; with each subset of the patches applied, each patch is applied and taken back", gaps - 1),
            len,
            move |i, ctx| {
                let mut radices = vec![3, gaps, 3];
                radices.extend(vec![ways; slots]);
                let d = digits(i, &radices);
                let context = d[0] as usize + 1;
                let l = Layout {
                    slots,
                    gap: context + d[1] as usize,
                    edge: if d[2] == 2 { 0 } else { context },
                    same: d[2] == 1,
                    edits: d[3..].iter().map(|x| if *x == 0 { None } else { Some(options[*x as usize - 1]) }).collect(),
                };
                // at the ends, where there is no context, lines that are only added or removed leave no trace
                let trace = |e: &Option<(usize, usize)>| e.is_none_or(|(_, e)| EDITS[e].0 > 0 && EDITS[e].1 > 0);
                if l.edge == 0 && !(trace(&l.edits[0]) && trace(&l.edits[slots - 1])) {
                    return Ok(());
                }
                match if alike { in_order(&l.edits) } else { Some(patches) } {
                    Some(n) if n > 0 => every_order(&l, n, context as u8, ctx),
                    _ => Ok(()),
                }
            },
        ));
    }
    let slots = if thorough { 5usize } else { 4 };
    let ways = 10u64;
    families.push(family(
        "bytes",
        format!("data of distinct bytes, or of 11 or 4 in turn, with {slots} places; each is left alone or belongs to one of 3 patches, which replaces 1 to 3 bytes there; 0 to 3 bytes more than the context between them; contexts 0 to 4; with each subset of the patches applied, each patch is applied and taken back"),
        ways.pow(slots as u32) * 3 * 4 * 5,
        move |i, ctx| {
            let mut radices = vec![3, 4, 5];
            radices.extend(vec![ways; slots]);
            let d = digits(i, &radices);
            let edits: Vec<_> = d[3..].iter().map(|x| if *x == 0 { None } else { Some(((*x as usize - 1) / 3, (*x as usize - 1) % 3)) }).collect();
            match in_order(&edits) {
                Some(n) if n > 0 => bytes_in_every_order(&edits, n, d[2] as usize + d[1] as usize, d[0] as usize, d[2] as u8, ctx),
                _ => Ok(()),
            }
        },
    ));
    families.push(with_the_commands(thorough));
    Check {
        id: "C33",
        level: "model_checking",
        rule: "a state is the text with the edits of a subset of the patches, a transition a real application of a patch, forward or reversed; transitions that change the text are non-trivial.",
        assumptions: vec!["clumps that would have to be looked for farther away than C11 promises, and clumps without context or lines of their own, are left out"],
        families,
    }
}
