//! Reference models, written from the properties and not from the code: deliberately plain.

use std::collections::HashSet;

/// A clump as the patch states it, already seen in the direction of application.
#[derive(Debug, Clone)]
pub struct MClump {
    pub pre: Vec<String>,
    pub post: Vec<String>,
    pub pre_start: usize,
    pub post_start: usize,
    pub ctx: (usize, usize),
}

impl MClump {
    /// Numbers of outer context lines that may be ignored, in order: none, then 1, 2, ... short of the
    /// larger context length, each capped by what the side has.
    pub fn reductions(&self) -> Vec<(usize, usize)> {
        let (s, e) = self.ctx;
        let mut v = vec![(0, 0)];
        for r in 1..s.max(e) {
            v.push((r.min(s), r.min(e)));
        }
        v
    }
    pub fn reduced<'a>(lines: &'a [String], r: (usize, usize)) -> &'a [String] {
        if r.0 + r.1 > lines.len() {
            &[]
        } else {
            &lines[r.0..lines.len() - r.1]
        }
    }
    pub fn conflict_block(&self) -> Vec<u8> {
        let mut b = b"<<<<<<<\n".to_vec();
        for l in &self.pre {
            b.extend(l.as_bytes());
        }
        b.extend(b"=======\n");
        for l in &self.post {
            b.extend(l.as_bytes());
        }
        b.extend(b">>>>>>>\n");
        b
    }
}

pub fn at<T: PartialEq>(file: &[T], part: &[T], p: usize) -> bool {
    p <= file.len() && file.len() - p >= part.len() && file[p..p + part.len()] == *part
}

pub fn occurs<T: PartialEq>(file: &[T], part: &[T]) -> Option<usize> {
    if part.len() > file.len() {
        return None;
    }
    (0..=file.len() - part.len()).find(|p| at(file, part, *p))
}

fn concat(lines: &[String]) -> Vec<u8> {
    lines.iter().flat_map(|l| l.bytes()).collect()
}

#[derive(Default)]
pub struct Explored {
    pub states: u64,
    pub transitions: u64,
}

/// A set of numbers below a bound.
enum Seen {
    Dense(Vec<bool>),
    Sparse(HashSet<usize>),
}

impl Seen {
    fn new(bound: usize) -> Self {
        if bound <= 8_000_000 {
            Seen::Dense(vec![false; bound])
        } else {
            Seen::Sparse(HashSet::new())
        }
    }
    fn insert(&mut self, x: usize) -> bool {
        match self {
            Seen::Dense(v) => !std::mem::replace(&mut v[x], true),
            Seen::Sparse(s) => s.insert(x),
        }
    }
}

/// Content safety (C08): is `out` the output of *some* run of the nondeterministic patch machine
/// on `file`? State: (clumps dealt with, lines of the file dealt with, bytes of the output accounted for).
/// Steps: copy a line; replace the (possibly reduced) expected lines found at the cursor by the new ones;
/// pass over a clump that is already applied somewhere; emit a conflict block for a failed clump.
pub fn safe_output(clumps: &[MClump], file: &[String], out: &[u8], ex: &mut Explored) -> bool {
    some_run(clumps, file, out, None, ex)
}

/// The same, only for runs in which no clump fails (`Some(false)`), or at least one does (`Some(true)`).
pub fn some_run(clumps: &[MClump], file: &[String], out: &[u8], failing: Option<bool>, ex: &mut Explored) -> bool {
    struct Prep {
        repl: Vec<(Vec<String>, Vec<u8>)>,
        already: bool,
        block: Vec<u8>,
    }
    let prep: Vec<Prep> = clumps
        .iter()
        .map(|c| Prep {
            repl: c
                .reductions()
                .into_iter()
                .map(|r| (MClump::reduced(&c.pre, r).to_vec(), concat(MClump::reduced(&c.post, r))))
                .collect(),
            already: c.reductions().into_iter().any(|r| occurs(file, MClump::reduced(&c.post, r)).is_some()),
            block: c.conflict_block(),
        })
        .collect();
    let (k, n, m) = (clumps.len(), file.len(), out.len());
    // the last part: has a clump failed, if that is asked for
    let mut seen = Seen::new((k + 1) * (n + 1) * (m + 1) * 2);
    let mut stack = vec![(0usize, 0usize, 0usize, false)];
    seen.insert(0);
    ex.states += 1;
    while let Some((i, c, o, f)) = stack.pop() {
        if i == k && c == n && o == m && (failing != Some(true) || f) {
            return true;
        }
        let mut push = |i: usize, c: usize, o: usize, f: bool, ex: &mut Explored| {
            ex.transitions += 1;
            let key = ((i * (n + 1) + c) * (m + 1) + o) * 2 + f as usize;
            if seen.insert(key) {
                ex.states += 1;
                stack.push((i, c, o, f));
            }
        };
        if i < k {
            if failing != Some(false) && out[o..].starts_with(&prep[i].block) {
                push(i + 1, c, o + prep[i].block.len(), failing.is_some(), ex);
            }
            if prep[i].already {
                push(i + 1, c, o, f, ex);
            }
            for (pre, post) in &prep[i].repl {
                if at(file, pre, c) && out[o..].starts_with(post) {
                    push(i + 1, c + pre.len(), o + post.len(), f, ex);
                }
            }
        }
        if c < n && out[o..].starts_with(file[c].as_bytes()) {
            push(i, c + 1, o + file[c].len(), f, ex);
        }
    }
    false
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Counts {
    pub clean: usize,
    pub fuzzy: usize,
    pub already: usize,
    pub already_fuzzy: usize,
    pub failed: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct RState {
    i: usize,
    c: usize,
    /// end of the last region replaced or recognised as already applied
    last: usize,
    o: usize,
    offset: isize,
    n: Counts,
}

/// Truthful report (C09): is there a run of the patch machine that produces this output and exactly these
/// counts? As above, with the running displacement in the state, because "expected place" depends on it.
pub fn truthful_report(clumps: &[MClump], file: &[String], out: &[u8], want: Counts, ex: &mut Explored) -> bool {
    struct Way {
        r: (usize, usize),
        pre: Vec<String>,
        new: Vec<u8>,
        /// lines of the result, and the places where they are in the file
        len: usize,
        there: Vec<usize>,
    }
    let ways: Vec<Vec<Way>> = clumps
        .iter()
        .map(|k| {
            k.reductions()
                .into_iter()
                .map(|r| {
                    let post = MClump::reduced(&k.post, r);
                    let last = (file.len() + 1).saturating_sub(post.len());
                    Way {
                        r,
                        pre: MClump::reduced(&k.pre, r).to_vec(),
                        new: concat(post),
                        len: post.len(),
                        there: (0..last).filter(|q| at(file, post, *q)).collect(),
                    }
                })
                .collect()
        })
        .collect();
    let blocks: Vec<Vec<u8>> = clumps.iter().map(|k| k.conflict_block()).collect();
    let mut seen: HashSet<RState> = HashSet::new();
    let start = RState { i: 0, c: 0, last: 0, o: 0, offset: 0, n: Counts::default() };
    let mut stack = vec![start];
    seen.insert(start);
    let within = |n: &Counts| {
        n.clean <= want.clean
            && n.fuzzy <= want.fuzzy
            && n.already <= want.already
            && n.already_fuzzy <= want.already_fuzzy
            && n.failed <= want.failed
    };
    while let Some(s) = stack.pop() {
        if s.i == clumps.len() && s.c == file.len() && s.o == out.len() && s.n == want {
            ex.states += seen.len() as u64;
            return true;
        }
        let mut push = |t: RState, ex: &mut Explored| {
            ex.transitions += 1;
            if within(&t.n) && seen.insert(t) {
                stack.push(t);
            }
        };
        if s.i < clumps.len() {
            let k = &clumps[s.i];
            for Way { r, pre, new, len, there } in &ways[s.i] {
                // replaced at the cursor
                if at(file, pre, s.c) && out[s.o..].starts_with(new) {
                    let offset = s.c as isize - r.0 as isize - k.pre_start as isize;
                    let mut n = s.n;
                    if *r == (0, 0) && offset == s.offset {
                        n.clean += 1
                    } else {
                        n.fuzzy += 1
                    }
                    let end = s.c + pre.len();
                    push(RState { i: s.i + 1, c: end, last: end, o: s.o + new.len(), offset, n }, ex);
                }
                // recognised as already applied, anywhere
                for q in there {
                    let offset = *q as isize - r.0 as isize - k.post_start as isize;
                    let mut n = s.n;
                    if *r == (0, 0) && offset == s.offset {
                        n.already += 1
                    } else {
                        n.already_fuzzy += 1
                    }
                    let last = s.last.max(q + len);
                    push(RState { i: s.i + 1, last, offset, n, ..s }, ex);
                }
            }
            // failed: only if what it expects is not at the expected place
            let expected = k.pre_start as isize + s.offset;
            let there = expected >= s.last as isize && at(file, &k.pre, expected as usize);
            let block = &blocks[s.i];
            if !there && out[s.o..].starts_with(block) {
                let mut n = s.n;
                n.failed += 1;
                push(RState { i: s.i + 1, o: s.o + block.len(), n, ..s }, ex);
            }
        }
        if s.c < file.len() && out[s.o..].starts_with(file[s.c].as_bytes()) {
            push(RState { c: s.c + 1, o: s.o + file[s.c].len(), ..s }, ex);
        }
    }
    ex.states += seen.len() as u64;
    false
}

/// A binary clump seen in the direction of application.
#[derive(Debug, Clone)]
pub struct BClump {
    pub pre: Vec<u8>,
    pub post: Vec<u8>,
    pub pre_start: usize,
    pub post_start: usize,
}

/// Content safety of binary patches (C14). Per clump: applied at exactly its position if the recorded bytes
/// are there and clear of earlier replacements; otherwise the data is left alone. A clump both of whose
/// images are in place may be taken either way.
pub fn safe_bytes(clumps: &[BClump], data: &[u8], out: &[u8], ex: &mut Explored) -> bool {
    // (clump, cursor, lower limit for replacements, output position)
    let mut seen = HashSet::new();
    let mut stack = vec![(0usize, 0usize, 0usize, 0usize)];
    seen.insert(stack[0]);
    while let Some((i, c, last, o)) = stack.pop() {
        if i == clumps.len() && c == data.len() && o == out.len() {
            ex.states += seen.len() as u64;
            return true;
        }
        let mut push = |t: (usize, usize, usize, usize), ex: &mut Explored| {
            ex.transitions += 1;
            if seen.insert(t) {
                stack.push(t);
            }
        };
        if i < clumps.len() {
            let k = &clumps[i];
            let there = at(data, &k.pre, k.pre_start);
            let must = there && k.pre_start >= last;
            let already = at(data, &k.post, k.post_start);
            if there && c == k.pre_start && out[o..].starts_with(&k.post) {
                let end = c + k.pre.len();
                push((i + 1, end, end, o + k.post.len()), ex);
            }
            if already {
                push((i + 1, c, last.max(k.post_start + k.post.len()), o), ex);
            }
            if !must && !already {
                push((i + 1, c, last, o), ex);
            }
        }
        // passing over a clump does not depend on the cursor: it is done first, so that copying is for the sake of
        // the next clump's replacement or of the end
        let wanted = i == clumps.len() || (c < clumps[i].pre_start && at(data, &clumps[i].pre, clumps[i].pre_start));
        if wanted && c < data.len() && o < out.len() && out[o] == data[c] {
            push((i, c + 1, last, o + 1), ex);
        }
    }
    ex.states += seen.len() as u64;
    false
}

/// The same machine with a report (C31): whether some run of it gives the output and applies so many clumps, finds so
/// many already applied, and passes over the others.
pub fn reported_bytes(clumps: &[BClump], data: &[u8], out: &[u8], want: (usize, usize), ex: &mut Explored) -> bool {
    // (clump, cursor, lower limit for replacements, output position, applied); the others follow
    let mut seen = HashSet::new();
    let mut stack = vec![(0usize, 0usize, 0usize, 0usize, 0usize, 0usize)];
    seen.insert(stack[0]);
    let mut accepted = false;
    while let Some((i, c, last, o, n, m)) = stack.pop() {
        if i == clumps.len() && c == data.len() && o == out.len() && (n, m) == want {
            accepted = true;
            break;
        }
        let mut push = |t: (usize, usize, usize, usize, usize, usize), ex: &mut Explored| {
            ex.transitions += 1;
            if (t.4 <= want.0 && t.5 <= want.1) && seen.insert(t) {
                stack.push(t);
            }
        };
        let mut copies = i == clumps.len();
        if let Some(k) = clumps.get(i) {
            let there = at(data, &k.pre, k.pre_start);
            let already = at(data, &k.post, k.post_start);
            if there && c == k.pre_start && out[o..].starts_with(&k.post) {
                let end = c + k.pre.len();
                push((i + 1, end, end, o + k.post.len(), n + 1, m), ex);
            }
            if already {
                push((i + 1, c, last.max(k.post_start + k.post.len()), o, n, m + 1), ex);
            } else if !there || k.pre_start < last {
                push((i + 1, c, last, o, n, m), ex);
            }
            copies = there && c < k.pre_start;
        }
        if copies && c < data.len() && o < out.len() && out[o] == data[c] {
            push((i, c + 1, last, o + 1, n, m), ex);
        }
    }
    ex.states += seen.len() as u64;
    accepted
}

/// Longest common run of two slices, by looking at every pair of places.
pub fn longest_run<T: PartialEq>(a: &[T], b: &[T]) -> usize {
    let mut best = 0;
    // length of the common run that ends at (i, j), for the row before
    let mut row = vec![0usize; b.len() + 1];
    for x in a {
        for j in (0..b.len()).rev() {
            row[j + 1] = if *x == b[j] { row[j] + 1 } else { 0 };
            best = best.max(row[j + 1]);
        }
    }
    best
}
