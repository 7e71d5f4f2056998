//! Enumerators: every generator maps an index 0..len() to one case, simplest first, each case once.

/// Number of completions of a restricted growth string: `t[r][u]` with r symbols to go, u used, at most k in all.
fn rgs_table(n: usize, k: usize) -> Vec<Vec<u64>> {
    let mut t = vec![vec![1u64; k + 2]; n + 1];
    for r in 1..=n {
        for u in 0..=k {
            let mut c = u as u64 * t[r - 1][u];
            if u < k {
                c += t[r - 1][u + 1];
            }
            t[r][u] = c;
        }
    }
    t
}

/// All tuples of words with the given maximal lengths over at most `k` symbols, modulo renaming of
/// symbols (the code under test compares items only for equality). Ordered by total length.
pub struct Words {
    k: usize,
    table: Vec<Vec<u64>>,
    shapes: Vec<(Vec<usize>, u64)>, // lengths, first index
    total: u64,
}

impl Words {
    pub fn new(max: &[usize], k: usize) -> Self {
        Self::with(max, k, |_| true)
    }
    pub fn with(max: &[usize], k: usize, keep: impl Fn(&[usize]) -> bool) -> Self {
        let table = rgs_table(max.iter().sum(), k);
        let mut shapes: Vec<Vec<usize>> = vec![vec![]];
        for m in max {
            shapes = shapes
                .into_iter()
                .flat_map(|s| {
                    (0..=*m).map(move |l| {
                        let mut s = s.clone();
                        s.push(l);
                        s
                    })
                })
                .collect();
        }
        shapes.retain(|s| keep(s));
        shapes.sort_by_key(|s| (s.iter().sum::<usize>(), s.clone()));
        let mut total = 0;
        let shapes = shapes
            .into_iter()
            .map(|s| {
                let first = total;
                total += table[s.iter().sum::<usize>()][0];
                (s, first)
            })
            .collect();
        Self { k, table, shapes, total }
    }
    pub fn len(&self) -> u64 {
        self.total
    }
    pub fn get(&self, idx: u64) -> Vec<Vec<u8>> {
        let at = self.shapes.partition_point(|s| s.1 <= idx) - 1;
        let (shape, first) = &self.shapes[at];
        let n: usize = shape.iter().sum();
        let mut rest = idx - first;
        let mut word = Vec::with_capacity(n);
        let mut used = 0usize;
        for i in 0..n {
            let below = self.table[n - i - 1][used];
            let old = below * used as u64;
            if rest < old {
                word.push((rest / below) as u8);
                rest %= below;
            } else {
                rest -= old;
                word.push(used as u8);
                used += 1;
                debug_assert!(used <= self.k);
            }
        }
        let mut out = vec![];
        let mut i = 0;
        for l in shape {
            out.push(word[i..i + l].to_vec());
            i += l;
        }
        out
    }
}

/// Mixed radix decoding: splits `idx` into digits with the given radices (first digit slowest).
pub fn digits(mut idx: u64, radices: &[u64]) -> Vec<u64> {
    let mut out = vec![0; radices.len()];
    for i in (0..radices.len()).rev() {
        out[i] = idx % radices[i];
        idx /= radices[i];
    }
    debug_assert_eq!(idx, 0);
    out
}

pub fn product(radices: &[u64]) -> u64 {
    radices.iter().product()
}

/// One edit of a sequence of items.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Edit {
    Del(usize),
    /// put item before position
    Ins(usize, u16),
    Rep(usize, u16),
}

/// Symbols from FRESH on are items that the base does not hold.
pub const FRESH: u16 = 100;

pub fn apply_edits(base: &[u16], edits: &[Edit]) -> Vec<u16> {
    // positions refer to the base; several edits at the same place are applied in the given order
    let mut out = vec![];
    for i in 0..=base.len() {
        for e in edits {
            if let Edit::Ins(p, x) = e {
                if *p == i {
                    out.push(*x);
                }
            }
        }
        if i == base.len() {
            break;
        }
        let mut item = Some(base[i]);
        for e in edits {
            match e {
                Edit::Del(p) if *p == i => item = None,
                Edit::Rep(p, x) if *p == i => item = Some(*x),
                _ => (),
            }
        }
        if let Some(x) = item {
            out.push(x);
        }
    }
    out
}

/// All single edits of a base of n items. `fresh` is the item new ones are made of; `dups` lists
/// further items that may be inserted or used as replacement.
pub fn single_edits(n: usize, fresh: u16, dups: &[u16]) -> Vec<Edit> {
    let mut out = vec![];
    for i in 0..n {
        out.push(Edit::Del(i));
    }
    for x in std::iter::once(&fresh).chain(dups) {
        for i in 0..n {
            out.push(Edit::Rep(i, *x));
        }
        for i in 0..=n {
            out.push(Edit::Ins(i, *x));
        }
    }
    out
}

/// All sets of at most `max` edits (the deviation bound), fewest first. The j-th edit of a set uses fresh item
/// `fresh + j`, so that new lines differ from each other.
pub fn edit_sets(n: usize, max: usize, fresh: u16, dups: &[u16]) -> Vec<Vec<Edit>> {
    let mut out: Vec<Vec<Edit>> = vec![vec![]];
    let singles = single_edits(n, 0xffff, dups);
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for level in 0..max {
        let mut next = vec![];
        for s in &last {
            let from = s.last().map_or(0, |x| x + 1);
            for j in from..singles.len() {
                // at most one Del/Rep per position
                let clash = s.iter().any(|i| match (singles[*i], singles[j]) {
                    (Edit::Del(a) | Edit::Rep(a, _), Edit::Del(b) | Edit::Rep(b, _)) => a == b,
                    _ => false,
                });
                if clash {
                    continue;
                }
                let mut s = s.clone();
                s.push(j);
                next.push(s);
            }
        }
        let _ = level;
        for s in &next {
            out.push(
                s.iter()
                    .enumerate()
                    .map(|(j, i)| match singles[*i] {
                        Edit::Ins(p, 0xffff) => Edit::Ins(p, fresh + j as u16),
                        Edit::Rep(p, 0xffff) => Edit::Rep(p, fresh + j as u16),
                        e => e,
                    })
                    .collect(),
            );
        }
        last = next;
    }
    out
}

/// All words over `k` letters of length <= n, shortest first.
pub fn all_words(n: usize, k: u8) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for w in &last {
            for c in 0..k {
                let mut w = w.clone();
                w.push(c);
                next.push(w);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// All ways to write n as an ordered sum of positive parts.
pub fn compositions(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    (0..1u64 << (n - 1))
        .map(|mask| {
            let mut parts = vec![];
            let mut run = 1;
            for i in 0..n - 1 {
                if mask >> i & 1 == 1 {
                    parts.push(run);
                    run = 1;
                } else {
                    run += 1;
                }
            }
            parts.push(run);
            parts
        })
        .collect()
}
