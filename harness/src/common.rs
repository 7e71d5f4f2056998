//! Access to the code under test shared by the checks.

use crate::model::{BClump, Counts, MClump};
use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::{ApplyClumpsFuzzy, Statistics};
use pw_diff_lib::byte_diff::ByteChangeClump;
use pw_diff_lib::changes::Changes;
use pw_diff_lib::sequence::Seq;
use pw_diff_lib::text_diff::TextChangeClump;
use serde_json::{json, Value};
use std::io::{self, Write};

/// Line dictionaries. Every line ends in a newline; symbol -> line is injective.
pub fn line(dict: u8, sym: u16) -> String {
    match dict {
        // plain
        0 => match sym {
            0..=25 => format!("{}\n", (b'a' + sym as u8) as char),
            _ => format!("n{sym}\n"),
        },
        // awkward lines: empty, blank, markers, carriage return, non-ASCII, prefixes of each other, NUL
        1 => match sym {
            0 => "\n".into(),
            1 => " \n".into(),
            2 => "\r\n".into(),
            3 => "-\n".into(),
            4 => "é\u{2028}\n".into(),
            5 => "+\n".into(),
            6 => "<<<<<<<\n".into(),
            7 => "\\\n".into(),
            _ => format!("\u{0}{sym}\n"),
        },
        // lines that are prefixes of each other
        _ => format!("{}\n", "x".repeat(sym as usize + 1)),
    }
}

pub fn render(word: &[u8], dict: u8, eol: bool) -> Vec<String> {
    render16(&word.iter().map(|c| *c as u16).collect::<Vec<_>>(), dict, eol)
}

/// The lines for the symbols; without `eol` the last line loses its newline (if anything is left of it).
pub fn render16(word: &[u16], dict: u8, eol: bool) -> Vec<String> {
    let mut v: Vec<String> = word.iter().map(|c| line(dict, *c)).collect();
    if !eol {
        if let Some(l) = v.last_mut() {
            if l.len() > 1 {
                l.pop();
            }
        }
    }
    v
}

pub fn seq(lines: &[String]) -> Seq<String> {
    Seq(lines.to_vec().into_boxed_slice())
}

pub fn bseq(bytes: &[u8]) -> Seq<u8> {
    Seq(bytes.to_vec().into_boxed_slice())
}

pub struct TPatch(pub Vec<TextChangeClump>);

impl ApplyClumpsFuzzy<TextChangeClump> for TPatch {
    fn clumps<'s>(&'s self) -> impl Iterator<Item = &'s TextChangeClump>
    where
        TextChangeClump: 's,
    {
        self.0.iter()
    }
}

pub struct BPatch(pub Vec<ByteChangeClump>);

impl ApplyClumpsClean<'_, ByteChangeClump> for BPatch {
    fn clumps<'b>(&'b self) -> impl Iterator<Item = &'b ByteChangeClump>
    where
        ByteChangeClump: 'b,
    {
        self.0.iter()
    }
}

pub fn text_patch(before: &[String], after: &[String], context: u8) -> TPatch {
    let changes = Changes::<String>::new(seq(before), seq(after));
    let clumps = changes.change_clumps(context).map(TextChangeClump::from).collect();
    TPatch(clumps)
}

pub fn byte_patch(before: &[u8], after: &[u8], context: u8) -> BPatch {
    let changes = Changes::<u8>::new(bseq(before), bseq(after));
    let clumps = changes.change_clumps(context).map(ByteChangeClump::from).collect();
    BPatch(clumps)
}

/// A sink that refuses to grow without limit.
pub struct Bounded {
    pub out: Vec<u8>,
    pub limit: usize,
}

impl Write for Bounded {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.out.len() + buf.len() > self.limit {
            return Err(io::Error::new(io::ErrorKind::Other, "output grows beyond all bounds"));
        }
        self.out.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn counts(s: &Statistics) -> Counts {
    Counts {
        clean: s.clean,
        fuzzy: s.fuzzy,
        already: s.already_applied,
        already_fuzzy: s.already_applied_fuzzy,
        failed: s.failed,
    }
}

pub fn apply_text(p: &TPatch, file: &[String], reverse: bool) -> Result<(Vec<u8>, Counts), String> {
    let mut w = Bounded { out: vec![], limit: 1 << 22 };
    match p.apply_into(&seq(file), &mut w, reverse) {
        Ok(s) => Ok((w.out, counts(&s))),
        Err(e) => Err(format!("apply_into reported {e}")),
    }
}

pub fn apply_bytes(p: &BPatch, data: &[u8], reverse: bool) -> Result<Vec<u8>, String> {
    apply_bytes_counted(p, data, reverse).map(|r| r.0)
}

pub fn apply_bytes_counted(p: &BPatch, data: &[u8], reverse: bool) -> Result<(Vec<u8>, Counts), String> {
    let mut w = Bounded { out: vec![], limit: 1 << 22 };
    match p.apply_into(&bseq(data), &mut w, reverse) {
        Ok(s) => Ok((w.out, counts(&s))),
        Err(e) => Err(format!("apply_into reported {e}")),
    }
}

/// The clumps as the patch states them (read through the public accessors), in the direction of application.
pub fn mclumps(p: &TPatch, reverse: bool) -> Vec<MClump> {
    use pw_diff_lib::apply_text::TextClumpBasics;
    p.0.iter()
        .map(|c| {
            let ctx = TextClumpBasics::context_lengths(c);
            MClump {
                pre: c.before(reverse).items.to_vec(),
                post: c.after(reverse).items.to_vec(),
                pre_start: c.before(reverse).start,
                post_start: c.after(reverse).start,
                ctx: (ctx.0 as usize, ctx.1 as usize),
            }
        })
        .collect()
}

pub fn bclumps(p: &BPatch, reverse: bool) -> Vec<BClump> {
    p.0.iter()
        .map(|c| BClump {
            pre: c.before(reverse).items.to_vec(),
            post: c.after(reverse).items.to_vec(),
            pre_start: c.before(reverse).start,
            post_start: c.after(reverse).start,
        })
        .collect()
}

pub fn text_patch_json(p: &TPatch) -> Value {
    json!(p.0)
}

pub fn bytes_str(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

pub fn text(lines: &[String]) -> Vec<u8> {
    lines.iter().flat_map(|l| l.bytes()).collect()
}
