//! Printed character classes and parse trees.

use super::sets::{model, Model};
use crate::engine::{enumerate, hash_str, hash_u64s, random, Prop, Src};
use crate::gen;
use crate::reference as re;
use crate::util::{Res, MIB};
use rescan::verif::{dump, parse, Class, Tree};

/// Undoes the escaping of a DOT label.
fn unescape(text: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut it = text.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => match it.next() {
                Some(d @ ('\\' | '"' | '\'')) => out.push(d),
                d => return Err(format!("bad escape before {d:?} in a label")),
            },
            '"' => return Err("a quote ends the label".to_string()),
            c => out.push(c),
        }
    }
    Ok(out)
}

enum Item {
    Char(u8),
    Set(Model),
}

/// Reads one character or mnemonic.
fn item(text: &[u8], i: &mut usize) -> Result<Item, String> {
    let c = *text.get(*i).ok_or("the text ends early")?;
    *i += 1;
    if c != b'\\' {
        if b"^-[].".contains(&c) {
            return Err(format!("{:?} is not escaped", c as char));
        }
        if !(0x20..0x7f).contains(&c) {
            return Err(format!("byte {c:#x} is not escaped"));
        }
        return Ok(Item::Char(c));
    }
    let c = *text.get(*i).ok_or("the text ends in an escape")?;
    *i += 1;
    let digit = |d: u8| d.is_ascii_digit();
    Ok(match c {
        b'^' | b'-' | b'[' | b']' | b'.' | b'\\' => Item::Char(c),
        b't' => Item::Char(9),
        b'n' => Item::Char(10),
        b'r' => Item::Char(13),
        b'w' => Item::Set(Model::of(|c| digit(c) || re::is_letter(c) || c == b'_')),
        b'd' => Item::Set(Model::of(digit)),
        b's' => Item::Set(Model::of(|c| matches!(c, 9..=13 | 32))),
        b'x' => {
            let mut v = 0_u32;
            for _ in 0..2 {
                let d = text.get(*i).and_then(|&d| (d as char).to_digit(16));
                v = v * 16 + d.ok_or("a hexadecimal escape is too short")?;
                *i += 1;
            }
            Item::Char(v as u8)
        }
        c => return Err(format!("unknown escape of {:?}", c as char)),
    })
}

/// Reads a description of a set of bytes.
fn read(text: &str) -> Result<Model, String> {
    match text {
        "<any>" => return Ok(Model::ALL),
        "<empty>" => return Ok(Model::EMPTY),
        _ => {}
    }
    let b = text.as_bytes();
    let mut i = 0;
    if b.len() < 2 || b[0] != b'[' {
        let m = match item(b, &mut i)? {
            Item::Char(c) => Model::of(|d| d == c),
            Item::Set(m) => m,
        };
        if i != b.len() {
            return Err("several characters without brackets".to_string());
        }
        return Ok(m);
    }
    if b[b.len() - 1] != b']' {
        return Err("the bracket is not closed".to_string());
    }
    let b = &b[..b.len() - 1];
    i = 1;
    let negated = b.get(1) == Some(&b'^');
    if negated {
        i = 2;
    }
    if i == b.len() {
        return Err("nothing between brackets".to_string());
    }
    let mut m = Model::EMPTY;
    while i < b.len() {
        match item(b, &mut i)? {
            Item::Char(from) if b.get(i) == Some(&b'-') => {
                i += 1;
                let to = match item(b, &mut i)? {
                    Item::Char(to) if from <= to => to,
                    _ => return Err("the range is reversed or ends in a set".to_string()),
                };
                for c in from..=to {
                    m.put(c, true);
                }
            }
            Item::Char(c) => m.put(c, true),
            Item::Set(x) => {
                for c in x.members() {
                    m.put(c, true);
                }
            }
        }
    }
    Ok(if negated { Model::of(|c| !m.has(c)) } else { m })
}

fn runs(m: &Model) -> usize {
    (0..256).filter(|&c| m.0[c] && (c == 0 || !m.0[c - 1])).count()
}

fn check(m: &Model, x: &Class, max_length: usize, dot: bool) -> Result<String, String> {
    let raw = x.describe(max_length, dot);
    let form = if dot { "label" } else { "text" };
    let fits = max_length > runs(m) + 17;
    if raw.contains("...") {
        crate::ensure!(!fits, "the {form} of {} is cut off: {raw:?}", m.show());
        return Ok(raw);
    }
    let text = if dot {
        unescape(&raw).map_err(|e| format!("{form} of {} is {raw:?}: {e}", m.show()))?
    } else {
        raw.clone()
    };
    let got = read(&text).map_err(|e| format!("{form} of {} is {raw:?}: {e}", m.show()))?;
    crate::ensure!(
        got == *m,
        "{form} of {} is {raw:?}, which denotes {}",
        m.show(),
        got.show()
    );
    Ok(raw)
}

fn all_forms(m: &Model) -> Res {
    let x = m.class();
    for dot in [false, true] {
        let a = check(m, &x, 256, dot)?;
        let b = check(m, &x, usize::MAX, dot)?;
        crate::ensure!(a == b, "descriptions differ for different limits, which do not apply");
    }
    Ok(())
}

const WORD: &[u8] = b"_0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
const SPACE: &[u8] = b"\t\n\x0b\x0c\r ";
const DIGIT: &[u8] = b"0123456789";

/// A set in the vicinity of mnemonics.
fn described(s: &mut Src) -> Model {
    let mut m = match s.weighted(&[4, 3, 2]) {
        0 => model(s),
        1 => Model::EMPTY,
        _ => {
            // A few characters that need to be escaped, or are next to.
            let mut m = Model::EMPTY;
            for _ in 0..s.range(1, 6) {
                let c = *s.pick(b"^-[].\\\"'\t\n\r \x00\x7f\xff\xfe\x80!~,/Z_@<>x");
                m.put(c, true);
            }
            m
        }
    };
    for set in [WORD, SPACE, DIGIT] {
        match s.weighted(&[5, 2, 1, 1]) {
            0 => {}
            1 => set.iter().for_each(|&c| m.put(c, true)),
            2 => set.iter().for_each(|&c| m.put(c, false)),
            _ => {
                set.iter().for_each(|&c| m.put(c, true));
                let c = *s.pick(set);
                m.put(c, false);
            }
        }
    }
    for _ in 0..s.below(3) {
        // Short ranges.
        let a = s.draw(256) as usize;
        let n = s.draw(7) as usize;
        let on = s.chance(2, 3);
        for c in a..=(a + n).min(255) {
            m.put(c as u8, on);
        }
    }
    if s.chance(1, 4) {
        m = Model::of(|c| !m.has(c));
    }
    m
}

fn one(s: &mut Src) -> Res {
    let m = described(s);
    s.note(|| m.show());
    s.identity(m.hash());
    let n = m.members().len();
    s.nontrivial_if((2..=254).contains(&n));
    s.label_if(n > 128, "more than half of the bytes");
    s.label_if(WORD.iter().all(|&c| m.has(c)), "contains word characters");
    s.count(3);
    all_forms(&m)
}

/// Under a small limit, the description is cut visibly or is exact.
fn limited(s: &mut Src) -> Res {
    let m = described(s);
    let limit = s.size(160);
    let dot = s.bool();
    s.note(|| format!("{} limited to {limit}", m.show()));
    s.identity(hash_u64s(&[m.hash(), limit as u64]));
    let raw = check(&m, &m.class(), limit, dot)?;
    s.nontrivial_if((2..=254).contains(&m.members().len()));
    s.label_if(raw.contains("..."), "cut off");
    Ok(())
}

/// All ranges, and their complements.
fn ranges(s: &mut Src) -> Res {
    let n = s.draw(65536);
    let (a, b) = ((n >> 8) as u8, n as u8);
    let m = if a <= b {
        Model::of(|c| a <= c && c <= b)
    } else {
        Model::of(|c| c < b || c > a)
    };
    s.note(|| m.show());
    s.nontrivial();
    s.count(1);
    all_forms(&m)?;
    // With an outlier.
    let c = (n.wrapping_mul(0x9e37) >> 5) as u8;
    let m = Model::of(|d| m.has(d) != (c == d));
    all_forms(&m)
}

/// All sets of two bytes.
fn pairs(s: &mut Src) -> Res {
    let n = s.draw(65536);
    let (a, b) = ((n >> 8) as u8, n as u8);
    let m = Model::of(|c| c == a || c == b);
    s.note(|| m.show());
    s.nontrivial_if(a != b);
    s.count(1);
    all_forms(&m)?;
    all_forms(&Model::of(|c| !m.has(c)))
}

// Parse trees.

struct Lines<'a> {
    lines: Vec<&'a str>,
    at: usize,
}

impl<'a> Lines<'a> {
    /// The next line if it is indented by `indent` spaces.
    fn peek(&self, indent: usize) -> Option<&'a str> {
        let line = self.lines.get(self.at)?;
        let text = line.trim_start_matches(' ');
        if line.len() - text.len() == indent {
            Some(text)
        } else {
            None
        }
    }

    fn take(&mut self, indent: usize) -> Result<&'a str, String> {
        match self.peek(indent) {
            Some(l) => {
                self.at += 1;
                Ok(l)
            }
            None => Err(format!(
                "line {} is {:?}, expected {indent} spaces of indentation",
                self.at + 1,
                self.lines.get(self.at)
            )),
        }
    }

    fn children(&mut self, level: usize) -> Result<Vec<Tree>, String> {
        let mut v = Vec::new();
        while self.peek(2 * level).is_some() {
            v.push(self.tree(level)?);
        }
        Ok(v)
    }

    fn tree(&mut self, level: usize) -> Result<Tree, String> {
        let line = self.take(2 * level)?;
        if line == "ASCII CLASS" {
            let text = self.take(2 * level + 2)?;
            let m = read(text).map_err(|e| format!("line {}: {e}", self.at))?;
            return Ok(Tree::Class(m.members()));
        }
        if line == "ALTERNATION" {
            return Ok(Tree::Alternation(self.children(level + 1)?));
        }
        let index = if line == "SEQUENCE (not captured)" {
            None
        } else {
            let n = line
                .strip_prefix("SEQUENCE (capture index ")
                .and_then(|l| l.strip_suffix(')'))
                .and_then(|n| n.parse().ok());
            Some(n.ok_or_else(|| format!("line {} is {line:?}", self.at))?)
        };
        if self.peek(2 * level + 3) == Some("<empty>") {
            self.at += 1;
            return Ok(Tree::Sequence(index, Vec::new()));
        }
        let children = self.children(level + 1)?;
        crate::ensure!(!children.is_empty(), "line {}: nothing in a sequence", self.at);
        Ok(Tree::Sequence(index, children))
    }
}

fn same_dump(e: &str, flags: u16) -> Res {
    let p = parse(e, gen::flags(flags)).and_then(|t| Ok((t, dump(e, gen::flags(flags))?)))
        .map_err(|x| format!("{} is rejected: {x}", gen::show(e)))?;
    let mut l = Lines { lines: p.1.lines().collect(), at: 0 };
    let t = l
        .tree(0)
        .map_err(|x| format!("the printed tree of {} cannot be read, {x}", gen::show(e)))?;
    crate::ensure!(
        l.at == l.lines.len(),
        "the printed tree of {} goes on after line {}",
        gen::show(e),
        l.at
    );
    crate::ensure!(
        t == p.0,
        "the printed tree of {} is that of another one",
        gen::show(e)
    );
    Ok(())
}

fn dump_any(s: &mut Src) -> Res {
    let e = gen::accepted(s, 120, true);
    let flags = gen::ok_flags(s);
    s.note(|| format!("{} flags {flags:#x}", gen::show(&e)));
    s.identity(hash_str(&e) ^ u64::from(flags));
    s.nontrivial_if(e.contains('(') || e.contains('|'));
    same_dump(&e, flags)
}

const ALPHABET: [&str; 5] = ["(", ")", "|", "a", "-"];

fn dump_small(s: &mut Src) -> Res {
    let k = s.draw(gen::num_strings(5, 9));
    let e = gen::nth_string(k, &ALPHABET);
    if re::syntax(&e).is_err() {
        return Ok(());
    }
    s.note(|| gen::show(&e));
    s.nontrivial_if(e.contains('(') || e.contains('|'));
    s.count(1);
    same_dump(&e, 0)?;
    same_dump(&e, re::CASELESS)
}

fn dump_chars(s: &mut Src) -> Res {
    let c = s.draw(0x80) as u8 as char;
    if "()|".contains(c) {
        return Ok(());
    }
    s.note(|| format!("{c:?}"));
    s.nontrivial();
    for e in [format!("{c}"), format!("({c}|a{c})"), format!("{c}(){c}")] {
        if re::accepted(&e, 0) {
            s.count(2);
            same_dump(&e, 0)?;
            same_dump(&e, re::CASELESS)?;
        }
    }
    Ok(())
}

fn dump_big(s: &mut Src) -> Res {
    let e = gen::big_accepted(s, 2_500, true);
    let flags = gen::ok_flags(s);
    s.note(|| format!("{} flags {flags:#x}", gen::show(&e)));
    s.identity(hash_str(&e) ^ u64::from(flags));
    s.nontrivial_if(e.contains('(') || e.contains('|'));
    same_dump(&e, flags)
}

fn dump_deep(s: &mut Src) -> Res {
    let n = s.size(300);
    let (open, mid, close) = *s.pick(&[
        ("(", "a", ")"),
        ("(|", "", ")"),
        ("(a|", "b", "c|)"),
        ("(", "", ")()"),
        ("()(", "", "|b)"),
    ]);
    let e = format!("{}{mid}{}", open.repeat(n), close.repeat(n));
    s.note(|| gen::show(&e));
    s.nontrivial_if(n > 0);
    same_dump(&e, 0)
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "the set has 2 to 254 members, or the expression has a group or an alternative",
        stack: 64 * MIB,
        assumptions: &[
            "mnemonics are \\w (letters, digits, underscore), \\d, and \\s (9 to 13, and space)",
        ],
        subs: vec![
            enumerate("ranges", 65536, 65536, ranges),
            enumerate("pairs", 65536, 65536, pairs),
            random("sets", 150_000, 20_000_000, one),
            random("limited", 100_000, 10_000_000, limited),
            enumerate("trees of short expressions", gen::num_strings(5, 7), gen::num_strings(5, 9), dump_small),
            enumerate("trees of characters", 0x80, 0x80, dump_chars),
            random("trees", 60_000, 4_000_000, dump_any),
            random("deep trees", 2_000, 100_000, dump_deep),
            random("big trees", 600, 20_000, dump_big),
        ],
    }
}
