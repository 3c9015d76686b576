//! An independent definition of the expression language.
//!
//! Written from the description of the language, by scanning bytes with an
//! explicit stack; it shares no code with the crate under test.

pub const MAX_LENGTH: usize = 16_000;

pub const CASELESS: u16 = 0x0001;
pub const DOTALL: u16 = 0x0002;
pub const MULTILINE: u16 = 0x0004;
pub const SINGLEMATCH: u16 = 0x0008;
#[allow(dead_code)]
pub const ALLOWEMPTY: u16 = 0x0010;
pub const UTF8: u16 = 0x0020;
pub const UCP: u16 = 0x0040;
#[allow(dead_code)]
pub const PREFILTER: u16 = 0x0080;
pub const SOM_LEFTMOST: u16 = 0x0100;
#[allow(dead_code)]
pub const COMBINATION: u16 = 0x0200;
pub const QUIET: u16 = 0x0400;
pub const NUM_FLAG_SETS: u64 = 1 << 11;

/// Why an expression is rejected. Indices are in bytes, from the very start.
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Defect {
    TooLong,
    QuietSom,
    UnsupportedVerb(String),
    UnknownVerb(String),
    NonAscii(usize),
    Unmatched(usize),
    Missing(usize),
}

/// What precedes the expression proper.
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Verb {
    None,
    Utf8,
    Ucp,
    Unsupported(String),
    Unknown(String),
}

const UNSUPPORTED: [&str; 11] = [
    "NO_AUTO_POSSESS",
    "NO_START_OPT",
    "UTF16",
    "UTF32",
    "CR",
    "LF",
    "CRLF",
    "ANYCRLF",
    "ANY",
    "BSR_ANYCRLF",
    "BSR_UNICODE",
];

/// The leading verb and the byte length it takes.
pub fn verb(expr: &str) -> (Verb, usize) {
    let b = expr.as_bytes();
    if b.len() < 4 || b[0] != b'(' || b[1] != b'*' {
        return (Verb::None, 0);
    }
    let mut end = 2;
    while end < b.len() && b[end] != b')' {
        end += 1;
    }
    if end == b.len() || end == 2 {
        return (Verb::None, 0);
    }
    let name = &expr[2..end];
    let v = if name == "UTF8" || name == "UTF" {
        Verb::Utf8
    } else if name == "UCP" {
        Verb::Ucp
    } else if UNSUPPORTED.contains(&name)
        || name.starts_with("LIMIT_MATCH=")
        || name.starts_with("LIMIT_RECURSION=")
    {
        Verb::Unsupported(name.to_string())
    } else {
        Verb::Unknown(name.to_string())
    };
    (v, end + 1)
}

/// Checks the syntax alone: verb, characters, and parentheses.
pub fn syntax(expr: &str) -> Result<(), Defect> {
    let (v, skip) = verb(expr);
    match v {
        Verb::Unsupported(n) => return Err(Defect::UnsupportedVerb(n)),
        Verb::Unknown(n) => return Err(Defect::UnknownVerb(n)),
        _ => {}
    }
    let b = expr.as_bytes();
    let mut open = Vec::new();
    for i in skip..b.len() {
        match b[i] {
            b'(' => open.push(i),
            b')' => {
                if open.pop().is_none() {
                    return Err(Defect::Unmatched(i));
                }
            }
            c if c >= 0x80 => return Err(Defect::NonAscii(i)),
            _ => {}
        }
    }
    match open.pop() {
        Some(i) => Err(Defect::Missing(i)),
        None => Ok(()),
    }
}

/// All defects that may be reported (more than one only if it is both too long
/// and has conflicting flags).
pub fn defects(expr: &str, flags: u16) -> Vec<Defect> {
    let mut d = Vec::new();
    if expr.len() > MAX_LENGTH {
        d.push(Defect::TooLong);
    }
    if flags & QUIET != 0 && flags & SOM_LEFTMOST != 0 {
        d.push(Defect::QuietSom);
    }
    if d.is_empty() {
        if let Err(e) = syntax(expr) {
            d.push(e);
        }
    }
    d
}

pub fn accepted(expr: &str, flags: u16) -> bool {
    defects(expr, flags).is_empty()
}

/// The ordinary characters of an accepted expression, in order.
pub fn characters(expr: &str) -> Vec<u8> {
    let (_, skip) = verb(expr);
    expr.as_bytes()[skip..]
        .iter()
        .copied()
        .filter(|c| !b"()|".contains(c))
        .collect()
}

pub fn has_alternation(expr: &str) -> bool {
    let (_, skip) = verb(expr);
    expr.as_bytes()[skip..].contains(&b'|')
}

/// Whether an accepted expression is a non-empty literal.
pub fn is_literal(expr: &str) -> bool {
    !has_alternation(expr) && !characters(expr).is_empty()
}

pub fn is_letter(c: u8) -> bool {
    matches!(c, 0x41..=0x5a | 0x61..=0x7a)
}

/// The bytes that a character reaches.
pub fn class_of(c: u8, caseless: bool) -> Vec<u8> {
    if caseless && is_letter(c) {
        let upper = c & 0xdf;
        vec![upper, upper | 0x20]
    } else {
        vec![c]
    }
}

/// Parse tree, with classes as sorted lists of bytes.
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Node {
    Class(Vec<u8>),
    Alternation(Vec<Node>),
    Sequence(Option<u32>, Vec<Node>),
}

struct Group {
    index: u32,
    done: Vec<Vec<Node>>,
    current: Vec<Node>,
}

impl Group {
    fn new(index: u32) -> Self {
        Self { index, done: Vec::new(), current: Vec::new() }
    }

    fn close(mut self) -> Node {
        if self.done.is_empty() {
            return Node::Sequence(Some(self.index), self.current);
        }
        self.done.push(self.current);
        let branches = self.done.into_iter().map(|b| Node::Sequence(None, b)).collect();
        Node::Sequence(Some(self.index), vec![Node::Alternation(branches)])
    }
}

/// The parse tree of an accepted expression.
pub fn tree(expr: &str, caseless: bool) -> Node {
    let (_, skip) = verb(expr);
    let mut groups = vec![Group::new(0)];
    let mut next = 1;
    for &c in &expr.as_bytes()[skip..] {
        match c {
            b'(' => {
                groups.push(Group::new(next));
                next += 1;
            }
            b')' => {
                let g = groups.pop().expect("balanced");
                let n = g.close();
                groups.last_mut().expect("balanced").current.push(n);
            }
            b'|' => {
                let g = groups.last_mut().expect("root");
                let branch = std::mem::take(&mut g.current);
                g.done.push(branch);
            }
            c => groups
                .last_mut()
                .expect("root")
                .current
                .push(Node::Class(class_of(c, caseless))),
        }
    }
    groups.pop().expect("root").close()
}
