//! Generators.

use crate::engine::{Rng, Src};
use rescan::{Flags, Mode, SomHorizon};

pub const VERBS: [&str; 14] = [
    "UTF8",
    "UTF",
    "UCP",
    "NO_AUTO_POSSESS",
    "NO_START_OPT",
    "UTF16",
    "UTF32",
    "CR",
    "LF",
    "CRLF",
    "ANYCRLF",
    "ANY",
    "BSR_ANYCRLF",
    "BSR_UNICODE",
];

pub const GOOD_VERBS: [&str; 3] = ["(*UTF8)", "(*UTF)", "(*UCP)"];

pub fn flags(bits: u16) -> Flags {
    // By their names: a constant with a wrong value is a different flag.
    const NAMED: [Flags; 11] = [
        Flags::CASELESS,
        Flags::DOTALL,
        Flags::MULTILINE,
        Flags::SINGLEMATCH,
        Flags::ALLOWEMPTY,
        Flags::UTF8,
        Flags::UCP,
        Flags::PREFILTER,
        Flags::SOM_LEFTMOST,
        Flags::COMBINATION,
        Flags::QUIET,
    ];
    let mut f = Flags::empty();
    for (i, x) in NAMED.into_iter().enumerate() {
        if bits >> i & 1 != 0 {
            f |= x;
        }
    }
    f
}

/// Any set of flags.
pub fn any_flags(s: &mut Src) -> u16 {
    match s.weighted(&[1, 2, 3]) {
        0 => 0,
        1 => 1 << s.draw(11),
        _ => s.draw(crate::reference::NUM_FLAG_SETS) as u16,
    }
}

/// Any set of flags that is not rejected.
pub fn ok_flags(s: &mut Src) -> u16 {
    use crate::reference::{QUIET, SOM_LEFTMOST};
    let f = any_flags(s);
    if f & QUIET != 0 && f & SOM_LEFTMOST != 0 {
        if s.bool() {
            f & !QUIET
        } else {
            f & !SOM_LEFTMOST
        }
    } else {
        f
    }
}

pub fn mode(i: u64) -> Mode {
    match i {
        0 => Mode::Block,
        1 => Mode::Stream(None),
        2 => Mode::Stream(Some(SomHorizon::Large)),
        3 => Mode::Stream(Some(SomHorizon::Medium)),
        4 => Mode::Stream(Some(SomHorizon::Small)),
        _ => Mode::Vectored,
    }
}

pub const NUM_MODES: u64 = 6;

pub fn any_mode(s: &mut Src) -> (u64, Mode) {
    let i = s.draw(NUM_MODES);
    (i, mode(i))
}

const ORDINARY_SPECIAL: &[u8] = b"*+?{}[]^$.\\-,#/\"'<>= \t\n\r\x0b\x0c\0\x7f\x01\x1f!~@`_&";

/// A character that stands for itself, any of 0..=0x7f but `(`, `)`, and `|`.
pub fn ordinary(s: &mut Src) -> u8 {
    match s.weighted(&[6, 3, 3, 2, 2]) {
        0 => b'a' + s.draw(3) as u8,
        1 => b'a' + s.draw(26) as u8,
        2 => b'A' + s.draw(26) as u8,
        3 => *s.pick(ORDINARY_SPECIAL),
        _ => {
            let c = s.draw(0x80 - 3) as u8;
            // Skip '(', ')', and '|'.
            let c = if c >= b'(' { c + 2 } else { c };
            if c >= b'|' {
                c + 1
            } else {
                c
            }
        }
    }
}

const NON_ASCII: &[char] = &[
    '\u{80}', '\u{a9}', '\u{bf}', '\u{c0}', 'é', 'ß', '\u{df}', 'ÿ', '\u{100}', '\u{161}', '\u{130}',
    '\u{141}', 'ſ', '\u{17f}', 'Ω', '\u{37e}', '\u{2028}', '\u{2128}', '\u{7ff}', '\u{800}', '日', '\u{212a}', '（', '｜', '\u{ff29}',
    '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', '\u{7c0}', '\u{128}', '\u{129}', '\u{17c}',
];

pub fn non_ascii(s: &mut Src) -> char {
    if s.chance(1, 4) {
        let mut c = 0x80 + s.draw(0x11_0000 - 0x80 - 0x800) as u32;
        if c >= 0xd800 {
            c += 0x800;
        }
        char::from_u32(c).unwrap_or('é')
    } else {
        *s.pick(NON_ASCII)
    }
}

/// A literal: no groups, no alternation.
pub fn plain(s: &mut Src, max: usize) -> String {
    if max > 3 && s.chance(1, 24) {
        let mut w = ordinary_word(s);
        w.truncate(max);
        return w;
    }
    let n = s.size(max);
    (0..n).map(|_| ordinary(s) as char).collect()
}

/// A word of the source code, of ordinary characters only.
fn ordinary_word(s: &mut Src) -> String {
    let special = |c: char| !c.is_ascii() || "()|".contains(c);
    s.word().replace(special, "_")
}

/// A word of the source code, with what is needed for it to be well-formed.
fn balanced_word(s: &mut Src, alt: bool) -> String {
    let w: String = s.word().chars().filter(|&c| c.is_ascii() && (alt || c != '|')).collect();
    let (mut open, mut missing) = (0_usize, 0);
    for c in w.chars() {
        match c {
            '(' => open += 1,
            ')' if open > 0 => open -= 1,
            ')' => missing += 1,
            _ => {}
        }
    }
    "(".repeat(missing) + &w + &")".repeat(open)
}

/// What other parsers of regular expressions know, and this one does not. All are balanced.
const CONSTRUCTS: &[&str] = &[
    "(?:a)", "(?=a)", "(?!a)", "(?<=a)", "(?<!a)", "(?>a)", "(?i)a", "(?i:a)", "(?-i:a)", "(?i-s:a)", "(?#c)",
    "(?P<n>a)", "(?<n>a)", "(?'n'a)", "(?P=n)", "(?P>n)", "(?R)", "(?0)", "(?1)", "(?+1)", "(?-1)", "(?&n)",
    "(?(1)a)", "(?(<n>)a)", "(?(R)a)", "(?(DEFINE)a)", "(?C)", "(?C1)", "(?s)", "(?m)", "(?x)", "(?xx)",
    "(?U)", "(?J)", "(?^)", "(?^i:a)", "(?L)", "(?-)", "(?)", "(?:)", "(?=)", "(?P<n>)", "(?[a])", "(?{a})",
    "(??{a})", "(?P<n)", r"\Qa\E", r"\Q", r"\E", r"\Qa\\E", r"\d", r"\D", r"\w", r"\W", r"\s", r"\S", r"\b",
    r"\B", r"\A", r"\Z", r"\z", r"\G", r"\K", r"\R", r"\X", r"\N", r"\C", r"\h", r"\H", r"\v", r"\V", r"\n",
    r"\r", r"\t", r"\f", r"\a", r"\e", r"\0", r"\1", r"\9", r"\10", r"\12", r"\377", r"\400", r"\777", r"\x",
    r"\x4", r"\x41", r"\x{41}", r"\x{1F600}", r"\x{}", r"\x{g}", r"\x{41", r"\o{17}", r"\o{8}", r"\cA", r"\c",
    r"\c!", r"\p{L}", r"\P{L}", r"\pL", r"\p{^L}", r"\p{Greek}", r"\p{Any}", r"\p{", r"\k<n>", r"\k'n'",
    r"\k{n}", r"\k", r"\g1", r"\g{1}", r"\g{-1}", r"\g{n}", r"\g<n>", r"\g'1'", r"\g", r"\u0041", r"\u{41}",
    r"\U0041", r"\N{U+41}", r"\N{name}", r"\L", r"\l", r"\u", r"\U", r"\\", r"\.", r"\*", r"\[", r"\]", r"\{",
    r"\}", r"\^", r"\$", r"\-", r"\/", r#"\""#, r"\'", r"\%", r"\<a\>", "[a]", "[^a]", "[a-z]", "[z-a]",
    "[a-]", "[-a]", "[a-b-c]", "[[:alpha:]]", "[[:^alpha:]]", "[[:word:]]", "[[:x:]]", "[[.a.]]", "[[=a=]]",
    "[:alpha:]", "[]", "[^]", "[]a]", "[^]a]", "[a&&b]", "[a--b]", "[a~~b]", r"[\d]", r"[\]]", r"[\b]",
    r"[\x41]", r"[\Qa\E]", "[[", "[a", r"[a-\d]", r"[^\n]", "[.]", "[*]", "a]", "]", "a*", "a+", "a?", "a{1}",
    "a{0}", "a{1,}", "a{,1}", "a{1,2}", "a{2,1}", "a{1000}", "a{70000}", "a{4294967296}", "a{", "a}", "a{}",
    "a{,}", "a{a}", "a*?", "a+?", "a??", "a*+", "a++", "a?+", "a**", "a+*", "a?{2}", "a{1}{2}", "a{1}?",
    "a{1}+", "*", "+", "?", "**", "++", "??", "{1}", "{1,2}", "{}", "^", "$", "^a$", "^$", "$^", "^*", "$*",
    "^^", "$$", ".", ".*", ".+", ".*?", ".{3}", "a.b", "#a", "a#", "#", "//", "/a/", "/a/i", "&", "&&", "~",
    "!", "<a>", "<", ">", "%s", "%n", "%%", "${a}", "#{a}", "{{a}}", "@", "@a", r#"""#, "'", "`", ";", ":",
    ",", "=", "--", "-a", "_", "0x41", "&amp;", "&#41;", "%41", "U+0041", "()", "(())", "(a)", "((a))",
    "(a)(b)", "(a)*", "(a)+", "(a)?", "(a){2}", "()*", "(a)b(c)", "(.*)", "(a*)*", "(^)", "($)", "([a])",
    r"(\d)", "(a.b)",
];

/// The same, with alternation.
const ALTERNATIONS: &[&str] = &[
    "(?|a|b)", "(?(1)a|b)", "(?:a|b)", "(?i:a|b)", "a|b", "a||b", "||", "(|)", "(a|)", "(|a)", "(a|b)",
    "(a|b)*", "^a|b$", "|*", "*|a", r"\|", "[|]", "[a|b]", "a|*", "(?=a|b)", "(?P<n>a|b)", "|a|", "(||)",
    "(a|b|c)", "((a|b)|c)",
];

/// The same, with verbs.
const VERBS_INSIDE: &[&str] = &[
    "(*F)", "(*FAIL)", "(*ACCEPT)", "(*COMMIT)", "(*PRUNE)", "(*PRUNE:n)", "(*SKIP)", "(*SKIP:n)", "(*THEN)",
    "(*MARK:n)", "(*:n)", "(*sr:a)", "(*atomic:a)", "(*UTF8)", "(*UTF)", "(*UCP)", "(*CR)", "(*pla:a)",
    "(*napla:a)", "(*positive_lookahead:a)", "(*NO_JIT)", "(*NOTEMPTY)", "(*NOTEMPTY_ATSTART)", "(*NUL)",
    "(*NO_DOTSTAR_ANCHOR)", "(*LIMIT_HEAP=1)", "(*LIMIT_DEPTH=1)", "(*BSR_UNICODE)", "(*ANY)", "(*)",
];

/// The same, unbalanced.
const UNBALANCED: &[&str] = &[
    r"\(", r"\)", "(?", "(?:", "(?=", "(?#", "(?P<", "(?P", "(?(", "(?(1", "[(]", "[)]", "[(", "[)", "[()]",
    "[)(]", r"\Q(\E", r"\Q)\E", r"\Q(", r"\Q)", "(*", "(*F", "(*MARK:", r"\p{(}", r"\x{(}", r"\k(", r"\g(",
    "a{(", "a{)", "{1,(", "(?#(", r"(?#\)", "(?#a|b", "(?'('", "(?P<(>a)", "(?P<)>a)", r"\c(", r"\c)", "[^(]",
    "[^)]", "[[:(:]]", "#(", "#)", r#""(""#, r#"")""#, "'('", "')'", "^(", "^)", "$(", ".(", "(^", "($", "(.",
    "*(", "*)", "?(", "?)", "+)", ")*", ")?", "){2}", ")(", ")|(", "(|", "|)", "())", "(()", "a(b", "a)b",
];

/// Something that other parsers treat specially.
pub fn construct(s: &mut Src, alt: bool) -> &'static str {
    match s.weighted(&[8, if alt { 2 } else { 0 }, 1]) {
        0 => s.pick(CONSTRUCTS),
        1 => s.pick(ALTERNATIONS),
        _ => s.pick(VERBS_INSIDE),
    }
}

const CONTEXTS: u64 = 14;
pub const NUM_IN_CONTEXT: u64 = CONTEXTS
    * (CONSTRUCTS.len() + ALTERNATIONS.len() + VERBS_INSIDE.len() + UNBALANCED.len()) as u64;

/// One of these, somewhere in an expression that may be malformed.
pub fn in_context(i: u64) -> String {
    let all = CONSTRUCTS.iter().chain(ALTERNATIONS).chain(VERBS_INSIDE).chain(UNBALANCED);
    let c = all.cloned().nth((i / CONTEXTS) as usize).unwrap_or("a");
    match i % CONTEXTS {
        0 => c.to_string(),
        1 => format!("a{c}"),
        2 => format!("{c}b"),
        3 => format!("({c})"),
        4 => format!("x(y{c}z)w"),
        5 => format!("{c}|{c}"),
        6 => format!("{c}{c}"),
        7 => format!("{c})"),
        8 => format!("({c}"),
        9 => format!("(*UTF8){c}"),
        10 => format!("(*UCP)aB{c}(Cd)"),
        11 => format!("a|({c}|b)c"),
        12 => format!("{c}é"),
        _ => format!("((a{c}(b)))K"),
    }
}

/// Appends a well-formed expression with at most about `budget` parts.
fn well_formed_into(s: &mut Src, out: &mut String, budget: &mut usize, depth: usize, alt: bool) {
    loop {
        if *budget == 0 || s.chance(1, 6) {
            return;
        }
        *budget -= 1;
        match s.weighted(&[8, 3, if alt { 3 } else { 0 }, 2, 1]) {
            0 => out.push(ordinary(s) as char),
            1 if depth > 0 => {
                out.push('(');
                well_formed_into(s, out, budget, depth - 1, alt);
                out.push(')');
            }
            2 => out.push('|'),
            4 => out.push_str(construct(s, alt)),
            _ => {
                let n = s.range(1, 6);
                for _ in 0..n {
                    out.push(ordinary(s) as char);
                }
            }
        }
    }
}

fn nested(s: &mut Src, depth: usize, alt: bool) -> String {
    // A spine of groups with something around it at some levels.
    let mut left = String::new();
    let mut right = String::new();
    let before = s.draw(4);
    let after = s.draw(4);
    let piece = |s: &mut Src, k: u64| -> &'static str {
        match k {
            0 => "",
            1 => "a",
            2 if alt => "|",
            _ => ["", "b", "x", if alt { "|" } else { "" }][s.below(4)],
        }
    };
    for _ in 0..depth {
        left.push_str(piece(s, before));
        left.push('(');
        let p: String = piece(s, after).chars().rev().collect();
        right.push_str(&p);
        right.push(')');
    }
    if s.bool() {
        left.push('z');
    }
    left + &right
}

/// Branches or groups that are all of the same kind.
fn uniform(s: &mut Src, max: usize, alt: bool) -> String {
    let kind = s.below(7);
    let len = if s.bool() { 1 } else { 1 + s.size(12) };
    let n = s.size(max / (len + 3));
    let same = s.below(3);
    let first: Vec<u8> = (0..len).map(|_| ordinary(s)).collect();
    let mut rng = Rng::new(s.any());
    let bar = if alt { "|" } else { "" };
    let (left, right) = *s.pick(&[("", ""), ("(", ")"), ("x(", ")y"), ("((", "))")]);
    let mut out = left.to_string();
    for i in 0..n {
        if i > 0 {
            out.push_str(bar);
        }
        // The same ones, nearly the same, or others.
        let mut w = first.clone();
        match same {
            0 => {}
            1 => {
                let i = (rng.next() % len as u64) as usize;
                w[i] = b'a' + (rng.next() % 26) as u8;
            }
            _ => {
                for c in &mut w {
                    *c = b'0' + (rng.next() % 75) as u8;
                }
            }
        }
        let w: String = w.iter().map(|&c| if b"()|".contains(&c) { 'p' } else { c as char }).collect();
        match kind {
            0..=2 => out.push_str(&w),
            3 => out.extend(["(", &w, ")"]),
            4 => out.extend(["(", &w, bar, ")"]),
            5 => out.extend([&w, "()"]),
            _ => {}
        }
    }
    out + right
}

/// A well-formed expression (without a verb, and not starting like one) of at
/// most `max` bytes; if `alt` is false, without alternation.
pub fn well_formed(s: &mut Src, max: usize, alt: bool) -> String {
    let e = match s.weighted(&[10, 6, 3, 2, 2, 2, 2]) {
        6 => {
            let w = balanced_word(s, alt);
            let (l, r) = (plain(s, 4), plain(s, 4));
            match s.below(6) {
                0 => w,
                1 => w + &r,
                2 => l + &w,
                3 => format!("{l}({w}){r}"),
                4 if alt => format!("{l}|{w}|{r}"),
                _ => l + &w + &r,
            }
        }
        0 => {
            let mut out = String::new();
            let mut budget = s.size(max.min(60));
            well_formed_into(s, &mut out, &mut budget, 8, alt);
            out
        }
        1 => {
            let mut out = String::new();
            let mut budget = s.range(5, 40);
            while budget > 0 {
                budget -= 1;
                well_formed_into(s, &mut out, &mut budget, 5, alt);
            }
            out
        }
        2 => {
            let d = s.size((max / 4).min(200));
            nested(s, d, alt)
        }
        5 => uniform(s, max.min(400), alt),
        3 => {
            // Many siblings.
            let n = s.size((max / 4).min(300));
            let unit = if alt {
                *s.pick(&["()", "(a)", "a|", "|", "(|)", "(a|b)c", "((x))"])
            } else {
                *s.pick(&["()", "(a)", "(())", "a(b)c", "((x)y)"])
            };
            unit.repeat(n)
        }
        _ => plain(s, max.min(300)),
    };
    let mut e = e;
    if e.starts_with("(*") {
        e.insert(0, 'q');
    }
    while e.len() > max {
        e = plain(s, max);
    }
    e
}

/// A well-formed expression that may have a leading supported verb.
pub fn accepted(s: &mut Src, max: usize, alt: bool) -> String {
    if max > 10 && s.chance(1, 5) {
        let v = *s.pick(&GOOD_VERBS);
        format!("{}{}", v, well_formed(s, max - v.len(), alt))
    } else {
        well_formed(s, max, alt)
    }
}

/// The name of a control verb, known or not.
pub fn verb_name(s: &mut Src) -> String {
    let base = match s.weighted(&[8, 4, 2, 1, 1]) {
        4 => s.word().replace([')', '('], "_"),
        0 => (*s.pick(&VERBS)).to_string(),
        1 => {
            let p = *s.pick(&["LIMIT_MATCH=", "LIMIT_RECURSION=", "LIMIT_MATCH", "LIMIT_RECURSION"]);
            let v = match s.below(9) {
                0 => String::new(),
                1 => s.any_u32().to_string(),
                2 => "x".to_string(),
                3 => "=".to_string(),
                4 => "(1".to_string(),
                5 => (*s.pick(&["-1", "+3", "0x10", "007", "1 ", " 1", "1e3", "3.5", "1_000", "٣"])).to_string(),
                6 => "9".repeat(s.size(60)),
                7 => s.any().to_string(),
                _ => s.pick(&["4294967296", "18446744073709551615", "18446744073709551616"]).to_string(),
            };
            p.to_string() + &v
        }
        2 => plain(s, 8).replace([')', '('], "_"),
        _ => {
            // Long names, with characters of all lengths.
            let n = if s.bool() { s.range(30, 300) } else { s.size(4000) };
            let c = if s.bool() { non_ascii(s) } else { ordinary(s) as char };
            let start = plain(s, 5);
            let mixed = s.bool();
            let mut out = start;
            for _ in 0..n {
                out.push(if mixed && s.chance(1, 4) { non_ascii(s) } else { c });
            }
            out.replace([')', '('], "_")
        }
    };
    match s.weighted(&[5, 3]) {
        0 => base,
        _ => {
            let mut c: Vec<char> = base.chars().collect();
            let i = s.below(c.len() + 1);
            match s.below(8) {
                0 => c.insert(i, *s.pick(&[' ', '_', '=', '8', 'X', '(', '*', '\0', 'é', '|'])),
                1 if i < c.len() => {
                    c.remove(i);
                }
                2 if i < c.len() => c[i] = c[i].to_ascii_lowercase(),
                3 => c = base.to_ascii_lowercase().chars().collect(),
                4 => c.push(' '),
                5 => c.insert(0, ' '),
                6 => c.extend("at index 7".chars()),
                _ => c.extend(s.pick(&VERBS).chars()),
            }
            c.into_iter().collect()
        }
    }
}

const TOKENS: &[&str] = &[
    "(", ")", "|", "(", ")", "a", "b", "Z", "*", "+", "?", "()", "(|", "|)", "((", "))", "(a)", "(*", "(*UTF8)",
    "(*UCP)", "(*UTF", "(*)", "(?:", "\\(", "\\)", "[", "]", "{2}", "^", "$", ".", " ", "\n", "\0", "\\",
];

/// Any token soup.
pub fn soup(s: &mut Src, max: usize) -> String {
    let n = s.size(max);
    let mut out = String::new();
    let uni = s.chance(1, 3);
    for _ in 0..n {
        if uni && s.chance(1, 12) {
            out.push(non_ascii(s));
        } else {
            match s.draw(16) {
                0 => out.push_str(construct(s, true)),
                1 => out.push_str(s.pick(UNBALANCED)),
                _ => out.push_str(s.pick(TOKENS)),
            }
        }
    }
    out
}

/// Changes a string a little.
pub fn mutate(s: &mut Src, e: &str, times: usize) -> String {
    let mut c: Vec<char> = e.chars().collect();
    for _ in 0..times {
        let i = s.below(c.len() + 1);
        match s.weighted(&[3, 3, 2, 2, 1]) {
            0 if i < c.len() => {
                c.remove(i);
            }
            1 => c.insert(i, *s.pick(&['(', ')', '|', 'a', '*'])),
            2 => c.insert(i, non_ascii(s)),
            3 if i < c.len() => c[i] = *s.pick(&['(', ')', '|']),
            _ => {
                let j = s.below(c.len() + 1);
                if i < c.len() && j < c.len() {
                    c.swap(i, j);
                }
            }
        }
    }
    c.into_iter().collect()
}

/// A large, irregular, well-formed expression (without a verb, and not starting
/// like one) of at most `max` bytes. Few choices make many different ones: most
/// come from a generator started from one choice, in phases that climb, fall, or
/// stay level, up to a maximum depth.
pub fn big(s: &mut Src, max: usize, alt: bool) -> String {
    let target = match s.weighted(&[3, 3, 2]) {
        0 => s.range(60, 400),
        1 => s.range(200, 3_000),
        _ => s.range(1_000, 16_000),
    }
    .min(max);
    let cap = *s.pick(&[3_usize, 1, 20, 300, 8_000]);
    let alphabet = s.below(5);
    let bars = if alt { *s.pick(&[20_u64, 1, 100, 400, 0]) } else { 0 };
    let mut rng = Rng::new(s.any());
    let mut out = String::with_capacity(target);
    let mut depth = 0;
    let (mut left, mut open, mut close) = (0, 0, 0);
    while out.len() + depth < target {
        if left == 0 {
            left = 1 + rng.next() % [5, 50, 2_000][(rng.next() % 3) as usize];
            let tilt = [(30, 30), (5, 5), (200, 50), (50, 200), (800, 10), (10, 800), (0, 0), (400, 400)];
            let (o, c) = tilt[(rng.next() % 8) as usize];
            open = o;
            close = c;
        }
        left -= 1;
        let x = rng.next() % 1000;
        if x < open {
            // Needs room for two.
            if depth < cap && out.len() + depth + 2 <= target {
                out.push('(');
                depth += 1;
                continue;
            }
        } else if x < open + close {
            if depth > 0 {
                out.push(')');
                depth -= 1;
                continue;
            }
        } else if rng.next() % 1000 < bars {
            out.push('|');
            continue;
        }
        let c = match alphabet {
            0 => b'a' + (rng.next() % 26) as u8,
            1 => b'a',
            2 => *b"aAbB01".get((rng.next() % 6) as usize).unwrap_or(&b'a'),
            3 => (rng.next() % 0x80) as u8,
            _ => ORDINARY_SPECIAL[(rng.next() % ORDINARY_SPECIAL.len() as u64) as usize],
        };
        out.push(if b"()|".contains(&c) { 'k' } else { c as char });
    }
    out.extend(std::iter::repeat(')').take(depth));
    if out.starts_with("(*") {
        out.replace_range(1..2, "q");
    }
    out
}

/// A large expression that may have a leading supported verb.
pub fn big_accepted(s: &mut Src, max: usize, alt: bool) -> String {
    let v = if s.chance(1, 5) { *s.pick(&GOOD_VERBS) } else { "" };
    format!("{v}{}", big(s, max - v.len(), alt))
}

/// A large expression, usually with defects at a few places.
pub fn big_any(s: &mut Src, max: usize) -> String {
    let e = big_accepted(s, max - 12, true);
    let n = s.below(4);
    if n == 0 {
        return e;
    }
    let mut c: Vec<char> = e.chars().collect();
    for _ in 0..n {
        // Near the start, near the end, or anywhere.
        let i = match s.below(3) {
            0 => s.size(c.len()),
            1 => c.len() - s.size(c.len()),
            _ => s.below(c.len() + 1),
        };
        match s.below(5) {
            0 => c.insert(i, '('),
            1 => c.insert(i, ')'),
            2 => c.insert(i, non_ascii(s)),
            3 if i < c.len() => {
                c.remove(i);
            }
            _ => c.insert(i, '|'),
        }
    }
    c.into_iter().collect()
}

/// An expression whose length in bytes is close to `target`.
pub fn long(s: &mut Src, target: usize) -> String {
    let unit: &str = s.pick(&[
        "a", "ab(c)", "()", "|", "(|)", "a|b", "é", "日", "😀", "aé", "(é)", "A1 ", "\0", "))", "((",
    ]);
    let mut e = String::new();
    if s.chance(1, 5) {
        e.push_str(s.pick(&GOOD_VERBS));
    }
    let inner = target.saturating_sub(e.len());
    match s.weighted(&[4, 3]) {
        0 => {
            let n = inner / unit.len();
            e.push_str(&unit.repeat(n));
        }
        _ => {
            let (open, close) = *s.pick(&[
                ("(", ")"),
                ("(|", ")"),
                ("a(", ")"),
                ("(", "|)"),
                ("(a|", ")"),
                ("(", ""),
                ("", ")"),
                ("(a", ")b"),
            ]);
            let n = inner / (open.len() + close.len());
            e.push_str(&open.repeat(n));
            e.push_str(&close.repeat(n));
        }
    }
    // Fill up to the target with a character placed somewhere.
    let mut fill = String::new();
    while e.len() + fill.len() < target {
        fill.push(*s.pick(&['x', 'y', ' ', '*']));
    }
    if s.bool() {
        e + &fill
    } else {
        // After the verb, if there is one.
        let at = if e.starts_with("(*U") { e.find(')').unwrap_or(0) + 1 } else { 0 };
        e.insert_str(at, &fill);
        e
    }
}

/// Any expression at all.
pub fn any_expression(s: &mut Src) -> String {
    match s.weighted(&[6, 5, 5, 4, 2, 2, 1]) {
        6 => {
            let (l, w, r) = (soup(s, 4), s.word(), soup(s, 4));
            match s.below(4) {
                0 => w,
                1 => w + &r,
                2 => l + &w,
                _ => l + &w + &r,
            }
        }
        0 => accepted(s, 200, true),
        1 => {
            let e = accepted(s, 80, true);
            let n = s.range(1, 4);
            mutate(s, &e, n)
        }
        2 => soup(s, 30),
        3 => {
            let v = verb_name(s);
            let rest = match s.below(3) {
                0 => well_formed(s, 20, true),
                1 => soup(s, 8),
                _ => String::new(),
            };
            let open = *s.pick(&["(*", "(*", "(*", "(*", " (*", "((*", "(", "*", "(**"]);
            let close = if s.chance(9, 10) { ")" } else { "" };
            format!("{open}{v}{close}{rest}")
        }
        4 => {
            // All kinds of characters.
            let n = s.size(40);
            (0..n)
                .map(|_| if s.chance(1, 8) { non_ascii(s) } else { s.draw(0x80) as u8 as char })
                .collect()
        }
        _ => {
            let d = s.size(120);
            let k = s.size(4);
            let e = nested(s, d, true);
            if s.bool() {
                e + &"(".repeat(k)
            } else {
                ")".repeat(k) + &e
            }
        }
    }
}

/// An expression with a length next to the limit.
pub fn limit_expression(s: &mut Src) -> String {
    let target = crate::reference::MAX_LENGTH - 3 + s.below(8);
    long(s, target)
}

/// The `i`-th string over an alphabet, shortest first.
pub fn nth_string(mut i: u64, alphabet: &[&str]) -> String {
    let k = alphabet.len() as u64;
    let mut out: Vec<&str> = Vec::new();
    let mut len = 0;
    let mut total = 1;
    while i >= total {
        i -= total;
        len += 1;
        total *= k;
    }
    for _ in 0..len {
        out.push(alphabet[(i % k) as usize]);
        i /= k;
    }
    out.concat()
}

/// The number of strings of at most `len` symbols over `k` symbols.
pub fn num_strings(k: u64, len: u32) -> u64 {
    (0..=len).map(|l| k.pow(l)).sum()
}

/// Short readable form of a string.
pub fn show(e: &str) -> String {
    if e.len() <= 300 {
        format!("{e:?}")
    } else {
        let head: String = e.chars().take(60).collect();
        let tail: String = e.chars().rev().take(60).collect::<Vec<_>>().into_iter().rev().collect();
        format!("{head:?}...{tail:?} ({} bytes)", e.len())
    }
}

/// A match ID close to other ones in some truncated form.
pub fn any_id(s: &mut Src) -> u32 {
    let base = s.draw(4) as u32;
    let delta = *s.pick(&[0, 0, 0, 0x80, 0x100, 0x8000, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffc]);
    match s.weighted(&[6, 1]) {
        0 => base.wrapping_add(delta),
        _ => s.any_u32(),
    }
}

/// Verbs of other dialects and what may be taken for a verb.
const OTHER_VERBS: [&str; 52] = [
    "", "*", "UTF-8", "UTF-16", "UTF-32", "UTF7", "UTF80", "UTF08", "UTF8STRICT", "UTF8=1", "UTF8,UCP", "UTF8|UCP",
    "UTF8(*UCP", "UCP(*UTF8", "UNICODE", "UCS2", "UCS-2", "LATIN1", "ASCII", "UTF_8", "NO_JIT", "NOTEMPTY",
    "NOTEMPTY_ATSTART", "NO_DOTSTAR_ANCHOR", "LIMIT_HEAP=1", "LIMIT_DEPTH=1", "LIMIT=1", "NUL", "ACCEPT", "FAIL", "F",
    "COMMIT", "PRUNE", "SKIP", "THEN", "MARK:a", ":a", "MARK", "ANY_CRLF", "BSR", "BSR_ANY", "BSR_UTF8", "CR LF",
    "CR,LF", "NO_UTF8", "NO_UCP", "NO_UTF_CHECK", "CASELESS", "DOTALL", "MULTILINE", "UC", "UT",
];

/// All strings that are one change away from the name of a verb, and others.
pub fn near_verbs() -> &'static [String] {
    static NEAR: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    NEAR.get_or_init(|| {
        let mut set = std::collections::BTreeSet::new();
        let mut names: Vec<&str> = VERBS.to_vec();
        names.extend(["LIMIT_MATCH=", "LIMIT_MATCH=1", "LIMIT_RECURSION=", "LIMIT_RECURSION=1"]);
        let letters: Vec<char> = (0..0x80_u8).map(char::from).chain("éſK\u{80}\u{ff}\u{1f600}".chars()).collect();
        for name in &names {
            let c: Vec<char> = name.chars().collect();
            let mut add = |v: &[char]| set.insert(v.iter().collect::<String>());
            add(&c);
            for i in 0..=c.len() {
                for &x in &letters {
                    let mut v = c.clone();
                    v.insert(i, x);
                    add(&v);
                    if i < c.len() {
                        v.remove(i + 1);
                        add(&v);
                    }
                }
                // A part; two places the other way around; twice a part.
                add(&c[..i]);
                add(&c[i..]);
                add(&[&c[i..], &c[..i]].concat());
                add(&[&c[..i], &c[..]].concat());
                if i < c.len() {
                    let mut v = c.clone();
                    v.remove(i);
                    add(&v);
                    if i > 0 {
                        let mut v = c.clone();
                        v.swap(i - 1, i);
                        add(&v);
                    }
                }
            }
            add(&name.to_lowercase().chars().collect::<Vec<_>>());
        }
        for a in &names {
            for b in &names {
                for sep in ["", " ", ",", "_", "(*", "*"] {
                    set.insert(format!("{a}{sep}{b}"));
                }
            }
        }
        for v in OTHER_VERBS {
            set.insert(v.to_string());
            set.insert(v.to_lowercase());
        }
        for a in letters.iter() {
            for b in &letters {
                set.insert([*a, *b].iter().collect());
            }
        }
        set.into_iter().collect()
    })
}

/// At least as many as there are of them.
pub const NUM_NEAR_VERBS: u64 = 80_000;

#[test]
fn number_of_near_verbs() {
    let n = near_verbs().len() as u64;
    assert!(n <= NUM_NEAR_VERBS && n > NUM_NEAR_VERBS / 2, "{n}");
}
