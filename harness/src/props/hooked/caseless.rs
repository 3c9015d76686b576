//! Case-insensitivity.

use super::trees::{difference, node, show_err};
use crate::engine::{enumerate, hash_str, random, Prop, Src};
use crate::gen;
use crate::reference::{self as re, class_of, is_letter, Node};
use crate::util::{outcome, Res, MIB};
use rescan::verif::{graph, literal, parse};
use rescan::{compile, compile_multi};

/// Flips the case of some letters of the expression proper.
fn recase(s: &mut Src, e: &str) -> String {
    let (_, skip) = re::verb(e);
    let how = s.below(4);
    let out: Vec<u8> = e
        .bytes()
        .enumerate()
        .map(|(i, c)| {
            if i < skip || !is_letter(c) {
                return c;
            }
            match how {
                0 => c | 0x20,
                1 => c & 0xdf,
                2 => c ^ 0x20,
                _ => {
                    if s.bool() {
                        c ^ 0x20
                    } else {
                        c
                    }
                }
            }
        })
        .collect();
    String::from_utf8(out).unwrap_or_default()
}

type LiteralView = Option<Vec<(u8, bool)>>;

struct Everything {
    tree: Node,
    literal: LiteralView,
    reach: Vec<Vec<u8>>,
    edges: Vec<(usize, usize)>,
}

fn everything(e: &str, flags: u16) -> Result<Everything, String> {
    let f = gen::flags(flags);
    let p = parse(e, f).map_err(|x| format!("{} is rejected: {}", gen::show(e), show_err(&x)))?;
    let l = literal(e, f).map_err(|x| format!("{} is rejected: {}", gen::show(e), show_err(&x)))?;
    let (_, g) = graph(0, e, f, 0).map_err(|x| format!("{} is rejected: {}", gen::show(e), show_err(&x)))?;
    Ok(Everything {
        tree: node(&p),
        literal: l.map(|l| l.iter().map(|x| (x.c, x.verif_nocase())).collect()),
        reach: g.vertices.iter().map(|v| v.reach.clone()).collect(),
        edges: g.edges,
    })
}

fn case_check(e: &str, other: &str, flags: u16) -> Res {
    let caseless = flags & re::CASELESS != 0;
    let a = everything(e, flags)?;
    let b = everything(other, flags)?;
    let ctx = || format!("{} and {} with flags {flags:#x}", gen::show(e), gen::show(other));
    let want: Vec<Vec<u8>> = re::characters(e).iter().map(|&c| class_of(c, caseless)).collect();
    crate::ensure!(
        a.reach.len() == want.len() + 4 && a.reach[4..] == want[..],
        "{}: {} is reached by {:?} instead of {want:?}",
        ctx(),
        gen::show(e),
        &a.reach[4.min(a.reach.len())..]
    );
    if let Some(d) = difference(&re::tree(e, caseless), &a.tree, "") {
        return Err(format!("{}: {d}", ctx()));
    }
    let want_literal: LiteralView = (!re::has_alternation(e)).then(|| {
        re::characters(e)
            .iter()
            .map(|&c| {
                let nc = caseless && is_letter(c);
                (if nc { c & 0xdf } else { c }, nc)
            })
            .collect()
    });
    crate::ensure!(
        a.literal == want_literal,
        "{}: literal {:?} instead of {want_literal:?}",
        ctx(),
        a.literal
    );
    let same = caseless || re::characters(e) == re::characters(other);
    crate::ensure!((a.tree == b.tree) == same, "{}: trees should be equal: {same}", ctx());
    crate::ensure!((a.reach == b.reach) == same, "{}: automata should be equal: {same}", ctx());
    crate::ensure!(a.edges == b.edges, "{}: edges differ", ctx());
    if a.literal.is_some() {
        crate::ensure!((a.literal == b.literal) == same, "{}: literals should be equal: {same}", ctx());
    }
    let x = outcome(&compile(e, gen::flags(flags), &gen::mode(0)));
    let y = outcome(&compile(other, gen::flags(flags), &gen::mode(0)));
    crate::ensure!(x == y, "{}: compile gave {x:?} and {y:?}", ctx());
    Ok(())
}

fn case_constructs(s: &mut Src) -> Res {
    let e = gen::in_context(s.draw(gen::NUM_IN_CONTEXT));
    if !re::accepted(&e, 0) {
        return Ok(());
    }
    s.note(|| gen::show(&e));
    s.nontrivial();
    let other = recase(s, &e);
    for flags in [0, 1, 0x61, 0xe] {
        s.count(1);
        case_check(&e, &other, flags)?;
    }
    Ok(())
}

fn case_any(s: &mut Src) -> Res {
    let alt = s.bool();
    let e = gen::accepted(s, 150, alt);
    let mut flags = gen::ok_flags(s);
    if s.chance(2, 3) {
        flags |= re::CASELESS;
    } else {
        flags &= !re::CASELESS;
    }
    let other = recase(s, &e);
    s.identity(hash_str(&e) ^ hash_str(&other).rotate_left(7) ^ u64::from(flags));
    s.note(|| format!("{} and {}, flags {flags:#x}", gen::show(&e), gen::show(&other)));
    s.nontrivial_if(e != other);
    s.label(if flags & 1 != 0 { "caseless" } else { "case-sensitive" });
    case_check(&e, &other, flags)
}

fn case_big(s: &mut Src) -> Res {
    let alt = s.bool();
    let e = gen::big_accepted(s, 16_000, alt);
    let mut flags = gen::ok_flags(s);
    if s.chance(2, 3) {
        flags |= re::CASELESS;
    }
    // One or many letters in the other case.
    let skip = re::verb(&e).1;
    let letters: Vec<usize> =
        (skip..e.len()).filter(|&i| is_letter(e.as_bytes()[i])).collect();
    let mut b = e.clone().into_bytes();
    if !letters.is_empty() {
        let many = s.bool();
        let seed = s.any();
        let one = letters[s.below(letters.len())];
        for &i in &letters {
            if i == one || many && crate::engine::hash_u64s(&[seed, i as u64]) & 1 != 0 {
                b[i] ^= 0x20;
            }
        }
    }
    let other = String::from_utf8(b).unwrap_or_default();
    s.identity(hash_str(&e) ^ hash_str(&other).rotate_left(7) ^ u64::from(flags));
    s.note(|| format!("{} and {}, flags {flags:#x}", gen::show(&e), gen::show(&other)));
    s.nontrivial_if(e != other);
    case_check(&e, &other, flags)
}

/// Every character, and each other character in its place.
fn case_chars(s: &mut Src) -> Res {
    let c = s.draw(0x80) as u8;
    if b"()|".contains(&c) {
        return Ok(());
    }
    s.note(|| format!("{:?} with any flag", c as char));
    s.nontrivial_if(is_letter(c));
    for (a, b) in [("", ""), ("x", "y"), ("(", ")"), ("q|", ""), ("", "|Q")] {
        for bit in 0..11 {
            for base in [0, 1] {
                let flags = base | 1 << bit;
                let e = format!("{a}{}{b}", c as char);
                let o = if is_letter(c) { c ^ 0x20 } else { c };
                let other = format!("{a}{}{b}", o as char);
                if e == "(*)" {
                    continue;
                }
                case_check(&e, &other, flags)?;
                s.count(1);
            }
        }
    }
    // Blind to nothing but case.
    for o in 0..0x80_u8 {
        if b"()|".contains(&o) {
            continue;
        }
        for flags in [0, 1] {
            let a = everything(&format!("m{}n", c as char), flags)?;
            let b = everything(&format!("m{}n", o as char), flags)?;
            let same = class_of(c, flags == 1) == class_of(o, flags == 1);
            crate::ensure!(
                (a.tree == b.tree) == same && (a.literal == b.literal) == same,
                "{:?} and {:?} with flags {flags}: should be the same: {same}",
                c as char,
                o as char
            );
            s.count(1);
        }
    }
    Ok(())
}

/// In a list, too.
fn case_list(s: &mut Src) -> Res {
    let (_, mode) = gen::any_mode(s);
    let n = 1 + s.size(12);
    let bad = s.chance(1, 3);
    let list: Vec<(String, String)> = (0..n)
        .map(|_| {
            let mut e = gen::accepted(s, 20, true);
            if bad && s.chance(1, 5) {
                e.push(*s.pick(&['(', ')', 'é']));
            }
            let o = recase(s, &e);
            (e, o)
        })
        .collect();
    s.note(|| format!("{list:?}"));
    s.nontrivial_if(list.iter().any(|(a, b)| a != b));
    let flags: Vec<_> = (0..n).map(|_| gen::flags(gen::ok_flags(s) | re::CASELESS)).collect();
    let ids: Vec<u32> = (0..n as u32).collect();
    let a: Vec<&str> = list.iter().map(|x| x.0.as_str()).collect();
    let b: Vec<&str> = list.iter().map(|x| x.1.as_str()).collect();
    let x = outcome(&compile_multi(&a, &flags, &ids, &mode));
    let y = outcome(&compile_multi(&b, &flags, &ids, &mode));
    crate::ensure!(x == y, "{list:?} gave {x:?} and {y:?}");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "Well-formed expressions paired with re-casings of their letters; trees, automata, \
               literals, and outcomes are compared with each other and with the definition of a \
               character's class; every ASCII character in several places. Non-trivial: some \
               letter's case was changed.",
        stack: 512 * MIB,
        assumptions: &["The letters of a leading control verb are left alone."],
        subs: vec![
            enumerate("chars", 0x80, 0x80, case_chars),
            enumerate("constructs", gen::NUM_IN_CONTEXT, gen::NUM_IN_CONTEXT, case_constructs),
            random("any", 80_000, 5_000_000, case_any),
            random("big", 1_000, 40_000, case_big),
            random("list", 20_000, 500_000, case_list),
        ],
    }
}
