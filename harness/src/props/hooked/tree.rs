//! Parse trees.

use super::trees::{difference, node, show_err};
use crate::engine::{enumerate, hash_str, random, Prop, Src};
use crate::gen;
use crate::reference::{self as re, class_of, Node};
use crate::util::{Res, MIB};
use rescan::verif::parse;

fn same_tree(e: &str, flags: u16) -> Res {
    let want = re::tree(e, flags & re::CASELESS != 0);
    let t = parse(e, gen::flags(flags))
        .map_err(|x| format!("{} is rejected: {}", gen::show(e), show_err(&x)))?;
    match difference(&want, &node(&t), "") {
        None => Ok(()),
        Some(d) => Err(format!("parse tree of {} with flags {flags:#x}, {d}", gen::show(e))),
    }
}

fn structured(e: &str) -> bool {
    e.contains('(') || e.contains('|')
}

fn tree_any(s: &mut Src) -> Res {
    let e = gen::accepted(s, 300, true);
    let flags = gen::ok_flags(s);
    s.identity(hash_str(&e) ^ u64::from(flags));
    s.note(|| format!("{} flags {flags:#x}", gen::show(&e)));
    s.nontrivial_if(structured(&e));
    s.label_if(e.contains('|'), "alternation");
    s.label_if(flags & 1 != 0, "caseless");
    same_tree(&e, flags)
}

fn tree_constructs(s: &mut Src) -> Res {
    let e = gen::in_context(s.draw(gen::NUM_IN_CONTEXT));
    if !re::accepted(&e, 0) {
        return Ok(());
    }
    s.note(|| gen::show(&e));
    s.nontrivial();
    for flags in [0, 1, 0x61, 0xe] {
        s.count(1);
        same_tree(&e, flags)?;
    }
    Ok(())
}

const TREE_ALPHABET: [&str; 5] = ["(", ")", "|", "a", "Z"];

fn tree_small(s: &mut Src) -> Res {
    let k = s.draw(gen::num_strings(5, 9));
    let e = gen::nth_string(k, &TREE_ALPHABET);
    if re::syntax(&e).is_err() {
        return Ok(());
    }
    s.note(|| gen::show(&e));
    s.nontrivial_if(structured(&e));
    s.count(1);
    same_tree(&e, 0)?;
    same_tree(&e, re::CASELESS)
}

fn tree_chars(s: &mut Src) -> Res {
    let c = s.draw(0x80) as u8;
    if b"()|".contains(&c) {
        return Ok(());
    }
    s.note(|| format!("character {c:#x} in several places"));
    s.nontrivial();
    let c = c as char;
    for e in [
        format!("{c}"),
        format!("{c}{c}"),
        format!("a{c}"),
        format!("({c})"),
        format!("{c}|"),
        format!("|{c}"),
        format!("(a{c}|b){c}"),
        format!("(*UTF8){c}"),
        format!("(*UCP){c}|x"),
    ] {
        if e.starts_with("(**") || e == "(*)" {
            continue;
        }
        for flags in [0, 1, 0x7f, 0x2ff] {
            same_tree(&e, flags)?;
            s.count(1);
        }
    }
    Ok(())
}

/// Long and deep ones.
fn tree_large(s: &mut Src) -> Res {
    let n = match s.below(4) {
        0 => s.range(1, 2000),
        1 => *s.pick(&[127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 5333, 7999]),
        2 => s.range(2000, 8000),
        _ => s.size(8000),
    };
    let (open, mid, close) = *s.pick(&[
        ("(", "", ")"),
        ("(|", "x", ")"),
        ("a(", "", "|)"),
        ("", "()", ""),
        ("", "(a|b)", ""),
        ("", "|", ""),
        ("", "a|", ""),
        ("", "Ab(c)", ""),
        ("", "q", ""),
    ]);
    let width = (open.len() + close.len()).max(if open.is_empty() { mid.len() } else { 1 });
    let n = n.min(15_900 / width);
    let e = if open.is_empty() {
        mid.repeat(n)
    } else {
        format!("{}{mid}{}", open.repeat(n), close.repeat(n))
    };
    // Put something small around it.
    let e = format!("{}{e}{}", gen::well_formed(s, 20, true), gen::well_formed(s, 20, true));
    let flags = gen::ok_flags(s);
    s.identity(hash_str(&e) ^ u64::from(flags));
    s.note(|| format!("{} flags {flags:#x}", gen::show(&e)));
    s.nontrivial();
    same_tree(&e, flags)
}

fn tree_big(s: &mut Src) -> Res {
    let e = gen::big_accepted(s, 16_000, true);
    let flags = gen::ok_flags(s);
    s.identity(hash_str(&e) ^ u64::from(flags));
    s.note(|| format!("{} flags {flags:#x}", gen::show(&e)));
    s.nontrivial_if(structured(&e));
    same_tree(&e, flags)
}

/// A tree made first, then its text.
fn tree_made(s: &mut Src) -> Res {
    fn seq(s: &mut Src, out: &mut String, next: &mut u32, depth: usize, caseless: bool) -> Vec<Node> {
        let branches = if s.chance(1, 3) { s.range(2, 4) } else { 1 };
        let mut v = Vec::new();
        for b in 0..branches {
            if b > 0 {
                out.push('|');
            }
            let n = s.below(4);
            let mut items = Vec::new();
            for _ in 0..n {
                if depth > 0 && s.chance(1, 3) {
                    let index = *next;
                    *next += 1;
                    out.push('(');
                    let inner = seq(s, out, next, depth - 1, caseless);
                    out.push(')');
                    items.push(Node::Sequence(Some(index), inner));
                } else {
                    let mut c = gen::ordinary(s);
                    if c == b'*' {
                        c = b'+';
                    }
                    out.push(c as char);
                    items.push(Node::Class(class_of(c, caseless)));
                }
            }
            v.push(items);
        }
        if v.len() == 1 {
            v.pop().unwrap_or_default()
        } else {
            vec![Node::Alternation(
                v.into_iter().map(|i| Node::Sequence(None, i)).collect(),
            )]
        }
    }
    let mut e = String::new();
    let mut next = 1;
    let flags = gen::ok_flags(s);
    let body = seq(s, &mut e, &mut next, 6, flags & 1 != 0);
    let want = Node::Sequence(Some(0), body);
    s.identity(hash_str(&e) ^ u64::from(flags));
    s.note(|| format!("{} flags {flags:#x}", gen::show(&e)));
    s.nontrivial_if(structured(&e));
    let t = parse(&e, gen::flags(flags)).map_err(|x| format!("{e:?} is rejected: {}", show_err(&x)))?;
    match difference(&want, &node(&t), "") {
        None => Ok(()),
        Some(d) => Err(format!("parse tree of {e:?} with flags {flags:#x}, {d}")),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "Well-formed expressions from a grammar, all short ones over 5 symbols, long and deep \
               ones, and trees generated first and then printed; the parse tree must equal that of \
               an independent parser (or the generated one). Non-trivial: has a group or an \
               alternation.",
        stack: 1024 * MIB,
        assumptions: &[],
        subs: vec![
            enumerate("chars", 0x80, 0x80, tree_chars),
            enumerate("small", gen::num_strings(5, 7), gen::num_strings(5, 9), tree_small),
            enumerate("constructs", gen::NUM_IN_CONTEXT, gen::NUM_IN_CONTEXT, tree_constructs),
            random("any", 150_000, 10_000_000, tree_any),
            random("made", 150_000, 10_000_000, tree_made),
            random("large", 300, 10_000, tree_large),
            random("big", 2_000, 80_000, tree_big),
        ],
    }
}
