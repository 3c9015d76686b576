//! Acceptance.

use crate::engine::{enumerate, hash_str, random, Prop, Src};
use crate::gen;
use crate::reference::{accepted, verb, Verb};
use crate::util::{outcome, Res, MIB};
use rescan::{compile, compile_multi};

fn one(s: &mut Src, e: &str, flags: u16, mode: u64) -> Res {
    let m = gen::mode(mode);
    let want = accepted(e, flags);
    s.label(if want { "accepted" } else { "rejected" });
    s.label_if(verb(e).0 != Verb::None, "verb");
    let got = outcome(&compile(e, gen::flags(flags), &m));
    crate::ensure!(
        got.is_ok() == want,
        "{} with flags {flags:#x} in mode {mode} should be {}, but compile() gave {got:?}",
        gen::show(e),
        if want { "accepted" } else { "rejected" }
    );
    Ok(())
}

fn nontrivial(e: &str) -> bool {
    e.bytes().any(|c| b"()|".contains(&c) || c >= 0x80) || e.len() > 1000
}

fn any(s: &mut Src) -> Res {
    let flags = if s.chance(1, 4) { gen::any_flags(s) } else { gen::ok_flags(s) };
    let mode = s.draw(gen::NUM_MODES);
    let e = gen::any_expression(s);
    s.identity(hash_str(&e) ^ u64::from(flags) << 8 ^ mode);
    s.note(|| format!("{} flags {flags:#x} mode {mode}", gen::show(&e)));
    s.nontrivial_if(nontrivial(&e));
    one(s, &e, flags, mode)
}

/// The verdict does not depend on mode, ID, or other flags.
fn invariance(s: &mut Src) -> Res {
    let e = gen::any_expression(s);
    s.identity(hash_str(&e));
    s.note(|| gen::show(&e));
    s.nontrivial_if(nontrivial(&e));
    let want = accepted(&e, 0);
    for _ in 0..6 {
        let flags = gen::ok_flags(s);
        let (mode, m) = gen::any_mode(s);
        let id = gen::any_id(s);
        let got = outcome(&compile_multi(&[&e], &[gen::flags(flags)], &[id], &m));
        s.count(1);
        crate::ensure!(
            got.is_ok() == want,
            "{} with flags {flags:#x}, ID {id}, mode {mode}: want accepted = {want}, got {got:?}",
            gen::show(&e)
        );
    }
    Ok(())
}

/// Well-formed by construction, apart from the reference.
fn constructed(s: &mut Src) -> Res {
    let e = gen::accepted(s, 400, true);
    let flags = gen::ok_flags(s);
    let mode = s.draw(gen::NUM_MODES);
    s.identity(hash_str(&e));
    s.note(|| format!("{} flags {flags:#x} mode {mode}", gen::show(&e)));
    s.nontrivial_if(nontrivial(&e));
    let m = gen::mode(mode);
    let got = outcome(&compile(&e, gen::flags(flags), &m));
    crate::ensure!(got.is_ok(), "well-formed {} is rejected: {got:?}", gen::show(&e));
    // Each of these makes it ill-formed.
    let i = s.below(e.len() + 1);
    let lead = e.starts_with("(*");
    let bad = match s.below(5) {
        0 => format!("{e})"),
        1 => format!("{e}("),
        2 if !lead => format!("){e}"),
        3 if !lead => {
            let mut b = e.clone();
            b.insert(i, gen::non_ascii(s));
            b
        }
        _ => format!("{e}{}", gen::non_ascii(s)),
    };
    let got = outcome(&compile(&bad, gen::flags(flags), &m));
    crate::ensure!(got.is_err(), "ill-formed {} is accepted", gen::show(&bad));
    s.count(1);
    Ok(())
}

/// What other parsers treat specially.
fn constructs(s: &mut Src) -> Res {
    let i = s.draw(gen::NUM_IN_CONTEXT);
    let e = gen::in_context(i);
    s.note(|| gen::show(&e));
    s.nontrivial();
    for flags in [0, 1, 0x20, 0x40, 0x6f] {
        one(s, &e, flags, i % gen::NUM_MODES)?;
        s.count(1);
    }
    Ok(())
}

const ALPHABET: [&str; 8] = ["(", ")", "|", "a", "*", "é", "\u{7f}", "\\"];

fn small(s: &mut Src) -> Res {
    let i = s.draw(gen::num_strings(8, 7));
    let e = gen::nth_string(i, &ALPHABET);
    s.identity(hash_str(&e));
    s.note(|| gen::show(&e));
    s.nontrivial_if(nontrivial(&e));
    one(s, &e, 0, i % gen::NUM_MODES)
}

/// Each ASCII character alone, repeated, in a group, next to others.
fn every_char(s: &mut Src) -> Res {
    let c = s.draw(0x180);
    let c = char::from_u32(c as u32).unwrap_or('a');
    s.note(|| format!("around {c:?}"));
    s.nontrivial();
    for e in [
        format!("{c}"),
        format!("{c}{c}"),
        format!("a{c}"),
        format!("{c}a"),
        format!("({c})"),
        format!("a|{c}"),
        format!("(a{c}|b)"),
        format!("(*UTF8){c}"),
        format!("(*{c})"),
        format!("(*{c}"),
        format!("({c}*)"),
        format!("\\{c}"),
    ] {
        for flags in [0, 1, 0x20, 0x7f] {
            one(s, &e, flags, 0)?;
            s.count(1);
        }
    }
    Ok(())
}

fn all_flags(s: &mut Src) -> Res {
    let flags = s.draw(crate::reference::NUM_FLAG_SETS) as u16;
    s.note(|| format!("flags {flags:#x}"));
    s.nontrivial();
    for mode in 0..gen::NUM_MODES {
        for e in ["", "a", "(a|B)", "(*UCP)a", "(a", "a)", "é", "(*CR)a", "(*X)", "|", "*"] {
            one(s, e, flags, mode)?;
            s.count(1);
        }
    }
    Ok(())
}

fn verbs(s: &mut Src) -> Res {
    let name = gen::verb_name(s);
    let close = if s.chance(9, 10) { ")" } else { "" };
    let rest = if s.chance(1, 4) { gen::soup(s, 6) } else { gen::well_formed(s, 20, true) };
    let e = format!("(*{name}{close}{rest}");
    let flags = gen::ok_flags(s);
    let mode = s.draw(gen::NUM_MODES);
    s.identity(hash_str(&e));
    s.note(|| gen::show(&e));
    s.nontrivial();
    one(s, &e, flags, mode)
}

fn near_verbs(s: &mut Src) -> Res {
    let Some(name) = gen::near_verbs().get(s.draw(gen::NUM_NEAR_VERBS) as usize) else {
        return Ok(());
    };
    s.note(|| format!("{name:?}"));
    s.nontrivial();
    for e in [format!("(*{name})"), format!("(*{name})a(b)"), format!("(*{name}b")] {
        one(s, &e, 0, 0)?;
        s.count(1);
    }
    one(s, &format!("(*{name})(A|b)"), 0x61, 4)
}

fn at_limit(s: &mut Src) -> Res {
    let flags = gen::ok_flags(s);
    let mode = s.draw(gen::NUM_MODES);
    let e = gen::limit_expression(s);
    s.identity(hash_str(&e));
    s.note(|| format!("{} flags {flags:#x} mode {mode}", gen::show(&e)));
    s.nontrivial();
    one(s, &e, flags, mode)
}

fn big(s: &mut Src) -> Res {
    let flags = gen::ok_flags(s);
    let mode = s.draw(gen::NUM_MODES);
    let e = gen::big_any(s, 16_000);
    s.identity(hash_str(&e) ^ u64::from(flags) << 8 ^ mode);
    s.note(|| format!("{} flags {flags:#x} mode {mode}", gen::show(&e)));
    s.nontrivial_if(nontrivial(&e));
    one(s, &e, flags, mode)
}

/// Any length.
fn lengths(s: &mut Src) -> Res {
    let n = s.draw(16_010) as usize;
    s.note(|| format!("length {n}"));
    s.nontrivial_if(n > 0);
    one(s, &"a".repeat(n), 0, 0)?;
    s.count(1);
    one(s, &"()".repeat(n / 2), 1, 1)
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "Expressions as for C01, and well-formed ones by construction, compared with an \
               independent recogniser; flags, modes, and IDs vary for the same expression. \
               Non-trivial: has a parenthesis, bar, or non-ASCII character, or is longer than 1000 \
               bytes.",
        stack: 512 * MIB,
        assumptions: &[],
        subs: vec![
            enumerate("every-char", 0x180, 0x180, every_char),
            enumerate("all-flags", 2048, 2048, all_flags),
            enumerate("small", gen::num_strings(8, 5), gen::num_strings(8, 7), small),
            enumerate("constructs", gen::NUM_IN_CONTEXT, gen::NUM_IN_CONTEXT, constructs),
            random("any", 60_000, 3_000_000, any),
            enumerate("near-verbs", gen::NUM_NEAR_VERBS, gen::NUM_NEAR_VERBS, near_verbs),
            random("verbs", 20_000, 1_000_000, verbs),
            random("constructed", 20_000, 1_000_000, constructed),
            random("invariance", 15_000, 500_000, invariance),
            random("at-limit", 800, 30_000, at_limit),
            random("big", 2_000, 100_000, big),
            enumerate("lengths", 16_010, 16_010, lengths),
        ],
    }
}
