//! Diagnostics.

use crate::engine::{enumerate, hash_str, random, Prop, Src};
use crate::gen;
use crate::reference::{defects, Defect};
use crate::util::{outcome, Failure, Res, MIB};
use rescan::{compile, compile_multi};

/// Whether an error describes the defect.
pub fn describes(f: &Failure, d: &Defect) -> Res {
    let (_, text) = f.blamed();
    let at = |kind: &str, index: usize| -> Res {
        crate::ensure!(f.kind() == kind, "category should be {kind}: {f:?}");
        crate::ensure!(
            f.location() == Some(index as u64),
            "location should be {index}: {f:?}"
        );
        Ok(())
    };
    match d {
        Defect::TooLong => {
            crate::ensure!(f.kind() == "Other", "category should be Other: {f:?}");
            crate::ensure!(f.location().is_none(), "should have no location: {f:?}");
            crate::ensure!(text.to_lowercase().contains("length"), "should mention length: {f:?}");
            Ok(())
        }
        Defect::QuietSom => {
            crate::ensure!(f.kind() == "Other", "category should be Other: {f:?}");
            crate::ensure!(f.location().is_none(), "should have no location: {f:?}");
            crate::ensure!(text.contains("QUIET"), "should mention QUIET: {f:?}");
            Ok(())
        }
        Defect::UnsupportedVerb(n) => {
            at("LocatedParse", 2)?;
            crate::ensure!(text.starts_with("Unsupported"), "should be unsupported: {f:?}");
            crate::ensure!(text.contains(&format!(" {n} ")), "should name {n:?}: {f:?}");
            Ok(())
        }
        Defect::UnknownVerb(n) => {
            at("LocatedParse", 2)?;
            crate::ensure!(text.starts_with("Unknown"), "should be unknown: {f:?}");
            crate::ensure!(text.contains(&format!(" {n} ")), "should name {n:?}: {f:?}");
            Ok(())
        }
        Defect::NonAscii(i) => {
            at("LocatedParse", *i)?;
            crate::ensure!(
                !text.to_lowercase().contains("parenthes"),
                "should be about a character: {f:?}"
            );
            Ok(())
        }
        Defect::Unmatched(i) => {
            at("LocatedParse", *i)?;
            crate::ensure!(
                text.to_lowercase().contains("parenthes"),
                "should be about a parenthesis: {f:?}"
            );
            Ok(())
        }
        Defect::Missing(i) => {
            at("Parse", *i)?;
            crate::ensure!(
                text.to_lowercase().contains("parenthes"),
                "should be about a parenthesis: {f:?}"
            );
            Ok(())
        }
    }
}

fn label(d: &Defect) -> &'static str {
    match d {
        Defect::TooLong => "too long",
        Defect::QuietSom => "flags",
        Defect::UnsupportedVerb(_) => "unsupported verb",
        Defect::UnknownVerb(_) => "unknown verb",
        Defect::NonAscii(_) => "non-ASCII",
        Defect::Unmatched(_) => "unmatched",
        Defect::Missing(_) => "missing",
    }
}

fn check(s: &mut Src, e: &str, flags: u16, mode: u64, id: Option<u32>) -> Res {
    let ds = defects(e, flags);
    if ds.is_empty() {
        s.label("accepted");
        return Ok(());
    }
    s.label(label(&ds[0]));
    s.nontrivial();
    let m = gen::mode(mode);
    let f = gen::flags(flags);
    let r = match id {
        None => compile(e, f, &m),
        Some(id) => compile_multi(&[e], &[f], &[id], &m),
    };
    let got = outcome(&r);
    let Err(failure) = got else {
        return Err(format!("{} with flags {flags:#x} is accepted; defect: {ds:?}", gen::show(e)));
    };
    let mut why = String::new();
    for d in &ds {
        match describes(&failure, d) {
            Ok(()) => return Ok(()),
            Err(x) => why = x,
        }
    }
    Err(format!("{} with flags {flags:#x}, defect {ds:?}: {why}", gen::show(e)))
}

fn any(s: &mut Src) -> Res {
    let flags = if s.chance(1, 10) { gen::any_flags(s) } else { gen::ok_flags(s) };
    let mode = s.draw(gen::NUM_MODES);
    let e = gen::any_expression(s);
    let id = if s.bool() { Some(gen::any_id(s)) } else { None };
    s.identity(hash_str(&e) ^ u64::from(flags));
    s.note(|| format!("{} flags {flags:#x} mode {mode} ID {id:?}", gen::show(&e)));
    check(s, &e, flags, mode, id)
}

/// A prefix that leaves groups open, then a defect, then more defects.
fn first_defect(s: &mut Src) -> Res {
    let flags = gen::ok_flags(s);
    let mut e = gen::accepted(s, 200, true);
    for _ in 0..s.below(4) {
        e.push('(');
        e.push_str(&gen::well_formed(s, 30, true));
        if s.chance(1, 3) {
            e.push(')');
            e.push_str(&gen::well_formed(s, 10, true));
        }
    }
    let n = s.below(4);
    for _ in 0..n {
        match s.below(4) {
            0 => e.push(')'),
            1 => e.push(gen::non_ascii(s)),
            2 => e.push('('),
            _ => e.push_str(&gen::verb_name(s)),
        }
        e.push_str(&gen::well_formed(s, 8, true));
    }
    s.identity(hash_str(&e));
    s.note(|| format!("{} flags {flags:#x}", gen::show(&e)));
    check(s, &e, flags, 0, None)
}

fn verbs(s: &mut Src) -> Res {
    let name = gen::verb_name(s);
    let rest = if s.bool() { gen::soup(s, 8) } else { gen::well_formed(s, 20, true) };
    let e = format!("(*{name}){rest}");
    let flags = gen::ok_flags(s);
    s.identity(hash_str(&e));
    s.note(|| format!("{} flags {flags:#x}", gen::show(&e)));
    check(s, &e, flags, 0, None)
}

fn constructs(s: &mut Src) -> Res {
    let e = gen::in_context(s.draw(gen::NUM_IN_CONTEXT));
    s.note(|| gen::show(&e));
    for flags in [0, 1, 0x20, 0x48] {
        check(s, &e, flags, 0, None)?;
        s.count(1);
    }
    Ok(())
}

fn near_verbs(s: &mut Src) -> Res {
    let Some(name) = gen::near_verbs().get(s.draw(gen::NUM_NEAR_VERBS) as usize) else {
        return Ok(());
    };
    s.note(|| format!("{name:?}"));
    for rest in ["", "a)", "(é"] {
        check(s, &format!("(*{name}){rest}"), 0, 0, None)?;
        s.count(1);
    }
    check(s, &format!("a(*{name})"), 1, 0, None)
}

fn long(s: &mut Src) -> Res {
    let flags = if s.chance(1, 5) { gen::any_flags(s) } else { gen::ok_flags(s) };
    let n = if s.bool() { s.range(200, 16_010) } else { 15_998 + s.below(6) };
    let mut e = gen::long(s, n);
    for _ in 0..s.below(3) {
        let mut at = s.below(e.len() + 1);
        while !e.is_char_boundary(at) {
            at -= 1;
        }
        let c = match s.below(3) {
            0 => gen::non_ascii(s),
            1 => '(',
            _ => ')',
        };
        e.insert(at, c);
    }
    s.identity(hash_str(&e));
    s.note(|| format!("{} flags {flags:#x}", gen::show(&e)));
    check(s, &e, flags, 0, None)
}

fn big(s: &mut Src) -> Res {
    let flags = gen::ok_flags(s);
    let e = gen::big_any(s, 16_000);
    let mode = s.draw(gen::NUM_MODES);
    s.identity(hash_str(&e) ^ u64::from(flags));
    s.note(|| format!("{} flags {flags:#x}", gen::show(&e)));
    check(s, &e, flags, mode, None)
}

/// A defect at each offset.
fn offsets(s: &mut Src) -> Res {
    // All offsets, in an order that soon covers the whole range.
    let n = (s.draw(16_000) as usize * 7919 + 15_999) % 16_000;
    s.note(|| format!("defects at offset {n}"));
    let a = "a".repeat(n);
    for e in [format!("{a})"), format!("{a}("), format!("{a}é"), format!("{a}(b")] {
        if e.len() <= 16_000 {
            check(s, &e, 0, 0, None)?;
            s.count(1);
        }
    }
    if n < 8000 {
        // The innermost open group is at n.
        check(s, &format!("{}()", "(".repeat(n + 1)), 1, 0, None)?;
        check(s, &format!("{}{})", "(".repeat(n), ")".repeat(n)), 1, 0, None)?;
        s.count(2);
    }
    Ok(())
}

const ALPHABET: [&str; 6] = ["(", ")", "|", "a", "é", "*"];

fn small(s: &mut Src) -> Res {
    let i = s.draw(gen::num_strings(6, 8));
    let e = gen::nth_string(i, &ALPHABET);
    s.identity(hash_str(&e));
    s.note(|| gen::show(&e));
    check(s, &e, 0, 0, None)?;
    let v = format!("(*UTF){e}");
    s.count(1);
    check(s, &v, 0, 0, None)
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "Expressions as for C01, ones with several defects after well-formed prefixes, with a \
               defect at each offset, and all short strings; the error must have the category, \
               location, and subject of the first defect according to an independent \
               recogniser. Non-trivial: rejected.",
        stack: 512 * MIB,
        assumptions: &[
            "The category is read from the Debug form of the error, and the location from the last \
             \"index N\" of its text.",
        ],
        subs: vec![
            enumerate("small", gen::num_strings(6, 6), gen::num_strings(6, 8), small),
            enumerate("constructs", gen::NUM_IN_CONTEXT, gen::NUM_IN_CONTEXT, constructs),
            random("any", 50_000, 2_000_000, any),
            random("first-defect", 40_000, 2_000_000, first_defect),
            enumerate("near-verbs", gen::NUM_NEAR_VERBS, gen::NUM_NEAR_VERBS, near_verbs),
            random("verbs", 20_000, 1_000_000, verbs),
            random("long", 800, 30_000, long),
            random("big", 2_500, 100_000, big),
            enumerate("offsets", 4_000, 16_000, offsets),
        ],
    }
}
