//! The literal shortcut.

use super::model::*;
use crate::engine::{enumerate, hash_str, random, Prop, Src};
use crate::gen;
use crate::reference as re;
use crate::util::{Failure, Res, MIB};
use rescan::verif::{literal, Builder, Limits};

fn no_trace(b: &Builder) -> Res {
    crate::ensure!(b.min_width().is_none(), "minimum width is {:?}", b.min_width());
    crate::ensure!(b.num_reports() == 0, "{} reports", b.num_reports());
    crate::ensure!(!b.has_som(), "start of match is noted");
    crate::ensure!(b.global_exhaust(), "not globally exhaustible");
    for nocase in [false, true] {
        let t = b.small_write_trie(nocase);
        crate::ensure!(
            t.num_vertices == 1 && t.is_empty && t.all_reports.is_empty(),
            "the small-write engine has a literal"
        );
    }
    Ok(())
}

/// Literals take the shortcut unless something else is set.
fn shortcut_defaults(s: &mut Src) -> Res {
    let _ = s.draw(1);
    s.note(|| "default settings".to_string());
    s.nontrivial();
    let d = Limits::default();
    crate::ensure!(d.allow_literal && d.shortcut_literals, "literals are declined by default: {d:?}");
    Ok(())
}

fn shortcut_check(s: &mut Src, e: &str, flags: u16, l: &Limits) -> Res {
    let f = gen::flags(flags);
    let ctx = |m: String| format!("{} with flags {flags:#x}, {l:?}: {m}", gen::show(e));
    let want = literal_of(e, flags);
    let l_got = literal(e, f).map_err(|x| ctx(format!("rejected: {:?}", Failure::of(&x))))?;
    let got = l_got.as_ref().map(view);
    crate::ensure!(
        got == want,
        "{}",
        ctx(format!("literal {:?} instead of {want:?}", got.as_deref().map(show_chars)))
    );
    let (mode_no, mode) = gen::any_mode(s);
    let _ = mode_no;
    let id = gen::any_id(s);
    let taken = matches!(&want, Some(x) if !x.is_empty()) && l.allow_literal && l.shortcut_literals;
    s.label(if taken {
        "taken"
    } else if want.is_some() {
        "literal, declined"
    } else {
        "no literal"
    });
    let mut b = Builder::new(1, &mode, l);
    let r = b
        .shortcut_literal(0, e, f, id)
        .map_err(|x| ctx(format!("shortcut failed: {:?}", Failure::of(&x))))?;
    crate::ensure!(r == taken, "{}", ctx(format!("took the shortcut: {r} instead of {taken}")));
    let mut c = Builder::new(1, &mode, l);
    c.add_expression(0, e, f, id)
        .map_err(|x| ctx(format!("rejected: {:?}", Failure::of(&x))))?;
    for (name, x) in [("shortcut", &b), ("compiler", &c)] {
        let ctx = |m: String| ctx(format!("({name}) {m}"));
        if !taken {
            no_trace(x).map_err(|m| ctx(format!("left a trace: {m}")))?;
            continue;
        }
        let lit = want.as_ref().ok_or("literal")?;
        crate::ensure!(
            x.min_width() == Some(lit.len()),
            "{}",
            ctx(format!("minimum width {:?} instead of {}", x.min_width(), lit.len()))
        );
        crate::ensure!(x.num_reports() == 1, "{}", ctx(format!("{} reports", x.num_reports())));
        crate::ensure!(!x.has_som(), "{}", ctx("start of match is noted".to_string()));
        crate::ensure!(
            x.global_exhaust() == (flags & re::SINGLEMATCH != 0),
            "{}",
            ctx(format!("globally exhaustible: {}", x.global_exhaust()))
        );
        let mut m = SmallWrite::new(1, l);
        m.add(lit, 0);
        m.compare(x).map_err(|m| ctx(format!("small-write engine: {m}")))?;
    }
    Ok(())
}

fn shortcut_constructs(s: &mut Src) -> Res {
    let e = gen::in_context(s.draw(gen::NUM_IN_CONTEXT));
    if !re::accepted(&e, 0) {
        return Ok(());
    }
    s.note(|| gen::show(&e));
    s.nontrivial();
    for flags in [0, 1, 0x61, 0xe] {
        s.count(1);
        shortcut_check(s, &e, flags, &Limits::default())?;
    }
    Ok(())
}

fn shortcut_any(s: &mut Src) -> Res {
    let alt = s.chance(1, 3);
    let e = gen::accepted(s, 120, alt);
    let flags = gen::ok_flags(s);
    let l = settings(s);
    s.identity(hash_str(&e) ^ u64::from(flags));
    s.note(|| format!("{} flags {flags:#x} {l:?}", gen::show(&e)));
    s.nontrivial_if(e.contains('(') || flags & 1 != 0);
    shortcut_check(s, &e, flags, &l)
}

fn shortcut_small(s: &mut Src) -> Res {
    let k = s.draw(gen::num_strings(6, 7));
    let e = gen::nth_string(k, &["(", ")", "|", "a", "Z", "1"]);
    if re::syntax(&e).is_err() {
        return Ok(());
    }
    s.note(|| gen::show(&e));
    s.nontrivial_if(e.len() > 1);
    for flags in [0, re::CASELESS] {
        s.count(1);
        shortcut_check(s, &e, flags, &Limits::default())?;
    }
    Ok(())
}

/// Each character with each setting and flag.
fn shortcut_chars(s: &mut Src) -> Res {
    let c = s.draw(0x80) as u8;
    if b"()|".contains(&c) {
        return Ok(());
    }
    s.note(|| format!("{:?} with all settings and any flag", c as char));
    s.nontrivial();
    for k in 0..8_u32 {
        let l = Limits {
            allow_literal: k & 1 == 0,
            shortcut_literals: k & 2 == 0,
            allow_small_write: k & 4 == 0,
            ..Limits::default()
        };
        for bit in 0..12 {
            let flags = if bit == 11 { 0 } else { 1 << bit };
            for e in [format!("{}", c as char), format!("x({}Y)", c as char), format!("{}|", c as char)] {
                for extra in [0, re::CASELESS] {
                    s.count(1);
                    shortcut_check(s, &e, flags | extra, &l)?;
                }
            }
        }
    }
    Ok(())
}

fn shortcut_large(s: &mut Src) -> Res {
    let n = match s.below(3) {
        0 => s.range(60, 80),
        1 => s.range(250, 260),
        _ => s.size(15_900),
    };
    let unit = *s.pick(&["a", "Ab1", "(x)y", "é"]);
    let unit = if unit == "é" { "q" } else { unit };
    let mut e = unit.repeat((n / unit.len()).max(1));
    if s.chance(1, 3) {
        e = format!("{}{}", "k(".repeat(n / 3), ")".repeat(n / 3));
    }
    if s.chance(1, 4) {
        e.push('|');
    }
    if s.chance(1, 4) {
        e = format!("{e}{}", gen::well_formed(s, 10, true));
    }
    let flags = gen::ok_flags(s);
    s.identity(hash_str(&e) ^ u64::from(flags));
    s.note(|| format!("{} flags {flags:#x}", gen::show(&e)));
    s.nontrivial();
    shortcut_check(s, &e, flags, &Limits::default())
}

fn shortcut_big(s: &mut Src) -> Res {
    let alt = s.chance(1, 4);
    let e = gen::big_accepted(s, 16_000, alt);
    let flags = gen::ok_flags(s);
    s.identity(hash_str(&e) ^ u64::from(flags));
    s.note(|| format!("{} flags {flags:#x}", gen::show(&e)));
    s.nontrivial();
    shortcut_check(s, &e, flags, &Limits::default())
}

/// Many expressions in one builder: what came before makes no difference.
fn shortcut_histories(s: &mut Src) -> Res {
    let l = settings(s);
    let (_, mode) = gen::any_mode(s);
    let n = 2 + s.size(40);
    let alternations = *s.pick(&[0, 1, 5]);
    let trouble = *s.pick(&[0, 1, 4]);
    let mut b = Builder::new(n, &mode, &l);
    let mut shown = Vec::new();
    // IDs and whether they are SINGLEMATCH.
    let mut singles: Vec<(u32, bool)> = Vec::new();
    let mut taken_before = false;
    for i in 0..n {
        let bad = s.chance(trouble, 10);
        let alt = s.chance(alternations, 10);
        let mut e = if s.chance(1, 3) { gen::plain(s, 5) } else { gen::accepted(s, 30, alt) };
        if alt {
            e.push_str("|b");
        }
        let mut flags = gen::ok_flags(s);
        let mut id = 1000 + i as u32;
        if bad {
            match s.below(4) {
                0 => e.push(')'),
                1 => flags |= 0x500,
                _ if !singles.is_empty() => {
                    // Disagrees with an earlier one, if this one is taken.
                    let (other, single) = *s.pick(&singles);
                    id = other;
                    flags = (flags & !re::SINGLEMATCH) | if single { 0 } else { re::SINGLEMATCH };
                }
                _ => e.push('\u{e9}'),
            }
        }
        let direct = re::accepted(&e, flags) && s.bool();
        shown.push(format!("{} {flags:#x} ID {id}{}", gen::show(&e), if direct { " directly" } else { "" }));
        let f = gen::flags(flags);
        let before = (b.num_reports(), b.global_exhaust());
        let got: Result<Option<bool>, _> = if direct {
            b.shortcut_literal(i, &e, f, id).map(Some)
        } else {
            b.add_expression(i, &e, f, id).map(|()| None)
        };
        let ctx = |m: String| format!("entry {i}, {} ({l:?}) of {}: {m}", shown[i], shown.join("; "));
        if bad {
            // Whatever becomes of it.
            continue;
        }
        let want = literal_of(&e, flags);
        let taken = matches!(&want, Some(x) if !x.is_empty()) && l.allow_literal && l.shortcut_literals;
        match got {
            Err(x) => return Err(ctx(format!("failed: {:?}", Failure::of(&x)))),
            Ok(r) => crate::ensure!(
                r.is_none() || r == Some(taken),
                "{}",
                ctx(format!("took the shortcut: {r:?} instead of {taken}"))
            ),
        }
        let single = flags & re::SINGLEMATCH != 0;
        if taken {
            singles.push((id, single));
            taken_before = true;
        }
        let after = (b.num_reports(), b.global_exhaust());
        // Patterns may share reports.
        let right = if taken { after.0 > 0 && after.1 == (before.1 && single) } else { after == before };
        crate::ensure!(
            right,
            "{}",
            ctx(format!("(taken: {taken}) reports and exhaustibility are {after:?} after {before:?}"))
        );
    }
    s.identity(hash_str(&shown.join(";")));
    s.note(|| format!("{l:?}: {}", shown.join("; ")));
    s.nontrivial_if(taken_before);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "Well-formed expressions with and without alternation, under generated flags and \
               settings, each added to fresh builders; the outcome of the shortcut, the literal, \
               and every trace in the builder are compared with the rule. Non-trivial: has a \
               group or is caseless (or is one of all short expressions).",
        stack: 1024 * MIB,
        assumptions: &[],
        subs: vec![
            enumerate("defaults", 1, 1, shortcut_defaults),
            enumerate("chars", 0x80, 0x80, shortcut_chars),
            enumerate("small", gen::num_strings(6, 5), gen::num_strings(6, 7), shortcut_small),
            enumerate("constructs", gen::NUM_IN_CONTEXT, gen::NUM_IN_CONTEXT, shortcut_constructs),
            random("any", 60_000, 4_000_000, shortcut_any),
            random("histories", 15_000, 800_000, shortcut_histories),
            random("large", 400, 10_000, shortcut_large),
            random("big", 1_500, 50_000, shortcut_big),
        ],
    }
}
