//! Verbs and flags.

use super::trees::{difference, node, show_err};
use crate::engine::{enumerate, hash_str, random, Prop, Src};
use crate::gen;
use crate::reference::{self as re, Verb};
use crate::util::{outcome, Failure, Res, MIB};
use rescan::verif::{expression, expression_tree, parse, parse_mode};
use rescan::compile;

/// Everything that parsing yields for an expression with flags.
fn verb_check(s: &mut Src, e: &str, flags: u16) -> Res {
    let (v, skip) = re::verb(e);
    let rest = &e[skip..];
    let f = gen::flags(flags);
    // (mode, tree)
    let parse = |e: &str, f| -> Result<_, rescan::CompileError> { Ok((parse_mode(e, f)?, parse(e, f)?)) };
    let got = parse(e, f);
    let ctx = || format!("{} with flags {flags:#x}", gen::show(e));
    s.label(match v {
        Verb::None => "no verb",
        Verb::Utf8 => "UTF8",
        Verb::Ucp => "UCP",
        Verb::Unsupported(_) => "unsupported",
        Verb::Unknown(_) => "unknown",
    });
    let add = match &v {
        Verb::Utf8 => re::UTF8,
        Verb::Ucp => re::UCP,
        Verb::None => 0,
        Verb::Unsupported(n) | Verb::Unknown(n) => {
            let word = if matches!(v, Verb::Unknown(_)) { "Unknown" } else { "Unsupported" };
            let Err(x) = got else {
                return Err(format!("{}: the verb {n:?} is accepted", ctx()));
            };
            let x = Failure::of(&x);
            crate::ensure!(
                x.text.starts_with(word) && x.text.contains(&format!(" {n} ")),
                "{}: the verb {n:?} should be {word}: {x:?}",
                ctx()
            );
            return Ok(());
        }
    };
    let eff = flags | add;
    match (re::syntax(e), got) {
        (Err(d), Ok(_)) => Err(format!("{}: accepted in spite of {d:?}", ctx())),
        (Ok(()), Err(x)) => Err(format!("{}: rejected with {}", ctx(), show_err(&x))),
        (Err(d), Err(x)) => {
            let x = Failure::of(&x);
            super::super::c03::describes(&x, &d).map_err(|m| format!("{}: {m}", ctx()))?;
            // As for the rest with the flag, but for the location.
            if add != 0 && !rest.starts_with("(*") {
                let Err(y) = parse(rest, gen::flags(eff)) else {
                    return Err(format!("{}: the rest alone is accepted", ctx()));
                };
                let y = Failure::of(&y);
                crate::ensure!(
                    x.location() == y.location().map(|l| l + skip as u64) && x.kind() == y.kind(),
                    "{}: {x:?}, but the rest alone gives {y:?}",
                    ctx()
                );
            }
            Ok(())
        }
        (Ok(()), Ok(p)) => {
            let m = &p.0;
            let on = |bit: u16| eff & bit != 0;
            crate::ensure!(
                m.caseless == on(re::CASELESS)
                    && m.dotall == on(re::DOTALL)
                    && m.multiline == on(re::MULTILINE)
                    && m.utf8 == on(re::UTF8)
                    && m.ucp == on(re::UCP)
                    && !m.ignore_space,
                "{}: parse mode {m:?}",
                ctx()
            );
            let want = re::tree(e, on(re::CASELESS));
            if let Some(d) = difference(&want, &node(&p.1), "") {
                return Err(format!("{}: parse tree, {d}", ctx()));
            }
            if add != 0 && !rest.starts_with("(*") {
                let Ok(q) = parse(rest, gen::flags(eff)) else {
                    return Err(format!("{}: the rest alone is rejected", ctx()));
                };
                crate::ensure!(q.1 == p.1, "{}: other tree than the rest alone", ctx());
                crate::ensure!(
                    q.0 == p.0,
                    "{}: mode {:?}, but {:?} for the rest alone with the flag",
                    ctx(),
                    p.0,
                    q.0
                );
            }
            Ok(())
        }
    }
}

/// The properties of an expression.
fn info_check(e: &str, flags: u16, id: u32, index: usize) -> Res {
    let f = gen::flags(flags);
    let ctx = || format!("{} with flags {flags:#x}, ID {id}, index {index}", gen::show(e));
    let on = |bit: u16| flags & bit != 0;
    let want_ok = re::accepted(e, flags);
    let got = expression(index, e, f, id)
        .and_then(|i| Ok((i, expression_tree(index, e, f, id)?)));
    match got {
        Err(x) => {
            crate::ensure!(!want_ok, "{}: rejected with {}", ctx(), show_err(&x));
        }
        Ok((i, t)) => {
            crate::ensure!(want_ok, "{}: accepted", ctx());
            let utf8 = on(re::UTF8) || re::verb(e).0 == Verb::Utf8;
            crate::ensure!(
                i.index == index
                    && i.report == id
                    && i.highlander == on(re::SINGLEMATCH)
                    && i.quiet == on(re::QUIET)
                    && i.prefilter == on(re::PREFILTER)
                    && i.utf8 == utf8,
                "{}: properties {i:?}",
                ctx()
            );
            if let Some(d) = difference(&re::tree(e, on(re::CASELESS)), &node(&t), "") {
                return Err(format!("{}: parse tree, {d}", ctx()));
            }
        }
    }
    Ok(())
}

fn any_rest(s: &mut Src) -> String {
    match s.weighted(&[5, 3, 2, 1]) {
        0 => gen::well_formed(s, 40, true),
        1 => gen::soup(s, 8),
        2 => {
            let e = gen::well_formed(s, 20, true);
            gen::mutate(s, &e, 1)
        }
        _ => (*s.pick(&["(*UTF8)", "(*UCP)", "(*CR)a", "(*", ")", "*)", "é"])).to_string(),
    }
}

fn near_verbs(s: &mut Src) -> Res {
    let Some(name) = gen::near_verbs().get(s.draw(gen::NUM_NEAR_VERBS) as usize) else {
        return Ok(());
    };
    s.note(|| format!("{name:?}"));
    s.nontrivial();
    for rest in ["", "(a)", "(*UCP)"] {
        for flags in [0, re::UTF8, re::UCP] {
            verb_check(s, &format!("(*{name}){rest}"), flags)?;
            s.count(1);
        }
    }
    Ok(())
}

fn verbs_any(s: &mut Src) -> Res {
    let flags = gen::any_flags(s);
    let name = gen::verb_name(s);
    let rest = any_rest(s);
    let open = *s.pick(&["(*", "(*", "(*", "(*", "(*", " (*", "((*", "(", "*", "(**", "a(*"]);
    let close = if s.chance(9, 10) { ")" } else { "" };
    let e = format!("{open}{name}{close}{rest}");
    s.identity(hash_str(&e) ^ u64::from(flags));
    s.note(|| format!("{} flags {flags:#x}", gen::show(&e)));
    s.nontrivial();
    verb_check(s, &e, flags)?;
    // The verdict of the whole compiler.
    let got = outcome(&compile(&e, gen::flags(flags), &gen::mode(0)));
    s.count(1);
    crate::ensure!(
        got.is_ok() == re::accepted(&e, flags),
        "{} with flags {flags:#x}: compile() gave {got:?}",
        gen::show(&e)
    );
    Ok(())
}

fn verbs_good(s: &mut Src) -> Res {
    let flags = gen::any_flags(s);
    let v = *s.pick(&gen::GOOD_VERBS);
    let e = format!("{v}{}", any_rest(s));
    s.identity(hash_str(&e) ^ u64::from(flags));
    s.note(|| format!("{} flags {flags:#x}", gen::show(&e)));
    s.nontrivial();
    verb_check(s, &e, flags)?;
    let id = gen::any_id(s);
    let index = s.size(70_000);
    s.count(1);
    info_check(&e, flags, id, index)
}

/// Every flag set with every verb.
fn verbs_flags(s: &mut Src) -> Res {
    let flags = s.draw(re::NUM_FLAG_SETS) as u16;
    s.note(|| format!("flags {flags:#x} with all verbs"));
    s.nontrivial();
    for rest in ["", "aB(c|1)", "(", "é"] {
        verb_check(s, rest, flags)?;
        for v in gen::VERBS {
            verb_check(s, &format!("(*{v}){rest}"), flags)?;
            s.count(1);
        }
        for v in ["", "LIMIT_MATCH=5", "LIMIT_RECURSION=", "utf8", "UTF88", "UT", "XXX"] {
            verb_check(s, &format!("(*{v}){rest}"), flags)?;
            s.count(1);
        }
    }
    for (i, id) in [0, 1, 0x100, u32::MAX].into_iter().enumerate() {
        for e in ["a|b", "(*UTF8)x", "(*UCP)x", "(*UTF)"] {
            info_check(e, flags, id, i * 1000)?;
            s.count(1);
        }
    }
    Ok(())
}

fn info_any(s: &mut Src) -> Res {
    let flags = gen::any_flags(s);
    let e = if s.chance(1, 6) { gen::any_expression(s) } else { gen::accepted(s, 60, true) };
    let id = if s.bool() { s.any_u32() } else { gen::any_id(s) };
    let index = if s.chance(1, 4) { s.any_u32() as usize } else { s.size(8_000_000) };
    s.identity(hash_str(&e) ^ u64::from(flags) << 32 ^ u64::from(id));
    s.note(|| format!("{} flags {flags:#x} ID {id} index {index}", gen::show(&e)));
    s.nontrivial_if(flags != 0 || id != 0);
    info_check(&e, flags, id, index)
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "Names of verbs, known, unknown, and slightly changed, with generated rests and flag \
               sets; parse mode, tree, error, and expression properties are compared with an \
               independent reading and with those of the rest alone given the flag. Non-trivial: \
               a verb or something like it, or any flag or ID.",
        stack: 512 * MIB,
        assumptions: &["ALLOWEMPTY, SOM_LEFTMOST, and COMBINATION are not yet acted upon by the crate."],
        subs: vec![
            enumerate("flags", 2048, 2048, verbs_flags),
            enumerate("near-verbs", gen::NUM_NEAR_VERBS, gen::NUM_NEAR_VERBS, near_verbs),
            random("good", 100_000, 5_000_000, verbs_good),
            random("any", 100_000, 5_000_000, verbs_any),
            random("info", 100_000, 5_000_000, info_any),
        ],
    }
}
