//! Positions of the automaton.

use super::graphs::{base_edges, sorted, specials};
use crate::engine::{enumerate, hash_str, random, Prop, Src};
use crate::gen;
use crate::reference::{self as re, class_of};
use crate::util::{Failure, Res, MIB};
use rescan::verif::{expression, graph};

fn position_check(e: &str, flags: u16, id: u32, index: usize) -> Res {
    let f = gen::flags(flags);
    let err = |x: &rescan::CompileError| format!("{} is rejected: {:?}", gen::show(e), Failure::of(x));
    let (info, g) = graph(index, e, f, id).map_err(|x| err(&x))?;
    let ctx = |m: String| format!("{} with flags {flags:#x}: {m}", gen::show(e));
    specials(&g).map_err(ctx)?;
    let ctx = |m: String| format!("{} with flags {flags:#x}: {m}", gen::show(e));
    let want: Vec<Vec<u8>> = re::characters(e)
        .iter()
        .map(|&c| class_of(c, flags & re::CASELESS != 0))
        .collect();
    let got: Vec<Vec<u8>> = g.vertices.iter().skip(4).map(|v| v.reach.clone()).collect();
    crate::ensure!(
        got.len() == want.len(),
        "{}",
        ctx(format!("{} positions instead of {}", got.len(), want.len()))
    );
    for (i, (a, b)) in want.iter().zip(&got).enumerate() {
        crate::ensure!(
            a == b,
            "{}",
            ctx(format!("position {i} is reached by {b:?} instead of {a:?}"))
        );
    }
    crate::ensure!(
        sorted(&g.edges) == base_edges(&g),
        "{}",
        ctx(format!("edges {:?} with specials {:?}", g.edges, g.specials))
    );
    crate::ensure!(!g.vacuous, "{}", ctx("a fresh graph is vacuous".to_string()));
    crate::ensure!(
        g.all_reports.is_empty() && g.vertices.iter().all(|v| v.reports.is_empty()),
        "{}",
        ctx("a fresh graph has reports".to_string())
    );
    let parsed = expression(index, e, f, id).map_err(|x| err(&x))?;
    crate::ensure!(
        parsed == info,
        "{}",
        ctx(format!("properties {info:?} instead of {parsed:?}"))
    );
    let on = |bit: u16| flags & bit != 0;
    crate::ensure!(
        info.index == index
            && info.report == id
            && info.highlander == on(re::SINGLEMATCH)
            && info.quiet == on(re::QUIET)
            && info.prefilter == on(re::PREFILTER),
        "{}",
        ctx(format!("properties {info:?}"))
    );
    Ok(())
}

fn positions_constructs(s: &mut Src) -> Res {
    let e = gen::in_context(s.draw(gen::NUM_IN_CONTEXT));
    if !re::accepted(&e, 0) {
        return Ok(());
    }
    s.note(|| gen::show(&e));
    s.nontrivial();
    for flags in [0, 1, 0x61, 0xe] {
        s.count(1);
        position_check(&e, flags, 7, 1)?;
    }
    Ok(())
}

fn positions_any(s: &mut Src) -> Res {
    let e = gen::accepted(s, 200, true);
    let flags = gen::ok_flags(s);
    let id = gen::any_id(s);
    let index = s.size(100_000);
    s.identity(hash_str(&e) ^ u64::from(flags));
    s.note(|| format!("{} flags {flags:#x} ID {id} index {index}", gen::show(&e)));
    s.nontrivial_if(re::characters(&e).len() > 1);
    position_check(&e, flags, id, index)
}

fn positions_small(s: &mut Src) -> Res {
    let k = s.draw(gen::num_strings(5, 8));
    let e = gen::nth_string(k, &["(", ")", "|", "a", "Z"]);
    if re::syntax(&e).is_err() {
        return Ok(());
    }
    s.note(|| gen::show(&e));
    s.nontrivial_if(re::characters(&e).len() > 1);
    s.count(1);
    position_check(&e, 0, 0, 0)?;
    position_check(&e, re::CASELESS, 1, 2)
}

fn positions_large(s: &mut Src) -> Res {
    let n = s.size(15_900);
    let unit = *s.pick(&["a", "B", "ab(c)", "a|", "(x|y)", "()"]);
    let mut e = unit.repeat(n / unit.len());
    if s.chance(1, 3) {
        let d = n / 3;
        e = format!("{}{}", "a(".repeat(d), ")".repeat(d));
    }
    let e = gen::well_formed(s, 20, true) + &e;
    let flags = gen::ok_flags(s);
    s.identity(hash_str(&e) ^ u64::from(flags));
    s.note(|| format!("{} flags {flags:#x}", gen::show(&e)));
    s.nontrivial_if(re::characters(&e).len() > 1);
    position_check(&e, flags, 0, 0)
}

fn positions_big(s: &mut Src) -> Res {
    let alt = !s.chance(1, 4);
    let e = gen::big_accepted(s, 16_000, alt);
    let flags = gen::ok_flags(s);
    let id = gen::any_id(s);
    s.identity(hash_str(&e) ^ u64::from(flags));
    s.note(|| format!("{} flags {flags:#x}", gen::show(&e)));
    s.nontrivial_if(re::characters(&e).len() > 1);
    position_check(&e, flags, id, 0)
}

fn positions_chars(s: &mut Src) -> Res {
    let c = s.draw(0x80) as u8;
    if b"()|".contains(&c) {
        return Ok(());
    }
    s.note(|| format!("{:?}", c as char));
    s.nontrivial();
    let c = c as char;
    for e in [format!("{c}"), format!("a{c}b"), format!("a({c}|d{c}){c}"), format!("(*UTF8){c}")] {
        for flags in [0, 1, 2, 4, 0x60, 0x7f] {
            position_check(&e, flags, 5, 6)?;
            s.count(1);
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "Well-formed expressions (as for C07) turned into graphs; vertices, reach, edges, and \
               expression properties are compared with those listed by an independent reading. \
               Non-trivial: at least two positions.",
        stack: 1024 * MIB,
        assumptions: &[],
        subs: vec![
            enumerate("chars", 0x80, 0x80, positions_chars),
            enumerate("small", gen::num_strings(5, 7), gen::num_strings(5, 8), positions_small),
            enumerate("constructs", gen::NUM_IN_CONTEXT, gen::NUM_IN_CONTEXT, positions_constructs),
            random("any", 80_000, 5_000_000, positions_any),
            random("large", 300, 10_000, positions_large),
            random("big", 1_500, 50_000, positions_big),
        ],
    }
}
