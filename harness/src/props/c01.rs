//! Compilation is total.

use crate::engine::{enumerate, hash_str, no_panic, random, Prop, Src};
use crate::gen;
use crate::util::{Failure, Res, MIB};
use rescan::{compile, compile_multi, CompileError, Database};

fn settle(r: Result<Result<Database, CompileError>, String>) -> Result<bool, String> {
    match r? {
        Ok(db) => {
            no_panic(|| drop(db))?;
            Ok(true)
        }
        Err(e) => {
            let f = no_panic(|| Failure::of(&e))?;
            crate::ensure!(!f.text.is_empty(), "error without a text");
            Ok(false)
        }
    }
}

fn one(s: &mut Src, e: &str, flags: u16, mode: u64) -> Res {
    let m = gen::mode(mode);
    let f = gen::flags(flags);
    let ok = settle(no_panic(|| compile(e, f, &m)))
        .map_err(|x| format!("compile({}, {f:?}, mode {mode}): {x}", gen::show(e)))?;
    s.label(if ok { "accepted" } else { "rejected" });
    s.nontrivial_if(e.len() >= 2 && e.bytes().any(|c| b"()|*".contains(&c) || c >= 0x80));
    Ok(())
}

fn single(s: &mut Src) -> Res {
    let flags = gen::any_flags(s);
    let mode = s.draw(gen::NUM_MODES);
    let e = gen::any_expression(s);
    s.identity(hash_str(&e) ^ u64::from(flags) << 8 ^ mode);
    s.note(|| format!("compile({}, flags {flags:#x}, mode {mode})", gen::show(&e)));
    one(s, &e, flags, mode)
}

const ALPHABET: [&str; 9] = ["(", ")", "|", "*", "a", "Z", "é", "\u{128}", "😀"];

fn small(s: &mut Src) -> Res {
    let n = gen::num_strings(9, 6);
    let i = s.draw(n);
    let e = gen::nth_string(i, &ALPHABET);
    s.identity(hash_str(&e));
    s.note(|| format!("compile({e:?}) and CASELESS"));
    s.count(1);
    one(s, &e, (i % 2) as u16, i % gen::NUM_MODES)
}

fn all_flags(s: &mut Src) -> Res {
    const EXPRESSIONS: [&str; 10] = [
        "", "a", "aB1", "(a)", "a|b", "(*UTF8)a", "(*UCP)(x|)", "((a)", "a)", "é",
    ];
    let flags = s.draw(crate::reference::NUM_FLAG_SETS) as u16;
    s.note(|| format!("10 fixed expressions with flags {flags:#x} in all modes"));
    for mode in 0..gen::NUM_MODES {
        for e in EXPRESSIONS {
            one(s, e, flags, mode)?;
            s.count(1);
            // A conflict-free and, usually, a conflicting pair.
            let m = gen::mode(mode);
            let f = gen::flags(flags);
            settle(no_panic(|| {
                compile_multi(&[e, "lit"], &[f, rescan::Flags::SINGLEMATCH], &[7, 7], &m)
            }))?;
        }
    }
    Ok(())
}

fn at_limit(s: &mut Src) -> Res {
    let flags = gen::any_flags(s);
    let mode = s.draw(gen::NUM_MODES);
    let e = if s.chance(1, 4) {
        let n = s.range(1000, 16_500);
        gen::long(s, n)
    } else {
        gen::limit_expression(s)
    };
    s.identity(hash_str(&e) ^ u64::from(flags) << 8 ^ mode);
    s.note(|| format!("compile({}, flags {flags:#x}, mode {mode})", gen::show(&e)));
    one(s, &e, flags, mode)
}

fn big(s: &mut Src) -> Res {
    let flags = gen::any_flags(s);
    let mode = s.draw(gen::NUM_MODES);
    let e = gen::big_any(s, 16_000);
    s.identity(hash_str(&e) ^ u64::from(flags) << 8 ^ mode);
    s.note(|| format!("compile({}, flags {flags:#x}, mode {mode})", gen::show(&e)));
    one(s, &e, flags, mode)
}

/// Deepest nesting of every shape.
fn deep(s: &mut Src) -> Res {
    const SHAPES: [(&str, &str, &str); 12] = [
        ("", "(", ")"),
        ("", "(|", ")"),
        ("", "(", "|)"),
        ("", "a(", ")"),
        ("", "(", ")a"),
        ("", "|(", ")"),
        ("", "(", ""),
        ("", "", ")"),
        ("(*UTF8)", "(", ")"),
        ("(*UCP)", "(a|", ")"),
        ("", "((|", "))"),
        ("", "(", "|a)"),
    ];
    let k = s.draw(SHAPES.len() as u64 * 4);
    let (pre, open, close) = SHAPES[(k / 4) as usize];
    let room = 16_000 - pre.len() - (k % 4) as usize % 2;
    let n = room / (open.len() + close.len());
    let e = format!("{pre}{}{}", open.repeat(n), close.repeat(n));
    s.note(|| format!("{pre} then {open:?} and {close:?} {n} times"));
    s.nontrivial();
    for mode in 0..gen::NUM_MODES {
        one(s, &e, if k % 4 >= 2 { 1 } else { 0 }, mode)?;
        s.count(1);
    }
    Ok(())
}

fn list(s: &mut Src) -> Res {
    let mode = s.draw(gen::NUM_MODES);
    let pool_size = s.range(1, 6);
    let bad = s.chance(1, 2);
    let pool: Vec<(String, u16)> = (0..pool_size)
        .map(|_| {
            let e = match s.weighted(&[4, if bad { 3 } else { 0 }, 3]) {
                0 => gen::accepted(s, 40, true),
                1 => gen::any_expression(s),
                _ => gen::plain(s, 12),
            };
            (e, if bad { gen::any_flags(s) } else { gen::ok_flags(s) })
        })
        .collect();
    let n = s.size(300);
    let items: Vec<(usize, u32)> = (0..n).map(|_| (s.below(pool_size), gen::any_id(s))).collect();
    s.note(|| format!("list of {n} of {pool:?}: {items:?}, mode {mode}"));
    s.nontrivial_if(n >= 2);
    // The slices may differ in length.
    let cut = if s.chance(1, 10) { Some((s.below(3), s.below(n + 1))) } else { None };
    let mut e: Vec<&str> = items.iter().map(|&(i, _)| pool[i].0.as_str()).collect();
    let mut f: Vec<_> = items.iter().map(|&(i, _)| gen::flags(pool[i].1)).collect();
    let mut ids: Vec<u32> = items.iter().map(|&(_, id)| id).collect();
    match cut {
        Some((0, k)) => e.truncate(k),
        Some((1, k)) => f.truncate(k),
        Some((_, k)) => ids.truncate(k),
        None => {}
    }
    let m = gen::mode(mode);
    let ok = settle(no_panic(|| compile_multi(&e, &f, &ids, &m)))?;
    s.label(if ok { "list accepted" } else { "list rejected" });
    Ok(())
}

fn long_list(s: &mut Src) -> Res {
    let mode = s.draw(gen::NUM_MODES);
    let n = match s.below(3) {
        0 => 0x1_0000 - 2 + s.below(5),
        1 => 9_998 + s.below(5),
        _ => s.range(300, 70_000),
    };
    // Literals and others; all flags agree but perhaps for one late entry.
    let e = gen::plain(s, 4) + "x";
    let single = s.bool();
    let conflict = s.bool().then(|| n - 1 - s.size(n - 1));
    let id_bits = s.below(33);
    s.note(|| format!("list of {n} times {e:?}, SINGLEMATCH {single} but at {conflict:?}, {id_bits} bits of IDs"));
    s.nontrivial();
    let mask = ((1_u64 << id_bits) - 1) as u32;
    let exprs: Vec<&str> = (0..n).map(|_| e.as_str()).collect();
    let ids: Vec<u32> = (0..n as u32).map(|i| i.wrapping_mul(0x9e37_79b1) & mask).collect();
    let flags: Vec<_> = (0..n)
        .map(|i| gen::flags(if single != (Some(i) == conflict) { 8 } else { 0 }))
        .collect();
    let m = gen::mode(mode);
    settle(no_panic(|| compile_multi(&exprs, &flags, &ids, &m)))?;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "Expressions from a grammar, mutations of them, token soup, verbs, any Unicode, \
               lengths around the limit, deepest nesting, all strings of at most 6 of 9 symbols, all \
               flag sets; lists of them. Each compilation must return, on an 8 MiB stack, in an \
               unoptimised and an optimised build. Non-trivial: at least 2 bytes with a parenthesis, \
               bar, star, or non-ASCII character, or a list of at least 2.",
        stack: 8 * MIB,
        assumptions: &["A main thread has a stack of 8 MiB.", "No memory allocation fails."],
        subs: vec![
            random("single", 60_000, 3_000_000, single),
            enumerate("small", gen::num_strings(9, 5), gen::num_strings(9, 6), small),
            enumerate("all-flags", 2048, 2048, all_flags),
            enumerate("deep", 48, 48, deep),
            random("at-limit", 1_200, 40_000, at_limit),
            random("big", 2_000, 80_000, big),
            random("list", 6_000, 200_000, list),
            random("long-list", 40, 1_000, long_list),
        ],
    }
}
