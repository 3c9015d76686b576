//! A list is as good as its expressions.

use crate::engine::{enumerate, hash_u64s, random, Prop, Src};
use crate::gen;
use crate::util::{outcome, Failure, Outcome, Res, MIB};
use rescan::{compile, compile_multi, Flags, Mode};
use std::collections::HashMap;

struct Item {
    expr: String,
    flags: u16,
}

/// The error of a single expression, with another position.
fn moved(f: &Failure, to: usize) -> Failure {
    let (_, text) = f.blamed();
    let text = format!("{text} in expression {to}");
    let debug = match f.debug.rfind("index: Some(") {
        Some(i) => format!("{}index: Some({to}) }}", &f.debug[..i]),
        None => f.debug.clone(),
    };
    Failure { text, debug }
}

fn check(items: &[(&Item, u32)], singles: &[&Outcome], mode: &Mode) -> Res {
    let exprs: Vec<&str> = items.iter().map(|(i, _)| i.expr.as_str()).collect();
    let flags: Vec<Flags> = items.iter().map(|(i, _)| gen::flags(i.flags)).collect();
    let ids: Vec<u32> = items.iter().map(|&(_, id)| id).collect();
    let got = outcome(&compile_multi(&exprs, &flags, &ids, mode));
    let first = singles
        .iter()
        .enumerate()
        .find_map(|(i, o)| o.as_ref().err().map(|f| (i, f)));
    match (first, got) {
        (None, Ok(())) => Ok(()),
        (None, Err(f)) => Err(format!("all compile alone, but the list gives {f:?}")),
        (Some((i, f)), Ok(())) => Err(format!("entry {i} fails alone ({f:?}), but the list compiles")),
        (Some((i, f)), Err(g)) => {
            let want = moved(f, i);
            crate::ensure!(
                g.text == want.text && g.debug == want.debug,
                "entry {i} should be blamed with {want:?}, but the list gives {g:?}"
            );
            Ok(())
        }
    }
}

/// SINGLEMATCH as a function of the ID, so that sharing an ID is harmless.
fn consistent(flags: u16, id: u32, salt: u64) -> u16 {
    let on = hash_u64s(&[salt, id.into()]) & 1 != 0;
    (flags & !8) | if on { 8 } else { 0 }
}

fn pool(s: &mut Src, n: usize, bad_in_10: u64) -> Vec<Item> {
    (0..n)
        .map(|_| {
            let bad = s.chance(bad_in_10, 10);
            let expr = match (bad, s.weighted(&[5, 4, 1])) {
                (false, 0) | (true, 0) => gen::accepted(s, 40, true),
                (false, _) => gen::plain(s, 10),
                (true, 1) => gen::any_expression(s),
                (true, 2) if s.bool() => {
                    let n = 15_999 + s.below(4);
                    gen::long(s, n)
                }
                (true, _) => {
                    let e = gen::well_formed(s, 20, true);
                    gen::mutate(s, &e, 1)
                }
            };
            let flags = if bad { gen::any_flags(s) } else { gen::ok_flags(s) };
            Item { expr, flags }
        })
        .collect()
}

fn run(s: &mut Src, max: usize, big: bool) -> Res {
    let (mode_no, mode) = gen::any_mode(s);
    let good = pool(s, 4, 0);
    let bad_in_10 = *s.pick(&[0, 1, 5, 9]);
    let rest = pool(s, 4, bad_in_10);
    let n = if big {
        match s.below(3) {
            0 => 0x1_0000 - 2 + s.below(6),
            1 => s.range(9_990, 10_010),
            _ => s.range(300, max),
        }
    } else {
        1 + s.size(max - 1)
    };
    let salt = s.draw(1 << 20);
    let id_mode = s.below(4);
    let small_ids: Vec<u32> = (0..4).map(|_| gen::any_id(s)).collect();
    // Mostly good ones, others at some positions.
    let mut choice: Vec<usize> = Vec::with_capacity(n);
    let seed = s.any();
    for i in 0..n {
        choice.push(if big {
            (hash_u64s(&[seed, i as u64]) % 4) as usize
        } else {
            s.below(4)
        });
    }
    for _ in 0..s.below(4) {
        let at = if s.bool() { n - 1 - s.size(n - 1) } else { s.size(n - 1) };
        choice[at] = 4 + s.below(4);
    }
    let mut items_owned: Vec<(Item, u32)> = Vec::with_capacity(n);
    for (i, &c) in choice.iter().enumerate() {
        let it = if c < 4 { &good[c] } else { &rest[c - 4] };
        let id = match id_mode {
            0 => i as u32,
            1 => 0,
            2 => small_ids[(hash_u64s(&[seed, !(i as u64)]) % 4) as usize],
            _ => (i as u32).wrapping_mul(0x0101_0101),
        };
        let flags = consistent(it.flags, id, salt);
        items_owned.push((Item { expr: it.expr.clone(), flags }, id));
    }
    s.note(|| {
        let list: Vec<String> = items_owned
            .iter()
            .take(30)
            .map(|(i, id)| format!("({}, {:#x}, {id})", gen::show(&i.expr), i.flags))
            .collect();
        format!("mode {mode_no}, {n} entries: {}", list.join(", "))
    });
    s.nontrivial_if(n >= 2);

    let mut cache: HashMap<(&str, u16), Outcome> = HashMap::new();
    for (i, _) in &items_owned {
        cache
            .entry((i.expr.as_str(), i.flags))
            .or_insert_with(|| outcome(&compile(&i.expr, gen::flags(i.flags), &mode)));
    }
    let items: Vec<(&Item, u32)> = items_owned.iter().map(|(i, id)| (i, *id)).collect();
    let singles: Vec<&Outcome> = items.iter().map(|(i, _)| &cache[&(i.expr.as_str(), i.flags)]).collect();
    s.label(if singles.iter().all(|o| o.is_ok()) { "all good" } else { "some bad" });
    s.count(cache.len() as u64);
    check(&items, &singles, &mode)
}

fn lists(s: &mut Src) -> Res {
    run(s, 80, false)
}

fn big(s: &mut Src) -> Res {
    run(s, 70_000, true)
}

/// Exactly one bad entry at each position of a list of each length.
fn one_bad(s: &mut Src) -> Res {
    let k = s.draw(ONE_BAD);
    let n = 2 + (k % 300) as usize;
    let bad_kind = (k / 300) as usize;
    let bad = ["(", ")", "é", "(*CR)", "(*nope)a"][bad_kind];
    s.note(|| format!("{n} entries, {bad:?} at each position"));
    s.nontrivial();
    let good = Item { expr: "ab(c|d)".to_string(), flags: 0 };
    let bad = Item { expr: bad.to_string(), flags: 0 };
    let mode = gen::mode(k % gen::NUM_MODES);
    let ok: Outcome = Ok(());
    let err = outcome(&compile(&bad.expr, Flags::empty(), &mode));
    let step = (n / 8).max(1);
    let mut at = k as usize % step;
    while at < n {
        let items: Vec<(&Item, u32)> =
            (0..n).map(|i| (if i == at { &bad } else { &good }, i as u32)).collect();
        let singles: Vec<&Outcome> = (0..n).map(|i| if i == at { &err } else { &ok }).collect();
        check(&items, &singles, &mode)?;
        s.count(1);
        at += step;
    }
    Ok(())
}

const ONE_BAD: u64 = 1500;

/// Ways to be bad (but for the first one), at most one of which is found out
/// before the others are looked at.
fn kinds() -> Vec<Item> {
    let bad = |e: &str| Item { expr: e.to_string(), flags: 0 };
    let long = "x".repeat(16_001);
    let mut v = vec![bad("ab(c|d)"), bad(&long), bad(&format!("{long})")), bad(&format!("é{}", &long[2..]))];
    v.push(Item { expr: long.clone(), flags: 0x500 });
    v.push(Item { expr: "a".to_string(), flags: 0x500 });
    v.push(Item { expr: "(".to_string(), flags: 0x500 });
    v.extend(["(", "a)", "é", "(*CR)", "(*nope)a", "(*UTF8)(é"].map(bad));
    v
}

const NUM_KINDS: u64 = 13;
const KINDS: u64 = NUM_KINDS * NUM_KINDS * NUM_KINDS * 3;

/// The kinds of bad expressions in each order.
fn orders(s: &mut Src) -> Res {
    let k = s.draw(KINDS);
    let kinds = kinds();
    let pick = [k, k / NUM_KINDS, k / NUM_KINDS / NUM_KINDS].map(|x| (x % NUM_KINDS) as usize);
    let spread = k / NUM_KINDS.pow(3);
    s.note(|| format!("kinds {pick:?} {}", ["next to each other", "between others", "with the same ID"][spread as usize]));
    s.nontrivial();
    let mode = gen::mode(k % gen::NUM_MODES);
    let mut list: Vec<usize> = Vec::new();
    for p in pick {
        list.push(p);
        if spread == 1 {
            list.extend([0, 0]);
        }
    }
    let alone: Vec<Outcome> =
        kinds.iter().map(|i| outcome(&compile(&i.expr, gen::flags(i.flags), &mode))).collect();
    let id = |i: usize| if spread == 2 { 5 } else { i as u32 };
    let items: Vec<(&Item, u32)> = list.iter().enumerate().map(|(i, &p)| (&kinds[p], id(i))).collect();
    let singles: Vec<&Outcome> = list.iter().map(|&p| &alone[p]).collect();
    check(&items, &singles, &mode)
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "Lists of up to 70,000 expressions from a generated pool, with zero or more bad ones \
               at generated positions and several ID schemes; the outcome is compared with that of \
               compiling each entry alone. Non-trivial: at least two entries.",
        stack: 512 * MIB,
        assumptions: &[
            "SINGLEMATCH is made a function of the match ID, since conflicts are the subject of C05.",
        ],
        subs: vec![
            enumerate("one-bad", ONE_BAD, ONE_BAD, one_bad),
            enumerate("orders", KINDS, KINDS, orders),
            random("lists", 20_000, 1_000_000, lists),
            random("big", 60, 2_000, big),
        ],
    }
}
