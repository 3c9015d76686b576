//! SINGLEMATCH agreement.

use crate::engine::{enumerate, hash_u64s, random, Prop, Src};
use crate::gen;
use crate::reference::{accepted, is_literal, SINGLEMATCH};
use crate::util::{numbers, outcome, Res, MIB};
use rescan::{compile_multi, Flags, Mode};
use std::collections::HashMap;

struct Entry {
    expr: String,
    flags: u16,
    id: u32,
}

#[derive(PartialEq)]
enum Want {
    Ok,
    /// Position, and position of the earliest with the same ID.
    Conflict(usize, usize),
    Invalid(usize),
}

/// If `all`, expressions that are not literals count, too.
fn model(list: &[Entry], all: bool) -> Want {
    let mut first: HashMap<u32, usize> = HashMap::new();
    for (i, e) in list.iter().enumerate() {
        if !accepted(&e.expr, e.flags) {
            return Want::Invalid(i);
        }
        if !all && !is_literal(&e.expr) {
            continue;
        }
        let f = *first.entry(e.id).or_insert(i);
        if (list[f].flags ^ e.flags) & SINGLEMATCH != 0 {
            return Want::Conflict(i, f);
        }
    }
    Want::Ok
}

fn check(s: &mut Src, list: &[Entry], mode: &Mode) -> Res {
    let exprs: Vec<&str> = list.iter().map(|e| e.expr.as_str()).collect();
    let flags: Vec<Flags> = list.iter().map(|e| gen::flags(e.flags)).collect();
    let ids: Vec<u32> = list.iter().map(|e| e.id).collect();
    let got = outcome(&compile_multi(&exprs, &flags, &ids, mode));
    let want = model(list, false);
    if want != model(list, true) {
        // It depends on whether those that are not literals count.
        s.label("undecided");
        return Ok(());
    }
    match (want, got) {
        (Want::Ok, Ok(())) => {
            s.label("no conflict");
            Ok(())
        }
        (Want::Ok, Err(f)) => Err(format!("no conflict, but {f:?}")),
        (Want::Conflict(i, f), Ok(())) => {
            Err(format!("entry {i} conflicts with {f} (ID {}), but it is accepted", list[i].id))
        }
        (Want::Conflict(i, f), Err(e)) => {
            s.label("conflict");
            let (blamed, text) = e.blamed();
            crate::ensure!(blamed == Some(i as u64), "entry {i} should be blamed: {e:?}");
            let want = [i as u64, list[i].id.into(), f as u64];
            crate::ensure!(
                numbers(text) == want,
                "should name entry {i}, ID {}, and entry {f}, but names {:?}: {e:?}",
                list[i].id,
                numbers(text)
            );
            if let Some((this, earlier)) = text.split_once(" whereas ") {
                for (said, n) in [(this, i), (earlier, f)] {
                    let has = list[n].flags & SINGLEMATCH != 0;
                    crate::ensure!(
                        said.contains(" not") != has,
                        "entry {n} has SINGLEMATCH: {has}, but the error says the opposite: {e:?}"
                    );
                }
            }
            Ok(())
        }
        (Want::Invalid(i), Ok(())) => Err(format!("entry {i} is invalid, but it is accepted")),
        (Want::Invalid(i), Err(e)) => {
            s.label("invalid");
            crate::ensure!(
                e.blamed().0 == Some(i as u64) && !e.text.contains("match ID"),
                "invalid entry {i} should be blamed: {e:?}"
            );
            Ok(())
        }
    }
}

/// A literal: possibly with groups, never empty.
fn literal(s: &mut Src) -> String {
    match s.weighted(&[50, 30, 1]) {
        2 => {
            let n = *s.pick(&[100, 250, 500, 1_000, 4_000, 15_990]);
            let n = n + s.below(30).min(15_999 - n);
            let c = gen::ordinary(s) as char;
            format!("{}b", c.to_string().repeat(n))
        }
        0 => format!("{}{}", gen::ordinary(s) as char, gen::plain(s, 6)),
        _ => loop {
            let e = gen::accepted(s, 60, false);
            if is_literal(&e) {
                return e;
            }
            return format!("{e}x");
        },
    }
}

/// An accepted expression that is not a literal.
fn not_literal(s: &mut Src) -> String {
    match s.below(4) {
        0 => String::new(),
        1 => "()".to_string(),
        2 => format!("{}|", gen::plain(s, 4)),
        _ => {
            let e = gen::accepted(s, 30, true);
            format!("{e}|b")
        }
    }
}

fn note(s: &mut Src, list: &[Entry], mode: u64) {
    s.note(|| {
        let l: Vec<String> = list
            .iter()
            .take(30)
            .map(|e| format!("({:?}, {:#x}, {})", e.expr, e.flags, e.id))
            .collect();
        format!("mode {mode}, {} entries: {}", list.len(), l.join(", "))
    });
}

/// IDs that become equal when truncated or signed.
fn families(s: &mut Src) -> Vec<u32> {
    let base = if s.bool() { s.draw(6) as u32 } else { s.any_u32() };
    let mut v = vec![base];
    for d in [1, 0x80, 0x100, 0x7fff, 0x8000, 0x1_0000, 0x100_0000, 0x8000_0000, 10_000, 8_000_000] {
        v.push(base.wrapping_add(d));
        v.push(base.wrapping_sub(d));
        v.push(base ^ d);
    }
    v.push(!base);
    v.push(u32::MAX);
    v
}

fn lists(s: &mut Src) -> Res {
    let (mode_no, mode) = gen::any_mode(s);
    let n = 1 + s.size(60);
    let fam = families(s);
    // Per ID, the flag that most entries have.
    let salt = s.draw(1 << 16);
    let rebels = *s.pick(&[0, 0, 1, 3, 10]);
    let invalid = s.chance(1, 10);
    let others = *s.pick(&[0, 0, 1, 4]);
    let list: Vec<Entry> = (0..n)
        .map(|_| {
            let id = *s.pick(&fam);
            let usual = hash_u64s(&[salt, id.into()]) & 1 != 0;
            let rebel = s.chance(rebels, 20);
            let single = usual != rebel;
            let mut flags = gen::ok_flags(s) & !SINGLEMATCH;
            if single {
                flags |= SINGLEMATCH;
            }
            let mut expr = literal(s);
            if s.chance(others, 10) {
                expr = not_literal(s);
            }
            if invalid && s.chance(1, 8) {
                match s.below(3) {
                    0 => expr.push(')'),
                    1 => expr.push('é'),
                    _ => flags |= 0x500,
                }
            }
            Entry { expr, flags, id }
        })
        .collect();
    note(s, &list, mode_no);
    let mut ids: Vec<u32> = list.iter().map(|e| e.id).collect();
    ids.sort_unstable();
    s.nontrivial_if(ids.windows(2).any(|w| w[0] == w[1]));
    check(s, &list, &mode)
}

/// Two entries, with everything between them agreeing.
fn distant(s: &mut Src) -> Res {
    let (mode_no, mode) = gen::any_mode(s);
    let n = 2 + match s.below(3) {
        0 => s.size(600),
        1 => 0xfffd + s.below(5),
        _ => s.range(0, 70_000),
    };
    let second = if s.bool() { n - 1 } else { n - 1 - s.size(n - 2) };
    let first = s.size(second - 1);
    let same_ids = s.bool();
    let fill_single = s.bool();
    let single = s.bool();
    let conflict = s.chance(3, 4);
    let others = s.chance(1, 3);
    // Fillers have IDs of their own.
    let base = s.any_u32();
    let special = base.wrapping_sub(1 + s.draw(3) as u32);
    let list: Vec<Entry> = (0..n)
        .map(|i| {
            let (id, on) = if i == first {
                (special, single)
            } else if i == second {
                (special, single != conflict)
            } else {
                (base.wrapping_add(if same_ids { 0 } else { i as u32 }), fill_single)
            };
            let expr = match i % 3 {
                _ if others && i % 2 == 1 && i != first && i != second => "a|",
                0 => "ab",
                _ => "c",
            };
            Entry {
                expr: expr.to_string(),
                flags: if on { SINGLEMATCH } else { 0 },
                id,
            }
        })
        .collect();
    s.note(|| format!("mode {mode_no}, {n} entries, ID {special} at {first} and {second}, conflict {conflict}"));
    s.nontrivial();
    check(s, &list, &mode)
}

/// All short sequences over a few IDs.
fn small(s: &mut Src) -> Res {
    const IDS: [u32; 3] = [0, 0x100, 0x8000_0000];
    let k = s.draw(gen::num_strings(8, 6));
    let syms = ["0", "1", "2", "3", "4", "5", "6", "7"];
    let list: Vec<Entry> = gen::nth_string(k, &syms)
        .bytes()
        .map(|b| {
            let b = b - b'0';
            let expr = match b {
                6 | 7 => return Entry { expr: "a|b".to_string(), flags: if b == 6 { 0 } else { SINGLEMATCH }, id: 0 },
                _ => "ab",
            };
            Entry {
                expr: expr.to_string(),
                flags: if b & 1 != 0 { SINGLEMATCH } else { 0 },
                id: IDS[(b >> 1) as usize],
            }
        })
        .collect();
    if list.is_empty() {
        return Ok(());
    }
    note(s, &list, 0);
    s.nontrivial_if(list.len() > 1);
    check(s, &list, &gen::mode(k % gen::NUM_MODES))
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "Lists (mostly of literals) whose match IDs come from families that collide if truncated or \
               taken as signed, with a generated number of entries that disagree on SINGLEMATCH, \
               against a map from ID to first entry; and two distant entries. Non-trivial: an \
               ID occurs twice.",
        stack: 512 * MIB,
        assumptions: &[
            "Where the verdict depends on whether expressions that are not literals count, it is \
             not judged.",
        ],
        subs: vec![
            enumerate("small", gen::num_strings(8, 5), gen::num_strings(8, 6), small),
            random("lists", 30_000, 1_500_000, lists),
            random("distant", 150, 5_000, distant),
        ],
    }
}
