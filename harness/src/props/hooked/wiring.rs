//! Wiring.

use crate::engine::{enumerate, random, Prop, Src};
use crate::util::{Res, MIB};
use rescan::verif::{connect_regions, Pos, POS_MULTILINE_START, POS_MUST_FLOAT, POS_NOFLOAT};
use std::collections::{BTreeMap, BTreeSet};

const START: usize = 0;
const START_DS: usize = 1;
const ACCEPT: usize = 2;
const ACCEPT_EOD: usize = 3;
const ALL_FLAGS: [u32; 3] = [POS_NOFLOAT, POS_MUST_FLOAT, POS_MULTILINE_START];

type Region = (Vec<Pos>, Vec<Pos>);

/// Which links there are: (from, to) with `None` for epsilon and
/// `Some(usize::MAX)` for a fresh vertex, with how many of these.
fn link(assert_flags: &[u32], from: Pos, to: Pos) -> bool {
    let noflo = |f: u32| f & POS_NOFLOAT != 0;
    let must = |f: u32| f & POS_MUST_FLOAT != 0;
    let f = from.0.unwrap_or(usize::MAX);
    if f == START_DS && (noflo(to.1) || noflo(from.1)) {
        return false;
    }
    if f == START {
        if to.0.is_none() && !noflo(to.1) {
            return false;
        }
        if must(to.1) && noflo(to.1) {
            return false;
        }
    }
    let multiline = f >= 4 && assert_flags[f - 4] & POS_MULTILINE_START != 0;
    if multiline && to.0 == Some(ACCEPT_EOD) {
        return false;
    }
    true
}

fn wiring_check(assert_flags: &[u32], regions: &[Region]) -> Res {
    let c = connect_regions(assert_flags, regions);
    let before = 4 + assert_flags.len();
    crate::ensure!(c.specials == [0, 1, 2, 3], "special vertices {:?}", c.specials);
    // Links wanted, fresh vertices aside, and number of fresh vertices by source.
    let mut want: BTreeSet<(usize, usize, u32)> = BTreeSet::new();
    let mut fresh: BTreeMap<usize, usize> = BTreeMap::new();
    want.insert((START, START_DS, 0));
    want.insert((START_DS, START_DS, 0));
    for (lasts, firsts) in regions {
        for &from in lasts {
            let f = from.0.unwrap_or(usize::MAX);
            for &to in firsts {
                if !link(assert_flags, from, to) {
                    continue;
                }
                match to.0 {
                    Some(ACCEPT) => *fresh.entry(f).or_insert(0) += 1,
                    Some(v) => {
                        want.insert((f, v, to.1));
                    }
                    None => {
                        want.insert((f, c.epsilon, to.1));
                    }
                }
            }
        }
    }
    let mut got: BTreeSet<(usize, usize, u32)> = BTreeSet::new();
    let mut got_fresh: BTreeMap<usize, usize> = BTreeMap::new();
    let mut used: BTreeSet<usize> = BTreeSet::new();
    for &(from, to, flags) in &c.successors {
        crate::ensure!(to != ACCEPT, "a link from {from} to accept itself");
        if to >= before && to != c.epsilon {
            crate::ensure!(to < c.num_vertices, "a link to vertex {to} that does not exist");
            crate::ensure!(used.insert(to), "vertex {to} stands in for accept twice");
            *got_fresh.entry(from).or_insert(0) += 1;
        } else {
            got.insert((from, to, flags));
        }
    }
    let missing: Vec<_> = want.difference(&got).collect();
    let excess: Vec<_> = got.difference(&want).collect();
    crate::ensure!(
        missing.is_empty() && excess.is_empty(),
        "links (from, to, flags) missing: {missing:?}, in excess: {excess:?}; \
         assertion flags {assert_flags:?}, regions {regions:?}"
    );
    crate::ensure!(
        fresh == got_fresh,
        "fresh vertices by source: {got_fresh:?} instead of {fresh:?}; regions {regions:?}"
    );
    crate::ensure!(
        c.num_vertices == before + used.len(),
        "{} vertices instead of {} and {} fresh ones",
        c.num_vertices,
        before,
        used.len()
    );
    Ok(())
}

fn flag_set(s: &mut Src) -> u32 {
    let k = s.draw(8);
    ALL_FLAGS.iter().enumerate().filter(|(i, _)| k >> i & 1 != 0).map(|(_, f)| f).sum()
}

fn wiring_any(s: &mut Src) -> Res {
    let extra = s.below(5);
    let assert_flags: Vec<u32> = (0..extra).map(|_| if s.bool() { flag_set(s) } else { 0 }).collect();
    let n = s.size(8);
    let mut interesting = false;
    let regions: Vec<Region> = (0..n)
        .map(|_| {
            let lasts: Vec<Pos> = (0..s.below(4))
                .map(|_| {
                    let v = if s.bool() { s.below(2) } else { s.below(4 + extra) };
                    (Some(v), flag_set(s))
                })
                .collect();
            let mut accept = false;
            let mut firsts: Vec<Pos> = Vec::new();
            for _ in 0..s.below(6) {
                let v = match s.weighted(&[3, 5]) {
                    0 => None,
                    _ => Some(s.below(4 + extra)),
                };
                // At most one accept.
                if v == Some(ACCEPT) {
                    if accept {
                        continue;
                    }
                    accept = true;
                }
                firsts.push((v, flag_set(s)));
            }
            interesting |= !lasts.is_empty() && !firsts.is_empty();
            (lasts, firsts)
        })
        .collect();
    s.note(|| format!("assertion flags {assert_flags:?}, (lasts, firsts) {regions:?}"));
    s.nontrivial_if(interesting);
    wiring_check(&assert_flags, &regions)
}

/// Many vertices, and long lists of positions, repeated ones among them.
fn wiring_big(s: &mut Src) -> Res {
    let extra = s.range(1, 300);
    let assert_flags: Vec<u32> = (0..extra).map(|_| if s.chance(1, 8) { flag_set(s) } else { 0 }).collect();
    let seed = s.any();
    let flagged = 1 + s.draw(8);
    let near = if s.bool() { 4 + extra } else { s.range(1, 4 + extra) };
    let list = |s: &mut Src, k: u64, lasts: bool, max: usize| -> Vec<Pos> {
        let n = s.size(max);
        let mut accept = false;
        (0..n as u64)
            .map(|i| {
                let h = crate::engine::hash_u64s(&[seed, k, i]);
                let f = if h % 8 < flagged {
                    let k = h >> 8 & 7;
                    ALL_FLAGS.iter().enumerate().filter(|(i, _)| k >> i & 1 != 0).map(|(_, f)| f).sum()
                } else {
                    0
                };
                let v = (h >> 16) as usize % near;
                match (h >> 48) % 12 {
                    0 if !lasts => (None, f),
                    1 => (Some((h >> 16) as usize % 4), f),
                    _ => (Some(v), f),
                }
            })
            .filter(|p| lasts || p.0 != Some(ACCEPT) || !std::mem::replace(&mut accept, true))
            .collect()
    };
    let n = s.range(1, 5) as u64;
    let regions: Vec<Region> =
        (0..n).map(|k| (list(s, 2 * k, true, 40), list(s, 2 * k + 1, false, 200))).collect();
    s.note(|| format!("assertion flags {assert_flags:?}, (lasts, firsts) {regions:?}"));
    s.nontrivial_if(regions.iter().any(|(a, b)| !a.is_empty() && !b.is_empty()));
    wiring_check(&assert_flags, &regions)
}

/// All single links.
fn wiring_all(s: &mut Src) -> Res {
    // from: vertex 0..6 with flags; to: epsilon or vertex 0..6 with flags.
    let k = s.draw(6 * 8 * 7 * 8) as usize;
    let flags = |k: usize| -> u32 {
        ALL_FLAGS.iter().enumerate().filter(|(i, _)| k >> i & 1 != 0).map(|(_, f)| f).sum()
    };
    let from: Pos = (Some(k % 6), flags(k / 6 % 8));
    let t = k / 48 % 7;
    let to: Pos = (if t == 6 { None } else { Some(t) }, flags(k / 336));
    s.note(|| format!("{from:?} to {to:?}"));
    s.nontrivial();
    // Vertex 5 is a multiline start, among all other combinations.
    for other in 0..8 {
        wiring_check(&[flags(other), POS_MULTILINE_START | flags(other)], &[(vec![from], vec![to])])?;
        s.count(1);
    }
    // Along with one that always links.
    wiring_check(&[0, POS_MULTILINE_START], &[(vec![from, (Some(4), 0)], vec![(Some(4), 0), to])])
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "Sequences of connections between generated lists of positions (vertices, epsilon, \
               special vertices) with all flag combinations, long lists of positions among them, and all single links; the recorded \
               links are compared with the rule, link by link. Non-trivial: some region has a last \
               and a first.",
        stack: 64 * MIB,
        assumptions: &["At most one first of a region is accept; a last is never epsilon."],
        subs: vec![
            enumerate("all", 6 * 8 * 7 * 8, 6 * 8 * 7 * 8, wiring_all),
            random("big", 400, 20_000, wiring_big),
            random("any", 150_000, 8_000_000, wiring_any),
        ],
    }
}
