//! The small-write engine.

use super::model::*;
use crate::engine::{hash_u64s, no_panic, random, Prop, Src};
use crate::util::{Failure, Res, MIB};
use rescan::verif::{Builder, GraphSpec, Limits};
use rescan::Mode;
use std::collections::BTreeSet;

/// A graph that the engine gives up on for the given reason.
fn graph_spec(s: &mut Src, kind: usize, bad_report: u32, good_report: u32) -> GraphSpec {
    let extra = s.below(4);
    let n = 4 + extra;
    let mut spec = GraphSpec { extra_vertices: extra, ..GraphSpec::default() };
    for _ in 0..s.below(6) {
        let (a, b) = (s.below(n), s.below(n));
        // No vacuous edges.
        if !(a < 2 && (b == 2 || b == 3)) {
            spec.edges.push((a, b));
        }
    }
    for _ in 0..s.below(3) {
        spec.reports.push((s.below(n), good_report));
    }
    match kind {
        // Vacuous.
        0 => spec.edges.push((s.below(2), 2 + s.below(2))),
        // A report with a minimum length.
        1 => {
            // The accept vertex has an edge to the other one from the start.
            let v = if extra > 0 && s.bool() { 4 + s.below(extra) } else { 2 };
            if v != 2 {
                spec.edges.push((v, 2 + s.below(2)));
            }
            spec.reports.push((v, bad_report));
        }
        _ => {}
    }
    spec
}

#[derive(Clone, Debug)]
enum Op {
    Literal(Chars, u32),
    /// Graph, start of match, reason.
    Graph(GraphSpec, bool, usize),
}

/// The settings as they are documented: what was not set is not taken from the
/// crate.
fn stated(l: &Limits) -> Limits {
    let d = Limits::default();
    let or = |x: usize, default: usize, documented: usize| if x == default { documented } else { x };
    Limits {
        small_write_largest_buffer: or(l.small_write_largest_buffer, d.small_write_largest_buffer, 70),
        small_write_max_patterns: or(l.small_write_max_patterns, d.small_write_max_patterns, 10_000),
        small_write_max_literals: or(l.small_write_max_literals, d.small_write_max_literals, 10_000),
        ..l.clone()
    }
}

fn small_write_run(num_patterns: usize, l: &Limits, ops: &[Op], every: usize, bad_min: u64) -> Res {
    let mut b = Builder::new(num_patterns, &Mode::Block, l);
    let mut m = SmallWrite::new(num_patterns, &stated(l));
    let err = |x: rescan::CompileError| format!("{:?}", Failure::of(&x));
    let good = b.add_report(0).map_err(err)?;
    let bad = b.add_report(bad_min).map_err(err)?;
    crate::ensure!(good != bad, "reports share an ID");
    m.compare(&b)?;
    for (i, op) in ops.iter().enumerate() {
        let was = m.poisoned;
        match op {
            Op::Literal(c, r) => {
                b.small_write_add_literal(&make(c), *r);
                m.add(c, *r);
            }
            Op::Graph(spec, som, reason) => {
                let mut spec = spec.clone();
                for r in &mut spec.reports {
                    r.1 = if r.1 == 1 { bad } else { good };
                }
                let r = no_panic(|| b.small_write_add_graph(&spec, *som));
                let rejected = *som || *reason < 2;
                if !was && !rejected {
                    // Not implemented, at present.
                    if let Err(x) = &r {
                        crate::ensure!(x.contains("not implemented"), "op {i}: {x}");
                    }
                } else if let Err(x) = &r {
                    return Err(format!("op {i}, {op:?}: {x}"));
                }
                m.poisoned |= rejected;
            }
        }
        if i % every == 0 || m.poisoned != was || i + 1 == ops.len() {
            m.compare(&b).map_err(|x| format!("after op {i}, {}: {x}", show_op(op)))?;
        } else {
            crate::ensure!(
                b.small_write_poisoned() == m.poisoned,
                "after op {i}, {}: has given up: {} instead of {}",
                show_op(op),
                b.small_write_poisoned(),
                m.poisoned
            );
        }
    }
    Ok(())
}

fn show_op(op: &Op) -> String {
    match op {
        Op::Literal(c, r) => format!("literal {} report {r}", show_chars(c)),
        op => format!("{op:?}"),
    }
}

fn small_write_any(s: &mut Src) -> Res {
    let mut l = Limits::default();
    if s.chance(1, 2) {
        l.small_write_largest_buffer = match s.below(3) {
            0 => s.size(12),
            1 => s.range(68, 72),
            _ => s.size(300),
        };
        if s.bool() {
            l.small_write_max_literals = s.size(20);
        }
        l.allow_small_write = s.chance(9, 10);
    }
    let mut num_patterns = s.size(30);
    if s.chance(1, 5) {
        l.small_write_max_patterns = s.size(30);
        num_patterns = (l.small_write_max_patterns + s.below(3)).saturating_sub(1);
    }
    let bad_min = match s.below(3) {
        0 => 1,
        1 => 1 << s.draw(64),
        _ => s.any().max(1),
    };
    let n = s.size(40);
    let graphs = s.chance(1, 3);
    let any_report = s.bool();
    let ops: Vec<Op> = (0..n)
        .map(|_| {
            if graphs && s.chance(1, 8) {
                let reason = s.below(4);
                let som = s.chance(1, 3);
                let spec = graph_spec(s, reason, 1, 0);
                Op::Graph(spec, som, reason)
            } else {
                let len = l.small_write_largest_buffer;
                let c = if s.chance(1, 6) {
                    // Next to the limit.
                    let k = (len + s.below(3)).saturating_sub(1).clamp(1, 400);
                    let c = any_byte(s);
                    vec![(c, s.bool()); k]
                } else {
                    any_chars(s, 100)
                };
                Op::Literal(c, if any_report { crate::gen::any_id(s) } else { s.draw(5) as u32 })
            }
        })
        .collect();
    s.note(|| {
        let o: Vec<String> = ops.iter().map(show_op).collect();
        format!("{num_patterns} patterns, {l:?}: {}", o.join("; "))
    });
    let mut seen = BTreeSet::new();
    let shared = ops
        .iter()
        .filter_map(|o| match o {
            Op::Literal(c, _) => c.first().map(|x| x.0),
            Op::Graph(..) => None,
        })
        .any(|x| !seen.insert(x));
    s.nontrivial_if(shared);
    s.label_if(ops.iter().any(|o| matches!(o, Op::Graph(..))), "graphs");
    small_write_run(num_patterns, &l, &ops, 1, bad_min)
}

/// The vertex limit, approached exactly.
/// Few literals with many reports.
fn small_write_crowd(s: &mut Src) -> Res {
    let base = any_chars(s, 20);
    let literals: Vec<Chars> = (0..s.range(1, 5))
        .map(|_| {
            let mut c = base.clone();
            match s.below(4) {
                0 => c.truncate(s.range(1, c.len())),
                1 => c.push((any_byte(s), s.bool())),
                2 => {
                    let k = s.below(c.len());
                    c[k].1 = !c[k].1;
                }
                _ => {}
            }
            c
        })
        .collect();
    let most = if s.chance(1, 10) { 9_000 } else { 400 };
    let n = s.range(1, most);
    let spread = *s.pick(&[1, 0x10000, 0x0100_0001, 0x9e37_79b9_u32]);
    let start = crate::gen::any_id(s);
    let seed = s.any();
    let ops: Vec<Op> = (0..n)
        .map(|i| {
            let h = hash_u64s(&[seed, i as u64]);
            // Now and then one that is known.
            let r = if h % 8 == 0 { (h >> 8) as usize % (i + 1) } else { i };
            let c = literals[(h >> 40) as usize % literals.len()].clone();
            Op::Literal(c, (r as u32).wrapping_mul(spread).wrapping_add(start))
        })
        .collect();
    s.note(|| {
        let l: Vec<String> = literals.iter().map(|c| show_chars(c)).collect();
        format!("{n} reports, {start} and on, in steps of {spread}, of {}", l.join("; "))
    });
    s.nontrivial();
    small_write_run(1, &Limits::default(), &ops, 1 + n / 4, 1)
}

fn small_write_vertices(s: &mut Src) -> Res {
    let target = MAX_VERTICES - 2 + s.below(5);
    let nocase = s.bool();
    let len = s.range(20, 70);
    let seed = s.any();
    let other = s.size(300);
    let mut l = Limits::default();
    l.small_write_largest_buffer = 70;
    // Distinct literals that share a generated part, until the target number
    // of vertices is reached exactly.
    let mut m = TrieModel::default();
    let mut ops = Vec::new();
    for i in 0..other as u64 {
        // Some in the other trie.
        let h = hash_u64s(&[seed, 1, i]);
        ops.push(Op::Literal(vec![((h & 0xff) as u8, !nocase), ((h >> 8) as u8, !nocase)], 3));
    }
    let mut i = 0;
    while m.num_vertices() < target {
        let left = target - m.num_vertices();
        let h = hash_u64s(&[seed, i]);
        i += 1;
        let mut c = vec![b'0' + (h % 10) as u8, (h >> 8) as u8 & 0x3f, (h >> 16) as u8 & 0x3f];
        while c.len() < len {
            c.push((hash_u64s(&[h, c.len() as u64]) % 60) as u8);
        }
        let new = (1..=c.len()).filter(|&k| !m.prefixes.contains(&c[..k])).count();
        if new > left {
            c.truncate(c.len() - (new - left));
        }
        m.add(&c, 0);
        ops.push(Op::Literal(c.into_iter().map(|c| (c, nocase)).collect(), (i % 3) as u32));
    }
    // And some more that are there already, or add one.
    let again = ops[ops.len() - 1].clone();
    ops.push(again.clone());
    if let Op::Literal(mut c, _) = again {
        c.truncate(c.len().max(2) - 1);
        ops.push(Op::Literal(c, 1));
    }
    if s.bool() {
        ops.push(Op::Literal(vec![(0xfe, nocase)], 2));
        ops.push(Op::Literal(vec![(0xfe, nocase)], 3));
        ops.push(Op::Literal(vec![(0xfd, nocase)], 3));
    }
    s.note(|| format!("{} literals, case-insensitive {nocase}, of {len} bytes up to {target} vertices", ops.len()));
    s.nontrivial();
    small_write_run(1, &l, &ops, usize::MAX, 1)
}

/// The default limits on literals and patterns.
fn small_write_counts(s: &mut Src) -> Res {
    let l = Limits::default();
    let num_patterns = match s.below(3) {
        0 => 1,
        1 => 9_999 + s.below(4),
        _ => *s.pick(&[0, 100, 9_000, 10_000, 10_001, 20_000, 65_536, 8_000_000]),
    };
    let n = 9_998 + s.below(5);
    let long_every = *s.pick(&[0, 2, 10, 1000]);
    let mut ops = Vec::new();
    let mut added = 0;
    let mut i = 0_usize;
    while added < n {
        i += 1;
        if long_every != 0 && i % long_every == 0 {
            ops.push(Op::Literal(vec![(b'x', i % 2 == 0); 71 + i % 3], 0));
            continue;
        }
        added += 1;
        ops.push(Op::Literal(vec![(b'a' + (i % 7) as u8, i % 3 == 0); 1 + i % 70], (i % 5) as u32));
    }
    s.note(|| format!("{num_patterns} patterns, {n} literals, too long ones every {long_every}"));
    s.nontrivial();
    small_write_run(num_patterns, &l, &ops, usize::MAX, 1)
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "Sequences of literals (sharing prefixes, of lengths around the limit, all case \
               sensitivities) and graphs under generated limits, and few literals with many reports, and sequences that meet the \
               vertex, literal, and pattern limits exactly, against a model with sets of \
               literals. Non-trivial: two literals share their first character.",
        stack: 64 * MIB,
        assumptions: &[
            "Literals are not empty.",
            "Whether a literal that needs too many vertices is still held is left open.",
            "Graphs it need not give up on are not supported by the crate yet.",
        ],
        subs: vec![
            random("any", 60_000, 4_000_000, small_write_any),
            random("crowd", 1_000, 40_000, small_write_crowd),
            random("vertices", 80, 3_000, small_write_vertices),
            random("counts", 60, 1_000, small_write_counts),
        ],
    }
}
