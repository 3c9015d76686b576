//! The report manager.

use crate::engine::{random, Prop, Src};
use crate::gen;
use crate::util::{numbers, Failure, Res, MIB};
use rescan::verif::{Limits, Reports};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug)]
enum Op {
    Internal(u64),
    Lookup(u64),
    Register(u32, bool, u32),
    Key(u32),
}

#[derive(Default)]
struct Model {
    reports: Vec<u64>,
    by_report: HashMap<u64, u32>,
    ids: HashMap<u32, (bool, u32)>,
    keys: HashMap<u32, u32>,
    not_exhaustible: bool,
}

fn run(ops: impl Iterator<Item = Op>, limit: usize, sweep: bool) -> Res {
    let limits = Limits { limit_report_count: limit, ..Limits::default() };
    let mut r = Reports::new(&limits);
    let mut m = Model::default();
    crate::ensure!(r.global_exhaust() && r.num_reports() == 0, "not empty at first");
    for (n, op) in ops.enumerate() {
        let ctx = |x: String| format!("op {n}, {op:?} (limit {limit}): {x}");
        match op {
            Op::Internal(v) => {
                let got = r.internal_id(v).map_err(|e| Failure::of(&e));
                match (m.by_report.get(&v), got) {
                    (Some(&id), got) => {
                        crate::ensure!(got == Ok(id), "{}", ctx(format!("{got:?} instead of {id}")));
                    }
                    (None, Ok(id)) => {
                        crate::ensure!(m.reports.len() < limit, "{}", ctx("exceeds the limit".to_string()));
                        crate::ensure!(
                            id as usize == m.reports.len(),
                            "{}",
                            ctx(format!("new ID {id} after {}", m.reports.len()))
                        );
                        m.reports.push(v);
                        m.by_report.insert(v, id);
                    }
                    (None, Err(f)) => {
                        crate::ensure!(m.reports.len() >= limit, "{}", ctx(format!("refused: {f:?}")));
                        crate::ensure!(
                            f.kind() == "ResourceLimit",
                            "{}",
                            ctx(format!("not a resource limit error: {f:?}"))
                        );
                    }
                }
            }
            Op::Lookup(k) => {
                if !m.reports.is_empty() {
                    let i = (k % m.reports.len() as u64) as usize;
                    let got = r.report(i as u32);
                    crate::ensure!(
                        got == m.reports[i],
                        "{}",
                        ctx(format!("report {i} is {got} instead of {}", m.reports[i]))
                    );
                }
            }
            Op::Register(id, single, index) => {
                let got = r.register(id, single, index).map_err(|e| Failure::of(&e));
                let known = m.ids.get(&id).copied();
                match (known, got) {
                    (Some((s, first)), Err(f)) if s != single => {
                        // Nothing changes; says who is who.
                        let (_, text) = f.blamed();
                        crate::ensure!(
                            numbers(text) == [index.into(), id.into(), first.into()],
                            "{}",
                            ctx(format!("conflict with {first}: {f:?}"))
                        );
                    }
                    (Some((s, first)), Ok(())) if s != single => {
                        return Err(ctx(format!("accepted in spite of {first}")));
                    }
                    (_, Ok(())) => {
                        if known.is_none() {
                            m.ids.insert(id, (single, index));
                        }
                        m.not_exhaustible |= !single;
                    }
                    (_, Err(f)) => return Err(ctx(format!("refused: {f:?}"))),
                }
            }
            Op::Key(a) => {
                let next = m.keys.len() as u32;
                let want = *m.keys.entry(a).or_insert(next);
                let got = r.exhaustible_key(a);
                crate::ensure!(got == want, "{}", ctx(format!("key {got} instead of {want}")));
            }
        }
        crate::ensure!(
            r.num_reports() == m.reports.len(),
            "{}",
            ctx(format!("{} reports instead of {}", r.num_reports(), m.reports.len()))
        );
        crate::ensure!(
            r.global_exhaust() != m.not_exhaustible,
            "{}",
            ctx(format!("globally exhaustible: {}", r.global_exhaust()))
        );
        if sweep {
            for (i, &v) in m.reports.iter().enumerate() {
                crate::ensure!(
                    r.report(i as u32) == v,
                    "{}",
                    ctx(format!("report {i} is {} instead of {v}", r.report(i as u32)))
                );
            }
        }
    }
    // Everything again.
    for (i, &v) in m.reports.iter().enumerate() {
        crate::ensure!(r.report(i as u32) == v, "at last: report {i} is not {v}");
        let got = r.internal_id(v).map_err(|e| Failure::of(&e));
        crate::ensure!(got == Ok(i as u32), "at last: {v} has ID {got:?} instead of {i}");
    }
    for (&a, &k) in &m.keys {
        let got = r.exhaustible_key(a);
        crate::ensure!(got == k, "at last: {a} has key {got} instead of {k}");
    }
    for (&id, &(single, _)) in &m.ids {
        crate::ensure!(
            r.register(id, single, 9).is_ok() && r.register(id, !single, 9).is_err(),
            "at last: ID {id} has changed"
        );
    }
    Ok(())
}

fn value(s: &mut Src) -> u64 {
    match s.weighted(&[5, 2, 2]) {
        0 => s.draw(6),
        1 => {
            let k = s.draw(64);
            (1_u64 << k).wrapping_add(s.draw(3)).wrapping_sub(1)
        }
        _ => s.any(),
    }
}

fn op(s: &mut Src, rebels: u64) -> Op {
    match s.weighted(&[5, 2, 4, 4]) {
        0 => Op::Internal(value(s)),
        1 => Op::Lookup(s.any()),
        2 => {
            let id = gen::any_id(s);
            let usual = crate::engine::hash_u64s(&[id.into(), rebels]) & 1 != 0 || rebels == 0;
            Op::Register(id, usual != s.chance(rebels, 40), s.any_u32())
        }
        _ => Op::Key(if s.bool() { s.draw(6) as u32 } else { s.any_u32() }),
    }
}

fn any(s: &mut Src) -> Res {
    let limit = match s.below(3) {
        0 => s.size(12),
        1 => 32_000_000,
        _ => s.size(60),
    };
    let rebels = *s.pick(&[0, 1, 5, 20]);
    let n = s.size(150);
    let ops: Vec<Op> = (0..n).map(|_| op(s, rebels)).collect();
    s.note(|| format!("limit {limit}: {ops:?}"));
    s.nontrivial_if(n > 2);
    run(ops.iter().copied(), limit, true)
}

fn long(s: &mut Src) -> Res {
    let limit = match s.below(3) {
        0 => 65_534 + s.below(5),
        1 => 32_000_000,
        _ => s.range(100, 80_000),
    };
    let n = s.range(1_000, 150_000) as u64;
    let seed = s.any();
    let reuse = 1 + s.draw(20);
    let spread = s.draw(3);
    // Some of everything, or one kind above all.
    let most = s.draw(6);
    s.note(|| format!("{n} ops, limit {limit}, reuse {reuse}, spread {spread}, mostly {most}"));
    s.nontrivial();
    let ops = (0..n).map(|i| {
        let h = crate::engine::hash_u64s(&[seed, i]);
        let back = |x: u64| {
            let v = if h % reuse == 0 { i } else { (h >> 8) % (i + 1) };
            match x {
                0 => v,
                1 => v << 16,
                _ => v.wrapping_mul(0x9e37_79b9_7f4a_7c15),
            }
        };
        let kind = match most {
            3 if (h >> 48) % 16 > 0 => 0,
            4 if (h >> 48) % 16 > 0 => 5,
            5 if (h >> 48) % 16 > 0 => 6,
            _ => (h >> 40) % 8,
        };
        match kind {
            0..=3 => Op::Internal(back(spread)),
            4 => Op::Lookup(h),
            5 => Op::Register((back(spread) & 0xffff_ffff) as u32, true, i as u32),
            _ => Op::Key((back(spread) & 0xffff_ffff) as u32),
        }
    });
    run(ops, limit, false)
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "Histories of requests for internal IDs, look-ups, registrations (some conflicting), \
               and exhaustion keys, under generated limits, against maps; up to 150,000 long. \
               Non-trivial: more than two operations.",
        stack: 64 * MIB,
        assumptions: &["A report is told apart by its minimum length, the only thing it has."],
        subs: vec![
            random("any", 60_000, 4_000_000, any),
            random("long", 60, 1_500, long),
        ],
    }
}
