//! Bookkeeping.

use super::model::*;
use crate::engine::{hash_u64s, random, Prop, Src};
use crate::gen;
use crate::reference as re;
use crate::util::{numbers, Failure, Res, MIB};
use rescan::verif::{Builder, Limits};
use rescan::Mode;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Debug)]
enum Step {
    Expression { e: String, flags: u16, id: u32 },
    Shortcut { e: String, flags: u16, id: u32 },
    Literal { l: Chars, id: u32, single: bool, som: bool, quiet: bool },
    Report(u64),
}

struct Model {
    min_width: Option<usize>,
    som: bool,
    /// First index and SINGLEMATCH by match ID.
    ids: HashMap<u32, (usize, bool)>,
    reports: BTreeSet<u64>,
    patterns: usize,
    small_write: SmallWrite,
    exhaust: bool,
}

enum Verdict {
    Accepted,
    Declined,
    /// Invalid expression.
    Invalid,
    Conflict(usize),
    /// No report left; the match ID is registered nevertheless.
    NoReport,
}

impl Model {
    fn add_literal(&mut self, l: &[(u8, bool)], n: usize, id: u32, single: bool, som: bool, lim: &Limits, rid: u32) -> Verdict {
        if !lim.shortcut_literals || mixed(&folded_chars(l)) {
            return Verdict::Declined;
        }
        let (first, s) = *self.ids.entry(id).or_insert((n, single));
        if s != single {
            return Verdict::Conflict(first);
        }
        self.exhaust &= single;
        if !self.reports.contains(&0) && self.reports.len() >= lim.limit_report_count {
            return Verdict::NoReport;
        }
        self.reports.insert(0);
        self.patterns += 1;
        self.som |= som;
        self.min_width = Some(self.min_width.map_or(l.len(), |m| m.min(l.len())));
        self.small_write.add(l, rid);
        Verdict::Accepted
    }

    fn add_expression(&mut self, e: &str, flags: u16, n: usize, id: u32, lim: &Limits, rid: u32) -> Verdict {
        if !re::accepted(e, flags) {
            return Verdict::Invalid;
        }
        match literal_of(e, flags) {
            Some(l) if !l.is_empty() && lim.allow_literal => {
                self.add_literal(&l, n, id, flags & re::SINGLEMATCH != 0, false, lim, rid)
            }
            _ => Verdict::Declined,
        }
    }
}

fn folded_chars(l: &[(u8, bool)]) -> Chars {
    folded(l).into_iter().zip(l).map(|(c, x)| (c, x.1)).collect()
}

fn compare(b: &Builder, m: &mut Model, full: bool) -> Res {
    crate::ensure!(
        b.min_width() == m.min_width,
        "minimum width is {:?} instead of {:?}",
        b.min_width(),
        m.min_width
    );
    crate::ensure!(b.has_som() == m.som, "start of match noted: {} instead of {}", b.has_som(), m.som);
    crate::ensure!(
        b.num_reports() == m.reports.len(),
        "{} reports instead of {}",
        b.num_reports(),
        m.reports.len()
    );
    crate::ensure!(
        m.patterns == 0 || b.num_reports() > 0,
        "a registered pattern has no report"
    );
    crate::ensure!(
        b.global_exhaust() == m.exhaust,
        "globally exhaustible: {} instead of {}",
        b.global_exhaust(),
        m.exhaust
    );
    if full {
        m.small_write.compare(b).map_err(|x| format!("small-write engine: {x}"))?;
    }
    Ok(())
}

fn show_step(st: &Step) -> String {
    match st {
        Step::Expression { e, flags, id } => format!("expression {} {flags:#x} ID {id}", gen::show(e)),
        Step::Shortcut { e, flags, id } => format!("shortcut {} {flags:#x} ID {id}", gen::show(e)),
        Step::Literal { l, id, single, som, quiet } => {
            format!("literal {} ID {id} SINGLEMATCH {single} SOM {som} QUIET {quiet}", show_chars(l))
        }
        Step::Report(n) => format!("report {n}"),
    }
}

fn bookkeeping_run(steps: &[Step], mode: &Mode, lim: &Limits, every: usize) -> Res {
    let num = steps.len();
    let mut b = Builder::new(num, mode, lim);
    let mut m = Model {
        min_width: None,
        som: false,
        ids: HashMap::new(),
        reports: BTreeSet::new(),
        patterns: 0,
        small_write: SmallWrite::new(num, lim),
        exhaust: true,
    };
    // Internal IDs are given out in order.
    let mut rid: Option<u32> = None;
    let mut next = 0;
    compare(&b, &mut m, true)?;
    for (i, st) in steps.iter().enumerate() {
        let ctx = |x: String| format!("step {i}, {}: {x}", show_step(st));
        let had = m.reports.len();
        let r = rid.unwrap_or(next);
        let (verdict, got) = match st {
            Step::Expression { e, flags, id } => {
                let v = m.add_expression(e, *flags, i, *id, lim, r);
                (v, b.add_expression(i, e, gen::flags(*flags), *id).map(|()| None))
            }
            Step::Shortcut { e, flags, id } => {
                let v = m.add_expression(e, *flags, i, *id, lim, r);
                (v, b.shortcut_literal(i, e, gen::flags(*flags), *id).map(Some))
            }
            Step::Literal { l, id, single, som, quiet } => {
                let v = m.add_literal(l, i, *id, *single, *som, lim, r);
                (v, b.add_literal(&make(l), i as u32, *id, *single, *som, *quiet).map(Some))
            }
            Step::Report(n) => {
                let known = m.reports.contains(n);
                let full = m.reports.len() >= lim.limit_report_count;
                let got = b.add_report(*n);
                crate::ensure!(
                    got.is_ok() == (known || !full),
                    "{}",
                    ctx(format!("report refused: {}", got.is_err()))
                );
                if got.is_ok() {
                    m.reports.insert(*n);
                }
                (Verdict::Accepted, Ok(None))
            }
        };
        if m.reports.len() > had {
            if m.reports.contains(&0) && rid.is_none() {
                rid = Some(next);
            }
            next += 1;
        }
        let got = got.map_err(|x| Failure::of(&x));
        match (&verdict, &got) {
            (Verdict::Accepted, Ok(None | Some(true))) | (Verdict::Declined, Ok(None | Some(false))) => {}
            (Verdict::Invalid, Err(f)) if !f.text.contains("match ID") => {}
            (Verdict::NoReport, Err(f)) if f.kind() == "ResourceLimit" => {}
            (Verdict::Conflict(first), Err(f)) => {
                let id = match st {
                    Step::Expression { id, .. } | Step::Shortcut { id, .. } | Step::Literal { id, .. } => *id,
                    Step::Report(_) => 0,
                };
                let (_, text) = f.blamed();
                crate::ensure!(
                    numbers(text) == [i as u64, id.into(), *first as u64],
                    "{}",
                    ctx(format!("conflict with step {first}: {f:?}"))
                );
            }
            _ => {
                let v = match verdict {
                    Verdict::Accepted => "accepted".to_string(),
                    Verdict::Declined => "declined".to_string(),
                    Verdict::Invalid => "rejected as invalid".to_string(),
                    Verdict::NoReport => "rejected for lack of a report".to_string(),
                    Verdict::Conflict(n) => format!("rejected for a conflict with step {n}"),
                };
                return Err(ctx(format!("should be {v}, but gave {got:?}")));
            }
        }
        compare(&b, &mut m, i % every == 0 || i + 1 == num).map_err(ctx)?;
    }
    drop(b.build());
    Ok(())
}

fn step(s: &mut Src, ids: &[u32], limited: bool) -> Step {
    let id = *s.pick(ids);
    let usual = hash_u64s(&[id.into()]) & 1 != 0;
    let single = usual != s.chance(1, 12);
    match s.weighted(&[5, 2, 5, if limited { 2 } else { 0 }]) {
        k @ (0 | 1) => {
            let e = match s.weighted(&[5, 3, 1]) {
                0 => gen::accepted(s, 100, false),
                1 => gen::accepted(s, 40, true),
                _ => gen::any_expression(s),
            };
            let mut flags = if s.chance(1, 12) { gen::any_flags(s) } else { gen::ok_flags(s) };
            flags = flags & !re::SINGLEMATCH | if single { re::SINGLEMATCH } else { 0 };
            if k == 0 {
                Step::Expression { e, flags, id }
            } else {
                Step::Shortcut { e, flags, id }
            }
        }
        2 => {
            let l = any_chars(s, 120);
            Step::Literal { l, id, single, som: !single && s.chance(1, 3), quiet: s.bool() }
        }
        _ => Step::Report(if s.bool() { s.draw(4) } else { s.any() }),
    }
}

fn bookkeeping_any(s: &mut Src) -> Res {
    let (mode_no, mode) = gen::any_mode(s);
    let mut lim = settings(s);
    let limited = s.chance(1, 4);
    if limited {
        lim.limit_report_count = s.below(4);
    }
    if s.chance(1, 6) {
        lim.small_write_max_literals = s.size(20);
        lim.small_write_largest_buffer = s.size(20);
    }
    let ids: Vec<u32> = (0..6).map(|_| gen::any_id(s)).collect();
    let n = s.size(40);
    let steps: Vec<Step> = (0..n).map(|_| step(s, &ids, limited)).collect();
    s.note(|| {
        let v: Vec<String> = steps.iter().map(show_step).collect();
        format!("mode {mode_no}, {lim:?}: {}", v.join("; "))
    });
    s.nontrivial_if(n > 1);
    bookkeeping_run(&steps, &mode, &lim, 1)
}

/// Long literals among short ones, and a long history.
fn bookkeeping_long(s: &mut Src) -> Res {
    let (_, mode) = gen::any_mode(s);
    let n = s.range(100, 3000);
    let len = *s.pick(&[255, 256, 257, 4095, 4096, 15_999, 65_535, 65_536, 70_000]);
    let shorter = 1 + s.size(200);
    let at = s.below(n);
    let lim = Limits::default();
    let steps: Vec<Step> = (0..n)
        .map(|i| {
            let k = if i == at { shorter } else { len - i % 3 };
            let l = vec![(b'a' + (i % 20) as u8, i % 2 == 0); if i < 6 || i == at { k } else { 300 + i % 5 }];
            Step::Literal { l, id: i as u32 % 50, single: false, som: i == n / 2, quiet: false }
        })
        .collect();
    s.note(|| format!("{n} literals of {len} bytes and down, one of {shorter} at {at}"));
    s.nontrivial();
    bookkeeping_run(&steps, &mode, &lim, 500)
}

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "Sequences of expressions (valid or not), shortcut attempts, bare literals of any case \
               sensitivity, and report requests, under generated settings and limits, against a \
               model of all bookkeeping; checked after every step. Non-trivial: at least two \
               steps.",
        stack: 512 * MIB,
        assumptions: &["A literal is not empty and not both SINGLEMATCH and start of match."],
        subs: vec![
            random("any", 60_000, 4_000_000, bookkeeping_any),
            random("long", 60, 2_000, bookkeeping_long),
        ],
    }
}
