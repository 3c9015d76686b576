//! Limits and parameter checks.

use crate::engine::{enumerate, random, Prop, Src};
use crate::gen;
use crate::reference::accepted;
use crate::util::{outcome, Res, MIB};
use rescan::{compile_multi, Flags};

/// Rejected as a whole, without blaming an expression.
fn as_whole(got: &crate::util::Outcome, what: &str) -> Res {
    match got {
        Ok(()) => Err(format!("{what} should be rejected")),
        Err(f) => {
            crate::ensure!(f.blamed().0.is_none(), "{what} should not blame an expression: {f:?}");
            Ok(())
        }
    }
}

/// All combinations of small lengths.
fn lengths(s: &mut Src) -> Res {
    let k = s.draw(6 * 6 * 6 * 4) as usize;
    let (e, f, i, kind) = (k % 6, k / 6 % 6, k / 36 % 6, k / 216);
    s.note(|| format!("{e} expressions (kind {kind}), {f} flags, {i} IDs"));
    s.nontrivial();
    // In kind 1 and up, some expression is bad on its own.
    let exprs: Vec<&str> = (0..e)
        .map(|j| match kind {
            1 if j == 0 => "(",
            2 if j + 1 == e => ")",
            3 => "",
            _ => "ab",
        })
        .collect();
    let flags = vec![Flags::CASELESS; f];
    let ids: Vec<u32> = (0..i as u32).collect();
    for mode in 0..gen::NUM_MODES {
        let got = outcome(&compile_multi(&exprs, &flags, &ids, &gen::mode(mode)));
        s.count(1);
        if e == 0 || f != e || i != e {
            as_whole(&got, &format!("{e} expressions, {f} flags, {i} IDs"))?;
        } else if exprs.iter().all(|x| accepted(x, 1)) {
            crate::ensure!(got.is_ok(), "{e} good expressions are rejected: {got:?}");
        } else {
            let at = if kind == 1 { 0 } else { e - 1 };
            crate::ensure!(
                matches!(&got, Err(x) if x.blamed().0 == Some(at as u64)),
                "expression {at} of {exprs:?} should be blamed: {got:?}"
            );
        }
    }
    Ok(())
}

/// Good expressions (to be repeated), flags, and IDs for `n` entries.
fn entries(s: &mut Src, n: usize) -> (Vec<String>, Vec<Flags>, Vec<u32>) {
    let k = 1 + s.below(4);
    let pool: Vec<String> = (0..k)
        .map(|_| match s.below(6) {
            0 => String::new(),
            1 => "ab".to_string(),
            2 => gen::plain(s, 8),
            3 => s.pick(&["()", "|", "(*UCP)", "(a)b", " ", "a|b"]).to_string(),
            _ => gen::accepted(s, 20, true),
        })
        .collect();
    // None has SINGLEMATCH, so that they cannot conflict.
    let few: Vec<u16> = (0..3).map(|_| gen::ok_flags(s) & !8).collect();
    let plain = s.bool();
    let flags = (0..n).map(|i| gen::flags(if plain { 0 } else { few[i % 3] })).collect();
    let ids = match s.below(3) {
        0 => vec![3; n],
        1 => (0..n as u32).collect(),
        _ => (0..n as u32).map(|i| 1_u32.wrapping_sub(i / 2)).collect(),
    };
    (pool, flags, ids)
}

fn mismatch(s: &mut Src) -> Res {
    let n = s.size(400);
    let mut lens = [n, n, n];
    for _ in 0..s.below(3) {
        let i = s.below(3);
        lens[i] = match s.below(6) {
            3 => 1,
            4 => n * (2 + s.below(3)),
            5 => n / 2,
            0 => n + 1 + s.size(300),
            1 => n.saturating_sub(1 + s.size(300)),
            _ => 0,
        };
    }
    s.note(|| format!("lengths {lens:?}"));
    s.nontrivial_if(lens[0] != lens[1] || lens[0] != lens[2]);
    let (pool, flags, ids) = entries(s, n * 4 + 301);
    let exprs: Vec<&str> = pool.iter().map(|e| e.as_str()).cycle().take(lens[0]).collect();
    let (flags, ids) = (&flags[..lens[1]], &ids[..lens[2]]);
    let (_, mode) = gen::any_mode(s);
    let got = outcome(&compile_multi(&exprs, flags, ids, &mode));
    if lens[0] == 0 || lens[0] != lens[1] || lens[0] != lens[2] {
        as_whole(&got, &format!("lengths {lens:?}"))
    } else {
        crate::ensure!(got.is_ok(), "lengths {lens:?} should be accepted: {got:?}");
        Ok(())
    }
}

/// The default pattern count limit. The first expression is bad, so that a list
/// within the limit is not compiled as a whole.
fn default_count(s: &mut Src) -> Res {
    let k = s.draw(4);
    let n = 7_999_999 + k as usize;
    s.note(|| format!("{n} patterns, the first of them bad"));
    s.nontrivial();
    let mut exprs = vec!["a"; n];
    exprs[0] = "(";
    let flags = vec![Flags::empty(); n];
    let ids = vec![0; n];
    let got = outcome(&compile_multi(&exprs, &flags, &ids, &gen::mode(k)));
    if n > 8_000_000 {
        as_whole(&got, "a list above the limit")
    } else {
        crate::ensure!(
            matches!(&got, Err(x) if x.blamed().0 == Some(0)),
            "{n} patterns: expression 0 should be blamed: {got:?}"
        );
        Ok(())
    }
}

/// The default pattern length limit, in a list.
fn default_length(s: &mut Src) -> Res {
    let n = 1 + s.below(5);
    let at = s.below(n);
    let e = gen::limit_expression(s);
    s.note(|| format!("{} as entry {at} of {n}", gen::show(&e)));
    s.nontrivial();
    let mut exprs = vec!["ab|c"; n];
    exprs[at] = &e;
    let flags = vec![Flags::empty(); n];
    let ids: Vec<u32> = (0..n as u32).collect();
    let (_, mode) = gen::any_mode(s);
    let got = outcome(&compile_multi(&exprs, &flags, &ids, &mode));
    if accepted(&e, 0) {
        s.label("within");
        crate::ensure!(got.is_ok(), "{} bytes should be accepted: {got:?}", e.len());
        return Ok(());
    }
    let Err(f) = got else {
        return Err(format!("{} bytes should be rejected", e.len()));
    };
    crate::ensure!(f.blamed().0 == Some(at as u64), "entry {at} should be blamed: {f:?}");
    let for_length = f.text.to_lowercase().contains("length");
    crate::ensure!(
        for_length == (e.len() > 16_000),
        "{} bytes: rejected for its length is {for_length}: {f:?}",
        e.len()
    );
    s.label(if for_length { "beyond" } else { "within" });
    Ok(())
}

#[cfg(rescan_check = "C06")]
mod limits {
    use super::*;
    use rescan::verif::{compile_multi_with, Builder, Limits};

    /// A small limit, sometimes zero, rarely huge.
    fn limit(s: &mut Src) -> usize {
        match s.weighted(&[10, 1]) {
            0 => s.size(300),
            _ => *s.pick(&[usize::MAX, usize::MAX - 1, 1 << 32, 1 << 16, 255, 256]),
        }
    }

    fn around(s: &mut Src, l: usize, max: usize) -> usize {
        match s.below(4) {
            0 => s.size(max),
            k => (l.min(max) + k).saturating_sub(2).min(max),
        }
    }

    pub fn count(s: &mut Src) -> Res {
        let l = limit(s);
        let n = around(s, l, 400);
        let bad = s.bool();
        let limits = Limits { limit_pattern_count: l, ..Limits::default() };
        let (pool, all_flags, ids) = entries(s, n);
        let mut exprs: Vec<&str> = pool.iter().map(|e| e.as_str()).cycle().take(n).collect();
        if bad && n > 0 {
            let at = s.below(n);
            exprs[at] = ")";
        }
        let flags = all_flags;
        let (_, mode) = gen::any_mode(s);
        s.note(|| format!("{n} patterns {pool:?}..., limit {l}, a bad one: {bad}"));
        s.nontrivial_if(n > 0 && n.abs_diff(l) <= 1);
        let got = outcome(&compile_multi_with(&exprs, &flags, &ids, &mode, &limits));
        if n == 0 || n > l {
            s.label("count beyond");
            as_whole(&got, &format!("{n} patterns with limit {l}"))
        } else if bad {
            s.label("count within");
            crate::ensure!(
                matches!(&got, Err(f) if f.blamed().0.is_some()),
                "the bad expression should be blamed: {got:?}"
            );
            Ok(())
        } else {
            s.label("count within");
            crate::ensure!(got.is_ok(), "{n} patterns with limit {l} are rejected: {got:?}");
            Ok(())
        }
    }

    pub fn length(s: &mut Src) -> Res {
        let l = limit(s);
        let n = around(s, l, 400);
        // Exactly n bytes.
        let unit = *s.pick(&["a", "é", "日", "()", "|", "😀", "(", ")"]);
        let mut e = unit.repeat(n / unit.len());
        while e.len() < n {
            e.push('b');
        }
        let limits = Limits { limit_pattern_length: l, ..Limits::default() };
        let total = 1 + s.below(4);
        let at = s.below(total);
        s.note(|| format!("{} ({n} bytes) as entry {at} of {total}, limit {l}", gen::show(&e)));
        s.nontrivial_if(n.abs_diff(l) <= 1);
        // The others are empty, thus never too long.
        let mut exprs = vec![""; total];
        exprs[at] = &e;
        let flags = vec![Flags::empty(); total];
        let ids = vec![0; total];
        let (_, mode) = gen::any_mode(s);
        let got = outcome(&compile_multi_with(&exprs, &flags, &ids, &mode, &limits));
        let mut b = Builder::new(total, &mode, &limits);
        let alone = b.add_expression(at, &e, Flags::empty(), 0);
        s.count(1);
        let too_long = n > l;
        s.label(if too_long { "length beyond" } else { "length within" });
        let good = !too_long && crate::reference::syntax(&e).is_ok();
        crate::ensure!(
            alone.is_ok() == good,
            "adding {n} bytes with limit {l}: {:?}",
            alone.err().map(|e| e.to_string())
        );
        match got {
            Ok(()) => {
                crate::ensure!(good, "{n} bytes are accepted with limit {l}");
            }
            Err(f) => {
                crate::ensure!(!good, "{n} bytes are rejected with limit {l}: {f:?}");
                crate::ensure!(f.blamed().0 == Some(at as u64), "entry {at} should be blamed: {f:?}");
                let for_length = f.text.to_lowercase().contains("length");
                crate::ensure!(
                    for_length == too_long,
                    "{n} bytes with limit {l}: rejected for its length is {for_length}: {f:?}"
                );
            }
        }
        Ok(())
    }

    /// The defaults themselves.
    pub fn defaults(s: &mut Src) -> Res {
        let _ = s.draw(1);
        s.note(|| "default limits".to_string());
        s.nontrivial();
        let d = Limits::default();
        crate::ensure!(d.limit_pattern_count == 8_000_000, "pattern count limit: {d:?}");
        crate::ensure!(d.limit_pattern_length == 16_000, "pattern length limit: {d:?}");
        Ok(())
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "All combinations of small slice lengths, generated mismatches, lists and expressions \
               one below to two above generated limits (and the default ones); who is blamed is \
               compared with the rule. Non-trivial: the slices differ in length, or a size is \
               within one of its limit.",
        stack: 512 * MIB,
        assumptions: &["At 8,000,000 patterns, only the first is compiled, since it is bad."],
        subs: vec![
            enumerate("lengths", 864, 864, lengths),
            random("mismatch", 3_000, 100_000, mismatch),
            #[cfg(rescan_check = "C06")]
            enumerate("defaults", 1, 1, limits::defaults),
            #[cfg(rescan_check = "C06")]
            random("count", 20_000, 1_000_000, limits::count),
            #[cfg(rescan_check = "C06")]
            random("length", 40_000, 1_500_000, limits::length),
            random("default-length", 400, 10_000, default_length),
            enumerate("default-count", 4, 4, default_count),
        ],
    }
}
