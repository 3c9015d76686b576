//! Depths, and alignment.

use crate::engine::{enumerate, random, Prop, Src};
use crate::util::{Res, MIB};
use rescan::verif::DepthValue;
use std::cmp::Ordering;

const LIMIT: u64 = (1 << 31) - 2;

fn convert(v: u64) -> Result<Option<DepthValue>, String> {
    let a = DepthValue::from_usize(v as usize);
    crate::ensure!(a.is_some() == (v <= LIMIT), "{v} as usize is accepted: {}", a.is_some());
    if let Ok(w) = u32::try_from(v) {
        let b = DepthValue::from_u32(w);
        crate::ensure!(b.is_some() == (v <= LIMIT), "{v} as u32 is accepted: {}", b.is_some());
        crate::ensure!(a == b, "{v} differs between integer widths");
        if let (Some(a), Some(b)) = (a, b) {
            crate::ensure!(a.cmp(&b) == Ordering::Equal, "{v} differs between integer widths");
        }
    }
    Ok(a)
}

fn relation(a: DepthValue, b: DepthValue, want: Ordering, ctx: &str) -> Res {
    crate::ensure!(a.cmp(&b) == want, "{ctx}: cmp gives {:?}", a.cmp(&b));
    crate::ensure!(b.cmp(&a) == want.reverse(), "{ctx}: reverse cmp gives {:?}", b.cmp(&a));
    crate::ensure!(a.partial_cmp(&b) == Some(want), "{ctx}: partial_cmp gives {:?}", a.partial_cmp(&b));
    crate::ensure!((a == b) == (want == Ordering::Equal), "{ctx}: equal is {}", a == b);
    crate::ensure!((b == a) == (want == Ordering::Equal), "{ctx}: reverse equal is {}", b == a);
    crate::ensure!((a < b) == (want == Ordering::Less), "{ctx}: less is {}", a < b);
    crate::ensure!((a > b) == (want == Ordering::Greater), "{ctx}: greater is {}", a > b);
    crate::ensure!((a <= b) == (want != Ordering::Greater), "{ctx}: at most is {}", a <= b);
    crate::ensure!((a >= b) == (want != Ordering::Less), "{ctx}: at least is {}", a >= b);
    crate::ensure!(b.partial_cmp(&a) == Some(want.reverse()), "{ctx}: reverse partial_cmp");
    let (lo, hi) = if want == Ordering::Greater { (b, a) } else { (a, b) };
    crate::ensure!(a.min(b) == lo && a.max(b) == hi, "{ctx}: min or max");
    Ok(())
}

fn pair(x: u64, y: u64) -> Res {
    let (a, b) = (convert(x)?, convert(y)?);
    if let (Some(a), Some(b)) = (a, b) {
        relation(a, b, x.cmp(&y), &format!("{x} and {y}"))?;
    }
    for (v, d) in [(x, a), (y, b)] {
        if let Some(d) = d {
            relation(d, DepthValue::infinity(), Ordering::Less, &format!("{v} and infinity"))?;
            relation(d, d, Ordering::Equal, &format!("{v} and itself"))?;
        }
    }
    relation(
        DepthValue::infinity(),
        DepthValue::infinity(),
        Ordering::Equal,
        "infinity and itself",
    )
}

fn number(s: &mut Src) -> u64 {
    match s.weighted(&[4, 3, 2, 2, 2]) {
        0 => {
            let k = s.draw(64);
            (1_u64 << k).wrapping_add(s.draw(9)).wrapping_sub(4)
        }
        1 => LIMIT - 5 + s.draw(12),
        2 => s.any(),
        3 => s.any() >> s.draw(64),
        _ => {
            // A valid number with something above.
            let low = s.draw(1 << 31);
            low | s.any() << 32
        }
    }
}

fn pairs(s: &mut Src) -> Res {
    let x = number(s);
    let y = if s.bool() { number(s) } else { x.wrapping_add(s.draw(5)).wrapping_sub(2) };
    s.note(|| format!("{x} and {y}"));
    s.nontrivial_if(x > 2 && y > 2);
    s.label(match (x <= LIMIT, y <= LIMIT) {
        (true, true) => "both valid",
        (false, false) => "none valid",
        _ => "one valid",
    });
    pair(x, y)
}

fn boundaries(s: &mut Src) -> Res {
    let k = s.draw(64 * 64);
    s.note(|| format!("around 2^{} and 2^{}", k / 64, k % 64));
    s.nontrivial();
    for d in 0..7_u64 {
        for e in 0..7_u64 {
            pair(
                (1_u64 << (k / 64)).wrapping_add(d).wrapping_sub(3),
                (1_u64 << (k % 64)).wrapping_add(e).wrapping_sub(3),
            )?;
            s.count(1);
        }
    }
    Ok(())
}

/// Ranges of consecutive numbers, in 32 bits.
fn ranges(s: &mut Src) -> Res {
    let base = s.draw(1 << 16) << 16;
    let step = 1 + s.draw(64);
    s.note(|| format!("every {step}th of {base}.."));
    s.nontrivial();
    let mut v = base;
    let mut prev: Option<(u64, DepthValue)> = None;
    while v < base + (1 << 16) {
        let d = convert(v)?;
        if let (Some((p, a)), Some(b)) = (prev, d) {
            crate::ensure!(a < b && a != b, "{p} is not less than {v}");
        }
        prev = d.map(|d| (v, d));
        v += step;
        s.count(1);
    }
    Ok(())
}

/// Any two numbers below 600.
fn small(s: &mut Src) -> Res {
    let x = s.draw(600);
    s.note(|| format!("{x} and all below 600"));
    s.nontrivial();
    for y in 0..600 {
        pair(x, y)?;
    }
    s.count(599);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "Pairs of numbers around powers of two, the limit, and anywhere, in both integer \
               widths; conversion and all comparisons are checked against the numbers. \
               Non-trivial: both numbers above 2.",
        stack: 16 * MIB,
        assumptions: &["usize has 64 bits."],
        subs: vec![
            enumerate("boundaries", 4096, 4096, boundaries),
            enumerate("small", 600, 600, small),
            random("pairs", 1_000_000, 50_000_000, pairs),
            random("ranges", 2_000, 100_000, ranges),
        ],
    }
}
