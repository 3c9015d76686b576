//! Alignment.

use crate::engine::{enumerate, random, Prop, Src};
use crate::util::{Res, MIB};
use rescan::verif::{
    round_down_16, round_down_n, round_up_16, round_up_cache_line, round_up_n,
};

macro_rules! width {
    ($check:ident, $t:ty) => {
        fn $check(a: $t) -> Result<u64, String> {
            let mut n = 0;
            for k in 0..8_u32 {
                let align = 1_u8 << k;
                let m = <$t>::from(align);
                let down = a - a % m;
                let got = round_down_n(a, align);
                crate::ensure!(
                    got == down,
                    "round_down_n({a}_{}, {align}) is {got} instead of {down}",
                    stringify!($t)
                );
                n += 1;
                if let Some(up) = (if a % m == 0 { Some(a) } else { down.checked_add(m) }) {
                    let got = round_up_n(a, align);
                    crate::ensure!(
                        got == up,
                        "round_up_n({a}_{}, {align}) is {got} instead of {up}",
                        stringify!($t)
                    );
                    n += 1;
                    if align == 16 {
                        let got = round_up_16(a);
                        crate::ensure!(
                            got == up,
                            "round_up_16({a}_{}) is {got} instead of {up}",
                            stringify!($t)
                        );
                    }
                    if align == 64 {
                        let got = round_up_cache_line(a);
                        crate::ensure!(
                            got == up,
                            "round_up_cache_line({a}_{}) is {got} instead of {up}",
                            stringify!($t)
                        );
                    }
                }
                if align == 16 {
                    let got = round_down_16(a);
                    crate::ensure!(
                        got == down,
                        "round_down_16({a}_{}) is {got} instead of {down}",
                        stringify!($t)
                    );
                }
            }
            Ok(n)
        }
    };
}

width!(check_u8, u8);
width!(check_u16, u16);
width!(check_u32, u32);
width!(check_u64, u64);
width!(check_u128, u128);
width!(check_usize, usize);

fn align_u16(s: &mut Src) -> Res {
    let block = s.draw(256) as u16;
    s.note(|| format!("u8 {block}, and u16 {}..={}", block << 8, block << 8 | 0xff));
    s.nontrivial();
    let mut n = check_u8(block as u8)?;
    for low in 0..256 {
        let v = block << 8 | low;
        n += check_u16(v)?;
        n += check_u32(v.into())?;
        n += check_u64(v.into())?;
        n += check_usize(v.into())?;
        n += check_u128(v.into())?;
    }
    s.count(n - 1);
    Ok(())
}

fn align_any(s: &mut Src) -> Res {
    let v: u128 = match s.below(4) {
        0 => {
            let k = s.draw(128) as u32;
            (1_u128 << k).wrapping_add(s.draw(300).into()).wrapping_sub(150)
        }
        1 => u128::from(s.any()) << 64 | u128::from(s.any()),
        2 => u128::MAX - u128::from(s.draw(300)),
        _ => {
            let k = s.draw(120) as u32;
            u128::from(s.draw(1024)) << k
        }
    };
    s.note(|| format!("{v:#x} and its low halves"));
    s.nontrivial_if(v > 255);
    let mut n = check_u128(v)?;
    n += check_u64(v as u64)?;
    n += check_usize(v as usize)?;
    n += check_u32(v as u32)?;
    n += check_u16(v as u16)?;
    n += check_u8(v as u8)?;
    s.count(n - 1);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "All 8- and 16-bit numbers with all 8 alignments, and wider numbers around powers of \
               two, the maximum, and anywhere, against division with remainder. Non-trivial: above \
               255 (or part of the complete enumeration).",
        stack: 16 * MIB,
        assumptions: &["Rounding up is only asked for where the result fits the type."],
        subs: vec![
            enumerate("u16", 256, 256, align_u16),
            random("any", 400_000, 20_000_000, align_any),
        ],
    }
}
