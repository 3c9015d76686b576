//! Case-aware literals.

use crate::engine::{enumerate, hash_u64s, random, Prop, Src};
use crate::util::{Res, MIB};
use rescan::verif::{
    mixed_sensitivity, myislower, myisupper, mytolower, mytoupper, ourisalpha, Ue2Literal,
    Ue2LiteralElem,
};
use std::cmp::Ordering;

type Model = Vec<(u8, bool)>;

fn is_letter(c: u8) -> bool {
    matches!(c, b'A'..=b'Z' | b'a'..=b'z')
}

fn element(s: &mut Src, fixed: Option<bool>) -> (u8, bool) {
    let c = match s.weighted(&[4, 2, 2]) {
        0 => {
            let c = b'a' + s.draw(4) as u8;
            if s.bool() { c.to_ascii_uppercase() } else { c }
        }
        1 => *s.pick(b"@[`{0 azAZ\x00\xff\xe1\xc1\xdf\x7f"),
        _ => s.byte(),
    };
    (c, fixed.unwrap_or_else(|| s.bool()))
}

fn model(s: &mut Src) -> Model {
    let fixed = match s.draw(4) {
        0 => Some(false),
        1 => Some(true),
        _ => None,
    };
    if s.chance(1, 24) {
        return s.word().bytes().map(|c| (c, is_letter(c) && fixed != Some(false) && s.bool())).collect();
    }
    let n = s.size(140);
    (0..n).map(|_| element(s, fixed)).collect()
}

/// A variation of a literal.
fn variation(s: &mut Src, m: &Model) -> Model {
    let mut m = m.clone();
    for _ in 0..s.below(3) {
        let n = m.len();
        match s.draw(7) {
            0 if n > 0 => {
                let i = s.below(n);
                m[i].1 = !m[i].1;
            }
            1 if n > 0 => {
                let i = s.below(n);
                m[i].0 ^= 0x20;
            }
            2 if n > 0 => {
                let i = s.below(n);
                m[i] = element(s, None);
            }
            3 => m.push(element(s, None)),
            4 if n > 0 => {
                m.pop();
            }
            5 if n > 0 => {
                // Only the last one differs.
                m[n - 1].1 = !m[n - 1].1;
            }
            6 if n > 1 => {
                let i = s.below(n - 1);
                m.swap(i, i + 1);
            }
            _ => {}
        }
    }
    m
}

/// What a literal keeps of a character.
fn kept((c, nocase): (u8, bool)) -> (u8, bool) {
    if nocase && c.is_ascii_lowercase() {
        (c.to_ascii_uppercase(), true)
    } else {
        (c, nocase)
    }
}

fn literal(m: &Model) -> Ue2Literal {
    let mut l = Ue2Literal::default();
    for &(c, nocase) in m {
        l.push(c, nocase);
    }
    l
}

fn contents(l: &Ue2Literal) -> Model {
    // Bounded, in case it goes on forever.
    l.iter().take(10_000).map(|e| (e.c, e.verif_nocase())).collect()
}

fn observe(l: &Ue2Literal, m: &Model) -> Res {
    let want: Model = m.iter().copied().map(kept).collect();
    let got = contents(l);
    crate::ensure!(got == want, "contains {got:?}, expected {want:?}");
    let again: Model = l.into_iter().take(10_000).map(|e| (e.c, e.verif_nocase())).collect();
    crate::ensure!(again == want, "iterating by reference gives {again:?}, expected {want:?}");
    crate::ensure!(l.len() == m.len(), "length is {}, expected {}", l.len(), m.len());
    crate::ensure!(l.is_empty() == m.is_empty(), "empty is {}", l.is_empty());
    let any = m.iter().any(|e| e.1);
    crate::ensure!(l.any_nocase() == any, "any nocase is {}, expected {any}", l.any_nocase());
    let mixed = mixed(&want);
    crate::ensure!(
        mixed_sensitivity(l) == mixed,
        "mixed sensitivity is {}, expected {mixed}",
        mixed_sensitivity(l)
    );
    Ok(())
}

fn mixed(m: &[(u8, bool)]) -> bool {
    let has = |nocase| m.iter().any(|e| is_letter(e.0) && e.1 == nocase);
    has(false) && has(true)
}

fn id(m: &Model) -> u64 {
    let v: Vec<u64> = m.iter().map(|e| u64::from(e.0) * 2 + u64::from(e.1)).collect();
    hash_u64s(&v)
}

fn pushes(s: &mut Src) -> Res {
    let m = model(s);
    s.note(|| format!("{m:?}"));
    s.identity(id(&m));
    s.nontrivial_if(m.iter().any(|e| is_letter(e.0) && e.1));
    s.label_if(m.len() > 32, "more than 32 characters");
    s.label_if(mixed(&m), "mixed sensitivity");
    // After each push for short ones.
    let mut l = Ue2Literal::default();
    for i in 0..m.len() {
        if m.len() <= 6 {
            observe(&l, &m[..i].to_vec())?;
        }
        l.push(m[i].0, m[i].1);
    }
    observe(&l, &m)?;
    // A part of a literal or any elements.
    let a = s.range(0, m.len());
    let b = s.range(a, m.len());
    let part = || l.iter().skip(a).take(b - a);
    let want = mixed(&m[a..b]);
    crate::ensure!(
        mixed_sensitivity(part()) == want,
        "mixed sensitivity of {:?} is not {want}",
        &m[a..b]
    );
    let raw: Vec<_> = m[a..b].iter().map(|&(c, n)| Ue2LiteralElem::verif_new(c, n)).collect();
    crate::ensure!(
        mixed_sensitivity(raw) == want,
        "mixed sensitivity of the elements {:?} is not {want}",
        &m[a..b]
    );
    Ok(())
}

/// Long literals, nearly all of whose characters are of one kind: what makes
/// the difference can be anywhere.
fn long(s: &mut Src) -> Res {
    let n = if s.bool() {
        let k = 5 + s.draw(8);
        ((1_usize << k) + s.below(4)).saturating_sub(1)
    } else {
        s.range(1, 3_000)
    };
    let usual = match s.draw(3) {
        0 => (b'a' + s.draw(26) as u8, s.bool()),
        1 => (b'A' + s.draw(26) as u8, s.bool()),
        _ => element(s, None),
    };
    let alphabet: Vec<(u8, bool)> = match s.draw(3) {
        0 => vec![usual],
        1 => vec![usual, (b'0', usual.1), (usual.0 ^ 0x20, usual.1)],
        _ => (0..s.range(1, 8)).map(|_| element(s, Some(usual.1))).collect(),
    };
    let seed = s.any();
    let mut m: Model = (0..n)
        .map(|i| alphabet[(hash_u64s(&[seed, i as u64]) % alphabet.len() as u64) as usize])
        .collect();
    let few = s.below(3);
    for _ in 0..few {
        let i = match s.draw(3) {
            0 => n - 1,
            1 => s.below(n),
            _ => n - 1 - s.below(n.min(8)),
        };
        m[i] = match s.draw(3) {
            0 => (m[i].0, !m[i].1),
            1 => (b'k', !usual.1),
            _ => element(s, None),
        };
    }
    s.note(|| format!("{n} characters, {alphabet:?} at random (seed {seed:#x}), {few} other: {m:?}"));
    s.identity(id(&m));
    s.nontrivial_if(n > 64);
    s.label_if(n > 255, "more than 255 characters");
    let l = literal(&m);
    observe(&l, &m)?;
    let a = if s.bool() { 0 } else { s.below(n) };
    let want = mixed(&m[a..]);
    crate::ensure!(
        mixed_sensitivity(l.iter().skip(a)) == want,
        "mixed sensitivity of the part from {a} is not {want}"
    );
    // One character of it changed, or some more behind it.
    let mut other = m.clone();
    match s.draw(4) {
        0 => other[n - 1].1 = !other[n - 1].1,
        1 => {
            let i = s.below(n);
            other[i].1 = !other[i].1;
        }
        2 => {
            let i = s.below(n);
            other[i].0 ^= 1 << s.draw(8);
        }
        _ => other.push(usual),
    }
    let o = literal(&other);
    observe(&o, &other)?;
    let (km, ko): (Model, Model) =
        (m.iter().copied().map(kept).collect(), other.iter().copied().map(kept).collect());
    s.count(2);
    cmp(&l, &l, &km, &km)?;
    cmp(&l, &o, &km, &ko)?;
    cmp(&o, &l, &ko, &km)
}

fn cmp(a: &Ue2Literal, b: &Ue2Literal, ka: &Model, kb: &Model) -> Res {
    let same = ka == kb;
    crate::ensure!((a == b) == same, "equal is {}, expected {same}", a == b);
    crate::ensure!((a != b) == !same, "unequal is {}, expected {}", a != b, !same);
    let o = a.cmp(b);
    crate::ensure!((o == Ordering::Equal) == same, "cmp is {o:?}, but equal is {same}");
    crate::ensure!(b.cmp(a) == o.reverse(), "cmp is not antisymmetric");
    crate::ensure!(a.partial_cmp(b) == Some(o), "partial_cmp is not cmp");
    crate::ensure!((a < b) == (o == Ordering::Less), "< is not cmp");
    crate::ensure!((a > b) == (o == Ordering::Greater), "> is not cmp");
    crate::ensure!((a <= b) == (o != Ordering::Greater), "<= is not cmp");
    crate::ensure!((a >= b) == (o != Ordering::Less), ">= is not cmp");
    let chars = |k: &Model| k.iter().map(|e| e.0).collect::<Vec<_>>();
    let (ca, cb) = (chars(ka), chars(kb));
    if ca != cb {
        crate::ensure!(o == ca.cmp(&cb), "cmp is {o:?}, but the characters compare otherwise");
    }
    Ok(())
}

fn comparison(s: &mut Src) -> Res {
    let base = model(s);
    let ms = [variation(s, &base), variation(s, &base), variation(s, &base)];
    let ls: Vec<_> = ms.iter().map(literal).collect();
    let ks: Vec<Model> = ms.iter().map(|m| m.iter().copied().map(kept).collect()).collect();
    s.note(|| format!("{ms:?}"));
    s.identity(hash_u64s(&[id(&ks[0]), id(&ks[1]), id(&ks[2])]));
    let chars = |k: &Model| k.iter().map(|e| e.0).collect::<Vec<_>>();
    let close = ks[0] != ks[1] && chars(&ks[0]) == chars(&ks[1]);
    s.label_if(close, "same characters, different sensitivity");
    s.label_if(base.len() > 32, "more than 32 characters");
    s.nontrivial_if(ks[0] != ks[1] && !base.is_empty());
    s.count(8);
    for i in 0..3 {
        for j in 0..3 {
            cmp(&ls[i], &ls[j], &ks[i], &ks[j]).map_err(|e| format!("{i} and {j}: {e}"))?;
            for k in 0..3 {
                crate::ensure!(
                    !(ls[i] <= ls[j] && ls[j] <= ls[k]) || ls[i] <= ls[k],
                    "the ordering is not transitive"
                );
            }
        }
        // The same literal, built again.
        let again = literal(&ks[i]);
        cmp(&again, &ls[i], &ks[i], &ks[i]).map_err(|e| format!("{i} and itself: {e}"))?;
    }
    Ok(())
}

/// All literals of up to two characters of a small alphabet, in pairs.
fn short_pairs(s: &mut Src) -> Res {
    const ALPHABET: [(u8, bool); 7] = [
        (b'a', false),
        (b'a', true),
        (b'A', false),
        (b'b', true),
        (b'1', false),
        (b'1', true),
        (b'[', true),
    ];
    let n = s.draw(57 * 57);
    let nth = |mut n: u64| -> Model {
        if n == 0 {
            return Vec::new();
        }
        n -= 1;
        if n < 7 {
            return vec![ALPHABET[n as usize]];
        }
        n -= 7;
        vec![ALPHABET[(n / 7) as usize], ALPHABET[(n % 7) as usize]]
    };
    let (a, b) = (nth(n / 57), nth(n % 57));
    s.note(|| format!("{a:?} {b:?}"));
    let (x, y) = (literal(&a), literal(&b));
    observe(&x, &a)?;
    observe(&y, &b)?;
    let (ka, kb): (Model, Model) =
        (a.iter().copied().map(kept).collect(), b.iter().copied().map(kept).collect());
    s.nontrivial_if(ka != kb);
    cmp(&x, &y, &ka, &kb)
}

fn bytes(s: &mut Src) -> Res {
    let c = s.draw(256) as u8;
    let upper = (0x41..=0x5a).contains(&c);
    let lower = (0x61..=0x7a).contains(&c);
    s.nontrivial_if(upper || lower);
    crate::ensure!(myisupper(c) == upper, "{c:#x} is upper case: {}", myisupper(c));
    crate::ensure!(myislower(c) == lower, "{c:#x} is lower case: {}", myislower(c));
    crate::ensure!(ourisalpha(c) == (upper || lower), "{c:#x} is a letter: {}", ourisalpha(c));
    let want = if upper { c + 0x20 } else { c };
    crate::ensure!(mytolower(c) == want, "{c:#x} in lower case is {:#x}", mytolower(c));
    let want = if lower { c - 0x20 } else { c };
    crate::ensure!(mytoupper(c) == want, "{c:#x} in upper case is {:#x}", mytoupper(c));
    for nocase in [false, true] {
        let m = vec![(c, nocase)];
        observe(&literal(&m), &m)?;
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "a literal has a case-insensitive letter, or different literals are compared, or \
               the byte is a letter",
        stack: 8 * MIB,
        assumptions: &[],
        subs: vec![
            enumerate("bytes", 256, 256, bytes),
            enumerate("pairs of short literals", 57 * 57, 57 * 57, short_pairs),
            random("long", 15_000, 600_000, long),
            random("contents", 300_000, 30_000_000, pushes),
            random("comparison", 300_000, 30_000_000, comparison),
        ],
    }
}
