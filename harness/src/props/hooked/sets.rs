//! Sets of bytes.

use crate::engine::{enumerate, hash_u64s, no_panic, random, Prop, Src};
use crate::util::{Res, MIB};
use rescan::verif::{Bits, Class};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// The reference: a mathematical set of bytes.
#[derive(Clone, Copy, Eq, PartialEq)]
pub struct Model(pub [bool; 256]);

impl Model {
    pub const EMPTY: Self = Self([false; 256]);
    pub const ALL: Self = Self([true; 256]);

    pub fn has(&self, c: u8) -> bool {
        self.0[usize::from(c)]
    }

    pub fn put(&mut self, c: u8, v: bool) {
        self.0[usize::from(c)] = v;
    }

    pub fn members(&self) -> Vec<u8> {
        (0..=255).filter(|&c| self.has(c)).collect()
    }

    pub fn of(f: impl Fn(u8) -> bool) -> Self {
        let mut m = Self::EMPTY;
        for c in 0..=255 {
            m.put(c, f(c));
        }
        m
    }

    pub fn hash(&self) -> u64 {
        let mut w = [0_u64; 4];
        for c in self.members() {
            w[usize::from(c) / 64] |= 1 << (c % 64);
        }
        hash_u64s(&w)
    }

    pub fn show(&self) -> String {
        let mut out = String::from("{");
        let mut c = 0_usize;
        while c < 256 {
            if self.0[c] {
                let start = c;
                while c < 255 && self.0[c + 1] {
                    c += 1;
                }
                if out.len() > 1 {
                    out.push(' ');
                }
                if start == c {
                    out.push_str(&format!("{c:02x}"));
                } else {
                    out.push_str(&format!("{start:02x}-{c:02x}"));
                }
            }
            c += 1;
        }
        out.push('}');
        out
    }

    /// The same set, put together one byte at a time.
    pub fn class(&self) -> Class {
        let mut c = Class::default();
        for m in self.members() {
            c.set(m);
        }
        c
    }

    /// Whether neither it nor its complement is a single range or less.
    fn structured(&self) -> bool {
        let changes = (0..255).filter(|&c| self.0[c] != self.0[c + 1]).count();
        changes >= 2
    }
}

fn edge_byte(s: &mut Src) -> u8 {
    const EDGES: [u8; 28] = [
        0, 1, 0x1f, 0x20, 0x3f, 0x40, 0x41, 0x5a, 0x5b, 0x60, 0x61, 0x7a, 0x7b, 0x7e, 0x7f, 0x80,
        0x81, 0xbf, 0xc0, 0xc1, 0xdf, 0xe0, 0xe1, 0xfa, 0xfc, 0xfd, 0xfe, 0xff,
    ];
    if s.bool() {
        *s.pick(&EDGES)
    } else {
        s.byte()
    }
}

/// A set of bytes with some structure.
pub fn model(s: &mut Src) -> Model {
    let letters = |c: u8| c.is_ascii_alphabetic();
    let mut m = match s.weighted(&[3, 3, 3, 2, 2, 2, 2, 2, 2]) {
        0 => Model::EMPTY,
        // A few bytes.
        1 => {
            let mut m = Model::EMPTY;
            for _ in 0..s.range(1, 4) {
                m.put(edge_byte(s), true);
            }
            m
        }
        // A few ranges.
        2 => {
            let mut m = Model::EMPTY;
            for _ in 0..s.range(1, 4) {
                let (a, b) = (edge_byte(s), edge_byte(s));
                for c in a.min(b)..=a.max(b) {
                    m.put(c, true);
                }
            }
            m
        }
        // Letters.
        3 => {
            let (k, x) = (s.draw(4), s.any());
            Model::of(|c| letters(c) && (k == 0 || x >> (c % 64) & 1 == 1))
        }
        // Closed under flipping bit 5.
        4 => {
            let x: [u64; 4] = [s.any(), s.any(), s.any(), s.any()];
            let sparse = s.bool();
            Model::of(|c| {
                let d = c & !0x20;
                let bit = |w: [u64; 4]| w[usize::from(d) / 64] >> (d % 64) & 1 == 1;
                bit(x) && (!sparse || bit([x[1], x[2], x[3], x[0]]))
            })
        }
        // Case pairs.
        5 => {
            let mut m = Model::EMPTY;
            for _ in 0..s.range(1, 3) {
                let c = b'a' + s.draw(26) as u8;
                m.put(c, true);
                m.put(c.to_ascii_uppercase(), true);
            }
            m
        }
        // Everything on one side of a boundary.
        6 => {
            let b = edge_byte(s);
            let up = s.bool();
            Model::of(|c| if up { c >= b } else { c < b })
        }
        // Words of bits.
        7 => {
            let mut x = [0_u64; 4];
            for w in &mut x {
                *w = match s.draw(5) {
                    0 => 0,
                    1 => u64::MAX,
                    2 => 1 << s.draw(64),
                    3 => !(1 << s.draw(64)),
                    _ => s.any(),
                };
            }
            Model::of(|c| x[usize::from(c) / 64] >> (c % 64) & 1 == 1)
        }
        // Sub-cubes.
        _ => {
            let (a, b) = (s.byte(), s.byte());
            Model::of(|c| c & a == b & a)
        }
    };
    // Small changes.
    match s.weighted(&[4, 2, 2, 1]) {
        0 => {}
        1 => {
            let c = edge_byte(s);
            m.put(c, !m.has(c));
        }
        2 => {
            let members = m.members();
            if !members.is_empty() {
                let c = *s.pick(&members);
                match s.draw(3) {
                    0 => m.put(c, false),
                    1 => m.put(c ^ 0x20, !m.has(c ^ 0x20)),
                    _ => m.put(c ^ 0x80, true),
                }
            }
        }
        _ => m = Model::of(|c| !m.has(c)),
    }
    m
}

macro_rules! checks {
    ($observe:ident, $pair:ident, $history:ident, $range:ident, $t:ident) => {
        /// Compares all observers with the reference.
        fn $observe(x: &$t, m: &Model, ctx: &str) -> Res {
            for c in 0..=255 {
                crate::ensure!(
                    x.test(c) == m.has(c),
                    "{ctx}: byte {c:#x} is in the set: {}, expected {}",
                    x.test(c),
                    m.has(c)
                );
            }
            let members = m.members();
            let n = members.len();
            crate::ensure!(x.count() as usize == n, "{ctx}: count is {}, expected {n}", x.count());
            crate::ensure!(x.none() == (n == 0), "{ctx}: none is {}", x.none());
            crate::ensure!(x.any() == (n != 0), "{ctx}: any is {}", x.any());
            crate::ensure!(x.all() == (n == 256), "{ctx}: all is {}", x.all());
            let want = members.first().copied();
            crate::ensure!(x.find_first() == want, "{ctx}: first is {:?}", x.find_first());
            let want = members.last().copied();
            crate::ensure!(x.find_last() == want, "{ctx}: last is {:?}", x.find_last());
            let mut next = None;
            for c in (0..=255).rev() {
                crate::ensure!(
                    x.find_next(c) == next,
                    "{ctx}: next after {c:#x} is {:?}, expected {next:?}",
                    x.find_next(c)
                );
                if m.has(c) {
                    next = Some(c);
                }
            }
            for k in 0..=255 {
                let want = members.get(usize::from(k)).copied();
                crate::ensure!(
                    x.find_nth(k) == want,
                    "{ctx}: element {k} is {:?}, expected {want:?}",
                    x.find_nth(k)
                );
            }
            Ok(())
        }

        /// Comparisons of two sets.
        fn $pair(a: &$t, ma: &Model, b: &$t, mb: &Model) -> Res {
            let same = ma == mb;
            crate::ensure!((a == b) == same, "equal is {}, expected {same}", a == b);
            crate::ensure!((a != b) != same, "unequal is {}, expected {}", a != b, !same);
            compare(a, b, same)?;
            if same {
                crate::ensure!(digest(a) == digest(b), "hashes of equal sets differ");
            }
            Ok(())
        }

        fn $history(s: &mut Src) -> Res {
            let mut x = [$t::default(); 2];
            let mut m = [Model::EMPTY; 2];
            $observe(&x[0], &m[0], "default")?;
            let steps = s.range(1, 24);
            let mut ranges_on_content = false;
            for step in 0..steps {
                let i = s.below(2);
                let o = 1 - i;
                let op = s.weighted(&[3, 3, 3, 6, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 3, 2, 2]);
                let name = match op {
                    0 => {
                        let c = edge_byte(s);
                        x[i].set(c);
                        m[i].put(c, true);
                        format!("set {c:#x}")
                    }
                    1 => {
                        let c = edge_byte(s);
                        x[i].reset(c);
                        m[i].put(c, false);
                        format!("reset {c:#x}")
                    }
                    2 => {
                        let c = edge_byte(s);
                        x[i].flip(c);
                        m[i].put(c, !m[i].has(c));
                        format!("flip {c:#x}")
                    }
                    3 => {
                        let (a, b) = (edge_byte(s), edge_byte(s));
                        let (a, b) = (a.min(b), a.max(b));
                        ranges_on_content |= m[i].structured();
                        x[i].set_range(a, b);
                        for c in a..=b {
                            m[i].put(c, true);
                        }
                        format!("set range {a:#x} to {b:#x}")
                    }
                    4 => {
                        x[i].reset_all();
                        m[i] = Model::EMPTY;
                        "reset all".to_string()
                    }
                    5 => {
                        x[i].set_all();
                        m[i] = Model::ALL;
                        "set all".to_string()
                    }
                    6 => {
                        x[i].flip_all();
                        m[i] = Model::of(|c| !m[i].has(c));
                        "flip all".to_string()
                    }
                    7 => {
                        x[i] = x[i].not();
                        m[i] = Model::of(|c| !m[i].has(c));
                        "not".to_string()
                    }
                    8 => {
                        x[i] = x[i].and(x[o]);
                        m[i] = Model::of(|c| m[i].has(c) && m[o].has(c));
                        "and".to_string()
                    }
                    9 => {
                        x[i] = x[i].or(x[o]);
                        m[i] = Model::of(|c| m[i].has(c) || m[o].has(c));
                        "or".to_string()
                    }
                    10 => {
                        x[i] = x[i].xor(x[o]);
                        m[i] = Model::of(|c| m[i].has(c) != m[o].has(c));
                        "xor".to_string()
                    }
                    11 => {
                        let rhs = x[o];
                        x[i].and_assign(rhs);
                        m[i] = Model::of(|c| m[i].has(c) && m[o].has(c));
                        "and assign".to_string()
                    }
                    12 => {
                        let rhs = x[o];
                        x[i].or_assign(rhs);
                        m[i] = Model::of(|c| m[i].has(c) || m[o].has(c));
                        "or assign".to_string()
                    }
                    13 => {
                        let rhs = x[o];
                        x[i].xor_assign(rhs);
                        m[i] = Model::of(|c| m[i].has(c) != m[o].has(c));
                        "xor assign".to_string()
                    }
                    14 => {
                        let f = model(s);
                        for c in 0..=255 {
                            match (f.has(c), x[i].test(c)) {
                                (true, false) => x[i].set(c),
                                (false, true) => x[i].reset(c),
                                _ => {}
                            }
                        }
                        m[i] = f;
                        format!("assign {}", f.show())
                    }
                    15 => {
                        x[i] = x[o];
                        m[i] = m[o];
                        "copy".to_string()
                    }
                    _ => {
                        let (a, b) = (edge_byte(s), edge_byte(s));
                        if a > b {
                            let mut y = x[i];
                            crate::ensure!(
                                no_panic(|| y.set_range(a, b)).is_err(),
                                "the reversed range {a:#x} to {b:#x} is accepted"
                            );
                        }
                        format!("reversed range {a:#x} to {b:#x}")
                    }
                };
                s.note(|| format!("{i}: {name} -> {}", m[i].show()));
                $observe(&x[i], &m[i], &format!("step {step}, {name}"))?;
                $pair(&x[0], &m[0], &x[1], &m[1])?;
                s.nontrivial_if(m[i].structured());
            }
            $observe(&x[0], &m[0], "at the end")?;
            $observe(&x[1], &m[1], "at the end")?;
            s.label_if(ranges_on_content, "range on other content");
            s.label_if(steps >= 8, "8 or more steps");
            Ok(())
        }

        /// All ranges, on several contents.
        fn $range(s: &mut Src) -> Res {
            let n = s.draw(65536);
            let (from, to) = ((n >> 8) as u8, n as u8);
            let x = [s.any(), s.any(), s.any(), s.any()];
            s.identity(hash_u64s(&[n, x[0]]));
            let noise = Model::of(|c| x[usize::from(c) / 64] >> (c % 64) & 1 == 1);
            for (k, m) in [Model::EMPTY, noise].into_iter().enumerate() {
                let mut y = $t::default();
                for c in m.members() {
                    y.set(c);
                }
                let ctx = format!("range {from:#x} to {to:#x} on {}", m.show());
                let done = no_panic(|| y.set_range(from, to));
                if from > to {
                    crate::ensure!(done.is_err(), "{ctx}: accepted");
                    continue;
                }
                crate::ensure!(done.is_ok(), "{ctx}: {:?}", done);
                let want = Model::of(|c| m.has(c) || (from <= c && c <= to));
                if k == 0 || n % 8 == 0 {
                    $observe(&y, &want, &ctx)?;
                } else {
                    for c in 0..=255 {
                        crate::ensure!(y.test(c) == want.has(c), "{ctx}: byte {c:#x} is wrong");
                    }
                }
            }
            s.nontrivial_if(from <= to);
            s.count(1);
            Ok(())
        }
    };
}

fn digest(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn compare<T: Ord + Debug>(a: &T, b: &T, same: bool) -> Res {
    let o = a.cmp(b);
    crate::ensure!((o == Ordering::Equal) == same, "cmp gives {o:?}");
    crate::ensure!(b.cmp(a) == o.reverse(), "cmp is not antisymmetric");
    crate::ensure!(a.partial_cmp(b) == Some(o), "partial_cmp disagrees with cmp");
    crate::ensure!((a < b) == (o == Ordering::Less), "< disagrees with cmp");
    crate::ensure!((a <= b) == (o != Ordering::Greater), "<= disagrees with cmp");
    crate::ensure!((a > b) == (o == Ordering::Greater), "> disagrees with cmp");
    crate::ensure!((a >= b) == (o != Ordering::Less), ">= disagrees with cmp");
    Ok(())
}

checks!(observe_bits, pair_bits, history_bits, range_bits, Bits);
checks!(observe_class, pair_class, history_class, range_class, Class);

/// Constructors and byte lists.
fn construct(s: &mut Src) -> Res {
    let m = model(s);
    let mut bytes = m.members();
    // In any order, with repetitions.
    for i in (1..bytes.len()).rev() {
        if i % 3 == 0 {
            let j = s.below(i + 1);
            bytes.swap(i, j);
        }
    }
    if !bytes.is_empty() {
        for _ in 0..s.below(4) {
            let c = *s.pick(&bytes);
            bytes.push(c);
        }
        if s.chance(1, 10) {
            // The same one many times over, before others.
            let c = *s.pick(&bytes);
            let n = s.below(3_000);
            bytes.splice(0..0, std::iter::repeat(c).take(n));
        }
    }
    s.note(|| format!("{bytes:x?}"));
    s.nontrivial_if(m.structured());
    observe_class(&Class::from_bytes(&bytes), &m, "from bytes")?;
    let base = model(s);
    let mut x = base.class();
    observe_class(&x, &base, "built up")?;
    x.set_bytes(&bytes);
    observe_class(&x, &Model::of(|c| base.has(c) || m.has(c)), "bytes added")?;
    let c = s.byte();
    observe_class(&Class::from_char(c), &Model::of(|d| d == c), "from char")?;
    let (a, b) = (edge_byte(s), edge_byte(s));
    let r = no_panic(|| Class::from_range(a, b));
    match r {
        Ok(r) if a <= b => {
            observe_class(&r, &Model::of(|c| a <= c && c <= b), &format!("range {a:#x} to {b:#x}"))?
        }
        Err(_) if a > b => {}
        _ => return Err(format!("range {a:#x} to {b:#x}: {r:?}")),
    }
    observe_class(&Class::dot(), &Model::ALL, "dot")?;
    pair_class(&x, &Model::of(|c| base.has(c) || m.has(c)), &m.class(), &m)
}

/// The ordering of triples.
fn order(s: &mut Src) -> Res {
    let base = model(s);
    let mut m = [base; 3];
    for m in &mut m {
        match s.draw(4) {
            0 => {}
            1 => *m = model(s),
            _ => {
                for _ in 0..s.range(1, 3) {
                    let c = edge_byte(s);
                    m.put(c, !m.has(c));
                }
            }
        }
    }
    s.note(|| format!("{} {} {}", m[0].show(), m[1].show(), m[2].show()));
    s.nontrivial_if(m[0] != m[1] && m[1] != m[2] && m[0] != m[2]);
    s.identity(hash_u64s(&[m[0].hash(), m[1].hash(), m[2].hash()]));
    let x = m.map(|m| m.class());
    // The same contents by another way.
    let y = m.map(|m| Model::of(|c| !m.has(c)).class().not());
    let z = m.map(|m| {
        let mut z = Bits::default();
        m.members().into_iter().for_each(|c| z.set(c));
        z
    });
    for i in 0..3 {
        pair_class(&x[i], &m[i], &y[i], &m[i])?;
        for j in 0..3 {
            pair_class(&x[i], &m[i], &x[j], &m[j])?;
            pair_bits(&z[i], &m[i], &z[j], &m[j])?;
            for k in 0..3 {
                crate::ensure!(
                    !(x[i] <= x[j] && x[j] <= x[k]) || x[i] <= x[k],
                    "the ordering of classes is not transitive"
                );
                crate::ensure!(
                    !(z[i] <= z[j] && z[j] <= z[k]) || z[i] <= z[k],
                    "the ordering of bit fields is not transitive"
                );
            }
        }
    }
    Ok(())
}

pub fn operations() -> Prop {
    Prop {
        id: "C14",
        rule: "a set takes a content that is not a prefix or a suffix of the byte values, or a \
               forward range is set, or three different sets are ordered",
        stack: 8 * MIB,
        assumptions: &[],
        subs: vec![
            enumerate("ranges of bits", 65536, 65536, range_bits),
            enumerate("ranges of classes", 65536, 65536, range_class),
            random("histories of bits", 40_000, 4_000_000, history_bits),
            random("histories of classes", 40_000, 4_000_000, history_class),
            random("construction", 60_000, 4_000_000, construct),
            random("ordering", 60_000, 8_000_000, order),
        ],
    }
}

// Predicates and conversions.

fn is_letter(c: u8) -> bool {
    matches!(c, b'A'..=b'Z' | b'a'..=b'z')
}

fn check_predicates(m: &Model) -> Res {
    let x = m.class();
    let before = x;
    let members = m.members();
    let any = !members.is_empty();
    let want = any && members.iter().all(|&c| is_letter(c));
    crate::ensure!(x.is_alphabetic() == want, "alphabetic is {}, expected {want}", x.is_alphabetic());
    let want = members.len() == 2
        && matches!(members[0], b'A'..=b'Z')
        && members[1] == members[0] + (b'a' - b'A');
    crate::ensure!(
        x.is_caseless_char() == want,
        "caseless char is {}, expected {want}",
        x.is_caseless_char()
    );
    let want = members.iter().all(|&c| m.has(c ^ 0x20));
    crate::ensure!(
        x.is_bit5_insensitive() == want,
        "bit 5 insensitive is {}, expected {want}",
        x.is_bit5_insensitive()
    );
    let want = members.iter().all(|&c| c < 0x80);
    crate::ensure!(x.is_ascii() == want, "ascii is {}, expected {want}", x.is_ascii());
    let want = members.iter().all(|&c| c >= 0xc0);
    crate::ensure!(
        x.is_utf8_start() == want,
        "UTF-8 start is {}, expected {want}",
        x.is_utf8_start()
    );

    let mut y = x;
    y.make_caseless();
    for c in 0..=255_u8 {
        let want = m.has(c) || (is_letter(c) && m.has(c ^ 0x20));
        crate::ensure!(
            y.test(c) == want,
            "after closing under case, {c:#x} is in the set: {}, expected {want}",
            y.test(c)
        );
    }
    let mut z = y;
    z.make_caseless();
    crate::ensure!(z == y, "closing under case twice changes the set");

    let want: String = members.iter().map(|&c| char::from(c)).collect();
    crate::ensure!(x.display() == want, "text is {:?}, expected {want:?}", x.display());

    let (and, cmp) = x.and_cmp_mask();
    let fixed = if any {
        let ones = members.iter().fold(255, |a, &c| a & c);
        let zeros = members.iter().fold(255, |a, &c| a & !c);
        Some((ones | zeros, ones))
    } else {
        None
    };
    for c in 0..=255_u8 {
        let accepts = c & and == cmp;
        let want = fixed.map_or(false, |(mask, ones)| c & mask == ones);
        crate::ensure!(
            accepts == want,
            "mask {and:#x}, {cmp:#x} accepts {c:#x}: {accepts}, expected {want}"
        );
    }
    crate::ensure!(x == before && x.count() as usize == members.len(), "the set has changed");
    Ok(())
}

fn check_vector(m: &Model, len: usize, garbage: u64) -> Res {
    let mut buf: Vec<u8> = (0..len).map(|i| crate::engine::mix(garbage ^ i as u64) as u8).collect();
    let old = buf.clone();
    m.class().fill_bitvector(&mut buf);
    for c in 0..=255_usize {
        let got = buf[c / 8] >> (c % 8) & 1 == 1;
        crate::ensure!(got == m.0[c], "bit {c:#x} of the vector is {got}, expected {}", m.0[c]);
    }
    crate::ensure!(buf[32..] == old[32..], "bytes beyond the vector have changed");
    Ok(())
}

fn check_pair(a: &Model, b: &Model) -> Res {
    let (x, y) = (a.class(), b.class());
    let want = a.members().iter().all(|&c| b.has(c));
    crate::ensure!(
        x.is_subset_of(&y) == want,
        "subset is {}, expected {want}",
        x.is_subset_of(&y)
    );
    let want = a.members().iter().any(|&c| b.has(c));
    crate::ensure!(x.overlaps(&y) == want, "overlap is {}, expected {want}", x.overlaps(&y));
    Ok(())
}

fn single(s: &mut Src) -> Res {
    let m = model(s);
    s.note(|| m.show());
    s.identity(m.hash());
    s.nontrivial_if(!m.members().is_empty() && m != Model::ALL);
    let mem = m.members();
    s.label_if(!mem.is_empty() && mem.iter().all(|&c| is_letter(c)), "only letters");
    s.label_if(mem.len() > 1 && mem.iter().all(|&c| m.has(c ^ 0x20)), "bit 5 closed");
    s.label_if(!mem.is_empty() && mem.iter().all(|&c| c >= 0xc0), "UTF-8 starts");
    s.label_if(!mem.is_empty() && mem.iter().all(|&c| c < 0x80), "ASCII");
    check_predicates(&m)?;
    let len = 32
        + match s.draw(4) {
            0 => s.size(6_000),
            _ => s.size(40),
        };
    let garbage = s.any();
    check_vector(&m, len, garbage)
}

fn couples(s: &mut Src) -> Res {
    let a = model(s);
    let b = match s.draw(5) {
        0 => model(s),
        // Near subsets and near complements.
        1 | 2 => {
            let (x, y) = (s.any(), s.any());
            let mut b = Model::of(|c| a.has(c) && (x >> (c % 64) | y >> (c / 4)) & 1 == 1);
            if s.bool() {
                let c = edge_byte(s);
                b.put(c, !b.has(c));
            }
            b
        }
        _ => {
            let x = s.any();
            let mut b = Model::of(|c| !a.has(c) && x >> (c % 64) & 1 == 0);
            for _ in 0..s.below(3) {
                let c = edge_byte(s);
                b.put(c, !b.has(c));
            }
            b
        }
    };
    s.note(|| format!("{} {}", a.show(), b.show()));
    s.identity(hash_u64s(&[a.hash(), b.hash()]));
    s.nontrivial_if(a != Model::EMPTY && b != Model::EMPTY && a != b);
    let sub = a.members().iter().all(|&c| b.has(c));
    s.label_if(sub, "subset");
    s.label_if(!a.members().iter().any(|&c| b.has(c)), "disjoint");
    s.count(4);
    check_pair(&a, &b)?;
    check_pair(&b, &a)?;
    check_pair(&a, &a)?;
    check_pair(&a, &Model::EMPTY)?;
    check_pair(&Model::EMPTY, &a)
}

/// All sets of at most two bytes, and their complements.
fn small(s: &mut Src) -> Res {
    let n = s.draw(65536);
    let (a, b) = ((n >> 8) as u8, n as u8);
    if a > b {
        return Ok(());
    }
    s.note(|| format!("{a:#x} and {b:#x}"));
    s.nontrivial();
    let m = Model::of(|c| c == a || c == b);
    let inv = Model::of(|c| !m.has(c));
    for m in [m, inv] {
        check_predicates(&m)?;
        check_vector(&m, 32, n)?;
    }
    check_pair(&m, &inv)?;
    s.count(2);
    Ok(())
}

pub fn predicates() -> Prop {
    Prop {
        id: "C15",
        rule: "the set is neither empty nor full; for pairs, the sets differ and neither is empty",
        stack: 8 * MIB,
        assumptions: &["the vector is at least 32 bytes long"],
        subs: vec![
            enumerate("at most two bytes, and complements", 65536, 65536, small),
            random("one set", 400_000, 40_000_000, single),
            random("two sets", 300_000, 30_000_000, couples),
        ],
    }
}
