//! Models of the builder.

use crate::engine::Src;
use crate::reference::{self as re, is_letter};
use crate::util::Res;
use rescan::verif::{Builder, Limits, TrieView, Ue2Literal};
use std::collections::{BTreeMap, BTreeSet};

pub type Chars = Vec<(u8, bool)>;

pub fn make(l: &[(u8, bool)]) -> Ue2Literal {
    let mut u = Ue2Literal::default();
    for &(c, nc) in l {
        u.push(c, nc);
    }
    u
}

pub fn view(u: &Ue2Literal) -> Chars {
    u.iter().map(|e| (e.c, e.verif_nocase())).collect()
}

pub fn upper(c: u8) -> u8 {
    if c.is_ascii_lowercase() {
        c & 0xdf
    } else {
        c
    }
}

pub fn folded(l: &[(u8, bool)]) -> Vec<u8> {
    l.iter().map(|&(c, nc)| if nc { upper(c) } else { c }).collect()
}

pub fn mixed(l: &[(u8, bool)]) -> bool {
    let letters = || l.iter().filter(|(c, _)| is_letter(*c));
    letters().any(|x| x.1) && letters().any(|x| !x.1)
}

/// The literal an accepted expression stands for.
pub fn literal_of(e: &str, flags: u16) -> Option<Chars> {
    if re::has_alternation(e) {
        return None;
    }
    let caseless = flags & re::CASELESS != 0;
    Some(
        re::characters(e)
            .into_iter()
            .map(|c| {
                let nc = caseless && is_letter(c);
                (if nc { upper(c) } else { c }, nc)
            })
            .collect(),
    )
}

pub type TrieContent = BTreeMap<Vec<u8>, BTreeSet<u32>>;

/// Checks a trie for consistency and returns its vertices.
pub fn trie_content(t: &TrieView) -> Result<TrieContent, String> {
    let mut m = TrieContent::new();
    for (path, reports) in &t.vertices {
        let set: BTreeSet<u32> = reports.iter().copied().collect();
        if m.insert(path.clone(), set).is_some() {
            return Err(format!("a common prefix is not shared: {path:?}"));
        }
    }
    crate::ensure!(
        t.num_vertices == m.len(),
        "{} vertices, of which {} are reachable",
        t.num_vertices,
        m.len()
    );
    let all: BTreeSet<u32> = m.values().flatten().copied().collect();
    let got: BTreeSet<u32> = t.all_reports.iter().copied().collect();
    crate::ensure!(all == got, "all reports are {got:?} instead of {all:?}");
    crate::ensure!(t.is_empty == (m.len() == 1), "is_empty() is {} with {} vertices", t.is_empty, m.len());
    Ok(m)
}

/// Model of one trie.
#[derive(Clone, Default, PartialEq)]
pub struct TrieModel {
    pub literals: BTreeMap<Vec<u8>, BTreeSet<u32>>,
    pub prefixes: BTreeSet<Vec<u8>>,
}

impl TrieModel {
    pub fn add(&mut self, l: &[u8], r: u32) {
        for n in 1..=l.len() {
            self.prefixes.insert(l[..n].to_vec());
        }
        self.literals.entry(l.to_vec()).or_default().insert(r);
    }

    pub fn num_vertices(&self) -> usize {
        1 + self.prefixes.len()
    }

    pub fn content(&self) -> TrieContent {
        let mut m = TrieContent::new();
        m.insert(Vec::new(), BTreeSet::new());
        for p in &self.prefixes {
            m.insert(p.clone(), BTreeSet::new());
        }
        for (l, r) in &self.literals {
            m.insert(l.clone(), r.clone());
        }
        m
    }
}

pub const MAX_VERTICES: usize = 8_000;

/// Model of the small-write engine.
#[derive(Clone)]
pub struct SmallWrite {
    pub tries: [TrieModel; 2],
    pub count: usize,
    pub poisoned: bool,
    /// The sets without the literal that needed too many vertices; whether it
    /// is still held is left open.
    pub without_last: Option<[TrieContent; 2]>,
    /// What giving up left behind; not to change any more.
    pub frozen: Option<[TrieContent; 2]>,
    pub largest: usize,
    pub max_literals: usize,
}

impl SmallWrite {
    pub fn new(num_patterns: usize, l: &Limits) -> Self {
        Self {
            tries: [TrieModel::default(), TrieModel::default()],
            count: 0,
            poisoned: !l.allow_small_write || num_patterns > l.small_write_max_patterns,
            without_last: None,
            frozen: None,
            largest: l.small_write_largest_buffer,
            max_literals: l.small_write_max_literals,
        }
    }

    pub fn add(&mut self, l: &[(u8, bool)], r: u32) {
        if self.poisoned || l.len() > self.largest {
            return;
        }
        self.count += 1;
        if self.count > self.max_literals {
            self.poisoned = true;
            return;
        }
        let nocase = l.iter().any(|x| x.1);
        let i = usize::from(nocase);
        if self.tries[i].num_vertices() + l.len() > MAX_VERTICES {
            self.without_last = Some([self.tries[0].content(), self.tries[1].content()]);
        }
        self.tries[i].add(&folded(l), r);
        if self.tries[i].num_vertices() > MAX_VERTICES {
            self.poisoned = true;
        } else {
            self.without_last = None;
        }
    }

    /// Compares with the real one. `before` is its content before the last
    /// operation, if that is known.
    pub fn compare(&mut self, b: &Builder) -> Res {
        crate::ensure!(
            b.small_write_poisoned() == self.poisoned,
            "has given up: {} instead of {}",
            b.small_write_poisoned(),
            self.poisoned
        );
        let got = [
            trie_content(&b.small_write_trie(false))?,
            trie_content(&b.small_write_trie(true))?,
        ];
        if self.poisoned {
            // Whatever it left behind must not change.
            match &self.frozen {
                None if self.without_last.as_ref() == Some(&got) => {
                    self.frozen = Some(got);
                    return Ok(());
                }
                None => self.frozen = Some(got.clone()),
                Some(f) => {
                    crate::ensure!(*f == got, "content changed after giving up");
                    return Ok(());
                }
            }
        }
        for (i, g) in got.iter().enumerate() {
            let want = self.tries[i].content();
            if want != *g {
                let name = ["case-sensitive", "case-insensitive"][i];
                for (k, v) in &want {
                    crate::ensure!(
                        g.get(k) == Some(v),
                        "{name} literals: {k:?} has reports {:?} instead of {v:?}",
                        g.get(k)
                    );
                }
                for k in g.keys() {
                    crate::ensure!(want.contains_key(k), "{name} literals: unexpected {k:?}");
                }
            }
        }
        Ok(())
    }
}

pub fn show_chars(l: &[(u8, bool)]) -> String {
    let text: String = l.iter().map(|x| x.0.escape_ascii().to_string()).collect();
    let nc: String = l.iter().map(|x| if x.1 { 'i' } else { '.' }).collect();
    if l.len() > 100 {
        format!("<{} bytes, any case-insensitive: {}>", l.len(), nc.contains('i'))
    } else {
        format!("{text:?}/{nc}")
    }
}

pub fn settings(s: &mut Src) -> Limits {
    let mut l = Limits::default();
    if s.chance(1, 3) {
        l.allow_literal = s.bool();
        l.shortcut_literals = s.bool();
        l.flood_as_puffette = s.bool();
        l.allow_small_write = s.chance(3, 4);
    }
    l
}

pub fn any_byte(s: &mut Src) -> u8 {
    match s.weighted(&[5, 3, 2]) {
        0 => *s.pick(b"abAB"),
        1 => *s.pick(b"zZ19@`[{\0\xff\xc1\xe1 "),
        _ => s.byte(),
    }
}

pub fn any_chars(s: &mut Src, max: usize) -> Chars {
    let n = match s.weighted(&[6, 2, 2]) {
        0 => s.range(1, 5),
        1 => 1 + s.size(max - 1),
        _ => s.range(1, 80.min(max)),
    };
    let how = s.below(4);
    let word = if s.chance(1, 24) { s.word().into_bytes() } else { Vec::new() };
    let n = if word.is_empty() { n } else { word.len().min(max) };
    (0..n)
        .map(|i| {
            let c = if word.is_empty() { any_byte(s) } else { word[i] };
            let nc = match how {
                0 => false,
                1 => true,
                2 => is_letter(c),
                _ => s.chance(1, 4),
            };
            (c, nc)
        })
        .collect()
}
