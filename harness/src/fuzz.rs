//! Coverage-guided search over the choices of generated cases.
//!
//! `rescan` is compiled with LLVM's coverage instrumentation (counters per
//! edge, and calls at comparisons). A case that reaches a new edge, or an edge
//! a new number of times, is kept and varied further. Operands of comparisons
//! are collected, and used as values of choices.

use crate::engine::{self, hash_str, hash_u64s, mix, run_choices, run_mixed, CaseResult, Cases, Prop, Rng, Sub};
use crate::{failure, json_string, num_cases};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::Instant;

// Instrumentation.

static COUNTERS: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static NUM_COUNTERS: AtomicUsize = AtomicUsize::new(0);

const TABLE: usize = 256;

struct Table([AtomicU64; TABLE]);

impl Table {
    const fn new() -> Self {
        #[allow(clippy::declare_interior_mutable_const)]
        const ZERO: AtomicU64 = AtomicU64::new(0);
        Self([ZERO; TABLE])
    }

    fn add(&self, v: u64) {
        let i = (v.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 56) as usize;
        self.0[i].store(v, Relaxed);
    }

    fn values(&self) -> impl Iterator<Item = u64> + '_ {
        self.0.iter().map(|v| v.load(Relaxed)).filter(|&v| v != 0)
    }
}

static CONSTANTS: Table = Table::new();
static OPERANDS: Table = Table::new();

#[no_mangle]
extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, end: *mut u8) {
    COUNTERS.store(start, Relaxed);
    NUM_COUNTERS.store(end as usize - start as usize, Relaxed);
}

#[no_mangle]
extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_indir(_: usize) {}

macro_rules! compare {
    ($cmp:ident, $const_cmp:ident, $t:ty) => {
        #[no_mangle]
        extern "C" fn $cmp(a: $t, b: $t) {
            if a != b {
                OPERANDS.add(a.into());
                OPERANDS.add(b.into());
            }
        }

        #[no_mangle]
        extern "C" fn $const_cmp(a: $t, b: $t) {
            if a != b {
                CONSTANTS.add(a.into());
            }
        }
    };
}

compare!(__sanitizer_cov_trace_cmp1, __sanitizer_cov_trace_const_cmp1, u8);
compare!(__sanitizer_cov_trace_cmp2, __sanitizer_cov_trace_const_cmp2, u16);
compare!(__sanitizer_cov_trace_cmp4, __sanitizer_cov_trace_const_cmp4, u32);
compare!(__sanitizer_cov_trace_cmp8, __sanitizer_cov_trace_const_cmp8, u64);

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_switch(value: u64, cases: *const u64) {
    // Number of cases, size of the value, and the cases.
    let n = unsafe { *cases } as usize;
    for i in 0..n {
        let c = unsafe { *cases.add(2 + i) };
        if c != value {
            CONSTANTS.add(c);
        }
    }
}

fn counters() -> &'static [UnsafeCell<u8>] {
    let p = COUNTERS.load(Relaxed);
    if p.is_null() {
        return &[];
    }
    unsafe { std::slice::from_raw_parts(p.cast(), NUM_COUNTERS.load(Relaxed)) }
}

fn reset() {
    let p = COUNTERS.load(Relaxed);
    if !p.is_null() {
        unsafe { std::ptr::write_bytes(p, 0, NUM_COUNTERS.load(Relaxed)) };
    }
}

fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

// Search.

struct Seen(Vec<u8>);

impl Seen {
    /// Adds what the last case has covered; tells whether there is more.
    fn update(&mut self) -> bool {
        let c = counters();
        self.0.resize(c.len(), 0);
        let mut new = false;
        for (c, seen) in c.iter().zip(&mut self.0) {
            let b = bucket(unsafe { *c.get() });
            if b & !*seen != 0 {
                *seen |= b;
                new = true;
            }
        }
        new
    }

    fn edges(&self) -> usize {
        self.0.iter().filter(|&&b| b != 0).count()
    }
}

const MAX_CHOICES: usize = 6000;

fn value(r: &mut Rng, dict: &[u64], old: u64) -> u64 {
    match r.next() % 8 {
        0 | 1 | 2 if !dict.is_empty() => {
            let d = dict[r.next() as usize % dict.len()];
            d.wrapping_add(r.next() % 3).wrapping_sub(1)
        }
        3 => old.wrapping_add(1),
        4 => old.wrapping_sub(1),
        5 => r.next() % 256,
        6 => old ^ 1 << (r.next() % 64),
        _ => r.next(),
    }
}

fn mutate(r: &mut Rng, corpus: &[Vec<u64>], dict: &[u64]) -> Vec<u64> {
    if corpus.is_empty() || r.next() % 8 == 0 {
        return Vec::new();
    }
    // Prefer what has been added last.
    let i = if r.next() % 2 == 0 {
        corpus.len() - 1 - r.next() as usize % corpus.len().min(16)
    } else {
        r.next() as usize % corpus.len()
    };
    let mut v = corpus[i].clone();
    for _ in 0..1 << (r.next() % 4) {
        if v.is_empty() {
            break;
        }
        let at = r.next() as usize % v.len();
        let len = (r.next() as usize % 8 + 1).min(v.len() - at);
        match r.next() % 10 {
            0..=4 => v[at] = value(r, dict, v[at]),
            5 => {
                v.drain(at..at + len);
            }
            6 => {
                let part = v[at..at + len].to_vec();
                let to = r.next() as usize % (v.len() + 1);
                v.splice(to..to, part);
            }
            7 => {
                let x = value(r, dict, 0);
                v.insert(at, x);
            }
            8 => {
                let other = &corpus[r.next() as usize % corpus.len()];
                if !other.is_empty() {
                    let from = r.next() as usize % other.len();
                    v.truncate(at);
                    v.extend_from_slice(&other[from..]);
                }
            }
            _ => v.truncate(at),
        }
    }
    v.truncate(MAX_CHOICES);
    v
}

fn dictionary() -> Vec<u64> {
    let mut v: Vec<u64> = CONSTANTS.values().collect();
    // Constants count more than what happened to be compared.
    v.extend(v.clone());
    v.extend(OPERANDS.values());
    v
}

fn record(f: &File, si: usize, seed: u64, prefix: &[u64], dict: &[u64]) {
    let head = [si as u64, seed, prefix.len() as u64, dict.len() as u64];
    let bytes: Vec<u8> = head
        .iter()
        .chain(prefix)
        .chain(dict)
        .flat_map(|x| x.to_le_bytes())
        .collect();
    let _ = f.write_at(&bytes, 0);
}

fn executions(p: &Prop, sub: &Sub, thorough: bool) -> u64 {
    match sub.cases {
        // Per process.
        Cases::Random(..) => num_cases(p, sub, thorough) / 12 + 1,
        Cases::Enum(..) => 0,
    }
}

pub fn run(p: &Prop, thorough: bool, seed: u64, shard: u64, out: &str) {
    let progress = File::create(format!("{out}.progress")).expect("progress file");
    let start = Instant::now();
    let mut cases = 0_u64;
    let mut evaluations = 0_u64;
    let mut corpus_sizes: BTreeMap<&str, usize> = BTreeMap::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut all = Seen(Vec::new());
    let mut failed: Option<String> = None;
    let mut clock = engine::Clock::new();
    let mut cut: Vec<String> = Vec::new();

    'subs: for (si, sub) in p.subs.iter().enumerate() {
        let n = executions(p, sub, thorough);
        let mut rng = Rng::new(hash_u64s(&[seed, hash_str(p.id), hash_str(sub.name), mix(shard)]));
        let mut corpus: Vec<Vec<u64>> = Vec::new();
        let mut seen = Seen(Vec::new());
        let mut dict = Vec::new();
        clock.start_sub();
        for i in 0..n {
            if i > 0 && clock.is_over() {
                cut.push(json_string(sub.name));
                break;
            }
            if i < 256 || i % 64 == 0 {
                dict = dictionary();
            }
            let prefix = mutate(&mut rng, &corpus, &dict);
            let tail = rng.next();
            record(&progress, si, tail, &prefix, &dict);
            reset();
            let r: CaseResult = run_mixed(&prefix, tail, &dict, sub.check);
            if seen.update() && r.choices.len() <= MAX_CHOICES {
                corpus.push(r.choices.clone());
            }
            cases += 1;
            evaluations += r.evaluations;
            if r.nontrivial {
                nontrivial.insert(hash_u64s(&[si as u64, r.identity]));
            }
            if r.outcome.is_err() {
                let again = run_choices(&r.choices, sub.check, true);
                let r = if again.outcome.is_err() { again } else { r };
                failed = Some(failure(sub, i, &r));
                break 'subs;
            }
        }
        if n > 0 {
            corpus_sizes.insert(sub.name, corpus.len());
        }
        all.0.resize(seen.0.len(), 0);
        for (a, b) in all.0.iter_mut().zip(&seen.0) {
            *a |= b;
        }
    }

    let sizes: Vec<String> = corpus_sizes
        .iter()
        .map(|(k, v)| format!("{}:{v}", json_string(k)))
        .collect();
    let json = format!(
        "{{\"cases\":{cases},\"evaluations\":{evaluations},\"corpus\":{{{}}},\"edges\":{},\"instrumented\":{},\"nontrivial\":{},\"wall\":{:.3},\"cut\":[{}],\"failure\":{}}}",
        sizes.join(","),
        all.edges(),
        counters().len(),
        nontrivial.len(),
        start.elapsed().as_secs_f64(),
        cut.join(","),
        failed.as_deref().unwrap_or("null")
    );
    let mut f = File::create(format!("{out}.nontrivial")).expect("file");
    let bytes: Vec<u8> = nontrivial.iter().flat_map(|h| h.to_le_bytes()).collect();
    f.write_all(&bytes).expect("write");
    fs::write(format!("{out}.tmp"), json).expect("write");
    fs::rename(format!("{out}.tmp"), out).expect("rename");
    std::process::exit(i32::from(failed.is_some()));
}

/// Prints the choices of a recorded case, as they are made.
pub fn replay_record(p: &Prop, path: &str) {
    let bytes = fs::read(path).expect("record");
    let words: Vec<u64> = bytes
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().expect("8 bytes")))
        .collect();
    let (np, nd) = (words[2] as usize, words[3] as usize);
    let sub = &p.subs[words[0] as usize];
    engine::trace_choices();
    println!("{}", sub.name);
    let _ = run_mixed(&words[4..4 + np], words[1], &words[4 + np..4 + np + nd], sub.check);
}
