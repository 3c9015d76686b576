//! Modes, runtimes, and scanning.

use crate::engine::{enumerate, hash_u64s, random, Prop, Src};
use crate::gen;
use crate::util::{Failure, Res, MIB};
use rescan::verif::{
    compile_multi_with, database_mode, database_runtime, database_set_runtime, mode_info,
    pick_runtime, scratch, Builder, Limits, Runtime, RESOURCES,
};
use std::alloc::{alloc_zeroed, dealloc, Layout};
use rescan::{compile, compile_multi, scan, Database, Flags, Mode};

/// (streaming, vectored, start-of-match precision)
const MODES: [(bool, bool, usize); 6] = [
    (false, false, 0),
    (true, false, 0),
    (true, false, 8),
    (true, false, 4),
    (true, false, 2),
    (true, true, 8),
];

fn records(db: &Database, mode: u64) -> Res {
    let (streaming, vectored, _) = MODES[mode as usize];
    let m = database_mode(db);
    let (s, v, _) = mode_info(m);
    let name = match m {
        Mode::Block => "block",
        Mode::Stream(_) => "stream",
        Mode::Vectored => "vectored",
    };
    let want = match (streaming, vectored) {
        (_, true) => "vectored",
        (true, _) => "stream",
        _ => "block",
    };
    crate::ensure!(
        name == want && s == streaming && v == vectored,
        "compiled for mode {mode}, the database says {name}"
    );
    Ok(())
}

fn modes(s: &mut Src) -> Res {
    let k = s.draw(gen::NUM_MODES);
    s.note(|| format!("mode {k}"));
    s.nontrivial();
    let m = gen::mode(k);
    let got = mode_info(&m);
    crate::ensure!(
        got == MODES[k as usize],
        "mode {k} has (streaming, vectored, precision) {got:?} instead of {:?}",
        MODES[k as usize]
    );
    let db = compile("foobar", Flags::empty(), &m).map_err(|e| format!("{:?}", Failure::of(&e)))?;
    records(&db, k)?;
    let b = Builder::new(1, &m, &Limits::default());
    records(&b.build(), k)
}

fn databases(s: &mut Src) -> Res {
    let (k, m) = gen::any_mode(s);
    let n = 1 + s.size(12);
    let exprs: Vec<String> = (0..n).map(|_| gen::accepted(s, 40, true)).collect();
    let flags: Vec<u16> = (0..n).map(|_| gen::ok_flags(s)).collect();
    let allow = s.bool();
    s.note(|| format!("mode {k}, {exprs:?}, flags {flags:x?}"));
    s.nontrivial_if(k > 0);
    let e: Vec<&str> = exprs.iter().map(|x| x.as_str()).collect();
    let f: Vec<Flags> = flags.iter().map(|&x| gen::flags(x)).collect();
    let ids: Vec<u32> = (0..n as u32).collect();
    let limits = Limits { allow_literal: allow, allow_small_write: !allow, ..Limits::default() };
    let r = if s.bool() {
        compile_multi(&e, &f, &ids, &m)
    } else {
        compile_multi_with(&e, &f, &ids, &m, &limits)
    };
    let db = r.map_err(|e| format!("{:?}", Failure::of(&e)))?;
    records(&db, k)?;
    // No resources are tracked yet.
    crate::ensure!(
        database_runtime(&db) == Runtime::FullRose,
        "runtime is {:?} without floating literals",
        database_runtime(&db)
    );
    scan_check(s, &db)
}

fn want_runtime(streaming: bool, bits: u32) -> Runtime {
    let has = |name: &str| {
        RESOURCES
            .iter()
            .position(|r| *r == name)
            .is_some_and(|i| bits >> i & 1 != 0)
    };
    let other = has("outfixes")
        || has("suffixes")
        || has("leftfixes")
        || has("anchored")
        || has("eod")
        || has("states")
        || has("lit_delay")
        || has("checks_groups")
        || (streaming && has("lit_check"));
    if has("floating") && !other {
        Runtime::PureLiteral
    } else {
        Runtime::FullRose
    }
}

fn runtimes(s: &mut Src) -> Res {
    let bits = s.draw(1 << 13) as u32;
    s.note(|| {
        let names: Vec<&str> =
            RESOURCES.iter().enumerate().filter(|(i, _)| bits >> i & 1 != 0).map(|(_, r)| *r).collect();
        format!("{names:?} in each kind of mode")
    });
    s.nontrivial();
    for (streaming, vectored) in [(false, false), (true, false), (true, true)] {
        let got = pick_runtime(streaming, vectored, bits);
        let want = want_runtime(streaming, bits);
        s.count(1);
        crate::ensure!(
            got == want,
            "resources {bits:#b}, streaming {streaming}, vectored {vectored}: {got:?} instead of {want:?}"
        );
    }
    Ok(())
}

fn scan_check(s: &mut Src, db: &Database) -> Res {
    let data = data(s, "some pattern", 5_000);
    let seed = s.any();
    scan_once(db, &data, seed)
}

/// Data to scan: of any length, often next to a power of two; random, one
/// byte or few over and over again, the pattern, nearly any of these.
fn data(s: &mut Src, pattern: &str, max: usize) -> Vec<u8> {
    let n = match s.weighted(&[3, 3, 1, 3]) {
        0 => s.size(100),
        1 => s.size(max),
        2 => 0,
        _ => {
            let top = if s.chance(1, 40) { 20 } else { 13 };
            let k = s.draw(top);
            ((1_usize << k) + s.below(3)).saturating_sub(1)
        }
    };
    let seed = s.any();
    let mut data: Vec<u8> = match s.weighted(&[3, 3, 2, 2, 2]) {
        0 => (0..n).map(|i| hash_u64s(&[seed, i as u64]) as u8).collect(),
        1 => pattern.bytes().cycle().take(n).collect(),
        2 => vec![*s.pick(b"\x00\xff\x20\x0aa\x7f\x80"); n],
        3 => vec![s.byte(); n],
        _ => (0..n).map(|i| [0, b'a', seed as u8, 0xff][hash_u64s(&[seed, i as u64]) as usize % 4]).collect(),
    };
    let n = data.len();
    if n > 0 && s.chance(1, 4) {
        let i = if s.bool() { n - 1 } else { s.below(n) };
        data[i] = s.byte();
    }
    data
}

fn scan_once(db: &Database, data: &[u8], seed: u64) -> Res {
    // At any alignment.
    let skip = (seed >> 7) as usize % 64;
    let mut room = vec![0xa5; data.len() + 127];
    let start = room.as_ptr().align_offset(64) + skip;
    room[start..start + data.len()].copy_from_slice(data);
    let data = &room[start..start + data.len()];
    // The state is followed and preceded by guards.
    let mut state: Vec<u8> = (0..192).map(|i| hash_u64s(&[!seed, i]) as u8).collect();
    let before = state.clone();
    let copy = data.to_vec();
    let runtime = database_runtime(db);
    let ptr = state[64..].as_mut_ptr();
    let mut sc = scratch(ptr);
    for _ in 0..2 {
        crate::ensure!(scan(db, data, &mut sc).is_ok(), "scanning {} bytes fails", data.len());
    }
    crate::ensure!(state == before, "scanning {} bytes changed the state", data.len());
    crate::ensure!(data == copy, "scanning changed the data");
    crate::ensure!(database_runtime(db) == runtime, "scanning changed the database");
    Ok(())
}

fn scans(s: &mut Src) -> Res {
    let (k, m) = gen::any_mode(s);
    let e = gen::accepted(s, 40, true);
    let r = *s.pick(&[Runtime::FullRose, Runtime::PureLiteral, Runtime::SingleOutfix]);
    let max = if s.chance(1, 200) { 300_000 } else { 600 };
    let data = data(s, &e, max);
    let seed = s.any();
    s.note(|| format!("mode {k}, {}, {r:?}, {} bytes", gen::show(&e), data.len()));
    s.nontrivial_if(!data.is_empty());
    let db = compile(&e, Flags::empty(), &m).map_err(|e| format!("{:?}", Failure::of(&e)))?;
    let db = database_set_runtime(db, r);
    scan_once(&db, &data, seed)?;
    records(&db, k)?;
    // Without any state at all.
    let mut sc = scratch(std::ptr::null_mut());
    crate::ensure!(scan(&db, &data, &mut sc).is_ok(), "scanning without state fails");
    s.count(1);
    Ok(())
}

/// Short data at each alignment.
fn alignments(s: &mut Src) -> Res {
    let n = s.draw(ALIGNMENTS);
    let (skip, len) = ((n % 64) as usize, (n / 64) as usize);
    s.note(|| format!("{len} bytes at alignment {skip}"));
    s.nontrivial();
    let mut room = vec![b'a'; 256];
    let start = room.as_ptr().align_offset(64) + skip;
    room[start..start + len].fill(b'f');
    let r = [Runtime::FullRose, Runtime::PureLiteral, Runtime::SingleOutfix][len % 3];
    for k in 0..gen::NUM_MODES {
        for made in [false, true] {
            let mut db = compile("foobar", Flags::empty(), &gen::mode(k))
                .map_err(|e| format!("{:?}", Failure::of(&e)))?;
            if made {
                db = database_set_runtime(db, r);
            }
            let mut state = [0x5a_u8; 192];
            let mut sc = scratch(state[skip..].as_mut_ptr());
            crate::ensure!(
                scan(&db, &room[start..start + len], &mut sc).is_ok(),
                "scanning {len} bytes at alignment {skip} fails in mode {k}"
            );
            crate::ensure!(state == [0x5a; 192], "scanning {len} bytes changed the state");
            s.count(1);
        }
    }
    Ok(())
}

const ALIGNMENTS: u64 = 64 * 100;

/// Data of more bytes than some integer type can count. It takes address
/// space, but no memory, since nothing is written to it.
fn huge(s: &mut Src) -> Res {
    let n = s.draw(HUGE);
    let (bits, off) = ([16, 20, 24, 31, 32][(n / 9) as usize], n / 3 % 3);
    let r = [Runtime::FullRose, Runtime::PureLiteral, Runtime::SingleOutfix][(n % 3) as usize];
    let len = ((1_usize << bits) + off as usize) - 1;
    s.note(|| format!("{len} bytes, {r:?}"));
    s.nontrivial();
    let Some(data) = Zeros::new(len) else {
        s.label("no room for the data");
        return Ok(());
    };
    let data = data.bytes();
    for k in 0..gen::NUM_MODES {
        let db = compile("foobar", Flags::empty(), &gen::mode(k))
            .map_err(|e| format!("{:?}", Failure::of(&e)))?;
        let db = database_set_runtime(db, r);
        let mut state = [0x5a_u8; 192];
        let mut sc = scratch(state[64..].as_mut_ptr());
        crate::ensure!(scan(&db, data, &mut sc).is_ok(), "scanning {len} bytes fails in mode {k}");
        crate::ensure!(state == [0x5a; 192], "scanning {len} bytes changed the state");
        s.count(1);
    }
    Ok(())
}

const HUGE: u64 = 5 * 9;

/// A lot of zeros. The address space of the process is limited softly.
struct Zeros {
    ptr: *mut u8,
    layout: Layout,
    /// What the limit was before.
    usual: Option<Rlimit>,
}

const RLIMIT_AS: i32 = 9;

#[repr(C)]
struct Rlimit {
    soft: u64,
    hard: u64,
}

extern "C" {
    fn getrlimit(resource: i32, limit: *mut Rlimit) -> i32;
    fn setrlimit(resource: i32, limit: *const Rlimit) -> i32;
}

impl Zeros {
    fn new(len: usize) -> Option<Self> {
        let layout = Layout::array::<u8>(len.max(1)).expect("small enough");
        let mut usual = Rlimit { soft: 0, hard: 0 };
        // SAFETY: both get valid pointers; the layout is not empty.
        let (ptr, usual) = unsafe {
            let known = getrlimit(RLIMIT_AS, &mut usual) == 0;
            if known {
                setrlimit(RLIMIT_AS, &Rlimit { soft: usual.hard, hard: usual.hard });
            }
            (alloc_zeroed(layout), known.then_some(usual))
        };
        let new = Self { ptr, layout, usual };
        (!ptr.is_null()).then_some(new)
    }

    fn bytes(&self) -> &[u8] {
        // SAFETY: `new` has allocated and zeroed that many bytes.
        unsafe { std::slice::from_raw_parts(self.ptr, self.layout.size()) }
    }
}

impl Drop for Zeros {
    fn drop(&mut self) {
        // SAFETY: allocated with this layout, if at all.
        unsafe {
            if !self.ptr.is_null() {
                dealloc(self.ptr, self.layout);
            }
            if let Some(usual) = &self.usual {
                setrlimit(RLIMIT_AS, usual);
            }
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "All modes, all sets of resources in all kinds of mode, generated lists compiled in \
               generated modes, and databases of each runtime scanning generated data with guarded \
               state. Non-trivial: not block mode, or data is not empty (or part of the complete \
               enumeration).",
        stack: 512 * MIB,
        assumptions: &["The scratch space, not constructible by users yet, is made by a hook."],
        subs: vec![
            enumerate("modes", gen::NUM_MODES, gen::NUM_MODES, modes),
            enumerate("runtimes", 1 << 13, 1 << 13, runtimes),
            enumerate("alignments", ALIGNMENTS, ALIGNMENTS, alignments),
            enumerate("huge", HUGE, HUGE, huge),
            random("databases", 20_000, 1_000_000, databases),
            random("scans", 20_000, 1_000_000, scans),
        ],
    }
}
