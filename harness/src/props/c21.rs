//! Determinism and isolation.

use crate::engine::{random, Prop, Src};
use crate::gen;
use crate::surroundings::within;
use crate::util::{outcome, Outcome, Res, MIB};
use rescan::{compile, compile_multi, Database, Flags};
use std::sync::Barrier;

#[derive(Clone, Debug)]
struct Job {
    /// Expression, flags, and ID; compiled with `compile` if there is exactly
    /// one and its ID is 0.
    list: Vec<(String, u16, u32)>,
    mode: u64,
}

impl Job {
    fn compile(&self) -> Result<Database, rescan::CompileError> {
        let m = gen::mode(self.mode);
        if let [(e, f, 0)] = self.list.as_slice() {
            return compile(e, gen::flags(*f), &m);
        }
        let e: Vec<&str> = self.list.iter().map(|x| x.0.as_str()).collect();
        let f: Vec<Flags> = self.list.iter().map(|x| gen::flags(x.1)).collect();
        let ids: Vec<u32> = self.list.iter().map(|x| x.2).collect();
        compile_multi(&e, &f, &ids, &m)
    }

    fn run(&self) -> Outcome {
        outcome(&self.compile())
    }

    /// What it has to be, as far as success goes, if that is certain.
    fn expected(&self) -> Option<bool> {
        if self.list.is_empty() {
            return Some(false);
        }
        let all = self.list.iter().all(|(e, f, _)| crate::reference::accepted(e, *f));
        if !all {
            return Some(false);
        }
        let mut ids: Vec<u32> = self.list.iter().map(|x| x.2).collect();
        ids.sort_unstable();
        ids.windows(2).all(|w| w[0] != w[1]).then_some(true)
    }
}

fn job(s: &mut Src) -> Job {
    let mode = s.draw(gen::NUM_MODES);
    let entry = |s: &mut Src| {
        let e = match s.weighted(&[8, 6, 6, 1]) {
            3 => gen::big_any(s, 4_000),
            0 => gen::plain(s, 12),
            1 => gen::accepted(s, 60, true),
            _ => gen::any_expression(s),
        };
        let id = if s.bool() { s.draw(3) as u32 } else { gen::any_id(s) };
        (e, gen::any_flags(s), id)
    };
    let list = match s.weighted(&[5, 4]) {
        0 => {
            let (e, f, _) = entry(s);
            vec![(e, f, 0)]
        }
        _ => {
            let n = s.size(8);
            let literals = s.bool();
            (0..n)
                .map(|_| {
                    if literals {
                        // Often conflicts in SINGLEMATCH.
                        let e = "lit".to_string() + &gen::plain(s, 4);
                        (e, if s.chance(1, 3) { 8 } else { 0 }, s.draw(3) as u32)
                    } else {
                        entry(s)
                    }
                })
                .collect()
        }
    };
    Job { list, mode }
}

/// A job that has nearly everything in common with another.
fn variant(s: &mut Src, j: &Job) -> Job {
    let mut j = j.clone();
    for _ in 0..s.range(1, 2) {
        let n = j.list.len();
        let i = if n > 0 { s.below(n) } else { 0 };
        match s.weighted(&[4, 2, 2, 5, 2, 2, 2, 3]) {
            0 if n > 0 => j.list[i].1 = gen::any_flags(s),
            1 if n > 0 => {
                let bit = 1 << s.draw(11);
                j.list[i].1 ^= bit;
            }
            2 => j.mode = s.draw(gen::NUM_MODES),
            3 if n > 0 => {
                // Another character at some place.
                let mut c: Vec<char> = j.list[i].0.chars().collect();
                if !c.is_empty() {
                    let k = if s.bool() { c.len() - 1 } else { s.below(c.len()) };
                    c[k] = *s.pick(&['a', 'A', ')', '^', '*', '+', '{', '\\', '\0', '\u{e9}', 'z']);
                    j.list[i].0 = c.into_iter().collect();
                }
            }
            4 if n > 0 => {
                let more = gen::plain(s, 3);
                if s.bool() {
                    j.list[i].0 += &more;
                } else {
                    j.list[i].0.insert_str(0, &more);
                }
            }
            5 if n > 0 => j.list[i].2 = if s.bool() { s.draw(3) as u32 } else { gen::any_id(s) },
            6 if n > 1 => {
                j.list.swap(i, n - 1);
            }
            _ => match s.below(3) {
                0 if n > 0 => {
                    j.list.remove(i);
                }
                1 if n > 0 => {
                    let again = j.list[i].clone();
                    j.list.push(again);
                }
                _ => {
                    let e = gen::any_expression(s);
                    j.list.insert(i, (e, gen::any_flags(s), s.draw(3) as u32));
                }
            },
        }
    }
    j
}

fn pool(s: &mut Src) -> Vec<Job> {
    let n = s.range(2, 6);
    let mut jobs: Vec<Job> = Vec::new();
    for _ in 0..n {
        let j = if !jobs.is_empty() && s.chance(3, 5) {
            let i = s.below(jobs.len());
            let j = jobs[i].clone();
            variant(s, &j)
        } else {
            job(s)
        };
        jobs.push(j);
    }
    jobs
}

fn same(j: &Job, want: &Outcome, got: &Outcome, when: &str) -> Res {
    crate::ensure!(want == got, "{j:?} gave {want:?} at first, but {got:?} {when}");
    Ok(())
}

fn first(jobs: &[Job]) -> Result<Vec<Outcome>, String> {
    let mut v = Vec::new();
    for j in jobs {
        let o = j.run();
        if let Some(x) = j.expected() {
            crate::ensure!(o.is_ok() == x, "{j:?} gave {o:?}; it should be accepted: {x}");
        }
        v.push(o);
    }
    Ok(v)
}

/// A history of compilations, with databases kept and dropped along the way.
fn history(s: &mut Src) -> Res {
    let jobs = pool(s);
    let len = s.size(120);
    let steps: Vec<(usize, usize)> = (0..len).map(|_| (s.below(jobs.len()), s.below(4))).collect();
    s.note(|| format!("{jobs:?}, then {steps:?}"));
    let want = first(&jobs)?;
    s.nontrivial_if(len > 1 && want.iter().any(|o| o.is_ok()) && want.iter().any(|o| o.is_err()));
    s.label_if(want.iter().any(|o| o.is_err()), "has failing");
    let mut kept: Vec<Database> = Vec::new();
    for (n, &(i, what)) in steps.iter().enumerate() {
        // From copies of the input, dropped right afterwards.
        let copy = jobs[i].clone();
        let r = copy.compile();
        let o = outcome(&r);
        drop(copy);
        s.count(1);
        same(&jobs[i], &want[i], &o, &format!("after {n} compilations"))?;
        if let Ok(db) = r {
            match what {
                0 => drop(db),
                1 => {
                    kept.push(db);
                    let k = (n * 7) % kept.len();
                    drop(kept.swap_remove(k));
                }
                _ => kept.push(db),
            }
        }
        usable(&kept)?;
    }
    // In any order.
    while !kept.is_empty() {
        let k = s.below(kept.len());
        drop(kept.swap_remove(k));
        usable(&kept)?;
    }
    Ok(())
}

#[cfg(rescan_check = "C21")]
fn usable(dbs: &[Database]) -> Res {
    let mut state = 0x5a_u8;
    for (i, db) in dbs.iter().enumerate() {
        let mut scratch = rescan::verif::scratch(&mut state);
        crate::ensure!(
            rescan::scan(db, b"some data", &mut scratch).is_ok(),
            "database {i} of {} cannot be scanned with",
            dbs.len()
        );
    }
    Ok(())
}

#[cfg(not(rescan_check = "C21"))]
fn usable(_dbs: &[Database]) -> Res {
    Ok(())
}

impl Job {
    fn to_text(&self) -> String {
        let mut t = format!("{}\n", self.mode);
        for (e, f, id) in &self.list {
            let hex: String = e.bytes().map(|b| format!("{b:02x}")).collect();
            t += &format!("{f} {id} {hex}\n");
        }
        t
    }

    fn from_text(t: &str) -> Self {
        let mut lines = t.lines();
        let mode = lines.next().and_then(|x| x.parse().ok()).expect("mode");
        let entry = |l: &str| {
            let v: Vec<&str> = l.split(' ').collect();
            let bytes = (0..v[2].len() / 2)
                .map(|i| u8::from_str_radix(&v[2][2 * i..2 * i + 2], 16).expect("hex"))
                .collect();
            let e = String::from_utf8(bytes).expect("UTF-8");
            (e, v[0].parse().expect("flags"), v[1].parse().expect("id"))
        };
        Self { list: lines.map(entry).collect(), mode }
    }
}

/// Compiles what `Job::to_text` has written.
pub fn fresh_outcome(text: &str, surroundings: u64) -> String {
    let j = Job::from_text(text);
    format!("{:?}", within(surroundings, || j.run()).0)
}

/// Outcome in a new process, which has an environment of its own.
fn elsewhere(j: &Job, env: u64, surroundings: u64) -> String {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let no_answer = |e: &dyn std::fmt::Debug| -> ! {
        eprintln!("harness error: no outcome from another process: {e:?}");
        std::process::exit(3)
    };
    let exe = std::env::current_exe().unwrap_or_else(|e| no_answer(&e));
    let mut c = Command::new(exe);
    c.arg("outcome").arg(if env & 1 == 0 { "main" } else { "other" });
    c.arg(surroundings.to_string());
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    match env / 2 % 3 {
        0 => {}
        1 => {
            c.env_clear();
        }
        _ => {
            c.env_clear().current_dir("/");
            for (k, v) in [("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Tokyo"), ("RUST_BACKTRACE", "0")] {
                c.env(k, v);
            }
        }
    }
    let mut child = c.spawn().unwrap_or_else(|e| no_answer(&e));
    let mut stdin = child.stdin.take().expect("pipe");
    // It reads all of it before it starts.
    let written = stdin.write_all(j.to_text().as_bytes());
    drop(stdin);
    let out = child.wait_with_output().unwrap_or_else(|e| no_answer(&e));
    if out.status.code() != Some(0) {
        return format!("a process that ends with {} ({written:?})", out.status);
    }
    String::from_utf8_lossy(&out.stdout).trim_end().to_string()
}

/// The outcome in this process, which has seen many other compilations, is the
/// one in a process that has seen none.
fn processes(s: &mut Src) -> Res {
    let jobs = pool(s);
    let env = s.draw(6);
    let order = s.below(jobs.len());
    let made_up = if s.bool() { s.any() } else { 0 };
    s.note(|| format!("{jobs:?}, starting with number {order}, environment {env}, surroundings {made_up}"));
    s.nontrivial();
    let n = jobs.len();
    for k in 0..n {
        let j = &jobs[(order + k) % n];
        let here = format!("{:?}", j.run());
        let there = elsewhere(j, env, made_up);
        s.count(1);
        crate::ensure!(here == there, "{j:?} gives {here} here, but {there} in a new process");
    }
    Ok(())
}

/// With other variables in the environment, at another time, and so on.
fn made_up(s: &mut Src) -> Res {
    let jobs = pool(s);
    let numbers: Vec<u64> = (0..s.range(1, 8)).map(|_| s.any()).collect();
    s.note(|| format!("{jobs:?} in surroundings {numbers:?}"));
    s.nontrivial();
    let want = first(&jobs)?;
    let mut looks = 0;
    for (j, w) in jobs.iter().zip(&want) {
        for &n in &numbers {
            let (got, l) = within(n, || j.run());
            looks += l;
            s.count(1);
            same(j, w, &got, &format!("in surroundings {n}"))?;
        }
    }
    s.label_if(looks > 0, "looked around");
    Ok(())
}

struct AtEnd<F: FnMut()>(F);

impl<F: FnMut()> Drop for AtEnd<F> {
    fn drop(&mut self) {
        (self.0)();
    }
}

/// While a panic unwinds, and when the thread's own data are being dropped.
fn moments(s: &mut Src) -> Res {
    thread_local! {
        static LAST: std::cell::RefCell<Option<Box<dyn std::any::Any>>> = const { std::cell::RefCell::new(None) };
    }
    let jobs = pool(s);
    let early = s.bool();
    s.note(|| format!("{jobs:?}; thread's own data first: {early}"));
    s.nontrivial();
    let want = first(&jobs)?;
    s.count(2 * jobs.len() as u64);
    for (j, w) in jobs.iter().zip(&want) {
        let mut got = None;
        let unwound = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _run = AtEnd(|| got = Some(j.run()));
            std::panic::resume_unwind(Box::new(()));
        }));
        crate::ensure!(unwound.is_err(), "no unwinding");
        same(j, w, &got.ok_or("no outcome")?, "during unwinding")?;
    }
    let (tx, rx) = std::sync::mpsc::channel();
    let owned = jobs.clone();
    let thread = std::thread::Builder::new().stack_size(64 * MIB).spawn(move || {
        if !early {
            drop(owned.iter().map(Job::run).collect::<Vec<_>>());
        }
        let again = owned.clone();
        let last = AtEnd(move || {
            for j in &again {
                let _ = tx.send(j.run());
            }
        });
        LAST.with(|l| *l.borrow_mut() = Some(Box::new(last)));
        if early {
            drop(owned.iter().map(Job::run).collect::<Vec<_>>());
        }
    });
    thread.expect("spawn").join().map_err(|_| "a thread panicked".to_string())?;
    let got: Vec<Outcome> = rx.iter().collect();
    crate::ensure!(got.len() == jobs.len(), "{} outcomes of {jobs:?} at the end of a thread", got.len());
    for ((j, w), g) in jobs.iter().zip(&want).zip(&got) {
        same(j, w, g, "at the end of a thread")?;
    }
    Ok(())
}

/// A long history of few jobs.
fn long_history(s: &mut Src) -> Res {
    let jobs = pool(s);
    let len = if s.chance(1, 4) { s.range(1000, 80_000) } else { s.range(100, 8_000) };
    let seed = s.any();
    s.note(|| format!("{len} times one of {jobs:?}"));
    s.nontrivial();
    let want = first(&jobs)?;
    for n in 0..len {
        let i = (crate::engine::hash_u64s(&[seed, n as u64]) % jobs.len() as u64) as usize;
        same(&jobs[i], &want[i], &jobs[i].run(), &format!("after {n} compilations"))?;
    }
    s.count(len as u64);
    Ok(())
}

/// With many databases at the same time.
fn many_databases(s: &mut Src) -> Res {
    let jobs = pool(s);
    let most = if s.chance(1, 4) { s.range(1000, 70_000) } else { s.range(30, 3_000) };
    let seed = s.any();
    s.note(|| format!("up to {most} databases of {jobs:?}"));
    let want = first(&jobs)?;
    s.nontrivial_if(want.iter().any(|o| o.is_ok()));
    let mut kept: Vec<Database> = Vec::new();
    for n in 0..most + most / 2 {
        let h = crate::engine::hash_u64s(&[seed, n as u64]);
        let i = (h % jobs.len() as u64) as usize;
        let r = jobs[i].compile();
        same(&jobs[i], &want[i], &outcome(&r), &format!("next to {} databases", kept.len()))?;
        kept.extend(r.ok());
        // Once there are enough, there are no more of them.
        if n >= most && !kept.is_empty() {
            let k = (h >> 32) as usize % kept.len();
            drop(kept.swap_remove(k));
        }
        if n % 1024 == 0 {
            usable(&kept)?;
        }
    }
    usable(&kept)?;
    s.count(most as u64);
    drop(kept);
    for (j, w) in jobs.iter().zip(&want) {
        same(j, w, &j.run(), &format!("after having dropped {most} databases"))?;
    }
    Ok(())
}

/// The same list in another place in memory, with other things around it.
fn places(s: &mut Src) -> Res {
    let jobs = pool(s);
    let around = *s.pick(&["", "a", ")", "(", "|", "\0", "é", "*)", "(*UTF8)", "(*NOPE)"]);
    let skip = s.below(4);
    s.note(|| format!("{jobs:?} between {around:?} and after {skip} others, at 17 offsets"));
    s.nontrivial();
    let want = first(&jobs)?;
    for (j, w) in jobs.iter().zip(&want) {
        for offset in 0..17 {
            let mut buffer = String::from("#").repeat(offset);
            let mut ends = Vec::new();
            for (e, _, _) in &j.list {
                buffer.push_str(around);
                let start = buffer.len();
                buffer.push_str(e);
                ends.push((start, buffer.len()));
                buffer.push_str(around);
            }
            let mut exprs = vec![around; skip];
            let mut flags = vec![gen::flags(0x7f); skip];
            let mut ids = vec![7; skip];
            for (&(from, to), (_, f, id)) in ends.iter().zip(&j.list) {
                exprs.push(&buffer[from..to]);
                flags.push(gen::flags(*f));
                ids.push(*id);
            }
            exprs.push(around);
            flags.push(gen::flags(0x7f));
            ids.push(7);
            let end = exprs.len() - 1;
            let mode = gen::mode(j.mode);
            let r = if let [(_, f, 0)] = j.list.as_slice() {
                compile(exprs[skip], gen::flags(*f), &mode)
            } else {
                compile_multi(&exprs[skip..end], &flags[skip..end], &ids[skip..end], &mode)
            };
            s.count(1);
            same(j, w, &outcome(&r), &format!("at offset {offset} of a buffer"))?;
        }
    }
    Ok(())
}

/// On several threads at the same time.
fn threads(s: &mut Src) -> Res {
    let jobs = pool(s);
    let n = s.range(2, 6);
    let rounds = s.range(1, 60);
    let seed = s.any();
    s.note(|| format!("{n} threads, {rounds} rounds of {jobs:?}"));
    s.nontrivial();
    let want = first(&jobs)?;
    let barrier = Barrier::new(n);
    let results: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let handles: Vec<_> = (0..n)
            .map(|t| {
                let (jobs, want, barrier) = (&jobs, &want, &barrier);
                std::thread::Builder::new()
                    .stack_size(64 * MIB)
                    .spawn_scoped(sc, move || -> Res {
                        barrier.wait();
                        for r in 0..rounds {
                            let h = crate::engine::hash_u64s(&[seed, t as u64, r as u64]);
                            let i = (h % jobs.len() as u64) as usize;
                            let got = crate::engine::no_panic(|| jobs[i].run())?;
                            same(&jobs[i], &want[i], &got, "on another thread")?;
                        }
                        Ok(())
                    })
                    .expect("spawn")
            })
            .collect();
        handles
            .into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".to_string())))
            .collect()
    });
    s.count((n * rounds) as u64);
    results.into_iter().collect()
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "Histories (up to 80,000 long, and on up to 6 concurrent threads) over pools of \
               generated compilations (many of them nearly alike), each of which must keep giving its first outcome, with \
               databases (up to 70,000) kept, scanned with and dropped in any order; and the same outcome in a \
               new process with another environment. Non-trivial: the pool has \
               both succeeding and failing ones (or a long or threaded history, or a new process).",
        stack: 512 * MIB,
        assumptions: &["The interleaving of threads is left to the operating system."],
        subs: vec![
            random("processes", 300, 4_000, processes),
            random("made-up", 4_000, 100_000, made_up),
            random("moments", 1_000, 20_000, moments),
            random("history", 3_000, 100_000, history),
            random("long-history", 60, 1_000, long_history),
            random("many-databases", 60, 1_000, many_databases),
            random("places", 2_000, 60_000, places),
            random("threads", 1_000, 30_000, threads),
        ],
    }
}
