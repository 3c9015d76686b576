//! Runs the generated checks of one property.
//!
//! rvh worker PROP TIER SEED SHARD NSHARDS OUT   run a share of all cases
//! rvh case PROP SUB TIER FILE                   run one case from its choices
//! rvh shrink PROP SUB TIER FILE OUT             shrink a case in-process
//! rvh fuzz PROP TIER SEED SHARD NSHARDS OUT     coverage-guided search (feature `fuzz`)
//! rvh outcome THREAD SURROUNDINGS               outcome of the compilation in standard input
//! rvh list                                      list properties

#[allow(dead_code)]
mod engine;
#[cfg(feature = "fuzz")]
mod fuzz;
#[allow(dead_code)]
mod gen;
mod props;
#[allow(dead_code)]
mod reference;
#[allow(dead_code)]
mod surroundings;
mod util;

use engine::{case_seed, run_choices, run_random, CaseResult, Cases, Prop, Sub};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs::{self, File};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::time::Instant;

fn json_string(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn json_list(v: &[u64]) -> String {
    let items: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", items.join(","))
}

/// Number of cases of a check. Random cases are multiplied to make use of a
/// fair amount of time.
fn num_cases(p: &Prop, sub: &Sub, thorough: bool) -> u64 {
    match sub.cases {
        Cases::Random(q, _) => q * props::scale(p.id) * if thorough { THOROUGH } else { 1 },
        Cases::Enum(q, t) => {
            if thorough {
                t
            } else {
                q
            }
        }
    }
}

/// Random cases in the thorough tier, in multiples of the quick tier.
const THOROUGH: u64 = 20;

fn run_case(p: &Prop, sub: &Sub, seed: u64, case: u64, notes: bool) -> CaseResult {
    match sub.cases {
        Cases::Random(..) => run_random(case_seed(seed, p.id, sub.name, case), sub.check, notes),
        Cases::Enum(..) => run_choices(&[case], sub.check, notes),
    }
}

fn on_stack<T: Send>(stack: usize, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn_scoped(s, f)
            .expect("spawn")
            .join()
            .unwrap_or_else(|_| {
                eprintln!("harness error: the case thread panicked outside of a case");
                std::process::exit(3)
            })
    })
}

fn failure(sub: &Sub, case: u64, r: &CaseResult) -> String {
    format!(
        "{{\"sub\":{},\"case\":{},\"message\":{},\"notes\":{},\"choices\":{}}}",
        json_string(sub.name),
        case,
        json_string(r.outcome.as_ref().err().map_or("", |e| e)),
        json_string(&r.notes),
        json_list(&r.choices)
    )
}

fn worker(p: &Prop, thorough: bool, seed: u64, shard: u64, nshards: u64, out: &str) {
    let progress = File::create(format!("{out}.progress")).expect("progress file");
    let start = Instant::now();
    let mut cases = 0_u64;
    let mut evaluations = 0_u64;
    let mut per_sub: BTreeMap<&str, u64> = BTreeMap::new();
    let mut labels: BTreeMap<&str, u64> = BTreeMap::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut samples: Vec<(&str, String)> = Vec::new();
    let mut sub_wall: BTreeMap<&str, f64> = BTreeMap::new();
    let mut failed: Option<String> = None;
    let mut clock = engine::Clock::new();
    let mut cut: Vec<String> = Vec::new();

    'subs: for (si, sub) in p.subs.iter().enumerate() {
        let n = num_cases(p, sub, thorough);
        clock.start_sub();
        let sub_start = Instant::now();
        let mut sub_cases = 0;
        let mut sub_samples = 0;
        let mut i = shard;
        while i < n {
            let mut buf = [0; 16];
            buf[..8].copy_from_slice(&(si as u64).to_le_bytes());
            buf[8..].copy_from_slice(&i.to_le_bytes());
            let _ = progress.write_at(&buf, 0);
            let r = run_case(p, sub, seed, i, false);
            cases += 1;
            sub_cases += 1;
            evaluations += r.evaluations;
            for l in &r.labels {
                *labels.entry(l).or_insert(0) += 1;
            }
            if r.nontrivial {
                let h = engine::hash_u64s(&[si as u64, r.identity]);
                nontrivial.insert(h);
                // A few samples, from the middle of the run.
                if sub_samples < 2 && shard < 2 && (i * 3 > n || n < 30) && r.outcome.is_ok() {
                    sub_samples += 1;
                    let again = run_case(p, sub, seed, i, true);
                    samples.push((sub.name, again.notes));
                }
            }
            if r.outcome.is_err() {
                let again = run_case(p, sub, seed, i, true);
                let r = if again.outcome.is_err() { again } else { r };
                failed = Some(failure(sub, i, &r));
            }
            if failed.is_some() {
                *per_sub.entry(sub.name).or_insert(0) += sub_cases;
                break 'subs;
            }
            i += nshards;
            if i < n && clock.is_over() {
                cut.push(json_string(sub.name));
                break;
            }
        }
        *per_sub.entry(sub.name).or_insert(0) += sub_cases;
        *sub_wall.entry(sub.name).or_insert(0.0) += sub_start.elapsed().as_secs_f64();
    }

    let map = |m: &BTreeMap<&str, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", json_string(k), v)).collect();
        format!("{{{}}}", v.join(","))
    };
    let walls: Vec<String> = sub_wall
        .iter()
        .map(|(k, v)| format!("{}:{:.3}", json_string(k), v))
        .collect();
    let samples: Vec<String> = samples
        .iter()
        .map(|(k, v)| {
            let mut v = v.as_str();
            while v.len() > 600 {
                let mut cut = 600;
                while !v.is_char_boundary(cut) {
                    cut -= 1;
                }
                v = &v[..cut];
            }
            format!("{{\"check\":{},\"case\":{}}}", json_string(k), json_string(v))
        })
        .collect();
    let json = format!(
        "{{\"cases\":{},\"evaluations\":{},\"per_sub\":{},\"sub_wall\":{{{}}},\"labels\":{},\"nontrivial\":{},\"samples\":[{}],\"wall\":{:.3},\"cut\":[{}],\"failure\":{}}}",
        cases,
        evaluations,
        map(&per_sub),
        walls.join(","),
        map(&labels),
        nontrivial.len(),
        samples.join(","),
        start.elapsed().as_secs_f64(),
        cut.join(","),
        failed.as_deref().unwrap_or("null")
    );
    let mut f = File::create(format!("{out}.nontrivial")).expect("file");
    let mut bytes = Vec::with_capacity(nontrivial.len() * 8);
    for h in &nontrivial {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    f.write_all(&bytes).expect("write");
    // Written last and at once: its presence means that the worker is done.
    fs::write(format!("{out}.tmp"), json).expect("write");
    fs::rename(format!("{out}.tmp"), out).expect("rename");
    std::process::exit(i32::from(failed.is_some()));
}

fn read_choices(path: &str) -> Vec<u64> {
    fs::read_to_string(path)
        .expect("choices file")
        .split_whitespace()
        .map(|x| x.parse().expect("number"))
        .collect()
}

fn find<'a>(props: &'a [Prop], id: &str) -> &'a Prop {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn find_sub<'a>(p: &'a Prop, name: &str) -> &'a Sub {
    p.subs.iter().find(|s| s.name == name).unwrap_or_else(|| {
        eprintln!("unknown check {name}");
        std::process::exit(2)
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map_or("", |s| s.as_str());
    engine::install_panic_hook();
    let props = props::all();
    match arg(1) {
        "worker" => {
            let p = find(&props, arg(2));
            let thorough = arg(3) == "thorough";
            let num = |i: usize| arg(i).parse::<u64>().expect("number");
            let (seed, shard, nshards) = (num(4), num(5), num(6));
            let out = arg(7).to_string();
            on_stack(p.stack, || worker(p, thorough, seed, shard, nshards, &out));
        }
        #[cfg(feature = "fuzz")]
        "fuzz" => {
            let p = find(&props, arg(2));
            let thorough = arg(3) == "thorough";
            let num = |i: usize| arg(i).parse::<u64>().expect("number");
            let (seed, shard) = (num(4), num(5));
            let out = arg(7).to_string();
            on_stack(p.stack, || fuzz::run(p, thorough, seed, shard, &out));
        }
        // The choices of the case that a search has recorded.
        #[cfg(feature = "fuzz")]
        "fuzz-choices" => {
            let p = find(&props, arg(2));
            on_stack(p.stack, || fuzz::replay_record(p, arg(3)));
        }
        // The choices of a case, given by its number.
        "choices" => {
            let p = find(&props, arg(2));
            let sub = &p.subs[arg(3).parse::<usize>().expect("number")];
            let seed = arg(4).parse().expect("number");
            let case = arg(5).parse().expect("number");
            // Choices made so far are written as they are made, in case
            // running it ends the process.
            engine::trace_choices();
            println!("{}", sub.name);
            on_stack(p.stack, || {
                let _ = run_case(p, sub, seed, case, false);
            });
        }
        "case" => {
            let p = find(&props, arg(2));
            let sub = find_sub(p, arg(3));
            let choices = read_choices(arg(4));
            let r = on_stack(p.stack, || run_choices(&choices, sub.check, true));
            println!("{}", failure(sub, 0, &r));
            std::process::exit(i32::from(r.outcome.is_err()));
        }
        "shrink" => {
            let p = find(&props, arg(2));
            let sub = find_sub(p, arg(3));
            let choices = read_choices(arg(4));
            let start = Instant::now();
            let r = on_stack(p.stack, || {
                let best = engine::shrink(choices, 5000, |c| {
                    if start.elapsed().as_secs() > 30 {
                        return None;
                    }
                    let r = run_choices(c, sub.check, false);
                    r.outcome.is_err().then_some(r.choices)
                });
                run_choices(&best, sub.check, true)
            });
            println!("{}", failure(sub, 0, &r));
            std::process::exit(i32::from(r.outcome.is_err()));
        }
        "outcome" => {
            let mut text = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).expect("standard input");
            // On the main thread or another one.
            let number = arg(3).parse().expect("number");
            let o = match arg(2) {
                "main" => props::fresh_outcome(&text, number),
                _ => on_stack(512 * util::MIB, || props::fresh_outcome(&text, number)),
            };
            println!("{o}");
        }
        "list" => {
            for p in &props {
                let subs: Vec<String> = p
                    .subs
                    .iter()
                    .map(|s| {
                        let kind = if matches!(s.cases, Cases::Enum(..)) { "enum" } else { "random" };
                        format!(
                            "{{\"name\":{},\"kind\":\"{}\",\"quick\":{},\"thorough\":{}}}",
                            json_string(s.name),
                            kind,
                            num_cases(p, s, false),
                            num_cases(p, s, true)
                        )
                    })
                    .collect();
                let assumptions: Vec<String> =
                    p.assumptions.iter().map(|a| json_string(a)).collect();
                println!(
                    "{{\"id\":{},\"rule\":{},\"assumptions\":[{}],\"subs\":[{}]}}",
                    json_string(p.id),
                    json_string(p.rule),
                    assumptions.join(","),
                    subs.join(",")
                );
            }
        }
        _ => {
            eprintln!("usage: rvh worker|case|shrink|choices|list ...");
            std::process::exit(2);
        }
    }
}
