//! A small property-based testing engine.
//!
//! A case is generated by drawing bounded integers ("choices") from a source.
//! The choices are recorded, so a case is reproduced by replaying them, and it
//! is shrunk by shortening and lowering the sequence of choices. Cases that
//! enumerate a finite space draw an index first, which the runner then steps
//! through.

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// SplitMix64 / xoshiro256** random number generator.
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_u64s(data: &[u64]) -> u64 {
    data.iter().fold(0x1234_5678_9abc_def0, |h, &x| mix(h ^ mix(x)))
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| mix(h ^ u64::from(b)))
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut x = seed;
        for v in &mut s {
            x = mix(x);
            *v = x;
        }
        Self(s)
    }

    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

static TRACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// From now on, writes each choice to the standard output when it is made.
pub fn trace_choices() {
    TRACE.store(true, std::sync::atomic::Ordering::Relaxed);
}

fn trace(v: u64) {
    if TRACE.load(std::sync::atomic::Ordering::Relaxed) {
        println!("{v}");
    }
}

enum Input<'a> {
    Random(Rng),
    Replay(&'a [u64]),
    /// Given choices, then random ones, some of which are taken from a list.
    Mixed(&'a [u64], Rng, &'a [u64]),
}

/// A random number below `bound` (any if zero).
fn random_choice(r: &mut Rng, dict: &[u64], bound: u64) -> u64 {
    let x = r.next();
    if !dict.is_empty() && x >> 60 == 0 {
        let d = dict[(x >> 8) as usize % dict.len()].wrapping_add(x & 3).wrapping_sub(1);
        if bound == 0 || d < bound {
            return d;
        }
    }
    let x = r.next();
    if bound == 0 {
        x
    } else {
        x % bound
    }
}

/// Strings and numbers that occur in the source code under test.
struct Vocabulary {
    words: Vec<Vec<char>>,
    numbers: Vec<u64>,
}

fn vocabulary() -> &'static Vocabulary {
    static V: std::sync::OnceLock<Vocabulary> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let mut v = Vocabulary { words: Vec::new(), numbers: Vec::new() };
        let file = std::env::var_os("RVH_WORDS").and_then(|f| std::fs::read_to_string(f).ok());
        for l in file.unwrap_or_default().lines() {
            match l.split_at_checked(2) {
                Some(("n ", n)) => v.numbers.extend(n.parse::<u64>()),
                Some(("s ", codes)) => {
                    let w = codes.split(' ').filter_map(|c| char::from_u32(c.parse().ok()?));
                    v.words.push(w.collect());
                }
                _ => {}
            }
        }
        v
    })
}

/// Now and then, such a number, or one next to it.
fn special(r: &mut Rng, lo: u64, hi: u64) -> Option<u64> {
    let numbers = &vocabulary().numbers;
    if hi - lo < 64 || numbers.is_empty() {
        return None;
    }
    let x = r.next();
    if x >> 59 != 0 {
        return None;
    }
    let n = numbers[(x >> 8) as usize % numbers.len()];
    let n = match x & 7 {
        0 => n.wrapping_sub(1),
        1 => n.wrapping_add(1),
        _ => n,
    };
    (lo..=hi).contains(&n).then_some(n)
}

/// The source of all choices of one case.
pub struct Src<'a> {
    input: Input<'a>,
    /// Choices made so far.
    pub choices: Vec<u64>,
    nontrivial: bool,
    labels: Vec<&'static str>,
    notes: Option<String>,
    identity: Option<u64>,
    /// Extra evaluations made by this case besides the first.
    extra: u64,
}

impl<'a> Src<'a> {
    fn new(input: Input<'a>, notes: bool) -> Self {
        Self {
            input,
            choices: Vec::new(),
            nontrivial: false,
            labels: Vec::new(),
            notes: if notes { Some(String::new()) } else { None },
            identity: None,
            extra: 0,
        }
    }

    /// Draws a number below `bound`. Zero is the simplest.
    pub fn draw(&mut self, bound: u64) -> u64 {
        let v = if bound <= 1 {
            0
        } else {
            match &mut self.input {
                Input::Random(r) => match special(r, 0, bound - 1) {
                    Some(n) => n,
                    None => r.next() % bound,
                },
                Input::Replay(d) => d.get(self.choices.len()).copied().unwrap_or(0).min(bound - 1),
                Input::Mixed(d, r, dict) => match d.get(self.choices.len()) {
                    Some(&v) => v % bound,
                    None => random_choice(r, dict, bound),
                },
            }
        };
        trace(v);
        self.choices.push(v);
        v
    }

    /// Any 64-bit number.
    pub fn any(&mut self) -> u64 {
        let v = match &mut self.input {
            Input::Random(r) => match special(r, 0, u64::MAX) {
                Some(n) => n,
                None => r.next(),
            },
            Input::Replay(d) => d.get(self.choices.len()).copied().unwrap_or(0),
            Input::Mixed(d, r, dict) => match d.get(self.choices.len()) {
                Some(&v) => v,
                None => random_choice(r, dict, 0),
            },
        };
        trace(v);
        self.choices.push(v);
        v
    }

    pub fn below(&mut self, bound: usize) -> usize {
        self.draw(bound as u64) as usize
    }

    /// As `draw`, but where the choice is free, it is `wanted`.
    fn draw_wanted(&mut self, bound: u64, wanted: Option<u64>) -> u64 {
        let free = match &self.input {
            Input::Random(_) => true,
            Input::Replay(_) => false,
            Input::Mixed(d, ..) => d.len() <= self.choices.len(),
        };
        match wanted {
            Some(v) if free && v < bound => {
                trace(v);
                self.choices.push(v);
                v
            }
            _ => self.draw(bound),
        }
    }

    /// A string: mostly one that occurs in the source code under test.
    pub fn word(&mut self) -> String {
        let words = &vocabulary().words;
        let w = match &mut self.input {
            Input::Random(r) | Input::Mixed(_, r, _) if !words.is_empty() => {
                Some(&words[r.next() as usize % words.len()])
            }
            _ => None,
        };
        let n = self.draw_wanted(65, w.map(|w| w.len() as u64));
        (0..n as usize)
            .map(|i| {
                let c = w.and_then(|w| w.get(i)).map(|&c| u64::from(u32::from(c)));
                let c = self.draw_wanted(0x11_0000, c);
                char::from_u32(c as u32).unwrap_or('a')
            })
            .collect()
    }

    /// A number in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        let wanted = match &mut self.input {
            Input::Random(r) => special(r, lo as u64, hi as u64).map(|n| n - lo as u64),
            _ => None,
        };
        lo + self.draw_wanted((hi - lo + 1) as u64, wanted) as usize
    }

    pub fn byte(&mut self) -> u8 {
        self.draw(256) as u8
    }

    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }

    /// True with probability `num / den`.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }

    pub fn pick<'b, T>(&mut self, items: &'b [T]) -> &'b T {
        &items[self.below(items.len())]
    }

    /// An index into `weights`, with these relative probabilities.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total = weights.iter().sum();
        let mut x = self.draw(total);
        for (i, &w) in weights.iter().enumerate() {
            if x < w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }

    /// A size up to `max`, mostly small, sometimes large, and often next to a
    /// power of two or to `max`.
    pub fn size(&mut self, max: usize) -> usize {
        match self.weighted(&[8, 5, 3, 2]) {
            0 => self.range(0, 6.min(max)),
            1 => self.range(0, 40.min(max)),
            2 => {
                let bits = (usize::BITS - max.leading_zeros()) as usize;
                let k = self.below(bits.max(1));
                let d = self.below(3);
                ((1_usize << k) + d).saturating_sub(1).min(max)
            }
            _ => match self.below(3) {
                0 => self.range(0, max),
                1 => max - self.below(3).min(max),
                _ => {
                    let bits = (usize::BITS - max.leading_zeros()) as usize;
                    let m = 1_usize << self.below(bits.max(1));
                    self.range(0, m.min(max))
                }
            },
        }
    }

    /// A 32-bit number, often special.
    pub fn any_u32(&mut self) -> u32 {
        match self.weighted(&[4, 4, 2, 2]) {
            0 => self.draw(8) as u32,
            1 => {
                let k = self.draw(33);
                let base = 1_u64 << k;
                let d = self.draw(5);
                (base + d).wrapping_sub(2) as u32
            }
            2 => u32::MAX - self.draw(4) as u32,
            _ => self.any() as u32,
        }
    }

    /// Calls `item` a geometrically distributed number of times, at most `max`.
    pub fn list<T>(
        &mut self,
        avg: u64,
        max: usize,
        mut item: impl FnMut(&mut Self) -> T,
    ) -> Vec<T> {
        let mut v = Vec::new();
        while v.len() < max && self.chance(avg, avg + 1) {
            v.push(item(self));
        }
        v
    }

    /// Tells what has been generated apart (otherwise its choices do).
    pub fn identity(&mut self, h: u64) {
        self.identity = Some(self.identity.map_or(h, |i| hash_u64s(&[i, h])));
    }

    /// Marks this case as non-trivial by the rule of its property.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }

    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }

    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }

    /// Counts further evaluations made by this case.
    pub fn count(&mut self, n: u64) {
        self.extra += n;
    }

    /// Describes the case, when somebody is going to read it.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(n) = &mut self.notes {
            if n.len() < 1 << 16 {
                n.push_str(&f());
                n.push('\n');
            }
        }
    }
}

pub type Check = fn(&mut Src) -> Result<(), String>;

pub enum Cases {
    /// Random cases: number in the quick and the thorough tier.
    Random(u64, u64),
    /// All indices below the given bounds (quick and thorough), drawn as the
    /// first choice.
    Enum(u64, u64),
}

/// One generated check of a property.
pub struct Sub {
    pub name: &'static str,
    pub cases: Cases,
    pub check: Check,
}

pub fn random(name: &'static str, quick: u64, thorough: u64, check: Check) -> Sub {
    Sub { name, cases: Cases::Random(quick, thorough), check }
}

pub fn enumerate(name: &'static str, quick: u64, thorough: u64, check: Check) -> Sub {
    Sub { name, cases: Cases::Enum(quick, thorough), check }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// Stack of the thread that runs the cases.
    pub stack: usize,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Silences panics, remembering their messages.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| (*s).to_string()))
            .unwrap_or_default();
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic: {msg}{loc}")));
    }));
}

/// Runs `f`, turning a panic into an error.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".to_string())
    })
}

pub struct CaseResult {
    pub choices: Vec<u64>,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub notes: String,
    pub identity: u64,
    pub evaluations: u64,
    pub outcome: Result<(), String>,
}

fn finish(src: Src, outcome: Result<(), String>) -> CaseResult {
    CaseResult {
        nontrivial: src.nontrivial,
        labels: src.labels,
        notes: src.notes.unwrap_or_default(),
        identity: src.identity.unwrap_or_else(|| hash_u64s(&src.choices)),
        evaluations: 1 + src.extra,
        choices: src.choices,
        outcome,
    }
}

fn run(mut src: Src, check: Check) -> CaseResult {
    let outcome = match no_panic(|| check(&mut src)) {
        Ok(r) => r,
        Err(e) => Err(e),
    };
    finish(src, outcome)
}

pub fn run_random(seed: u64, check: Check, notes: bool) -> CaseResult {
    run(Src::new(Input::Random(Rng::new(seed)), notes), check)
}

pub fn run_choices(choices: &[u64], check: Check, notes: bool) -> CaseResult {
    run(Src::new(Input::Replay(choices), notes), check)
}

pub fn run_mixed(prefix: &[u64], seed: u64, dict: &[u64], check: Check) -> CaseResult {
    run(Src::new(Input::Mixed(prefix, Rng::new(seed), dict), false), check)
}

/// The seed of one random case.
pub fn case_seed(seed: u64, prop: &str, sub: &str, case: u64) -> u64 {
    hash_u64s(&[seed, hash_str(prop), hash_str(sub), case])
}

/// Shrinks a failing sequence of choices with at most `budget` runs of `fails`.
pub fn shrink(
    initial: Vec<u64>,
    budget: usize,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    // `fails` returns the choices actually made if the case still fails.
    let mut best = initial;
    let mut left = budget;
    let smaller = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            let mut ok = false;
            if left > 0 && cand != best {
                left -= 1;
                if let Some(used) = fails(&cand) {
                    let used = if smaller(&used, &cand) { used } else { cand };
                    if smaller(&used, &best) {
                        best = used;
                        ok = true;
                    }
                }
            }
            ok
        }};
    }
    loop {
        let before = best.clone();
        // Delete chunks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > 0 && left > 0 {
                let start = i.saturating_sub(size);
                let mut c = best[..start].to_vec();
                c.extend_from_slice(&best[i.min(best.len())..]);
                if !attempt!(c) {
                    // Delete and lower the choice before the chunk, in case it
                    // is a length.
                    if start > 0 && size <= 8 && best[start - 1] > 0 {
                        let mut c = best[..start].to_vec();
                        c[start - 1] -= 1;
                        c.extend_from_slice(&best[i.min(best.len())..]);
                        attempt!(c);
                    }
                }
                i = start.min(best.len());
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero chunks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && left > 0 {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..end].iter_mut().for_each(|x| *x = 0);
                    attempt!(c);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Lower single choices by bisection.
        let mut i = 0;
        while i < best.len() && left > 0 {
            let mut lo = 0;
            while i < best.len() && lo < best[i] && left > 0 {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt!(c) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if left == 0 || best == before {
            return best;
        }
    }
}

/// Bounds the time of a worker, for code that is much slower than expected.
///
/// A check may use half of the time that is left, so that each gets its turn.
pub struct Clock {
    end: std::time::Instant,
    sub_end: std::time::Instant,
    tick: u32,
}

impl Clock {
    /// Reads the number of seconds from the environment.
    pub fn new() -> Self {
        let seconds = std::env::var("RVH_SECONDS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1_000_000);
        let end = std::time::Instant::now() + std::time::Duration::from_secs(seconds);
        Self { end, sub_end: end, tick: 0 }
    }

    pub fn start_sub(&mut self) {
        let now = std::time::Instant::now();
        let left = self.end.saturating_duration_since(now);
        self.sub_end = now + (left / 2).max(std::time::Duration::from_secs(2));
        self.tick = 0;
    }

    /// Whether the time of the check has been used up.
    pub fn is_over(&mut self) -> bool {
        self.tick += 1;
        // A look at the clock takes longer than some of the cases.
        (self.tick < 16 || self.tick % 16 == 0) && std::time::Instant::now() > self.sub_end
    }
}
