//! Choice-sequence property engine: generation, replay, shrinking, statistics.
//!
//! A case is a function of a tape of small integers. Generation draws the tape from a PRNG and
//! records it; replay reads it back (an exhausted tape answers 0, a too-large entry is clamped),
//! so that any edit of a tape is again a valid case. Shrinking edits tapes.

use std::cell::{Cell, RefCell};
use std::collections::HashSet;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x1000_0000_01B3) ^ b.rotate_left(17));
    r.next();
    r.next() ^ b
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}

/// Source of choices.
pub struct Src {
    rng: Option<Rng>,
    fixed: Vec<u32>,
    pos: usize,
    pub tape: Vec<u32>,
    log: Option<std::fs::File>,
}

const MAX_TAPE: usize = 200_000;

impl Src {
    pub fn from_seed(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), fixed: Vec::new(), pos: 0, tape: Vec::new(), log: None }
    }
    pub fn from_tape(tape: &[u32]) -> Self {
        Src { rng: None, fixed: tape.to_vec(), pos: 0, tape: Vec::new(), log: None }
    }
    /// Also writes every choice to `f` as it is drawn (for cases that kill the process).
    pub fn log_to(&mut self, f: std::fs::File) {
        self.log = Some(f);
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        if self.tape.len() >= MAX_TAPE {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => ((r.next() >> 32).wrapping_mul(n as u64) >> 32) as u32,
            None => {
                let v = self.fixed.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
        };
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        self.tape.push(v);
        v
    }
    pub fn usize_below(&mut self, n: usize) -> usize {
        self.below(n as u32) as usize
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u32) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability `num/den`; shrinks towards false.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize_below(xs.len());
        &xs[i]
    }
    /// Index into a weight table.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// A length, geometric-ish: mostly small, at most `max`.
    pub fn len(&mut self, max: usize) -> usize {
        match self.below(8) {
            0..=3 => self.range(0, max.min(3)),
            4..=6 => self.range(0, max.min(10)),
            _ => self.range(0, max),
        }
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn u64(&mut self) -> u64 {
        ((self.below(1 << 16) as u64) << 48)
            | ((self.below(1 << 16) as u64) << 32)
            | ((self.below(1 << 16) as u64) << 16)
            | self.below(1 << 16) as u64
    }
    /// Fisher-Yates; the all-zero tape is the identity.
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.usize_below(i + 1);
            xs.swap(i, j);
        }
    }
}

/// Per-case observations.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub want_sample: bool,
    pub sample: Option<String>,
    pub labels: Vec<&'static str>,
}
impl Ctx {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            let mut s = f();
            if s.len() > 600 {
                let mut i = 600;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push_str("...");
            }
            self.sample = Some(s);
        }
    }
}

pub type Case = fn(&mut Src, &mut Ctx) -> Result<(), String>;

#[derive(Clone, Copy)]
pub struct Facet {
    pub name: &'static str,
    /// Cases in the quick tier and in the thorough tier.
    pub quick: u64,
    pub thorough: u64,
    pub f: Case,
    pub rule: &'static str,
    /// Runs threads, sleeps or blocks: fewer worker threads, no CPU-time watchdog.
    pub blocking: bool,
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !$c { return Err(format!($($a)+)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($l:expr, $r:expr, $($a:tt)+) => {{
        match (&$l, &$r) {
            (l, r) => {
                if !(*l == *r) {
                    return Err(format!("{}: got {:?}, expected {:?}", format!($($a)+), l, r));
                }
            }
        }
    }};
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| q.get());
        if quiet {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info.location().map(|l| format!(" at {l}")).unwrap_or_default();
            PANIC_MSG.with(|m| *m.borrow_mut() = Some(format!("{msg}{loc}")));
        } else {
            default(info);
        }
    }));
}

/// Runs one case, turning a panic into a failure.
pub fn run_case(f: Case, src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    QUIET.with(|q| q.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(src, ctx)));
    QUIET.with(|q| q.set(false));
    crate::alloc::reset();
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_else(|| "panic".into());
            Err(format!("panicked: {m}"))
        }
    }
}

/// Runs `f`, reporting a panic as `Err`; for use inside cases.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// Smallest failing tape found within a budget. `fails` runs a tape and says whether it fails,
/// returning the tape actually consumed.
pub fn shrink(
    mut best: Vec<u32>,
    budget: usize,
    deadline: std::time::Instant,
    fails: &mut dyn FnMut(&[u32]) -> Option<Vec<u32>>,
) -> Vec<u32> {
    let mut left = budget;
    let mut seen: HashSet<Vec<u32>> = HashSet::new();
    let mut attempt = |cand: Vec<u32>, best: &mut Vec<u32>, left: &mut usize| -> bool {
        if *left == 0 || std::time::Instant::now() > deadline || cand == *best {
            return false;
        }
        if !seen.insert(cand.clone()) {
            return false;
        }
        *left -= 1;
        if let Some(used) = fails(&cand) {
            let new = if used.len() <= cand.len() { used } else { cand };
            let better = (new.len(), new.iter().map(|x| *x as u64).sum::<u64>())
                < (best.len(), best.iter().map(|x| *x as u64).sum::<u64>());
            if better {
                *best = new;
                return true;
            }
        }
        false
    };
    loop {
        let before = (best.len(), best.iter().map(|x| *x as u64).sum::<u64>());
        // Delete blocks, large to small.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt(c, &mut best, &mut left) {
                    i += size.div_ceil(2);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero blocks.
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|x| *x = 0);
                    attempt(c, &mut best, &mut left);
                }
                i += size;
            }
        }
        // Minimise single values.
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u32, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt(c, &mut best, &mut left) {
                    if i >= best.len() {
                        break;
                    }
                    hi = mid.min(best[i]);
                } else {
                    lo = mid + 1;
                }
            }
            // Lower this one and delete the next (length prefix + element).
            if i + 1 < best.len() && best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                c.remove(i + 1);
                attempt(c, &mut best, &mut left);
            }
            i += 1;
        }
        let after = (best.len(), best.iter().map(|x| *x as u64).sum::<u64>());
        if after == before || left == 0 || std::time::Instant::now() > deadline {
            return best;
        }
    }
}
