//! Random numbers, the guard around calls into the code under test, counters and reporting.
use std::{
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::Mutex,
};

#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r
    }
    /// splitmix64
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// inclusive
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xff51_afd7_ed55_8ccd));
    r.next() ^ r.next().rotate_left(17)
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

/// A refutation of a property with its explanation.
#[derive(Debug)]
pub struct Viol(pub String);
pub type Check<T = ()> = Result<T, Viol>;

#[macro_export]
macro_rules! viol {
    ($($arg:tt)*) => { return Err($crate::util::Viol(format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { return Err($crate::util::Viol(format!($($arg)*))); } };
}


pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = format!("{}", info);
        if let Ok(mut l) = LAST_PANIC.lock() {
            *l = text;
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|l| l.clone()).unwrap_or_default()
}

/// Runs code under test. A panic refutes the property.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Check<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(Viol(format!("{}: {}", what, last_panic()))),
    }
}

pub struct Ctx {
    pub dir: PathBuf,
    pub thorough: bool,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub want_sample: bool,
    pub case_seed: u64,
    pub case_sig: Option<u64>,
}

impl Ctx {
    pub fn count(&mut self, key: &str, n: usize) {
        if let Some(v) = self.counters.get_mut(key) {
            *v += n as u64;
        } else {
            self.counters.insert(key.to_owned(), n as u64);
        }
    }
    /// registers the current case as non-trivial
    pub fn nontrivial(&mut self, signature: u64) {
        self.case_sig = Some(mix(self.case_sig.unwrap_or(0), signature));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            let mut s = f();
            if s.len() > 3000 {
                let mut cut = 3000;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str(" ...");
            }
            self.samples.push(s);
        }
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.dir.join(name)
    }
    pub fn write(&self, name: &str, content: &str) -> PathBuf {
        let p = self.path(name);
        std::fs::write(&p, content).expect("scratch-file");
        p
    }
}

pub fn clear_dir(dir: &Path) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                let _ = std::fs::remove_dir_all(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    a == b || (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

/// Cases are rarely marked (by their seed) for maps with more nodes or edges than numbers of two bytes.
static GIANT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static GIANTS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const GIANT_BITS: u64 = 0xffff;

pub fn giant_seed(case_seed: u64, is_giant: bool) -> u64 {
    if is_giant {
        case_seed & !GIANT_BITS
    } else if case_seed & GIANT_BITS == 0 {
        case_seed | 1
    } else {
        case_seed
    }
}

pub fn mark_giant(case_seed: u64) {
    GIANT.store(case_seed & GIANT_BITS == 0, std::sync::atomic::Ordering::Relaxed);
}

/// The first map of a marked case is giant.
pub fn take_giant() -> bool {
    let is_giant = GIANT.swap(false, std::sync::atomic::Ordering::Relaxed);
    if is_giant {
        GIANTS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    is_giant
}

pub fn giants() -> usize {
    GIANTS.load(std::sync::atomic::Ordering::Relaxed)
}
