//! Deterministic case context: random source, observation counters, distinct-state
//! signatures, the witness trace, and the guard that turns panics into values.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x5851F42D4C957F2D))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// true once in n
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn chance(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.idx(i + 1));
        }
    }
}

/// A stable 64-bit hash (FNV-1a finished by `mix`), the same in every process.
#[derive(Default)]
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        mix(self.0)
    }
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001B3).wrapping_add(0x9E37);
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

pub type Out = Result<(), String>;

pub struct Cx {
    pub rng: Rng,
    pub thorough: bool,
    /// Index of the case in the run; early cases are kept small.
    pub idx: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub sigs: HashSet<u64>,
    pub sig_cap: usize,
    /// Large inputs are made this many times smaller (for slow instrumented builds).
    pub scale: usize,
    /// One dimension of this case's input is huge (a few cases of each run).
    pub giant: bool,
    pub nontrivial: bool,
    pub trace: Option<Vec<String>>,
}

impl Cx {
    pub fn new(thorough: bool) -> Cx {
        Cx {
            rng: Rng::new(0),
            thorough,
            idx: 0,
            counters: BTreeMap::new(),
            sigs: HashSet::new(),
            sig_cap: 1_500_000,
            scale: 1,
            giant: false,
            nontrivial: false,
            trace: None,
        }
    }
    pub fn start(&mut self, prop: &str, seed: u64, idx: u64) {
        self.rng = Rng::new(hash_of(&(prop, seed, idx)));
        self.idx = idx;
        self.nontrivial = false;
        // Each build numbers its cases from a multiple of 10^12. Eight neighbours, one
        // per worker, are giant at growing distances.
        let block = idx % 1_000_000_000_000 / 8 + 10;
        let doubling = block % 50 == 0 && (block / 50).is_power_of_two();
        self.giant = self.scale == 1 && (doubling || self.thorough && block % 1500 == 50);
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }
    /// Something the monitor observed that is not trivial, identified by `t`.
    pub fn sig<T: Hash>(&mut self, t: T) {
        self.nontrivial = true;
        if self.sigs.len() < self.sig_cap {
            self.sigs.insert(hash_of(&t));
        }
    }
    pub fn tracing(&self) -> bool {
        self.trace.is_some()
    }
    pub fn push(&mut self, line: String) {
        if let Some(t) = &mut self.trace {
            t.push(line);
        }
    }
}

/// Record a line of the witness, formatted only when a case is replayed.
#[macro_export]
macro_rules! tr {
    ($cx:expr, $($arg:tt)*) => { if $cx.tracing() { let s = format!($($arg)*); $cx.push(s); } };
}
/// Fail the case unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err(format!($($arg)*)); } };
}

pub struct Panicked {
    pub message: String,
    pub file: String,
    pub line: u32,
}

impl Panicked {
    /// The panic was raised by the harness itself, not by the code under test.
    pub fn is_harness(&self) -> bool {
        !self.file.starts_with('/') || self.file.contains("/mon/src/")
    }
    pub fn show(&self) -> String {
        format!("panic \"{}\" at {}:{}", self.message, self.file, self.line)
    }
}

thread_local! {
    static LAST: RefCell<Option<(String, u32, String)>> = const { RefCell::new(None) };
}
static LAST_ANY: Mutex<Option<(String, u32, String)>> = Mutex::new(None);

pub fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

pub fn quiet_hook() {
    std::panic::set_hook(Box::new(|info| {
        let (file, line) = info
            .location()
            .map_or(("?".to_string(), 0), |l| (l.file().to_string(), l.line()));
        let rec = (file, line, payload_text(info.payload()));
        if std::env::var_os("MON_SHOW_PANICS").is_some() {
            eprintln!("panic {:?}", rec);
        }
        LAST.with(|l| *l.borrow_mut() = Some(rec.clone()));
        if let Ok(mut l) = LAST_ANY.lock() {
            *l = Some(rec);
        }
    }));
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    LAST.with(|l| *l.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(p) => {
            let message = payload_text(&*p);
            // A panic carried over from a worker thread left its record there.
            let rec = LAST
                .with(|l| l.borrow_mut().take())
                .or_else(|| LAST_ANY.lock().ok().and_then(|mut l| l.take()));
            let (file, line, _) = rec.unwrap_or(("/?".into(), 0, String::new()));
            Err(Panicked { message, file, line })
        }
    }
}

/// `guard` for calls that may legitimately refuse by panicking: the harness's own
/// panics are passed on, so that they are never taken for a refusal.
pub fn refused<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    match guard(f) {
        Err(p) if p.is_harness() => resume_unwind(Box::new(format!("HARNESS {}", p.show()))),
        r => r,
    }
}

thread_local! {
    static UNSOUND: RefCell<Option<String>> = RefCell::new(None);
}

/// What strings the library gives out must be: text.
pub trait Texts {
    fn texts(&self, f: &mut dyn FnMut(&str));
}

impl Texts for String {
    fn texts(&self, f: &mut dyn FnMut(&str)) {
        f(self)
    }
}

impl Texts for crate::p_gen::GM {
    fn texts(&self, f: &mut dyn FnMut(&str)) {
        self.src.iter().chain(&self.name).for_each(|s| f(s))
    }
}

/// Notes strings that are not UTF-8.
pub fn sound<T: Texts>(t: T) -> T {
    t.texts(&mut |s| {
        let bytes: &[u8] = std::hint::black_box(s.as_bytes());
        if std::str::from_utf8(bytes).is_err() {
            UNSOUND.with(|u| *u.borrow_mut() = Some(format!("a string that is not UTF-8: {:?}", &bytes[..bytes.len().min(2000)])));
        }
    });
    t
}

/// The string noted last, if any.
pub fn unsound() -> Option<String> {
    UNSOUND.with(|u| u.borrow_mut().take())
}
