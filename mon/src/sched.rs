//! An allocator that, when switched on, disturbs thread schedules at allocation
//! points and records a signature of how threads interleaved there.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Disturb;

/// 0: off, otherwise one disturbance in about this many allocations.
static RATE: AtomicUsize = AtomicUsize::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
static NEXT: AtomicU64 = AtomicU64::new(1);
static LAST: AtomicU64 = AtomicU64::new(0);
static SIG: AtomicU64 = AtomicU64::new(0);
static SWITCHES: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static ID: Cell<u64> = const { Cell::new(0) };
    static STATE: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static CALM: Cell<bool> = const { Cell::new(false) };
}

fn step() {
    let rate = RATE.load(Relaxed);
    if rate == 0 {
        return;
    }
    if CALM.try_with(|c| c.get()).unwrap_or(true) {
        return;
    }
    let _ = ID.try_with(|id| {
        if id.get() == 0 {
            id.set(NEXT.fetch_add(1, Relaxed));
        }
        let me = id.get();
        let _ = COUNT.try_with(|c| {
            c.set(c.get() + 1);
            if LAST.swap(me, Relaxed) != me {
                SWITCHES.fetch_add(1, Relaxed);
                let s = SIG.load(Relaxed);
                SIG.store(crate::cx::mix(s ^ (me << 32) ^ c.get()), Relaxed);
            }
        });
        let _ = STATE.try_with(|s| {
            let mut x = s.get();
            if x == 0 {
                x = SEED.load(Relaxed) ^ me.wrapping_mul(0x9E3779B97F4A7C15) | 1;
            }
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            s.set(x);
            if (x >> 20) % rate as u64 == 0 {
                match (x >> 50) % 8 {
                    0..=3 => std::thread::yield_now(),
                    4..=6 => {
                        for _ in 0..(x >> 40) % 2000 {
                            std::hint::spin_loop();
                        }
                    }
                    _ => std::thread::sleep(std::time::Duration::from_micros((x >> 44) % 120)),
                }
            }
        });
    });
}

unsafe impl GlobalAlloc for Disturb {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        step();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        step();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        step();
        System.realloc(p, l, n)
    }
}

pub struct Calm;
impl Drop for Calm {
    fn drop(&mut self) {
        let _ = CALM.try_with(|c| c.set(false));
    }
}

/// Leaves this thread undisturbed until the result is dropped.
pub fn calm() -> Calm {
    let _ = CALM.try_with(|c| c.set(true));
    Calm
}

/// Runs `f` with schedules disturbed; returns its result, the schedule signature and
/// the number of thread switches seen.
pub fn disturbed<T>(rate: usize, seed: u64, f: impl FnOnce() -> T) -> (T, u64, u64) {
    SEED.store(seed, Relaxed);
    SIG.store(0, Relaxed);
    LAST.store(0, Relaxed);
    SWITCHES.store(0, Relaxed);
    RATE.store(rate, Relaxed);
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            RATE.store(0, Relaxed);
        }
    }
    let off = Off;
    let r = f();
    drop(off);
    (r, SIG.load(Relaxed), SWITCHES.load(Relaxed))
}
