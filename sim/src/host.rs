//! The simulated host: clock, entropy and memory accounting of the thread a run executes on.
//! The definitions below take the place of the C library's in this executable, so whatever the
//! code under test (or the standard library on its behalf) asks the host for is answered by the
//! simulator: a clock that only moves when the simulation moves it, with skews and jumps, and
//! entropy that is a function of the seed. Threads outside a run see the real host.
use crate::rng::mix_all;
use std::alloc::{GlobalAlloc, Layout, System};
use crate::rng::Rng;
use std::cell::{Cell, RefCell};
use std::sync::Arc;

#[derive(Clone, Copy)]
struct Host {
    active: bool,
    seed: u64,
    tick: u64,
    mono_ns: i64,
    real_ns: i64,
    clock_reads: u64,
    entropy_reads: u64,
    jumps: u64,
}

const OFF: Host = Host { active: false, seed: 0, tick: 0, mono_ns: 0, real_ns: 0, clock_reads: 0, entropy_reads: 0, jumps: 0 };

thread_local! {
    static HOST: Cell<Host> = const { Cell::new(OFF) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    let h = HOST.try_with(|h| h.get()).unwrap_or(OFF);
    if !h.active {
        return syscall(228, clk as i64, ts) as i32;
    }
    let _ = HOST.try_with(|c| {
        let mut h = h;
        h.clock_reads += 1;
        c.set(h);
    });
    let ns = if clk == 0 || clk == 5 { h.real_ns } else { h.mono_ns };
    (*ts).sec = ns.div_euclid(1_000_000_000);
    (*ts).nsec = ns.rem_euclid(1_000_000_000);
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let h = HOST.try_with(|h| h.get()).unwrap_or(OFF);
    if !h.active {
        return syscall(318, buf, len, flags as i64) as isize;
    }
    let _ = HOST.try_with(|c| {
        let mut h = h;
        h.entropy_reads += 1;
        c.set(h);
    });
    for i in 0..len {
        *buf.add(i) = mix_all(&[h.seed, 0xE47, h.entropy_reads, i as u64]) as u8;
    }
    len as isize
}

/// Puts this thread on a simulated host.
pub fn enter(seed: u64) {
    let day = 86_400_000_000_000i64;
    HOST.with(|h| {
        h.set(Host {
            active: true,
            seed,
            mono_ns: (mix_all(&[seed, 1]) % (day as u64)) as i64,
            // Some day between 1971 and 2070.
            real_ns: day * 365 + (mix_all(&[seed, 2]) % (36_000 * day as u64 / 2)) as i64,
            ..OFF
        })
    });
}

/// Leaves it again; (nanoseconds simulated, clock reads, entropy reads, clock jumps).
pub fn leave() -> (u64, u64, u64, u64) {
    HOST.with(|c| {
        let h = c.get();
        c.set(OFF);
        (h.mono_ns as u64 - mix_all(&[h.seed, 1]) % 86_400_000_000_000, h.clock_reads, h.entropy_reads, h.jumps)
    })
}

/// Something of the simulator's own that needs the real clock.
pub fn really<T>(f: impl FnOnce() -> T) -> T {
    let h = HOST.with(|c| c.replace(OFF));
    let r = f();
    HOST.with(|c| c.set(h));
    r
}

/// Time passes: at every API call and every sink operation.
pub fn tick() {
    HOST.with(|c| {
        let mut h = c.get();
        if !h.active {
            return;
        }
        h.tick += 1;
        let r = mix_all(&[h.seed, 3, h.tick]);
        let d = match r & 15 {
            0 => 1 + (r >> 8) % 30_000_000_000,
            1..=4 => 1 + (r >> 8) % 20_000_000,
            _ => 1 + (r >> 8) % 50_000,
        } as i64;
        h.mono_ns += d;
        h.real_ns += d;
        if (r >> 40) % 64 == 0 {
            // The wall clock is set: up to three days either way.
            h.jumps += 1;
            h.real_ns += (mix_all(&[r]) % (6 * 86_400_000_000_000)) as i64 - 3 * 86_400_000_000_000;
        }
        c.set(h);
    });
}

/// Preemption inside the code under test: its allocations are points at which the scheduler of a
/// threaded run may let another thread go on.
struct Preempt {
    yielder: Arc<dyn Fn() + Send + Sync>,
    rng: Rng,
    mean: u64,
    left: u32,
}

thread_local! {
    /// Allocations until the next switch; 0 when not armed.
    static COUNTDOWN: Cell<u64> = const { Cell::new(0) };
    static PREEMPT: RefCell<Option<Preempt>> = const { RefCell::new(None) };
}

pub fn preempt_with(yielder: Arc<dyn Fn() + Send + Sync>, seed: u64) {
    let mut rng = Rng::new(seed);
    let mean = *rng.pick(&[2u64, 10, 40, 150, 600]);
    PREEMPT.with(|p| *p.borrow_mut() = Some(Preempt { yielder, rng, mean, left: 60 }));
}

pub fn preempt_off() {
    disarm();
    PREEMPT.with(|p| *p.borrow_mut() = None);
}

/// Entering the code under test.
pub fn arm() {
    PREEMPT.with(|p| {
        if let Some(p) = p.borrow_mut().as_mut() {
            if p.left > 0 {
                p.left -= 1;
                COUNTDOWN.with(|c| c.set(1 + p.rng.below(2 * p.mean)));
            }
        }
    });
}

/// Leaving it, for good or for the sink.
pub fn disarm() -> u64 {
    COUNTDOWN.with(|c| c.replace(0))
}

pub fn rearm(left: u64) {
    COUNTDOWN.with(|c| c.set(left));
}

#[cold]
fn preempt() {
    if std::thread::panicking() {
        return;
    }
    let y = PREEMPT.with(|p| p.borrow().as_ref().map(|p| p.yielder.clone()));
    if let Some(y) = y {
        y();
        arm();
    }
}

#[inline(always)]
fn allocating() {
    let fire = COUNTDOWN.try_with(|c| {
        let n = c.get();
        if n > 0 {
            c.set(n - 1);
        }
        n == 1
    });
    if fire == Ok(true) {
        preempt();
    }
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|x| x.set(x.get() + l.size() as i64));
        allocating();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|x| x.set(x.get() + l.size() as i64));
        allocating();
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LIVE.try_with(|x| x.set(x.get() + n as i64 - l.size() as i64));
        allocating();
        System.realloc(p, l, n)
    }
}

/// Bytes this thread has allocated and not yet freed.
pub fn live() -> i64 {
    LIVE.with(|x| x.get())
}
