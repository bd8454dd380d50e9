//! Watching accesses to static memory (P22). While a load runs, the writable static memory of this program is
//! protected: every access to it faults, is counted, and is then carried out alone, one instruction. Such an
//! access is where two loads on two threads can meet, and where a schedule can stop one of them.
//!
//! Nothing that runs between `protect` and `unprotect` apart from the loads may use a static variable, so
//! all that the handlers need is in thread locals and on the heap.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn mprotect(addr: usize, len: usize, prot: i32) -> i32;
    fn sched_yield() -> i32;
    fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
}

const SEGV: i32 = 11;
const TRAP: i32 = 5;
const STEP: i64 = 0x100;

/// Two threads, one of which runs.
pub struct Turns {
    turn: AtomicUsize,
    done: [AtomicBool; 2],
    /// Nobody waits any more.
    free: AtomicBool,
    pub blocked: AtomicU64,
    /// The stops of the plans that were made.
    pub stops: [AtomicU64; 2],
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Access {
    pub addr: usize,
    pub write: bool,
}

thread_local! {
    static LO: Cell<usize> = const { Cell::new(0) };
    static LEN: Cell<usize> = const { Cell::new(0) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static PLAN: Cell<[u64; 4]> = const { Cell::new([0; 4]) };
    static NEXT: Cell<usize> = const { Cell::new(0) };
    static LAST: Cell<(usize, u32)> = const { Cell::new((0, 0)) };
    static ME: Cell<usize> = const { Cell::new(0) };
    static TURNS: Cell<*const Turns> = const { Cell::new(std::ptr::null()) };
    static TRACE: Cell<*mut Vec<Access>> = const { Cell::new(std::ptr::null_mut()) };
}

fn millis() -> i64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(1, &mut t) };
    t[0] * 1000 + t[1] / 1_000_000
}

fn wait(t: &Turns, me: usize) {
    let start = millis();
    while t.turn.load(SeqCst) != me && !t.free.load(SeqCst) {
        unsafe { sched_yield() };
        if millis() - start > 2000 {
            t.blocked.fetch_add(1, SeqCst);
            t.free.store(true, SeqCst);
        }
    }
}

fn give(t: &Turns, me: usize) {
    if !t.done[1 - me].load(SeqCst) {
        t.turn.store(1 - me, SeqCst);
        wait(t, me);
    }
}

extern "C" fn on_fault(_: i32, info: *const u8, context: *mut u8) {
    unsafe {
        let addr = *(info.add(16) as *const usize);
        let regs = context.add(40) as *mut i64;
        let (lo, len) = (LO.get(), LEN.get());
        if addr < lo || addr >= lo + len {
            // A real one: come back, and die of it.
            sigaction(SEGV, &SigAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 }, std::ptr::null_mut());
            return;
        }
        if ACTIVE.get() {
            let n = COUNT.get() + 1;
            COUNT.set(n);
            let trace = TRACE.get();
            if !trace.is_null() && (*trace).len() < (*trace).capacity() {
                (*trace).push(Access { addr: addr & !7, write: *regs.add(19) & 2 != 0 });
            }
            let turns = TURNS.get();
            if !turns.is_null() && !(*turns).free.load(SeqCst) {
                // Waiting for the other one, if it is always the same place.
                let (last, times) = LAST.get();
                let times = if last == addr { times + 1 } else { 0 };
                LAST.set((addr, times));
                let (plan, next) = (PLAN.get(), NEXT.get());
                if next < plan.len() && plan[next] == n {
                    NEXT.set(next + 1);
                    (*turns).stops[ME.get()].fetch_add(1, SeqCst);
                    give(&*turns, ME.get());
                } else if times == 300 {
                    LAST.set((0, 0));
                    give(&*turns, ME.get());
                }
            }
        }
        mprotect(lo, len, 3);
        *regs.add(17) |= STEP;
    }
}

extern "C" fn on_step(_: i32, _: *const u8, context: *mut u8) {
    unsafe {
        *(context.add(40) as *mut i64).add(17) &= !STEP;
        mprotect(LO.get(), LEN.get(), 0);
    }
}

/// The writable static memory of this program.
fn statics() -> (usize, usize) {
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let (mut lo, mut hi) = (0, 0);
    for l in maps.lines() {
        let w: Vec<&str> = l.split_ascii_whitespace().collect();
        let Some((a, b)) = w[0].split_once('-') else { continue };
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        let own = w.get(5).is_some_and(|p| std::path::Path::new(p) == exe);
        // What is initialised to zero follows, without a name.
        if w[1].starts_with("rw") && ((own && lo == 0) || (lo != 0 && a == hi && (own || w.len() < 6))) {
            if lo == 0 {
                lo = a;
            }
            hi = b;
        }
    }
    assert!(lo < hi, "no static memory");
    (lo, hi - lo)
}

fn install() {
    for (sig, f) in [(SEGV, on_fault as *const () as usize), (TRAP, on_step as *const () as usize)] {
        let a = SigAction { handler: f, mask: [0; 16], flags: 0x4000_0004u32 as i32, restorer: 0 };
        assert_eq!(unsafe { sigaction(sig, &a, std::ptr::null_mut()) }, 0);
    }
}

/// What happens once per thread and is not part of a load.
fn settle() {
    let m: std::collections::HashMap<u8, u8> = Default::default();
    std::hint::black_box(&m);
    let _ = std::panic::catch_unwind(|| std::hint::black_box(0));
}

/// The accesses of `f` to static memory.
pub fn trace<T>(f: impl FnOnce() -> T) -> (T, Vec<Access>) {
    settle();
    let (lo, len) = statics();
    LO.set(lo);
    LEN.set(len);
    install();
    let mut accesses = Vec::with_capacity(100_000);
    TRACE.set(&mut accesses);
    COUNT.set(0);
    unsafe { mprotect(lo, len, 0) };
    ACTIVE.set(true);
    let r = f();
    ACTIVE.set(false);
    unsafe { mprotect(lo, len, 3) };
    TRACE.set(std::ptr::null_mut());
    (r, accesses)
}

/// Runs two functions on two threads, the first one first. Each stops before the accesses of its plan, and the
/// other goes on.
pub fn interleave<T: Send>(f: [Box<dyn FnOnce() -> T + Send>; 2], plans: [[u64; 4]; 2]) -> (Vec<Option<T>>, &'static Turns) {
    let (lo, len) = statics();
    install();
    let turns: &'static Turns = Box::leak(Box::new(Turns {
        turn: AtomicUsize::new(0),
        done: [AtomicBool::new(false), AtomicBool::new(false)],
        free: AtomicBool::new(false),
        blocked: AtomicU64::new(0),
        stops: [AtomicU64::new(0), AtomicU64::new(0)],
    }));
    // The threads are there, and then the memory is protected.
    let ready: &'static AtomicUsize = Box::leak(Box::new(AtomicUsize::new(0)));
    let go: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
    let left: &'static AtomicUsize = Box::leak(Box::new(AtomicUsize::new(2)));
    let out = std::thread::scope(|s| {
        let h: Vec<_> = f
            .into_iter()
            .enumerate()
            .map(|(me, f)| {
                s.spawn(move || {
                    settle();
                    LO.set(lo);
                    LEN.set(len);
                    ME.set(me);
                    PLAN.set(plans[me]);
                    TURNS.set(turns);
                    ready.fetch_add(1, SeqCst);
                    while !go.load(SeqCst) {
                        unsafe { sched_yield() };
                    }
                    wait(turns, me);
                    ACTIVE.set(true);
                    let r = f();
                    ACTIVE.set(false);
                    turns.done[me].store(true, SeqCst);
                    if !turns.done[1 - me].load(SeqCst) {
                        turns.turn.store(1 - me, SeqCst);
                    }
                    left.fetch_sub(1, SeqCst);
                    while left.load(SeqCst) > 0 {
                        unsafe { sched_yield() };
                    }
                    unsafe { mprotect(lo, len, 3) };
                    r
                })
            })
            .collect();
        while ready.load(SeqCst) < 2 {
            unsafe { sched_yield() };
        }
        unsafe { mprotect(lo, len, 0) };
        go.store(true, SeqCst);
        while left.load(SeqCst) > 0 {
            unsafe { sched_yield() };
        }
        unsafe { mprotect(lo, len, 3) };
        h.into_iter().map(|h| h.join().ok()).collect()
    });
    (out, turns)
}
