//! The global allocator of the explorer. It counts what the current thread requests (P23), and every request
//! is a point where a schedule can stop the thread (P22).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Alloc;

thread_local! {
    /// Bytes asked for less those given back, by this thread.
    static IN_USE: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    /// Stop at this call.
    static STOP_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static STOP: Cell<Option<fn()>> = const { Cell::new(None) };
}

#[inline]
fn count(bytes: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + bytes as u64));
    let _ = CALLS.try_with(|c| {
        let n = c.get() + 1;
        c.set(n);
        if STOP_AT.with(|s| s.get() == n) {
            STOP_AT.with(|s| s.set(u64::MAX));
            if let Some(f) = STOP.with(Cell::get) {
                f();
            }
        }
    });
}

#[inline]
fn in_use_by(bytes: i64) {
    let _ = IN_USE.try_with(|b| b.set(b.get() + bytes));
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size());
        in_use_by(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size());
        in_use_by(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        in_use_by(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n);
        in_use_by(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Bytes this thread holds.
pub fn in_use() -> i64 {
    IN_USE.with(Cell::get)
}

/// Bytes requested by this thread, and how often, since its start.
pub fn counters() -> (u64, u64) {
    (BYTES.with(Cell::get), CALLS.with(Cell::get))
}

/// The `n`th request from now on calls `f` (which may set the next stop).
pub fn stop_after(n: u64, f: fn()) {
    STOP.with(|s| s.set(Some(f)));
    let now = CALLS.with(Cell::get);
    STOP_AT.with(|s| s.set(now.saturating_add(n)));
}

pub fn never_stop() {
    STOP_AT.with(|s| s.set(u64::MAX));
}
