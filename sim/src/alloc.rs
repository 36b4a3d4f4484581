//! The simulator's global allocator: counts live and peak bytes per thread, and can hand control to the
//! thread scheduler before any allocation, which makes every allocation of the code under test a point
//! where another thread may run.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}

pub struct Counting;

fn grow(n: i64) -> bool {
    let live = LIVE.with(|c| {
        c.set(c.get() + n);
        c.get()
    });
    PEAK.with(|c| c.set(c.get().max(live)));
    COUNT.with(|c| c.set(c.get() + 1));
    crate::sched::alloc_point();
    live <= LIMIT.with(Cell::get)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !grow(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

/// Bytes allocated and not freed by this thread.
pub fn live() -> i64 {
    LIVE.with(Cell::get)
}
pub fn peak() -> i64 {
    PEAK.with(Cell::get)
}
pub fn count() -> u64 {
    COUNT.with(Cell::get)
}
pub fn reset_peak() {
    PEAK.with(|c| c.set(live()));
}
/// Allocations fail once this thread holds more than `n` bytes.
pub fn set_limit(n: i64) {
    LIMIT.with(|c| c.set(n));
}
