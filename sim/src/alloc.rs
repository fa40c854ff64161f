//! Counting allocator: what the code under test holds at most, per thread and scope.
//! A simulated process cannot see real memory pressure; this is the seam for it.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

fn add(n: i64) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64);
        let q = unsafe { System.realloc(p, l, n) };
        add(-(l.size() as i64));
        q
    }
}

#[global_allocator]
static A: Counting = Counting;

/// Runs `f`; returns its result and the most memory it held at once beyond what was held before.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let top = PEAK.with(|p| p.get());
    (r, (top - base).max(0) as u64)
}
