//! A counting allocator: how much memory one parse asks for.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<u64> = const { Cell::new(0) };
}

pub const LIMIT: usize = 1 << 30;

pub struct Counting;

fn add(n: i64) {
    let _ = ON.try_with(|on| {
        if on.get() {
            CUR.with(|c| {
                c.set(c.get() + n);
                PEAK.with(|p| p.set(p.get().max(c.get())));
            });
        }
    });
}
fn refuse(n: usize) -> bool {
    ON.try_with(|on| {
        if on.get() {
            BIGGEST.with(|b| b.set(b.get().max(n as u64)));
        }
        on.get() && n > LIMIT
    })
    .unwrap_or(false)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse(n) {
            return std::ptr::null_mut();
        }
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Runs f; returns its result, the peak of memory held and the biggest request.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    BIGGEST.with(|c| c.set(0));
    ON.with(|c| c.set(true));
    let x = f();
    ON.with(|c| c.set(false));
    (x, PEAK.with(|p| p.get()) as u64, BIGGEST.with(|b| b.get()))
}
