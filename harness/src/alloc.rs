//! Counting global allocator (per thread): what the collections really allocate, hold and give back.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static LIVE_N: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
    static OVER: Cell<i64> = const { Cell::new(0) };
}

fn add(n: usize) {
    let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
    let _ = LIVE_N.try_with(|c| c.set(c.get() + 1));
    let _ = LIVE.try_with(|c| {
        let v = c.get() + n as i64;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

fn sub(n: usize) {
    let _ = LIVE_N.try_with(|c| c.set(c.get() - 1));
    let _ = LIVE.try_with(|c| c.set(c.get() - n as i64));
}

/// True if the request has to be refused: only used to see an absurd request without executing it.
fn refused(n: usize) -> bool {
    LIMIT.try_with(|l| (n as i64) > l.get()).unwrap_or(false) && {
        let _ = OVER.try_with(|o| o.set(n as i64));
        true
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc_zeroed(l) };
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refused(n) {
            return std::ptr::null_mut();
        }
        let q = unsafe { System.realloc(p, l, n) };
        if !q.is_null() {
            sub(l.size());
            add(n);
        }
        q
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Snap {
    pub allocs: u64,
    pub bytes: u64,
    pub live: i64,
    pub live_n: i64,
}

pub fn snap() -> Snap {
    Snap {
        allocs: ALLOCS.with(Cell::get),
        bytes: BYTES.with(Cell::get),
        live: LIVE.with(Cell::get),
        live_n: LIVE_N.with(Cell::get),
    }
}

pub fn reset_peak() {
    PEAK.with(|p| p.set(LIVE.with(Cell::get)));
}
/// Highest number of bytes held since `reset_peak()`.
pub fn peak() -> i64 {
    PEAK.with(Cell::get)
}
/// Any single request above `n` bytes made by this thread fails from now on.
pub fn set_limit(n: i64) {
    LIMIT.with(|l| l.set(n));
    OVER.with(|l| l.set(0));
}
pub fn over_limit() -> i64 {
    OVER.with(Cell::get)
}
