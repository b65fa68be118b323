//! Pointer kinds that observe what is done with the pointers: a deterministic measure of the nodes and elements an
//! operation touches, and, for the thread-safe one, delays injected at the points where threads can interfere.

use archery::{ArcK, RcK, SharedPointerKind};
use std::cell::Cell;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Touches {
    pub new: u64,
    pub deref: u64,
    pub make_mut: u64,
    pub clone: u64,
    pub drop: u64,
    pub other: u64,
}

impl Touches {
    pub fn total(self) -> u64 {
        self.new + self.deref + self.make_mut + self.clone + self.drop + self.other
    }
    pub fn since(self, o: Touches) -> Touches {
        Touches {
            new: self.new - o.new,
            deref: self.deref - o.deref,
            make_mut: self.make_mut - o.make_mut,
            clone: self.clone - o.clone,
            drop: self.drop - o.drop,
            other: self.other - o.other,
        }
    }
}

thread_local! {
    static T: Cell<Touches> = const { Cell::new(Touches { new: 0, deref: 0, make_mut: 0, clone: 0, drop: 0, other: 0 }) };
    /// Chance in 1024 of a delay around an operation on a pointer; 0 for none.
    static DELAY: Cell<u32> = const { Cell::new(0) };
    static STATE: Cell<u64> = const { Cell::new(1) };
    static DELAYS: Cell<u64> = const { Cell::new(0) };
}

#[inline]
fn upd(f: impl FnOnce(&mut Touches)) {
    let _ = T.try_with(|t| {
        let mut v = t.get();
        f(&mut v);
        t.set(v);
    });
}

pub fn touches() -> Touches {
    T.with(Cell::get)
}

/// Inject delays in this thread from now on.
pub fn delays(chance: u32, seed: u64) {
    DELAY.with(|d| d.set(chance));
    STATE.with(|s| s.set(seed | 1));
}
pub fn delays_made() -> u64 {
    DELAYS.with(Cell::get)
}

#[inline]
fn pause() {
    let c = DELAY.try_with(Cell::get).unwrap_or(0);
    if c == 0 {
        return;
    }
    let r = STATE.with(|s| {
        let mut x = s.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        s.set(x);
        x
    });
    if (r & 1023) < c as u64 {
        DELAYS.with(|d| d.set(d.get() + 1));
        match (r >> 10) & 7 {
            0..=2 => std::thread::yield_now(),
            3..=6 => {
                for _ in 0..((r >> 13) & 255) {
                    std::hint::spin_loop();
                }
            }
            _ => std::thread::sleep(std::time::Duration::from_micros((r >> 13) & 15)),
        }
    }
}

macro_rules! kind {
    ($name:ident, $inner:ty) => {
        #[derive(Debug)]
        pub struct $name($inner);

        unsafe impl SharedPointerKind for $name {
            #[inline]
            fn new<T>(v: T) -> $name {
                upd(|t| t.new += 1);
                $name(<$inner>::new(v))
            }
            #[inline]
            fn from_box<T>(v: Box<T>) -> $name {
                upd(|t| t.new += 1);
                $name(<$inner>::from_box(v))
            }
            #[inline]
            unsafe fn as_ptr<T>(&self) -> *const T {
                upd(|t| t.other += 1);
                unsafe { self.0.as_ptr::<T>() }
            }
            #[inline]
            unsafe fn deref<T>(&self) -> &T {
                upd(|t| t.deref += 1);
                unsafe { self.0.deref::<T>() }
            }
            #[inline]
            unsafe fn try_unwrap<T>(self) -> Result<T, $name> {
                upd(|t| t.other += 1);
                pause();
                let r = unsafe { self.0.try_unwrap::<T>() };
                pause();
                r.map_err($name)
            }
            #[inline]
            unsafe fn get_mut<T>(&mut self) -> Option<&mut T> {
                upd(|t| t.other += 1);
                pause();
                let r = unsafe { self.0.get_mut::<T>() };
                pause();
                r
            }
            #[inline]
            unsafe fn make_mut<T: Clone>(&mut self) -> &mut T {
                upd(|t| t.make_mut += 1);
                pause();
                let r = unsafe { self.0.make_mut::<T>() };
                pause();
                r
            }
            #[inline]
            unsafe fn strong_count<T>(&self) -> usize {
                upd(|t| t.other += 1);
                let r = unsafe { self.0.strong_count::<T>() };
                pause();
                r
            }
            #[inline]
            unsafe fn clone<T>(&self) -> $name {
                upd(|t| t.clone += 1);
                pause();
                $name(unsafe { self.0.clone::<T>() })
            }
            #[inline]
            unsafe fn drop<T>(&mut self) {
                upd(|t| t.drop += 1);
                pause();
                unsafe { self.0.drop::<T>() }
            }
        }
    };
}

kind!(MonRc, RcK);
kind!(MonArc, ArcK);
