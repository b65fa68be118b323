//! The instrumented element: every clone, drop, comparison, hash and formatting of it is observed, each instance
//! has an identity and a liveness state, and any of these callbacks can be told to panic.

use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(usize)]
pub enum Cb {
    Clone,
    Cmp,
    Eq,
    Hash,
    Fmt,
    Iter,
    Drop,
    New,
}
pub const NCB: usize = 8;

pub const M_CLONE: u32 = 1;
pub const M_CMP: u32 = 2;
pub const M_EQ: u32 = 4;
pub const M_HASH: u32 = 8;
pub const M_FMT: u32 = 16;
pub const M_ITER: u32 = 32;
pub const M_NEW: u32 = 128;

/// Payload of an injected panic.
pub struct Injected;
/// Payload of the panic raised when the callback budget of a case is exhausted.
pub struct Budget;

#[derive(Default)]
struct State {
    // 1 live, 2 dropped; index is the instance number.
    state: Vec<u8>,
    live: usize,
    errors: Vec<String>,
    // uid of the clone, in order.
    cloned: Vec<u32>,
}

thread_local! {
    static ST: RefCell<State> = RefCell::new(State::default());
    static COUNT: [Cell<u64>; NCB] = const { [const { Cell::new(0) }; NCB] };
    static MASK: Cell<u32> = const { Cell::new(0) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
}

const MAGIC: u32 = 0xa11c_e5ed;

#[inline]
fn tick(cb: Cb) {
    let _ = COUNT.try_with(|c| c[cb as usize].set(c[cb as usize].get() + 1));
    let mask = MASK.with(Cell::get);
    if mask & (1 << (cb as usize)) != 0 {
        let left = LEFT.with(Cell::get);
        if left == 0 {
            MASK.with(|m| m.set(0));
            if !std::thread::panicking() {
                FIRED.with(|f| f.set(true));
                std::panic::panic_any(Injected);
            }
        } else {
            LEFT.with(|l| l.set(left - 1));
        }
    }
    BUDGET.with(|b| {
        let v = b.get();
        if v == 0 {
            b.set(u64::MAX);
            if !std::thread::panicking() {
                std::panic::panic_any(Budget);
            }
        } else if v != u64::MAX {
            b.set(v - 1);
        }
    });
}

/// Called when an element is built by user code that can panic.
pub fn tick_new() {
    tick(Cb::New);
}
pub fn tick_iter() {
    tick(Cb::Iter);
}

/// Panic at the `k`-th (from 0) of the callbacks selected by `mask`.
pub fn arm(mask: u32, k: u64) {
    MASK.with(|m| m.set(mask));
    LEFT.with(|l| l.set(k));
    FIRED.with(|f| f.set(false));
}
/// Returns whether it fired.
pub fn disarm() -> bool {
    MASK.with(|m| m.set(0));
    FIRED.with(Cell::get)
}
pub fn set_budget(n: u64) {
    BUDGET.with(|b| b.set(n));
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Counts(pub [u64; NCB]);

impl Counts {
    pub fn since(self, o: Counts) -> Counts {
        let mut r = [0; NCB];
        for i in 0..NCB {
            r[i] = self.0[i] - o.0[i];
        }
        Counts(r)
    }
    pub fn get(self, c: Cb) -> u64 {
        self.0[c as usize]
    }
}

pub fn counts() -> Counts {
    COUNT.with(|c| {
        let mut r = [0; NCB];
        for i in 0..NCB {
            r[i] = c[i].get();
        }
        Counts(r)
    })
}

/// Forget everything about earlier instances: only to be called when none is alive, or it is fine to lose track.
pub fn reset() {
    ST.with(|s| *s.borrow_mut() = State::default());
    disarm();
    set_budget(u64::MAX);
}

pub fn live() -> usize {
    ST.with(|s| s.borrow().live)
}
pub fn created() -> usize {
    ST.with(|s| s.borrow().state.len())
}
pub fn live_set() -> Vec<u32> {
    ST.with(|s| {
        s.borrow()
            .state
            .iter()
            .enumerate()
            .filter(|(_, st)| **st == 1)
            .map(|(i, _)| i as u32)
            .collect()
    })
}
pub fn is_live(inst: u32) -> bool {
    ST.with(|s| s.borrow().state.get(inst as usize) == Some(&1))
}
pub fn take_cloned() -> Vec<u32> {
    ST.with(|s| std::mem::take(&mut s.borrow_mut().cloned))
}
/// Violations seen by the element itself (double drop, use of a dropped element).
pub fn take_errors() -> Vec<String> {
    ST.with(|s| std::mem::take(&mut s.borrow_mut().errors))
}
fn error(e: String) {
    let _ = ST.try_with(|s| {
        if let Ok(mut s) = s.try_borrow_mut() {
            if s.errors.len() < 8 {
                s.errors.push(e)
            }
        }
    });
}

fn birth() -> u32 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.state.push(1);
        s.live += 1;
        (s.state.len() - 1) as u32
    })
}

/// The borrowed form of a key.
#[derive(Debug)]
#[repr(transparent)]
pub struct QKey(pub u32);

impl PartialEq for QKey {
    fn eq(&self, o: &QKey) -> bool {
        tick(Cb::Eq);
        self.0 == o.0
    }
}
impl Eq for QKey {}
impl PartialOrd for QKey {
    fn partial_cmp(&self, o: &QKey) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for QKey {
    fn cmp(&self, o: &QKey) -> Ordering {
        tick(Cb::Cmp);
        self.0.cmp(&o.0)
    }
}
impl Hash for QKey {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick(Cb::Hash);
        h.write_u32(self.0)
    }
}

/// Equality, ordering and hashing look at `key` only; `uid` tells equal elements apart, and is kept by clones.
pub struct Tok {
    key: QKey,
    uid: u32,
    inst: u32,
    canary: u32,
}

impl Tok {
    pub fn new(key: u32, uid: u32) -> Tok {
        let inst = birth();
        Tok { key: QKey(key), uid, inst, canary: MAGIC ^ inst }
    }
    #[inline]
    fn ok(&self) {
        if self.canary != MAGIC ^ self.inst {
            error(format!("use of an element that is not alive (inst {})", self.inst));
        }
    }
    #[inline]
    pub fn key(&self) -> u32 {
        self.ok();
        self.key.0
    }
    #[inline]
    pub fn uid(&self) -> u32 {
        self.uid
    }
    #[inline]
    pub fn inst(&self) -> u32 {
        self.inst
    }
    #[inline]
    pub fn pair(&self) -> (u32, u32) {
        self.ok();
        (self.key.0, self.uid)
    }
    #[inline]
    pub fn addr(&self) -> usize {
        self as *const Tok as usize
    }
    /// Change what this very instance says.
    pub fn put(&mut self, key: u32, uid: u32) {
        self.ok();
        self.key = QKey(key);
        self.uid = uid;
    }
}

impl Clone for Tok {
    fn clone(&self) -> Tok {
        self.ok();
        tick(Cb::Clone);
        ST.with(|s| s.borrow_mut().cloned.push(self.uid));
        Tok::new(self.key.0, self.uid)
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let _ = COUNT.try_with(|c| c[Cb::Drop as usize].set(c[Cb::Drop as usize].get() + 1));
        if self.canary != MAGIC ^ self.inst {
            error(format!("element dropped twice, or never built (inst {}, key {})", self.inst, self.key.0));
            return;
        }
        self.canary = 0;
        let inst = self.inst as usize;
        let _ = ST.try_with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                match s.state.get(inst) {
                    Some(1) => {
                        s.state[inst] = 2;
                        s.live -= 1;
                    }
                    Some(_) => s.errors.push(format!("element dropped twice (inst {inst})")),
                    None => s.errors.push(format!("unknown element dropped (inst {inst})")),
                }
            }
        });
    }
}

impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.ok();
        o.ok();
        self.key == o.key
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> Ordering {
        self.ok();
        o.ok();
        self.key.cmp(&o.key)
    }
}
impl Hash for Tok {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.ok();
        self.key.hash(h)
    }
}
impl Borrow<QKey> for Tok {
    fn borrow(&self) -> &QKey {
        &self.key
    }
}
impl fmt::Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        tick(Cb::Fmt);
        write!(f, "{}#{}", self.key.0, self.uid)
    }
}
impl fmt::Display for Tok {
    /// Shows the formatting options as well, when there are any.
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        tick(Cb::Fmt);
        write!(f, "{}#{}", self.key.0, self.uid)?;
        show_options(f)
    }
}

pub fn show_options(f: &mut fmt::Formatter<'_>) -> fmt::Result {
    if f.fill() != ' ' {
        write!(f, "/fill {}", f.fill())?;
    }
    match f.align() {
        None => {}
        Some(fmt::Alignment::Left) => f.write_str("/left")?,
        Some(fmt::Alignment::Right) => f.write_str("/right")?,
        Some(fmt::Alignment::Center) => f.write_str("/center")?,
    }
    if let Some(w) = f.width() {
        write!(f, "/width {w}")?;
    }
    if let Some(p) = f.precision() {
        write!(f, "/precision {p}")?;
    }
    for (b, c) in [
        (f.sign_plus(), "/+"),
        (f.sign_minus(), "/-"),
        (f.alternate(), "/#"),
        (f.sign_aware_zero_pad(), "/0"),
    ] {
        if b {
            f.write_str(c)?;
        }
    }
    Ok(())
}

/// Room for `n` instances, so that the bookkeeping itself does not allocate later on.
pub fn reserve(n: usize) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.state.reserve(n);
        s.cloned.reserve(n);
        s.errors.reserve(16);
    });
}
/// Whether the bookkeeping still fits in what `reserve()` set aside.
pub fn within_reserve() -> bool {
    ST.with(|s| {
        let s = s.borrow();
        s.state.len() < s.state.capacity() && s.cloned.len() < s.cloned.capacity()
    })
}
