//! C19: no undefined behaviour or memory error, whatever the elements are and do.
//!
//! Random programs over the whole public API with elements of unusual layout (zero-sized, over-aligned, large, with
//! niches, owning memory) and elements whose comparisons and hashes obey no law. Every element that comes out of a
//! collection is read in full and its pattern is checked; nothing may be left at the end. Iterators given to a collection lie about their length, and
//! bounds given to a range change. Meant to be run under
//! AddressSanitizer, LeakSanitizer and Miri, and with the checks of the standard library for unsafe preconditions.
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use core_h::alloc;
use core_h::ctx::{Ctx, Plan, Res, run};
use core_h::ensure;
use core_h::hashers::{HB, Mode, modes};
use core_h::rng::{Rng, mix};
use rpds::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display, Write};
use std::hash::{Hash, Hasher};
use std::num::NonZeroU8;
use std::ops::Bound;
use std::panic::{AssertUnwindSafe, catch_unwind};

thread_local! {
    static BAD: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static LOOKED: Cell<u64> = const { Cell::new(0) };
    static LAWLESS: Cell<u64> = const { Cell::new(0) };
    static STATE: Cell<u64> = const { Cell::new(1) };
}

fn bad(b: bool) {
    if b {
        BAD.with(|c| c.set(c.get() + 1));
    }
}

trait Elem: Clone + Debug + Display + Ord + Hash + 'static {
    const NAME: &'static str;
    const LAWFUL: bool = true;
    fn make(x: u32) -> Self;
    /// Reads all of it.
    fn look(&self);
    fn poke(&mut self, x: u32);
}

macro_rules! plain_display {
    ($t:ty) => {
        impl Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.look();
                f.write_str(Self::NAME)
            }
        }
    };
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Unit;
impl Elem for Unit {
    const NAME: &'static str = "zero-sized";
    fn make(_: u32) -> Unit {
        Unit
    }
    fn look(&self) {}
    fn poke(&mut self, _: u32) {}
}
plain_display!(Unit);

/// No bytes, but an alignment and a destructor.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(128))]
struct ZDrop;
impl ZDrop {
    fn new() -> ZDrop {
        LIVE.with(|l| l.set(l.get() + 1));
        ZDrop
    }
}
impl Clone for ZDrop {
    fn clone(&self) -> ZDrop {
        ZDrop::new()
    }
}
impl Drop for ZDrop {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl Elem for ZDrop {
    const NAME: &'static str = "zero-sized, aligned, dropped";
    fn make(_: u32) -> ZDrop {
        ZDrop::new()
    }
    fn look(&self) {
        bad((self as *const ZDrop as usize) % 128 != 0);
    }
    fn poke(&mut self, _: u32) {}
}
plain_display!(ZDrop);

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Niche(NonZeroU8);
impl Elem for Niche {
    const NAME: &'static str = "one byte with a niche";
    fn make(x: u32) -> Niche {
        Niche(NonZeroU8::new((x % 255) as u8 + 1).unwrap_or(NonZeroU8::MIN))
    }
    fn look(&self) {
        bad(std::hint::black_box(self.0.get()) == 0);
    }
    fn poke(&mut self, x: u32) {
        *self = Niche::make(x);
    }
}
plain_display!(Niche);

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(64))]
struct Aligned {
    x: u32,
    pad: [u8; 3],
    y: u32,
}
impl Elem for Aligned {
    const NAME: &'static str = "aligned to 64 bytes";
    fn make(x: u32) -> Aligned {
        Aligned { x, pad: [x as u8; 3], y: !x }
    }
    fn look(&self) {
        bad((self as *const Aligned as usize) % 64 != 0 || self.y != !self.x || self.pad != [self.x as u8; 3]);
    }
    fn poke(&mut self, x: u32) {
        self.pad = [x as u8; 3];
        self.x = x;
        self.y = !x;
    }
}
plain_display!(Aligned);

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Large([u64; 70]);
impl Elem for Large {
    const NAME: &'static str = "560 bytes";
    fn make(x: u32) -> Large {
        Large(std::array::from_fn(|i| x as u64 + i as u64))
    }
    fn look(&self) {
        bad(self.0.windows(2).any(|w| w[0] + 1 != w[1]));
    }
    fn poke(&mut self, x: u32) {
        *self = Large::make(x);
    }
}
plain_display!(Large);

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Owning(Box<u32>, Option<Box<u32>>, String);
impl Elem for Owning {
    const NAME: &'static str = "owning memory";
    fn make(x: u32) -> Owning {
        Owning(Box::new(x), (x % 3 == 0).then(|| Box::new(!x)), format!("{x}"))
    }
    fn look(&self) {
        bad(self.1.as_ref().is_some_and(|y| **y != !*self.0) || !self.2.bytes().all(|b| b.is_ascii_digit()));
    }
    fn poke(&mut self, x: u32) {
        *self = Owning::make(x);
    }
}
plain_display!(Owning);

/// Compares, hashes and clones as it likes.
#[derive(Debug)]
struct Lawless(Box<u32>, u8);
impl Clone for Lawless {
    fn clone(&self) -> Lawless {
        bad(*self.0 > 1 << 20);
        let x = if self.1 == 7 && state() % 4 == 0 { state() as u32 % 64 } else { *self.0 };
        Lawless(Box::new(x), self.1)
    }
}
fn state() -> u64 {
    LAWLESS.with(|c| c.set(c.get() + 1));
    STATE.with(|s| {
        s.set(mix(s.get().wrapping_add(0x9e37)));
        s.get()
    })
}
impl PartialEq for Lawless {
    fn eq(&self, o: &Lawless) -> bool {
        bad(*self.0 > 1 << 20 || *o.0 > 1 << 20);
        match self.1 {
            0 => state() % 2 == 0,
            1 => false,
            2 => {
                state();
                true
            }
            3 => self.0 != o.0,
            4 => *self.0 == *o.0 && state() % 8 != 0,
            5 => *self.0 <= *o.0,
            _ => self.0 == o.0,
        }
    }
}
impl Eq for Lawless {}
impl PartialOrd for Lawless {
    fn partial_cmp(&self, o: &Lawless) -> Option<Ordering> {
        match state() % 16 {
            0 if self.1 < 3 => None,
            _ => Some(self.cmp(o)),
        }
    }
}
impl Ord for Lawless {
    fn cmp(&self, o: &Lawless) -> Ordering {
        bad(*self.0 > 1 << 20 || *o.0 > 1 << 20);
        let c = self.0.cmp(&o.0);
        match self.1 {
            0 => [Ordering::Less, Ordering::Equal, Ordering::Greater][(state() % 3) as usize],
            1 => Ordering::Less,
            2 => Ordering::Greater,
            3 => c.reverse(),
            4 if state() % 8 == 0 => c.reverse(),
            5 => Ordering::Equal,
            // Not transitive.
            6 => (self.0.wrapping_sub(*o.0) % 16).cmp(&8),
            _ => c,
        }
    }
}
impl Hash for Lawless {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self.1 {
            0 | 6 => h.write_u64(state()),
            1 => h.write_u32(1),
            2 => h.write_u32(state() as u32 % 4),
            _ if state() % 8 == 0 => h.write_u64(state()),
            _ => h.write_u32(*self.0),
        }
    }
}
impl Elem for Lawless {
    const NAME: &'static str = "lawless";
    const LAWFUL: bool = false;
    fn make(x: u32) -> Lawless {
        Lawless(Box::new(x), STATE.with(|s| (s.get() >> 56) as u8 % 8))
    }
    fn look(&self) {
        bad(*self.0 > 1 << 20);
    }
    fn poke(&mut self, x: u32) {
        *self.0 = x;
    }
}
plain_display!(Lawless);

// ------------------------------------------------------------------------------------------------- programs

struct Env<'a> {
    rng: &'a mut Rng,
    universe: usize,
    ops: u64,
    panics: u64,
}

impl Env<'_> {
    fn key<T: Elem>(&mut self) -> T {
        T::make(self.rng.below(self.universe) as u32)
    }
    fn keys<T: Elem>(&mut self, n: usize) -> Vec<T> {
        (0..self.rng.below(if cfg!(miri) { n / 4 + 1 } else { n + 1 })).map(|_| self.key()).collect()
    }
    fn liar<T: Elem>(&mut self, n: usize) -> Liar<T> {
        let v = self.keys(n);
        Liar::new(v, self.rng)
    }
    /// Sizes go up and down in long runs.
    fn grow(&mut self, n: usize) -> bool {
        let up = (self.ops / 24 + n as u64 / 7) % 2 == 0;
        self.rng.chance(if up { 4 } else { 1 }, 5)
    }
}

/// An iterator that is wrong about how much it yields, goes on after its end, or panics.
struct Liar<T> {
    left: std::vec::IntoIter<T>,
    way: usize,
    seed: Cell<u64>,
    /// Says that it ended, or panics, once, when that many are left.
    gap: Option<usize>,
}
impl<T> Liar<T> {
    fn new(v: Vec<T>, rng: &mut Rng) -> Liar<T> {
        let gap = (rng.chance(1, 6)).then(|| rng.below(v.len() + 1));
        Liar { left: v.into_iter(), way: rng.below(10), seed: Cell::new(rng.next()), gap }
    }
}
impl<T> Iterator for Liar<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.gap == Some(self.left.len()) {
            self.gap = None;
            if self.way % 2 == 0 {
                panic!("by an iterator");
            }
            return None;
        }
        self.left.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left.len();
        self.seed.set(mix(self.seed.get().wrapping_add(77)));
        let r = self.seed.get() as usize % 97;
        LAWLESS.with(|c| c.set(c.get() + 1));
        match self.way {
            0 | 1 => (n, Some(n)),
            2 => (0, None),
            3 => (0, Some(0)),
            4 => (n / 2, Some(n / 2)),
            5 => (n + 1 + r, Some(n + 1 + r)),
            6 => (r, Some(usize::MAX)),
            7 => (n + r, Some(n.saturating_sub(1))),
            8 => (n.saturating_sub(1), Some(n.saturating_sub(1))),
            _ => (r, [None, Some(r), Some(r / 2), Some(n)][r % 4]),
        }
    }
}

/// Bounds that differ every time they are asked for.
struct Shifty<T>(Vec<T>, Cell<u64>);
impl<T: Elem> Shifty<T> {
    fn one(&self) -> Bound<&T> {
        LAWLESS.with(|c| c.set(c.get() + 1));
        self.1.set(mix(self.1.get().wrapping_add(5)));
        let r = self.1.get() as usize;
        match self.0.get((r >> 8) % (self.0.len() + 1)) {
            Some(t) if r % 2 == 0 => Bound::Included(t),
            Some(t) => Bound::Excluded(t),
            None => Bound::Unbounded,
        }
    }
}
impl<T: Elem> std::ops::RangeBounds<T> for Shifty<T> {
    fn start_bound(&self) -> Bound<&T> {
        self.one()
    }
    fn end_bound(&self) -> Bound<&T> {
        self.one()
    }
}

fn seen<T: Elem>(t: &T) {
    LOOKED.with(|l| l.set(l.get() + 1));
    t.look();
}

/// Consumes some of an iterator.
fn walk<'a, T: Elem, I: Iterator<Item = &'a T>>(mut it: I, rng: &mut Rng) {
    let n = if rng.chance(1, 3) { usize::MAX } else { rng.below(20) };
    for _ in 0..n {
        match it.next() {
            Some(t) => seen(t),
            None => {
                bad(T::LAWFUL && it.next().is_some());
                break;
            }
        }
    }
    let _ = std::hint::black_box(it.size_hint());
    if rng.chance(1, 3) {
        it.nth(rng.below(5)).into_iter().for_each(seen);
    }
}

fn walk2<'a, T: Elem, I: DoubleEndedIterator<Item = &'a T>>(mut it: I, rng: &mut Rng) {
    let n = if rng.chance(1, 3) { usize::MAX } else { rng.below(20) };
    for _ in 0..n {
        match if rng.chance(1, 2) { it.next() } else { it.next_back() } {
            Some(t) => seen(t),
            None => {
                bad(T::LAWFUL && (it.next().is_some() || it.next_back().is_some()));
                break;
            }
        }
    }
    match rng.below(6) {
        0 => it.by_ref().rev().take(3).for_each(seen),
        1 => it.nth(rng.below(5)).into_iter().for_each(seen),
        2 => it.nth_back(rng.below(5)).into_iter().for_each(seen),
        _ => (),
    }
}

struct Sink(usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let left = self.0.checked_sub(s.len());
        self.0 = left.unwrap_or(0);
        left.map(|_| ()).ok_or(fmt::Error)
    }
}

fn common<C: Clone + PartialEq + Debug + Display>(a: &C, b: &C, rng: &mut Rng) {
    let _ = std::hint::black_box(a == b);
    let mut s = Sink(if rng.chance(1, 2) { usize::MAX } else { rng.below(64) });
    let _ = match rng.below(3) {
        0 => write!(s, "{a}"),
        1 => write!(s, "{a:?}"),
        _ => write!(s, "{b:>3}"),
    };
}
fn ordered<C: Ord + Hash>(a: &C, b: &C) {
    let _ = std::hint::black_box((a.cmp(b), a.partial_cmp(b)));
    let mut h = std::collections::hash_map::DefaultHasher::new();
    a.hash(&mut h);
    std::hint::black_box(h.finish());
}

/// Runs `step` over a pool of versions; a step gets a version to work on and another one.
fn program<C: Clone>(env: &mut Env, start: C, steps: usize, mut step: impl FnMut(&mut C, &C, &mut Env)) {
    let mut pool = vec![start];
    for _ in 0..steps {
        env.ops += 1;
        let i = env.rng.below(pool.len());
        let j = env.rng.below(pool.len());
        match env.rng.below(24) {
            0 if pool.len() < 4 => {
                let c = pool[i].clone();
                pool.push(c);
                continue;
            }
            1 if pool.len() > 1 => {
                pool.swap_remove(i);
                continue;
            }
            _ => (),
        }
        let other = pool[j].clone();
        let c = &mut pool[i];
        let keep = env.rng.chance(1, 3);
        let other = if keep { other } else { c.clone() };
        // An unshared version, to be updated in place.
        let r = if env.rng.chance(1, 2) {
            drop(other);
            let o = c.clone();
            catch_unwind(AssertUnwindSafe(|| step(c, &o, env)))
        } else {
            catch_unwind(AssertUnwindSafe(|| step(c, &other, env)))
        };
        if r.is_err() {
            env.panics += 1;
        }
    }
}

fn list<T: Elem, P: SharedPointerKind + 'static>(env: &mut Env, n: usize) {
    program(env, List::<T, P>::new_with_ptr_kind(), n, |c, o, env| {
        match env.rng.below(14) {
            0..=4 => {
                let k = env.key();
                let g = env.grow(c.len());
                match (g, env.rng.chance(1, 2)) {
                    (true, true) => c.push_front_mut(k),
                    (true, false) => *c = c.push_front(k),
                    (false, true) => {
                        c.drop_first_mut();
                    }
                    (false, false) => *c = c.drop_first().unwrap_or_else(|| c.clone()),
                }
            }
            5 => c.reverse_mut(),
            6 => *c = o.reverse(),
            7 => *c = env.liar::<T>(40).collect(),
            8 => {
                c.first().into_iter().chain(c.last()).for_each(seen);
            }
            9 | 10 => walk(c.iter(), env.rng),
            11 => ordered(c, o),
            12 => {
                // The iterator outlives other versions.
                let mut it = c.iter();
                let d = c.push_front(env.key());
                drop(d);
                it.next().into_iter().for_each(seen);
                let d = c.reverse();
                drop(d);
                it.for_each(seen);
            }
            _ => common(c, o, env.rng),
        }
    });
}

fn stack<T: Elem, P: SharedPointerKind + 'static>(env: &mut Env, n: usize) {
    program(env, Stack::<T, P>::new_with_ptr_kind(), n, |c, o, env| match env.rng.below(10) {
        0..=4 => {
            let k = env.key();
            let g = env.grow(c.size());
            match (g, env.rng.chance(1, 2)) {
                (true, true) => c.push_mut(k),
                (true, false) => *c = c.push(k),
                (false, true) => {
                    c.pop_mut();
                }
                (false, false) => *c = c.pop().unwrap_or_else(|| c.clone()),
            }
        }
        5 => *c = env.liar::<T>(40).collect(),
        6 => c.peek().into_iter().for_each(seen),
        7 => walk(c.iter(), env.rng),
        8 => ordered(c, o),
        _ => common(c, o, env.rng),
    });
}

fn queue<T: Elem, P: SharedPointerKind + 'static>(env: &mut Env, n: usize) {
    program(env, Queue::<T, P>::new_with_ptr_kind(), n, |c, o, env| match env.rng.below(12) {
        0..=6 => {
            let k = env.key();
            let g = env.grow(c.len());
            match (g, env.rng.chance(1, 2)) {
                (true, true) => c.enqueue_mut(k),
                (true, false) => *c = c.enqueue(k),
                (false, true) => {
                    c.dequeue_mut();
                }
                (false, false) => *c = c.dequeue().unwrap_or_else(|| c.clone()),
            }
        }
        7 => *c = env.liar::<T>(40).collect(),
        8 => c.peek().into_iter().for_each(seen),
        9 => {
            let mut it = c.iter();
            it.next().into_iter().for_each(seen);
            let d = c.dequeue();
            drop(d);
            it.for_each(seen);
        }
        10 => ordered(c, o),
        _ => {
            c.iter().for_each(seen);
            common(c, o, env.rng);
        }
    });
}

fn vector<T: Elem, P: SharedPointerKind + 'static>(env: &mut Env, n: usize) {
    let bits = *env.rng.pick(&[1u8, 1, 2, 3, 5]);
    let start = if bits == 5 { Vector::<T, P>::new_with_ptr_kind() } else { Vector::<T, P>::new_with_bits(bits) };
    program(env, start, n, |c, o, env| {
        let len = c.len();
        let i = match env.rng.below(8) {
            0 => *env.rng.pick(&[0, len, len + 1, usize::MAX, usize::MAX / 2, 1 << (usize::BITS / 2)]),
            1 => len.wrapping_sub(1),
            _ => env.rng.below(len + 1),
        };
        match env.rng.below(18) {
            0..=4 => {
                let k = env.key();
                let g = env.grow(len);
                match (g, env.rng.chance(1, 2)) {
                    (true, true) => c.push_back_mut(k),
                    (true, false) => *c = c.push_back(k),
                    (false, true) => {
                        c.drop_last_mut();
                    }
                    (false, false) => *c = c.drop_last().unwrap_or_else(|| c.clone()),
                }
            }
            5 => {
                let k = env.key();
                c.set_mut(i, k);
            }
            6 => {
                let k = env.key();
                *c = o.set(i, k).unwrap_or_else(|| o.clone());
            }
            7 => {
                if let Some(r) = c.get_mut(i) {
                    seen(r);
                    r.poke(env.rng.below(env.universe) as u32);
                }
            }
            8 if i < len => c[i].poke(3),
            9 => c.get(i).into_iter().chain(c.first()).chain(c.last()).for_each(seen),
            10 if i < len => seen(&c[i]),
            11 => {
                let ks = env.liar::<T>(70);
                c.extend(ks);
            }
            12 => *c = env.liar::<T>(100).collect(),
            13 => walk2(c.iter(), env.rng),
            14 => walk(c.iter(), env.rng),
            15 => ordered(c, o),
            16 => {
                let mut it = c.iter();
                it.next_back().into_iter().for_each(seen);
                let d = c.push_back(env.key());
                let e = c.drop_last();
                it.next().into_iter().for_each(seen);
                drop((d, e));
                it.for_each(seen);
            }
            _ => common(c, o, env.rng),
        }
    });
}

fn bounds<T: Elem>(env: &mut Env) -> (Bound<T>, Bound<T>) {
    let mut one = || {
        let k = env.key();
        match env.rng.below(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(k),
            _ => Bound::Excluded(k),
        }
    };
    (one(), one())
}

/// Small degrees make deep tries, which take too long under Miri.
const DEGREES: &[u8] = if cfg!(miri) { &[8, 16, 64, 64] } else { &[2, 2, 4, 16, 64] };

fn hash_map<T: Elem, P: SharedPointerKind + 'static>(env: &mut Env, n: usize, mode: Mode) {
    let d = *env.rng.pick(DEGREES);
    let start = HashTrieMap::<T, T, P, HB>::new_with_hasher_and_degree_and_ptr_kind(HB(mode), d);
    program(env, start, n, |c, o, env| {
        let k: T = env.key();
        match env.rng.below(17) {
            0..=5 => match (env.grow(c.size()), env.rng.chance(1, 2)) {
                (true, true) => c.insert_mut(k, env.key()),
                (true, false) => *c = c.insert(k, env.key()),
                (false, true) => {
                    c.remove_mut(&k);
                }
                (false, false) => *c = c.remove(&k),
            },
            6 => {
                // A key taken from the map, held while it is removed elsewhere.
                let first = c.iter().nth(env.rng.below(c.size() + 1)).map(|(k, _)| k.clone());
                if let Some(k) = first {
                    let held = c.get_key_value(&k);
                    let d = c.remove(&k);
                    if let Some((a, b)) = held {
                        seen(a);
                        seen(b);
                    }
                    *c = d;
                }
            }
            7 => {
                if let Some(v) = c.get_mut(&k) {
                    seen(v);
                    v.poke(env.rng.below(env.universe) as u32);
                }
            }
            8 => c.get(&k).into_iter().for_each(seen),
            9 => {
                if let Some((a, b)) = o.get_key_value(&k) {
                    seen(a);
                    seen(b);
                }
                std::hint::black_box(o.contains_key(&k));
            }
            10 => {
                *c = env.liar::<T>(30).map(|k| (k.clone(), k)).collect();
            }
            11 => walk(c.keys(), env.rng),
            12 => walk(c.values(), env.rng),
            13 => {
                let mut it = c.iter();
                it.next().into_iter().for_each(|(a, _)| seen(a));
                let d = c.remove(&k).insert(env.key(), env.key());
                it.next().into_iter().for_each(|(a, _)| seen(a));
                drop(d);
                it.for_each(|(a, b)| {
                    seen(a);
                    seen(b);
                });
            }
            14 => {
                std::hint::black_box(c.ptr_eq(o));
                if c.contains_key(&k) {
                    seen(&c[&k]);
                }
            }
            _ => common(c, o, env.rng),
        }
    });
}

fn tree_map<T: Elem, P: SharedPointerKind + 'static>(env: &mut Env, n: usize) {
    program(env, RedBlackTreeMap::<T, T, P>::new_with_ptr_kind(), n, |c, o, env| {
        let k: T = env.key();
        match env.rng.below(19) {
            0..=6 => match (env.grow(c.size()), env.rng.chance(1, 2)) {
                (true, true) => c.insert_mut(k, env.key()),
                (true, false) => *c = c.insert(k, env.key()),
                (false, true) => {
                    c.remove_mut(&k);
                }
                (false, false) => *c = c.remove(&k),
            },
            7 => {
                let first = c.iter().nth(env.rng.below(c.size() + 1)).map(|(k, _)| k.clone());
                if let Some(k) = first {
                    let held = c.get_key_value(&k);
                    let d = c.remove(&k);
                    if let Some((a, b)) = held {
                        seen(a);
                        seen(b);
                    }
                    *c = d;
                }
            }
            8 => {
                if let Some(v) = c.get_mut(&k) {
                    seen(v);
                    v.poke(env.rng.below(env.universe) as u32);
                }
            }
            9 => c.get(&k).into_iter().for_each(seen),
            10 => {
                if let Some((a, b)) = o.get_key_value(&k) {
                    seen(a);
                    seen(b);
                }
                std::hint::black_box(o.contains_key(&k));
                for (a, b) in c.first().into_iter().chain(c.last()) {
                    seen(a);
                    seen(b);
                }
            }
            11 => {
                *c = env.liar::<T>(30).map(|k| (k.clone(), k)).collect();
            }
            12 => walk2(c.keys(), env.rng),
            13 => walk2(c.values(), env.rng),
            14 | 15 => {
                if env.rng.chance(1, 4) {
                    let b = Shifty(env.keys::<T>(12), Cell::new(env.rng.next()));
                    c.range(b).for_each(|(a, b)| {
                        seen(a);
                        seen(b);
                    });
                    return;
                }
                let b = bounds::<T>(env);
                let mut it = c.range(b);
                while let Some((a, b)) = if env.rng.chance(1, 2) { it.next() } else { it.next_back() } {
                    seen(a);
                    seen(b);
                }
            }
            16 => {
                let mut it = c.iter();
                it.next().into_iter().for_each(|(a, _)| seen(a));
                let d = c.remove(&k).insert(env.key(), env.key());
                it.next_back().into_iter().for_each(|(a, _)| seen(a));
                drop(d);
                it.for_each(|(a, b)| {
                    seen(a);
                    seen(b);
                });
            }
            17 => {
                std::hint::black_box(c.ptr_eq(o));
                ordered(c, o);
            }
            _ => common(c, o, env.rng),
        }
    });
}

fn hash_set<T: Elem, P: SharedPointerKind + 'static>(env: &mut Env, n: usize, mode: Mode) {
    let d = *env.rng.pick(DEGREES);
    let start = HashTrieSet::<T, P, HB>::new_with_hasher_and_degree_and_ptr_kind(HB(mode), d);
    program(env, start, n, |c, o, env| {
        let k: T = env.key();
        match env.rng.below(12) {
            0..=5 => match (env.grow(c.size()), env.rng.chance(1, 2)) {
                (true, true) => c.insert_mut(k),
                (true, false) => *c = c.insert(k),
                (false, true) => {
                    c.remove_mut(&k);
                }
                (false, false) => *c = c.remove(&k),
            },
            6 => c.get(&k).into_iter().for_each(seen),
            7 => {
                std::hint::black_box((c.contains(&k), c.is_subset(o), c.is_superset(o), c.is_disjoint(o), c.ptr_eq(o)));
            }
            8 => *c = env.liar::<T>(40).collect(),
            9 => walk(c.iter(), env.rng),
            _ => common(c, o, env.rng),
        }
    });
}

fn tree_set<T: Elem, P: SharedPointerKind + 'static>(env: &mut Env, n: usize) {
    program(env, RedBlackTreeSet::<T, P>::new_with_ptr_kind(), n, |c, o, env| {
        let k: T = env.key();
        match env.rng.below(13) {
            0..=5 => match (env.grow(c.size()), env.rng.chance(1, 2)) {
                (true, true) => c.insert_mut(k),
                (true, false) => *c = c.insert(k),
                (false, true) => {
                    c.remove_mut(&k);
                }
                (false, false) => *c = c.remove(&k),
            },
            6 => c.get(&k).into_iter().chain(c.first()).chain(c.last()).for_each(seen),
            7 => {
                std::hint::black_box((c.contains(&k), c.is_subset(o), c.is_superset(o), c.is_disjoint(o), c.ptr_eq(o)));
            }
            8 => *c = env.liar::<T>(40).collect(),
            9 => walk2(c.iter(), env.rng),
            10 => {
                if env.rng.chance(1, 4) {
                    let b = Shifty(env.keys::<T>(12), Cell::new(env.rng.next()));
                    walk2(c.range(b), env.rng);
                } else {
                    let b = bounds::<T>(env);
                    walk2(c.range(b), env.rng);
                }
            }
            11 => ordered(c, o),
            _ => common(c, o, env.rng),
        }
    });
}

fn with<T: Elem, P: SharedPointerKind + 'static>(which: usize, env: &mut Env, n: usize, mode: Mode) {
    match which {
        0 => list::<T, P>(env, n),
        1 => stack::<T, P>(env, n),
        2 => queue::<T, P>(env, n),
        3 => vector::<T, P>(env, n),
        4 => hash_map::<T, P>(env, n, mode),
        5 => tree_map::<T, P>(env, n),
        6 => hash_set::<T, P>(env, n, mode),
        _ => tree_set::<T, P>(env, n),
    }
}
const WHICH: [&str; 8] = ["list", "stack", "queue", "vector", "hash_map", "tree_map", "hash_set", "tree_set"];
const WEIGHT: [usize; 16] = [0, 1, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 5, 5, 6, 7];

fn typed<T: Elem>(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    let which = *rng.pick(&WEIGHT);
    let ptr = rng.below(3);
    let mode = modes(rng);
    let small = cfg!(miri);
    let long = rng.chance(1, if small { 16 } else { 4 });
    let n = if long { rng.range(100, if small { 150 } else { 500 }) } else { rng.range(10, if small { 40 } else { 120 }) };
    let universe = *rng.pick(if small { &[1usize, 3, 8, 30, 30, 100] } else { &[1usize, 3, 8, 30, 100, 1000] });
    let what = format!("{} of elements {}, pointer {ptr}, {n} steps, {universe} keys, {mode:?}", WHICH[which], T::NAME);
    ctx.t(|| what.clone());
    ctx.count(&format!("elements_{}", T::NAME.replace([' ', ','], "_")), 1);
    ctx.count(WHICH[which], 1);
    ctx.fp(rng.next());
    STATE.with(|s| s.set(rng.next()));
    LIVE.with(|l| l.set(0));
    BAD.with(|l| l.set(0));
    let (looked, lawless) = (LOOKED.with(Cell::get), LAWLESS.with(Cell::get));
    let before = alloc::snap().live;
    let (ops, panics) = {
        let mut env = Env { rng, universe, ops: 0, panics: 0 };
        match ptr {
            0 => with::<T, RcK>(which, &mut env, n, mode),
            1 => with::<T, ArcK>(which, &mut env, n, mode),
            _ => with::<T, ArcTK>(which, &mut env, n, mode),
        }
        (env.ops, env.panics)
    };
    let after = alloc::snap().live;
    ctx.eval();
    let looked = LOOKED.with(Cell::get) - looked;
    ctx.count("operations", ops);
    ctx.count("elements_read", looked);
    ctx.count("lawless_callbacks", LAWLESS.with(Cell::get) - lawless);
    ctx.count(if T::LAWFUL { "panics_of_arguments" } else { "panics_of_lawless" }, panics);
    if looked > 0 {
        ctx.nontrivial();
    }
    if ctx.samples.len() < 3 && !ctx.tracing {
        ctx.samples.push(what.clone());
    }
    let bad = BAD.with(Cell::get);
    ensure!(bad == 0, "{bad} elements or iterators were corrupt ({what})");
    let live = LIVE.with(Cell::get);
    ensure!(live == 0, "{live} elements were never dropped, or dropped twice ({what})");
    ensure!(after == before, "{} bytes not returned ({what})", after - before);
    Ok(())
}

fn main() {
    let (quick, thorough) = if cfg!(miri) { (480, 12_000) } else { (60_000, 2_000_000) };
    run(Plan { quick, thorough, hang_secs: 120 }, |ctx, case, rng| match case % 9 {
        0 => typed::<Unit>(ctx, rng),
        1 => typed::<ZDrop>(ctx, rng),
        2 => typed::<Niche>(ctx, rng),
        3 => typed::<Aligned>(ctx, rng),
        4 => typed::<Large>(ctx, rng),
        5 => typed::<Owning>(ctx, rng),
        _ => typed::<Lawless>(ctx, rng),
    });
}
