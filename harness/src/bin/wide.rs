//! Large collections, and sizes around the thresholds where representations change: the monitors of many of the properties over
//! instrumented elements, at sizes the random histories do not reach.  The mode says which property is judged.
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use core_h::ctx::{Ctx, Plan, Res, args, guard, run};
use core_h::hashers::{HB, MkHasher, Mode, Recorder, ZB};
use core_h::rng::{Rng, mix};
use core_h::{alloc, ensure, ensure_eq};
use rpds::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};
use std::ops::Bound;

// ------------------------------------------------------------------------------------------------- instrumented elements

thread_local! {
    static NEXT: Cell<u32> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    /// Sum over the living instances of a hash of their identity.
    static SUM: Cell<u64> = const { Cell::new(0) };
    static CLONES: Cell<u64> = const { Cell::new(0) };
    /// Callbacks (comparison, hash, clone) left before one panics; negative: never.
    static FUSE: Cell<i64> = const { Cell::new(-1) };
    /// Do not count the comparisons of the harness.
    static BLOWN: Cell<bool> = const { Cell::new(false) };
}

fn tick() {
    FUSE.with(|f| {
        let n = f.get();
        if n < 0 {
            return;
        }
        if n == 0 {
            f.set(-1);
            BLOWN.with(|b| b.set(true));
            std::panic::panic_any(core_h::tok::Injected);
        }
        f.set(n - 1);
    });
}

struct N {
    v: u32,
    id: u32,
}

impl N {
    fn new(v: u32) -> N {
        let id = NEXT.with(|n| {
            n.set(n.get().wrapping_add(1));
            n.get()
        });
        LIVE.with(|l| l.set(l.get() + 1));
        SUM.with(|s| s.set(s.get().wrapping_add(mix(id as u64))));
        N { v, id }
    }
}
impl Drop for N {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
        SUM.with(|s| s.set(s.get().wrapping_sub(mix(self.id as u64))));
    }
}
impl Clone for N {
    fn clone(&self) -> N {
        tick();
        CLONES.with(|c| c.set(c.get() + 1));
        N::new(self.v)
    }
}
impl PartialEq for N {
    fn eq(&self, o: &N) -> bool {
        tick();
        self.v == o.v
    }
}
impl Eq for N {}
impl PartialOrd for N {
    fn partial_cmp(&self, o: &N) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for N {
    fn cmp(&self, o: &N) -> Ordering {
        tick();
        self.v.cmp(&o.v)
    }
}
impl Hash for N {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick();
        h.write_u32(self.v);
    }
}
impl Debug for N {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.v)
    }
}
impl Display for N {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.v)
    }
}
impl serde::Serialize for N {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.v)
    }
}
impl<'de> serde::Deserialize<'de> for N {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<N, D::Error> {
        // As a key of a JSON object it comes as text, which serde_json turns into a number.
        u32::deserialize(d).map(N::new)
    }
}

// ------------------------------------------------------------------------------------------------- collections

#[derive(Clone, Copy, Debug)]
struct Cfg {
    bits: u8,
    degree: u8,
    mode: Mode,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add(u32, u32),
    /// The end (of a sequence), or this key.
    Sub(u32),
    /// Index or key, new value.
    Edit(u32, u32),
    Reverse,
}

#[derive(Clone, PartialEq, Debug)]
enum M {
    Seq(VecDeque<u32>),
    Key(BTreeMap<u32, u32>),
}

impl M {
    fn len(&self) -> usize {
        match self {
            M::Seq(s) => s.len(),
            M::Key(k) => k.len(),
        }
    }
    fn items(&self) -> Vec<(u32, u32)> {
        match self {
            M::Seq(s) => s.iter().map(|x| (*x, 0)).collect(),
            M::Key(k) => k.iter().map(|(a, b)| (*a, *b)).collect(),
        }
    }
}

trait Wide: Clone + PartialEq + Display + Debug + 'static {
    const NAME: &'static str;
    const SEQ: bool = false;
    const PUT_FRONT: bool = false;
    const TAKE_FRONT: bool = false;
    const MAP: bool = false;
    const ORDERED: bool = true;
    const EDITS: bool = false;
    const REVERSES: bool = false;
    /// Constant stack instead of logarithmic etc. do not matter here, but sharing does.
    type Other: Wide;
    fn new(c: &Cfg) -> Self;
    fn len(&self) -> usize;
    fn none(&self) -> bool;
    fn visit(&self, f: &mut dyn FnMut(&N, Option<&N>));
    /// `None`: refused.
    fn apply(&self, op: Op) -> Option<Self>;
    fn apply_mut(&mut self, op: Op) -> bool;
    fn collect(it: &mut dyn Iterator<Item = (N, N)>) -> Self;
    fn extended(&mut self, _: &mut dyn Iterator<Item = N>) -> bool {
        false
    }
    fn iterators(&self, c: &mut Ctx, want: &[(u32, u32)], rng: &mut Rng) -> Res;
    fn order(&self, _: &Self) -> Option<Ordering> {
        None
    }
    fn hash_calls(&self) -> Option<Vec<u8>> {
        None
    }
    fn same(&self, _: &Self) -> Option<bool> {
        None
    }
    fn lookups(&self, m: &M, rng: &mut Rng) -> Res;
    fn json(&self) -> String;
    fn from_json(s: &str) -> Result<Self, String>;
    fn misuse(&self, m: &M) -> Res;
    fn eq_other(&self, _: &Self::Other) -> Option<bool> {
        None
    }
}

fn model_apply<X: Wide>(m: &mut M, op: Op) -> bool {
    match (m, op) {
        (M::Seq(s), Op::Add(v, _)) => {
            if X::PUT_FRONT { s.push_front(v) } else { s.push_back(v) }
            true
        }
        (M::Seq(s), Op::Sub(_)) => if X::TAKE_FRONT { s.pop_front() } else { s.pop_back() }.is_some(),
        (M::Seq(s), Op::Edit(i, v)) => match s.get_mut(i as usize) {
            Some(x) => {
                *x = v;
                true
            }
            None => false,
        },
        (M::Seq(s), Op::Reverse) => {
            s.make_contiguous().reverse();
            true
        }
        (M::Key(k), Op::Add(a, v)) => {
            k.insert(a, if X::MAP { v } else { 0 });
            true
        }
        (M::Key(k), Op::Sub(a)) => k.remove(&a).is_some(),
        (M::Key(k), Op::Edit(a, v)) => match k.get_mut(&a) {
            Some(x) => {
                *x = v;
                true
            }
            None => false,
        },
        (M::Key(_), Op::Reverse) => true,
    }
}

fn forward<'a, T: 'a>(it: impl Iterator<Item = T> + 'a, want: &[(u32, u32)], what: &str, exact: bool, proj: impl Fn(&T) -> (u32, u32), c: &mut Ctx) -> Res {
    let mut it = it;
    let n = want.len();
    for i in 0..n {
        if exact || i % 1000 == 0 {
            let (lo, hi) = it.size_hint();
            ensure!(lo <= n - i && hi.is_none_or(|h| h >= n - i), "{what}: size_hint ({lo}, {hi:?}) with {} elements left of {n}", n - i);
            ensure!(!exact || lo == n - i && hi == Some(lo), "{what}: size_hint ({lo}, {hi:?}) instead of {}, of {n}", n - i);
        }
        match it.next() {
            Some(x) => ensure!(proj(&x) == want[i], "{what}: element {i} of {n} is {:?} instead of {:?}", proj(&x), want[i]),
            None => return Err(format!("{what}: ends after {i} of {n} elements")),
        }
    }
    ensure!(it.next().is_none() && it.next().is_none(), "{what}: more than {n} elements");
    c.count("elements_iterated", n as u64);
    Ok(())
}

fn both<'a, T: 'a, I: DoubleEndedIterator<Item = T> + 'a>(mut it: I, len: impl Fn(&I) -> Option<usize>, want: &[(u32, u32)], what: &str, proj: impl Fn(&T) -> (u32, u32), c: &mut Ctx, rng: &mut Rng) -> Res {
    let (mut a, mut b) = (0, want.len());
    let style = rng.below(6);
    let mut left = 0;
    let mut front = true;
    loop {
        if let Some(l) = len(&it) {
            ensure_eq!(l, b - a, "{what}: announced length at {a}..{b} of {}", want.len());
        }
        if left == 0 {
            left = match style {
                0 => usize::MAX,
                1 => 1,
                2 => rng.range(1, 100),
                3 => rng.range(1, want.len() / 3 + 1),
                4 => *rng.pick(&[31, 32, 33, 1023, 1024, 1025]),
                _ => want.len() / 2 + 1,
            };
            front = if style == 0 { false } else { !front };
        }
        left -= 1;
        let x = if front { it.next() } else { it.next_back() };
        if a == b {
            ensure!(x.is_none(), "{what}: an element {:?} after the ends met at {a} of {}", x.as_ref().map(&proj), want.len());
            ensure!(it.next().is_none() && it.next_back().is_none(), "{what}: elements after the end");
            c.count("elements_iterated", want.len() as u64);
            return Ok(());
        }
        let w = if front {
            a += 1;
            want[a - 1]
        } else {
            b -= 1;
            want[b]
        };
        match x {
            Some(x) => ensure!(proj(&x) == w, "{what}: {:?} instead of {w:?} from the {} at {a}..{b} of {}", proj(&x), if front { "front" } else { "back" }, want.len()),
            None => return Err(format!("{what}: nothing from the {} at {a}..{b} of {}", if front { "front" } else { "back" }, want.len())),
        }
    }
}

fn skips<'a, T: 'a, I: Iterator<Item = T> + 'a>(mk: impl Fn() -> I, want: &[(u32, u32)], what: &str, proj: impl Fn(&T) -> (u32, u32), rng: &mut Rng) -> Res {
    for _ in 0..4 {
        let i = rng.below(want.len() + 2);
        let mut it = mk();
        let x = it.nth(i);
        ensure_eq!(x.as_ref().map(&proj), want.get(i).copied(), "{what}: nth({i}) of {}", want.len());
        if i < want.len() {
            let j = rng.below(want.len() + 2 - i);
            let x = it.nth(j);
            ensure_eq!(x.as_ref().map(&proj), want.get(i + 1 + j).copied(), "{what}: nth({i}) then nth({j}) of {}", want.len());
        }
    }
    ensure_eq!(mk().count(), want.len(), "{what}: count()");
    ensure_eq!(mk().last().as_ref().map(&proj), want.last().copied(), "{what}: last()");
    let s: u64 = mk().fold(7, |h, x| mix(h ^ proj(&x).0 as u64));
    let w: u64 = want.iter().fold(7, |h, x| mix(h ^ x.0 as u64));
    ensure!(s == w, "{what}: fold() over {} elements", want.len());
    Ok(())
}

fn key1(x: &&N) -> (u32, u32) {
    (x.v, 0)
}
fn key2(x: &(&N, &N)) -> (u32, u32) {
    (x.0.v, x.1.v)
}

fn index_panics<R>(what: String, f: impl FnOnce() -> R) -> Res {
    ensure!(guard(f).is_err(), "{what} does not panic");
    Ok(())
}

macro_rules! seq_common {
    ($name:literal, $other:ty) => {
        const NAME: &'static str = $name;
        const SEQ: bool = true;
        type Other = $other;
        fn none(&self) -> bool {
            self.is_empty()
        }
        fn visit(&self, f: &mut dyn FnMut(&N, Option<&N>)) {
            for x in self {
                f(x, None);
            }
        }
        fn collect(it: &mut dyn Iterator<Item = (N, N)>) -> Self {
            it.map(|x| x.0).collect()
        }
        fn order(&self, o: &Self) -> Option<Ordering> {
            Some(self.cmp(o))
        }
        fn hash_calls(&self) -> Option<Vec<u8>> {
            let mut r = Recorder::default();
            self.hash(&mut r);
            Some(r.bytes())
        }
        fn json(&self) -> String {
            serde_json::to_string(self).unwrap()
        }
        fn from_json(s: &str) -> Result<Self, String> {
            serde_json::from_str(s).map_err(|e| e.to_string())
        }
        fn eq_other(&self, o: &$other) -> Option<bool> {
            Some(self == o)
        }
    };
}

impl<P: SharedPointerKind + 'static> Wide for List<N, P> {
    seq_common!("List", List<N, ArcK>);
    const PUT_FRONT: bool = true;
    const TAKE_FRONT: bool = true;
    const REVERSES: bool = true;
    fn new(_: &Cfg) -> Self {
        List::new_with_ptr_kind()
    }
    fn len(&self) -> usize {
        List::len(self)
    }
    fn apply(&self, op: Op) -> Option<Self> {
        match op {
            Op::Add(v, _) => Some(self.push_front(N::new(v))),
            Op::Sub(_) => self.drop_first(),
            Op::Reverse => Some(self.reverse()),
            Op::Edit(..) => None,
        }
    }
    fn apply_mut(&mut self, op: Op) -> bool {
        match op {
            Op::Add(v, _) => self.push_front_mut(N::new(v)),
            Op::Sub(_) => return self.drop_first_mut(),
            Op::Reverse => self.reverse_mut(),
            Op::Edit(..) => return false,
        }
        true
    }
    fn iterators(&self, c: &mut Ctx, want: &[(u32, u32)], rng: &mut Rng) -> Res {
        forward(self.iter(), want, "List::iter", true, key1, c)?;
        skips(|| self.iter(), want, "List::iter", key1, rng)
    }
    fn lookups(&self, m: &M, _: &mut Rng) -> Res {
        let M::Seq(s) = m else { unreachable!() };
        ensure_eq!((self.first().map(|x| x.v), self.last().map(|x| x.v)), (s.front().copied(), s.back().copied()), "ends");
        Ok(())
    }
    fn misuse(&self, _: &M) -> Res {
        Ok(())
    }
}

impl<P: SharedPointerKind + 'static> Wide for Stack<N, P> {
    seq_common!("Stack", Stack<N, RcK>);
    const PUT_FRONT: bool = true;
    const TAKE_FRONT: bool = true;
    fn new(_: &Cfg) -> Self {
        Stack::new_with_ptr_kind()
    }
    fn len(&self) -> usize {
        self.size()
    }
    fn apply(&self, op: Op) -> Option<Self> {
        match op {
            Op::Add(v, _) => Some(self.push(N::new(v))),
            Op::Sub(_) => self.pop(),
            _ => None,
        }
    }
    fn apply_mut(&mut self, op: Op) -> bool {
        match op {
            Op::Add(v, _) => self.push_mut(N::new(v)),
            Op::Sub(_) => return self.pop_mut(),
            _ => return false,
        }
        true
    }
    fn iterators(&self, c: &mut Ctx, want: &[(u32, u32)], rng: &mut Rng) -> Res {
        forward(self.iter(), want, "Stack::iter", true, key1, c)?;
        skips(|| self.iter(), want, "Stack::iter", key1, rng)
    }
    fn lookups(&self, m: &M, _: &mut Rng) -> Res {
        let M::Seq(s) = m else { unreachable!() };
        ensure_eq!(self.peek().map(|x| x.v), s.front().copied(), "peek");
        Ok(())
    }
    fn misuse(&self, _: &M) -> Res {
        Ok(())
    }
}

impl<P: SharedPointerKind + 'static> Wide for Queue<N, P> {
    seq_common!("Queue", Queue<N, RcK>);
    const TAKE_FRONT: bool = true;
    fn new(_: &Cfg) -> Self {
        Queue::new_with_ptr_kind()
    }
    fn len(&self) -> usize {
        Queue::len(self)
    }
    fn apply(&self, op: Op) -> Option<Self> {
        match op {
            Op::Add(v, _) => Some(self.enqueue(N::new(v))),
            Op::Sub(_) => self.dequeue(),
            _ => None,
        }
    }
    fn apply_mut(&mut self, op: Op) -> bool {
        match op {
            Op::Add(v, _) => self.enqueue_mut(N::new(v)),
            Op::Sub(_) => return self.dequeue_mut(),
            _ => return false,
        }
        true
    }
    fn iterators(&self, c: &mut Ctx, want: &[(u32, u32)], rng: &mut Rng) -> Res {
        forward(self.iter(), want, "Queue::iter", false, key1, c)?;
        skips(|| self.iter(), want, "Queue::iter", key1, rng)
    }
    fn lookups(&self, m: &M, _: &mut Rng) -> Res {
        let M::Seq(s) = m else { unreachable!() };
        ensure_eq!(self.peek().map(|x| x.v), s.front().copied(), "peek");
        Ok(())
    }
    fn misuse(&self, _: &M) -> Res {
        Ok(())
    }
}

impl<P: SharedPointerKind + 'static> Wide for Vector<N, P> {
    seq_common!("Vector", Vector<N, ArcTK>);
    const EDITS: bool = true;
    fn new(c: &Cfg) -> Self {
        Vector::new_with_bits(c.bits)
    }
    fn len(&self) -> usize {
        Vector::len(self)
    }
    fn apply(&self, op: Op) -> Option<Self> {
        match op {
            Op::Add(v, _) => Some(self.push_back(N::new(v))),
            Op::Sub(_) => self.drop_last(),
            Op::Edit(i, v) => self.set(i as usize, N::new(v)),
            Op::Reverse => None,
        }
    }
    fn apply_mut(&mut self, op: Op) -> bool {
        match op {
            Op::Add(v, _) => self.push_back_mut(N::new(v)),
            Op::Sub(_) => return self.drop_last_mut(),
            Op::Edit(i, v) => match i % 3 {
                0 => return self.set_mut(i as usize, N::new(v)),
                _ => {
                    return match self.get_mut(i as usize) {
                        Some(x) => {
                            x.v = v;
                            true
                        }
                        None => false,
                    };
                }
            },
            Op::Reverse => return false,
        }
        true
    }
    fn extended(&mut self, it: &mut dyn Iterator<Item = N>) -> bool {
        self.extend(it);
        true
    }
    fn iterators(&self, c: &mut Ctx, want: &[(u32, u32)], rng: &mut Rng) -> Res {
        forward(self.iter(), want, "Vector::iter", true, key1, c)?;
        both(self.iter(), |i| Some(i.len()), want, "Vector::iter", key1, c, rng)?;
        skips(|| self.iter(), want, "Vector::iter", key1, rng)?;
        let w: Vec<_> = want.iter().rev().copied().collect();
        skips(|| self.iter().rev(), &w, "Vector::iter().rev()", key1, rng)
    }
    fn lookups(&self, m: &M, rng: &mut Rng) -> Res {
        let M::Seq(s) = m else { unreachable!() };
        ensure_eq!((self.first().map(|x| x.v), self.last().map(|x| x.v)), (s.front().copied(), s.back().copied()), "ends");
        let n = s.len();
        for k in 0..200 {
            let i = if k < 40 { (n + 20).saturating_sub(k) } else { rng.below(n + 1) };
            ensure_eq!(self.get(i).map(|x| x.v), s.get(i).copied(), "get({i}) of {n}");
        }
        Ok(())
    }
    fn misuse(&self, m: &M) -> Res {
        let n = m.len();
        let top = n.next_power_of_two();
        for i in [n, n + 1, n + 31, n + 32, top, top + 1, top * 2, n + (1 << 20), 1 << 32, (1 << 32) + n / 2, usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX - n] {
            if i < n {
                continue;
            }
            ensure!(self.get(i).is_none(), "get({i}) of {n} gives something");
            ensure!(self.set(i, N::new(1)).is_none(), "set({i}) of {n} gives something");
            let mut y = self.clone();
            ensure!(!y.set_mut(i, N::new(1)), "set_mut({i}) of {n} succeeds");
            ensure!(y.get_mut(i).is_none(), "get_mut({i}) of {n} gives something");
            index_panics(format!("[{i}] of {n}"), || self[i].v)?;
            index_panics(format!("[{i}] of {n} mutably"), || y[i].v = 3)?;
            ensure_eq!(Vector::len(&y), n, "len after misuse at {i}");
        }
        Ok(())
    }
}

macro_rules! map_common {
    ($name:literal) => {
        const NAME: &'static str = $name;
        const MAP: bool = true;
        const EDITS: bool = true;
        fn none(&self) -> bool {
            self.is_empty()
        }
        fn len(&self) -> usize {
            self.size()
        }
        fn visit(&self, f: &mut dyn FnMut(&N, Option<&N>)) {
            for (k, v) in self {
                f(k, Some(v));
            }
        }
        fn apply(&self, op: Op) -> Option<Self> {
            match op {
                Op::Add(k, v) => Some(self.insert(N::new(k), N::new(v))),
                Op::Sub(k) => Some(self.remove(&N::new(k))),
                Op::Edit(k, v) => {
                    let mut y = self.clone();
                    y.get_mut(&N::new(k))?.v = v;
                    Some(y)
                }
                Op::Reverse => None,
            }
        }
        fn apply_mut(&mut self, op: Op) -> bool {
            match op {
                Op::Add(k, v) => {
                    self.insert_mut(N::new(k), N::new(v));
                    true
                }
                Op::Sub(k) => self.remove_mut(&N::new(k)),
                Op::Edit(k, v) => match self.get_mut(&N::new(k)) {
                    Some(x) => {
                        x.v = v;
                        true
                    }
                    None => false,
                },
                Op::Reverse => false,
            }
        }
        fn collect(it: &mut dyn Iterator<Item = (N, N)>) -> Self {
            it.collect()
        }
        fn same(&self, o: &Self) -> Option<bool> {
            Some(self.ptr_eq(o))
        }
        fn lookups(&self, m: &M, rng: &mut Rng) -> Res {
            let M::Key(s) = m else { unreachable!() };
            let some: Vec<u32> = s.keys().copied().step_by((s.len() / 100).max(1)).collect();
            for i in 0..100 {
                let k = if i < some.len() { some[i] } else { rng.next() as u32 };
                let q = N::new(k);
                ensure_eq!(self.get(&q).map(|x| x.v), s.get(&k).copied(), "get of {k} of {}", s.len());
                ensure_eq!(self.get_key_value(&q).map(|x| (x.0.v, x.1.v)), s.get(&k).map(|v| (k, *v)), "get_key_value of {k} of {}", s.len());
                ensure_eq!(self.contains_key(&q), s.contains_key(&k), "contains_key of {k} of {}", s.len());
            }
            Ok(())
        }
        fn json(&self) -> String {
            serde_json::to_string(self).unwrap()
        }
        fn from_json(s: &str) -> Result<Self, String> {
            serde_json::from_str(s).map_err(|e| e.to_string())
        }
        fn misuse(&self, m: &M) -> Res {
            let M::Key(s) = m else { unreachable!() };
            for k in [0, 1, u32::MAX, u32::MAX / 2, 1 << 31] {
                if s.contains_key(&k) {
                    continue;
                }
                let q = N::new(k);
                index_panics(format!("[{k}] of {}", s.len()), || self[&q].v)?;
                ensure!(self.remove(&q) == *self, "removing an absent {k} of {} changes it", s.len());
                let mut y = self.clone();
                ensure!(!y.remove_mut(&q) && y.get_mut(&q).is_none(), "an absent {k} of {} is found", s.len());
                ensure!(y == *self, "removing in place an absent {k} of {} changes it", s.len());
            }
            Ok(())
        }
    };
}

impl<P: SharedPointerKind + 'static, H: MkHasher> Wide for HashTrieMap<N, N, P, H> {
    map_common!("HashTrieMap");
    const ORDERED: bool = false;
    type Other = HashTrieMap<N, N, ArcTK, H>;
    fn new(c: &Cfg) -> Self {
        HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(H::mk(c.mode), c.degree)
    }
    fn iterators(&self, c: &mut Ctx, want: &[(u32, u32)], rng: &mut Rng) -> Res {
        let mut a: Vec<(u32, u32)> = Vec::new();
        forward(self.iter().map(|x| key2(&x)), &{
            a.extend(self.iter().map(|x| key2(&x)));
            let mut b = a.clone();
            b.sort_unstable();
            ensure!(b == want, "iteration of a HashTrieMap of {} entries gives other entries", want.len());
            a.clone()
        }, "HashTrieMap::iter", true, |x| *x, c)?;
        let k: Vec<_> = a.iter().map(|x| (x.0, 0)).collect();
        let v: Vec<_> = a.iter().map(|x| (x.1, 0)).collect();
        forward(self.keys(), &k, "HashTrieMap::keys", true, key1, c)?;
        forward(self.values(), &v, "HashTrieMap::values", true, key1, c)?;
        skips(|| self.iter(), &a, "HashTrieMap::iter", key2, rng)
    }
    fn eq_other(&self, o: &Self::Other) -> Option<bool> {
        Some(self == o)
    }
}

fn bounds(want: &[(u32, u32)], rng: &mut Rng) -> (Bound<u32>, Bound<u32>) {
    let p = |rng: &mut Rng| -> u32 {
        match (want.is_empty(), rng.below(8)) {
            (true, _) | (_, 0) => *rng.pick(&[0, u32::MAX, 1 << 31]),
            (_, 1) => want[0].0.wrapping_add(rng.below(3) as u32).wrapping_sub(1),
            (_, 2) => want[want.len() - 1].0.wrapping_add(rng.below(3) as u32).wrapping_sub(1),
            (_, 3) => want[rng.below(want.len())].0.wrapping_add(1),
            _ => want[rng.below(want.len())].0,
        }
    };
    let (a, b) = (p(rng), p(rng));
    let (a, b) = (a.min(b), a.max(b));
    let a = match rng.below(3) {
        0 => Bound::Unbounded,
        1 => Bound::Included(a),
        _ => Bound::Excluded(a),
    };
    let b = match rng.below(3) {
        0 => Bound::Unbounded,
        1 => Bound::Included(b),
        _ => Bound::Excluded(b),
    };
    match (a, b) {
        (Bound::Excluded(x), Bound::Excluded(y)) if x == y => (Bound::Included(x), b),
        _ => (a, b),
    }
}

fn within(want: &[(u32, u32)], r: &(Bound<u32>, Bound<u32>)) -> Vec<(u32, u32)> {
    use std::ops::RangeBounds;
    want.iter().filter(|x| r.contains(&x.0)).copied().collect()
}

fn as_n(b: Bound<u32>) -> Bound<N> {
    match b {
        Bound::Included(x) => Bound::Included(N::new(x)),
        Bound::Excluded(x) => Bound::Excluded(N::new(x)),
        Bound::Unbounded => Bound::Unbounded,
    }
}

impl<P: SharedPointerKind + 'static> Wide for RedBlackTreeMap<N, N, P> {
    map_common!("RedBlackTreeMap");
    type Other = RedBlackTreeMap<N, N, ArcK>;
    fn new(_: &Cfg) -> Self {
        RedBlackTreeMap::new_with_ptr_kind()
    }
    fn iterators(&self, c: &mut Ctx, want: &[(u32, u32)], rng: &mut Rng) -> Res {
        let k: Vec<_> = want.iter().map(|x| (x.0, 0)).collect();
        let v: Vec<_> = want.iter().map(|x| (x.1, 0)).collect();
        forward(self.iter(), want, "RedBlackTreeMap::iter", true, key2, c)?;
        both(self.iter(), |i| Some(i.len()), want, "RedBlackTreeMap::iter", key2, c, rng)?;
        both(self.keys(), |i| Some(i.len()), &k, "RedBlackTreeMap::keys", key1, c, rng)?;
        both(self.values(), |i| Some(i.len()), &v, "RedBlackTreeMap::values", key1, c, rng)?;
        for _ in 0..3 {
            let r = bounds(want, rng);
            let w = within(want, &r);
            let rn = (as_n(r.0), as_n(r.1));
            both(self.range::<N, _>((rn.0.as_ref(), rn.1.as_ref())), |_| None, &w, &format!("RedBlackTreeMap::range({r:?})"), key2, c, rng)?;
        }
        skips(|| self.iter(), want, "RedBlackTreeMap::iter", key2, rng)
    }
    fn order(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn hash_calls(&self) -> Option<Vec<u8>> {
        let mut r = Recorder::default();
        self.hash(&mut r);
        Some(r.bytes())
    }
    fn eq_other(&self, o: &Self::Other) -> Option<bool> {
        Some(self == o)
    }
}

macro_rules! set_common {
    ($name:literal) => {
        const NAME: &'static str = $name;
        fn none(&self) -> bool {
            self.is_empty()
        }
        fn len(&self) -> usize {
            self.size()
        }
        fn visit(&self, f: &mut dyn FnMut(&N, Option<&N>)) {
            for k in self {
                f(k, None);
            }
        }
        fn apply(&self, op: Op) -> Option<Self> {
            match op {
                Op::Add(k, _) => Some(self.insert(N::new(k))),
                Op::Sub(k) => Some(self.remove(&N::new(k))),
                _ => None,
            }
        }
        fn apply_mut(&mut self, op: Op) -> bool {
            match op {
                Op::Add(k, _) => {
                    self.insert_mut(N::new(k));
                    true
                }
                Op::Sub(k) => self.remove_mut(&N::new(k)),
                _ => false,
            }
        }
        fn collect(it: &mut dyn Iterator<Item = (N, N)>) -> Self {
            it.map(|x| x.0).collect()
        }
        fn same(&self, o: &Self) -> Option<bool> {
            Some(self.ptr_eq(o))
        }
        fn lookups(&self, m: &M, rng: &mut Rng) -> Res {
            let M::Key(s) = m else { unreachable!() };
            let some: Vec<u32> = s.keys().copied().step_by((s.len() / 100).max(1)).collect();
            for i in 0..100 {
                let k = if i < some.len() { some[i] } else { rng.next() as u32 };
                let q = N::new(k);
                ensure_eq!(self.get(&q).map(|x| x.v), s.get(&k).map(|_| k), "get of {k} of {}", s.len());
                ensure_eq!(self.contains(&q), s.contains_key(&k), "contains of {k} of {}", s.len());
            }
            Ok(())
        }
        fn json(&self) -> String {
            serde_json::to_string(self).unwrap()
        }
        fn from_json(s: &str) -> Result<Self, String> {
            serde_json::from_str(s).map_err(|e| e.to_string())
        }
        fn misuse(&self, m: &M) -> Res {
            let M::Key(s) = m else { unreachable!() };
            for k in [0, 1, u32::MAX, u32::MAX / 2, 1 << 31] {
                if s.contains_key(&k) {
                    continue;
                }
                let q = N::new(k);
                ensure!(self.remove(&q) == *self, "removing an absent {k} of {} changes it", s.len());
                let mut y = self.clone();
                ensure!(!y.remove_mut(&q) && !y.contains(&q), "an absent {k} of {} is found", s.len());
                ensure!(y == *self, "removing in place an absent {k} of {} changes it", s.len());
            }
            Ok(())
        }
        fn eq_other(&self, o: &Self::Other) -> Option<bool> {
            Some(self == o)
        }
    };
}

impl<P: SharedPointerKind + 'static, H: MkHasher> Wide for HashTrieSet<N, P, H> {
    set_common!("HashTrieSet");
    const ORDERED: bool = false;
    type Other = HashTrieSet<N, ArcTK, H>;
    fn new(c: &Cfg) -> Self {
        HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(H::mk(c.mode), c.degree)
    }
    fn iterators(&self, c: &mut Ctx, want: &[(u32, u32)], rng: &mut Rng) -> Res {
        let a: Vec<(u32, u32)> = self.iter().map(|x| key1(&x)).collect();
        let mut b = a.clone();
        b.sort_unstable();
        ensure!(b == want, "iteration of a HashTrieSet of {} elements gives others", want.len());
        forward(self.iter(), &a, "HashTrieSet::iter", true, key1, c)?;
        skips(|| self.iter(), &a, "HashTrieSet::iter", key1, rng)
    }
}

impl<P: SharedPointerKind + 'static> Wide for RedBlackTreeSet<N, P> {
    set_common!("RedBlackTreeSet");
    type Other = RedBlackTreeSet<N, ArcTK>;
    fn new(_: &Cfg) -> Self {
        RedBlackTreeSet::new_with_ptr_kind()
    }
    fn iterators(&self, c: &mut Ctx, want: &[(u32, u32)], rng: &mut Rng) -> Res {
        forward(self.iter(), want, "RedBlackTreeSet::iter", true, key1, c)?;
        both(self.iter(), |i| Some(i.len()), want, "RedBlackTreeSet::iter", key1, c, rng)?;
        for _ in 0..3 {
            let r = bounds(want, rng);
            let w = within(want, &r);
            let rn = (as_n(r.0), as_n(r.1));
            both(self.range::<N, _>((rn.0.as_ref(), rn.1.as_ref())), |_| None, &w, &format!("RedBlackTreeSet::range({r:?})"), key1, c, rng)?;
        }
        ensure_eq!((self.first().map(|x| x.v), self.last().map(|x| x.v)), (want.first().map(|x| x.0), want.last().map(|x| x.0)), "ends");
        skips(|| self.iter(), want, "RedBlackTreeSet::iter", key1, rng)
    }
    fn order(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn hash_calls(&self) -> Option<Vec<u8>> {
        let mut r = Recorder::default();
        self.hash(&mut r);
        Some(r.bytes())
    }
}

// ------------------------------------------------------------------------------------------------- what every property does

fn contents<X: Wide>(x: &X) -> Vec<(u32, u32)> {
    let mut v = Vec::with_capacity(x.len());
    x.visit(&mut |a, b| v.push((a.v, b.map_or(0, |b| b.v))));
    if !X::ORDERED {
        v.sort_unstable();
    }
    v
}

fn agree<X: Wide>(x: &X, m: &M, rng: &mut Rng, when: &str) -> Res {
    let n = m.len();
    ensure_eq!((x.len(), x.none()), (n, n == 0), "size of a {}, {when}", X::NAME);
    let (a, b) = (contents(x), m.items());
    if a != b {
        let i = a.iter().zip(&b).position(|(a, b)| a != b).unwrap_or(a.len().min(b.len()));
        return Err(format!("a {} of {n}, {when}: element {i} of its iteration is {:?} instead of {:?}", X::NAME, a.get(i), b.get(i)));
    }
    x.lookups(m, rng).map_err(|e| format!("a {} of {n}, {when}: {e}", X::NAME))
}

struct Case {
    cfg: Cfg,
    n: usize,
    /// Keys are spread over the whole range.
    spread: bool,
}

impl Case {
    fn key(&self, i: u32) -> u32 {
        if self.spread { i.wrapping_mul(0x9E37_79B1) } else { i }
    }
    fn build<X: Wide>(&self, rng: &mut Rng) -> (X, M) {
        let mut m = if X::SEQ { M::Seq(VecDeque::new()) } else { M::Key(BTreeMap::new()) };
        let mut x = X::new(&self.cfg);
        let style = rng.below(4);
        if style == 0 && !matches!(self.cfg.bits, 1..=4) {
            // By iterator.
            let mut it = (0..self.n as u32).map(|i| (N::new(self.key(i)), N::new(i)));
            x = X::collect(&mut it);
            for i in 0..self.n as u32 {
                let op = Op::Add(self.key(i), i);
                model_apply::<X>(&mut m, op);
            }
            if X::PUT_FRONT {
                model_apply::<X>(&mut m, Op::Reverse);
            }
            return (x, m);
        }
        for i in 0..self.n as u32 {
            let op = Op::Add(self.key(i), i);
            x.apply_mut(op);
            model_apply::<X>(&mut m, op);
        }
        if style == 1 {
            // Up a little, down a little.
            for i in 0..64.min(self.n as u32) {
                for op in [Op::Sub(self.key(i)), Op::Add(self.key(i), i + 1)] {
                    x.apply_mut(op);
                    model_apply::<X>(&mut m, op);
                }
            }
        }
        if style == 2 && X::SEQ {
            let k = *rng.pick(&[1, 2, 31, 32, 33, 1000]);
            for i in 0..k {
                let op = Op::Add(i, i);
                x.apply_mut(op);
                model_apply::<X>(&mut m, op);
            }
            for i in 0..k {
                x.apply_mut(Op::Sub(i));
                model_apply::<X>(&mut m, Op::Sub(i));
            }
        }
        (x, m)
    }
    fn op<X: Wide>(&self, m: &M, rng: &mut Rng) -> Op {
        let n = m.len();
        let k = if X::SEQ { rng.next() as u32 } else { self.key(rng.below(self.n + self.n / 8 + 2) as u32) };
        match rng.below(if X::REVERSES { 41 } else { 40 }) {
            0..=15 => Op::Add(k, rng.next() as u32),
            16..=28 => Op::Sub(k),
            29..=39 if X::EDITS => {
                if !X::SEQ {
                    return Op::Edit(k, rng.next() as u32);
                }
                let i = match rng.below(4) {
                    0 => (n + 1).saturating_sub(rng.below(40)),
                    1 => (1usize << rng.below(21)) + rng.below(3) - 1,
                    _ => rng.below(n + 1),
                };
                Op::Edit(i as u32, rng.next() as u32)
            }
            40 => Op::Reverse,
            _ => Op::Add(k, 1),
        }
    }
}

fn describe<X: Wide>(c: &mut Ctx, k: &Case) {
    c.fp(X::NAME.len() as u64 ^ (k.n as u64) << 8 ^ (k.cfg.bits as u64) << 40 ^ (k.cfg.degree as u64) << 48);
    c.nontrivial();
    c.max("size", k.n as u64);
    let d = format!("{} of {} numbers, {:?}{}", X::NAME, k.n, k.cfg, if k.spread { ", keys spread" } else { "" });
    if c.samples.len() < 4 {
        c.samples.push(d.clone());
    }
    c.t(|| d);
}

fn some_ops<X: Wide>(c: &mut Ctx, k: &Case, x: &mut X, m: &mut M, count: usize, rng: &mut Rng) -> Res {
    for _ in 0..count {
        let op = k.op::<X>(m, rng);
        c.t(|| format!("{op:?}"));
        let n = m.len();
        let w = model_apply::<X>(m, op);
        if rng.chance(1, 5) {
            match x.apply(op) {
                Some(y) => *x = y,
                None => ensure!(!w, "{op:?} on a {} of {n} is refused", X::NAME),
            }
        } else {
            let r = x.apply_mut(op);
            ensure_eq!(r, w, "{op:?} in place on a {} of {n}", X::NAME);
        }
    }
    Ok(())
}

// C01
fn persistence<X: Wide>(c: &mut Ctx, k: &Case, rng: &mut Rng) -> Res {
    let (x, m) = k.build::<X>(rng);
    let mut vs = vec![(x, m)];
    for _ in 0..rng.range(3, 6) {
        let i = rng.below(vs.len());
        let (mut y, mut m) = vs[i].clone();
        let ops = *rng.pick(&[1, 3, 30, 200]);
        some_ops(c, k, &mut y, &mut m, ops, rng)?;
        vs.push((y, m));
        if vs.len() > 3 && rng.chance(1, 3) {
            vs.swap_remove(0);
        }
        c.count("versions_made", 1);
    }
    while let Some((x, m)) = vs.pop() {
        c.eval();
        agree(&x, &m, rng, "with versions derived from it or it from them")?;
        drop(x);
        if let Some((x, m)) = vs.first() {
            c.eval();
            agree(x, m, rng, "after a related version was dropped")?;
        }
    }
    Ok(())
}

// C08
fn iteration<X: Wide>(c: &mut Ctx, k: &Case, rng: &mut Rng) -> Res {
    let (mut x, mut m) = k.build::<X>(rng);
    for _ in 0..2 {
        c.eval();
        let w = m.items();
        x.iterators(c, &w, rng)?;
        let ops = rng.range(1, 60);
        some_ops(c, k, &mut x, &mut m, ops, rng)?;
    }
    Ok(())
}

// C09
fn relations<X: Wide>(c: &mut Ctx, k: &Case, rng: &mut Rng) -> Res {
    let (x, m) = k.build::<X>(rng);
    let check = |c: &mut Ctx, a: &X, ma: &M, b: &X, mb: &M, what: &str| -> Res {
        c.eval();
        let w = ma == mb;
        ensure_eq!((a == b, b == a, a != b), (w, w, !w), "equality of two {} of {} and {}, {what}", X::NAME, ma.len(), mb.len());
        if let Some(o) = a.order(b) {
            let wo = ma.items().cmp(&mb.items());
            ensure_eq!((o, b.order(a)), (wo, Some(wo.reverse())), "order of two {} of {} and {}, {what}", X::NAME, ma.len(), mb.len());
        }
        if let (Some(h), Some(i)) = (a.hash_calls(), b.hash_calls()) {
            ensure_eq!(h == i, w, "whether the hashes of two {} of {} and {} are the same, {what}", X::NAME, ma.len(), mb.len());
        }
        Ok(())
    };
    let (y, my) = k.build::<X>(rng);
    check(c, &x, &m, &y, &my, "built apart")?;
    check(c, &x, &m, &x.clone(), &m, "cloned")?;
    // One element differs, anywhere.
    for _ in 0..3 {
        let (mut z, mut mz) = (y.clone(), my.clone());
        let what = if X::EDITS && rng.chance(3, 4) {
            let any = rng.below(k.n.max(1));
            let i = *rng.pick(&[0, k.n.saturating_sub(1), any, k.n / 2]) as u32;
            let i = if X::SEQ { i } else { k.key(i) };
            let op = Op::Edit(i, 4_000_000_000 + rng.below(5) as u32);
            z.apply_mut(op);
            model_apply::<X>(&mut mz, op);
            "one value differing"
        } else if !X::SEQ {
            for op in [Op::Sub(k.key(rng.below(k.n + 1) as u32)), Op::Add(4_000_000_000 + rng.below(99) as u32, 1)] {
                z.apply_mut(op);
                model_apply::<X>(&mut mz, op);
            }
            "one key differing"
        } else {
            // Rebuild with another element at some place.
            let mut w: Vec<u32> = my.items().iter().map(|x| x.0).collect();
            if !w.is_empty() {
                let i = rng.below(w.len());
                w[i] ^= 1 << rng.below(32);
            }
            z = X::collect(&mut w.iter().map(|v| (N::new(*v), N::new(0))));
            mz = M::Seq(w.into_iter().collect());
            "one element differing"
        };
        check(c, &x, &m, &z, &mz, what)?;
    }
    let mut it = m.items().into_iter().map(|(a, b)| (N::new(a), N::new(b))).collect::<Vec<_>>().into_iter();
    let other = <X::Other as Wide>::collect(&mut it);
    if let Some(e) = x.eq_other(&other) {
        // Hash collections made by an iterator have the default hasher, others may have another one.
        ensure!(e, "a {} of {} differs from one with another pointer kind and the same contents", X::NAME, m.len());
    }
    Ok(())
}

// C10
fn round_trip<X: Wide>(c: &mut Ctx, k: &Case, rng: &mut Rng) -> Res {
    let (x, m) = k.build::<X>(rng);
    c.eval();
    let j = x.json();
    let mut items = Vec::new();
    x.visit(&mut |a, b| items.push((a.v, b.map_or(0, |b| b.v))));
    let want = if X::MAP {
        format!("{{{}}}", items.iter().map(|(a, b)| format!("\"{a}\":{b}")).collect::<Vec<_>>().join(","))
    } else {
        format!("[{}]", items.iter().map(|(a, _)| a.to_string()).collect::<Vec<_>>().join(","))
    };
    ensure!(j == want, "JSON of a {} of {} ({} bytes instead of {})", X::NAME, m.len(), j.len(), want.len());
    let mut y = X::from_json(&j).map_err(|e| format!("the JSON of a {} of {} is refused: {e}", X::NAME, m.len()))?;
    agree(&y, &m, rng, "from JSON")?;
    ensure!(y == x, "a {} of {} differs after a round trip", X::NAME, m.len());
    let mut m = m;
    some_ops(c, k, &mut y, &mut m, 20, rng)?;
    c.eval();
    agree(&y, &m, rng, "from JSON, changed")
}

// C11
fn bad_text<X: Wide>(c: &mut Ctx, k: &Case, rng: &mut Rng) -> Res {
    let (live, sum) = (LIVE.with(Cell::get), SUM.with(Cell::get));
    {
        let (x, m) = k.build::<X>(rng);
        let j = x.json();
        drop(x);
        let before = LIVE.with(Cell::get);
        for _ in 0..3 {
            c.eval();
            let cut = rng.range(j.len() / 2, j.len() - 1);
            let bad = match rng.below(3) {
                0 => j[..cut].to_string(),
                1 => format!("{}x{}", &j[..cut], &j[cut..]),
                _ => format!("{},]", &j[..cut]),
            };
            let std_ok = if X::MAP { serde_json::from_str::<BTreeMap<u32, u32>>(&bad).is_ok() } else { serde_json::from_str::<Vec<u32>>(&bad).is_ok() };
            let start = alloc::snap();
            alloc::reset_peak();
            let r = guard(|| X::from_json(&bad).map(|x| x.len()));
            let peak = alloc::peak() - start.live;
            match r {
                Err(e) => return Err(format!("decoding a {} of {} elements cut off: {e}", X::NAME, m.len())),
                Ok(r) => ensure_eq!(r.is_ok(), std_ok, "whether a {} of {} elements cut off is accepted", X::NAME, m.len()),
            }
            ensure!(peak < (m.len() as i64 + 64) * 1200, "decoding {} elements cut off took {peak} bytes", m.len());
            let end = alloc::snap();
            ensure_eq!(LIVE.with(Cell::get), before, "elements alive after a {} of {} elements cut off was refused", X::NAME, m.len());
            ensure_eq!(end.live_n, start.live_n, "blocks held after a {} of {} elements cut off was refused", X::NAME, m.len());
        }
    }
    ensure_eq!((LIVE.with(Cell::get), SUM.with(Cell::get)), (live, sum), "living elements at the end");
    Ok(())
}

// C12
fn release<X: Wide>(c: &mut Ctx, k: &Case, rng: &mut Rng) -> Res {
    let start = alloc::snap();
    let live = LIVE.with(Cell::get);
    let audit = |vs: &[X], extra: i64, what: &str| -> Res {
        // Every instance that a living version shows, once.
        let mut ids: Vec<u32> = Vec::new();
        for v in vs {
            v.visit(&mut |a, b| {
                ids.push(a.id);
                if let Some(b) = b {
                    ids.push(b.id);
                }
            });
        }
        ids.sort_unstable();
        ids.dedup();
        let sum = ids.iter().fold(0u64, |s, i| s.wrapping_add(mix(*i as u64)));
        ensure_eq!(LIVE.with(Cell::get) - live - extra, ids.len() as i64, "{what}: number of elements alive, {} versions", vs.len());
        ensure!(SUM.with(Cell::get) == sum, "{what}: the elements alive are not those of the living versions");
        Ok(())
    };
    ensure_eq!((LIVE.with(Cell::get), SUM.with(Cell::get)), (0, 0), "elements alive before a case");
    {
        let (x, m) = k.build::<X>(rng);
        let mut m = m;
        let mut vs = vec![x];
        c.eval();
        audit(&vs, 0, "after building")?;
        for _ in 0..4 {
            let i = rng.below(vs.len());
            let mut y = vs[i].clone();
            if rng.chance(1, 3) {
                // Sizes as of the first version only matter for choosing operations.
                let mut my = m.clone();
                for _ in 0..30 {
                    let op = k.op::<X>(&my, rng);
                    model_apply::<X>(&mut my, op);
                    y.apply_mut(op);
                }
            } else {
                let op = k.op::<X>(&m, rng);
                y.apply_mut(op);
            }
            vs.push(y);
            c.eval();
            audit(&vs, 0, "after changing a clone in place")?;
            if rng.chance(1, 2) {
                let i = rng.below(vs.len());
                vs.swap_remove(i);
                c.eval();
                audit(&vs, 0, "after dropping a version")?;
            }
        }
        // Down to few.
        let keep = *rng.pick(&[0usize, 1, 5]);
        vs.truncate(1);
        if X::SEQ {
            while vs[0].len() > keep {
                vs[0].apply_mut(Op::Sub(0));
            }
        } else {
            let mut ks: Vec<u32> = contents(&vs[0]).iter().map(|x| x.0).collect();
            rng.shuffle(&mut ks);
            for k in ks.iter().skip(keep) {
                vs[0].apply_mut(Op::Sub(*k));
            }
        }
        c.eval();
        audit(&vs, 0, "after shrinking")?;
        m = M::Seq(VecDeque::new());
        drop(m);
    }
    let end = alloc::snap();
    ensure_eq!(LIVE.with(Cell::get), live, "elements alive when all versions of a {} are gone", X::NAME);
    ensure_eq!((end.live_n, end.live), (start.live_n, start.live), "blocks and bytes still allocated when all versions of a {} of {} are gone", X::NAME, k.n);
    Ok(())
}

// C13
fn sharing<X: Wide>(c: &mut Ctx, k: &Case, rng: &mut Rng) -> Res {
    fn places<X: Wide>(x: &X) -> Vec<(u32, usize)> {
        let mut v = Vec::new();
        x.visit(&mut |a, b| {
            v.push((a.id, a as *const N as usize));
            if let Some(b) = b {
                v.push((b.id, b as *const N as usize));
            }
        });
        v.sort_unstable();
        v
    }
    let (mut x, mut m) = k.build::<X>(rng);
    let mut keep = vec![];
    let mut before = places(&x);
    for _ in 0..8 {
        let op = k.op::<X>(&m, rng);
        c.eval();
        let clones = CLONES.with(Cell::get);
        let form = rng.below(3);
        let y = match form {
            0 => {
                x.apply_mut(op);
                x.clone()
            }
            1 => {
                let mut y = x.clone();
                y.apply_mut(op);
                y
            }
            _ => x.apply(op).unwrap_or_else(|| x.clone()),
        };
        let clones = CLONES.with(Cell::get) - clones;
        let had = model_apply::<X>(&mut m, op);
        let may = match op {
            Op::Edit(..) if X::MAP => 2,
            Op::Edit(..) => 1,
            _ => 0,
        };
        ensure!(clones <= may, "{op:?} on a {} of {} cloned {clones} elements", X::NAME, m.len());
        let after = places(&y);
        // Every instance of the old version that is in the new one is where it was; new instances are only those given.
        let (mut i, mut fresh) = (0, 0);
        for (id, at) in &after {
            while i < before.len() && before[i].0 < *id {
                i += 1;
            }
            if i < before.len() && before[i].0 == *id {
                ensure!(before[i].1 == *at, "{op:?} on a {} of {} moved an element", X::NAME, m.len());
            } else {
                fresh += 1;
            }
        }
        let given = match op {
            Op::Add(..) | Op::Edit(..) => if X::MAP { 2 } else { 1 },
            _ => 0,
        };
        ensure!(fresh <= given, "after {op:?} a {} of {} has {fresh} new elements", X::NAME, m.len());
        if let Some(s) = x.clone().same(&x) {
            ensure!(s, "a clone of a {} of {} is not identical", X::NAME, m.len());
        }
        if let (Op::Sub(_), false, 2, Some(s)) = (op, had, form, y.same(&x)) {
            c.count("absent_removed", 1);
            ensure!(s, "removing an absent element from a {} of {} gives a version that is not identical", X::NAME, m.len());
        }
        if rng.chance(1, 3) {
            keep.push(x);
        }
        x = y;
        before = after;
    }
    Ok(())
}

// C17
fn panics<X: Wide>(c: &mut Ctx, k: &Case, rng: &mut Rng) -> Res {
    let live = LIVE.with(Cell::get);
    {
        let (x, m) = k.build::<X>(rng);
        for _ in 0..4 {
            let mut y = x.clone();
            if rng.chance(1, 3) {
                // Unshared.
                let mut it = m.items().into_iter().map(|(a, b)| (N::new(a), N::new(b))).collect::<Vec<_>>().into_iter();
                y = X::collect(&mut it);
            }
            let op = k.op::<X>(&m, rng);
            if op == Op::Reverse {
                continue;
            }
            c.eval();
            let fuse = match rng.below(3) {
                0 => 0,
                1 => rng.range(1, 4),
                _ => rng.range(4, 24),
            } as i64;
            BLOWN.with(|b| b.set(false));
            let keyed = rng.chance(1, 2);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                FUSE.with(|f| f.set(fuse));
                let r = if keyed { y.apply_mut(op) } else { y.apply(op).is_some() };
                FUSE.with(|f| f.set(-1));
                r
            }));
            FUSE.with(|f| f.set(-1));
            let blown = BLOWN.with(Cell::get);
            ensure!(r.is_err() == blown, "{op:?} on a {} of {}: a panic of the user's code is swallowed, or one of its own raised", X::NAME, m.len());
            if blown {
                c.count("panics_injected", 1);
                c.t(|| format!("{op:?} with a panic at callback {fuse}"));
                agree(&x, &m, rng, "after a panic in an operation on a clone")?;
                let got = contents(&y);
                ensure_eq!((y.len(), y.none()), (got.len(), got.is_empty()), "size of a {} of {} after a panic in {op:?}", X::NAME, m.len());
                // Elements unrelated to the operation are still there.
                match (&m, op) {
                    (M::Key(mm), Op::Add(q, _) | Op::Sub(q) | Op::Edit(q, _)) => {
                        let mut w = mm.clone();
                        w.remove(&q);
                        let g: BTreeMap<u32, u32> = got.iter().filter(|x| x.0 != q).copied().collect();
                        ensure!(g == w, "a {} of {}: elements unrelated to {op:?} are lost after a panic", X::NAME, m.len());
                        let my = M::Key(got.iter().copied().collect());
                        ensure_eq!(my.len(), got.len(), "duplicates after a panic in {op:?}");
                        agree(&y, &my, rng, "after a panic")?;
                    }
                    (M::Seq(s), _) => ensure!(got.len().abs_diff(s.len()) <= 1, "a {} of {} has {} elements after a panic in {op:?}", X::NAME, s.len(), got.len()),
                    _ => (),
                }
                let mut my = if X::SEQ { M::Seq(got.iter().map(|x| x.0).collect()) } else { M::Key(got.into_iter().collect()) };
                some_ops(c, k, &mut y, &mut my, 10, rng)?;
                agree(&y, &my, rng, "used after a panic")?;
            }
        }
    }
    ensure_eq!(LIVE.with(Cell::get), live, "elements alive at the end");
    Ok(())
}

// C20
fn forms<X: Wide>(c: &mut Ctx, k: &Case, rng: &mut Rng) -> Res {
    let (x, m) = k.build::<X>(rng);
    for _ in 0..5 {
        let op = k.op::<X>(&m, rng);
        c.eval();
        let mut w = m.clone();
        let had = model_apply::<X>(&mut w, op);
        let p = x.apply(op);
        let mut y = x.clone();
        let ok = y.apply_mut(op);
        ensure_eq!(ok, had, "{op:?} in place on a clone of a {} of {}", X::NAME, m.len());
        // The persistent removal of an absent element returns the same again.
        let want = had || !X::SEQ && matches!(op, Op::Sub(_));
        ensure_eq!(p.is_some(), want, "whether {op:?} on a {} of {} gives a version", X::NAME, m.len());
        let mut items: Vec<(u32, u32)> = vec![];
        x.visit(&mut |a, b| items.push((a.v, b.map_or(0, |b| b.v))));
        let mut it = items.iter().map(|(a, b)| (N::new(*a), N::new(*b)));
        let mut z = X::collect(&mut it);
        let okz = z.apply_mut(op);
        ensure_eq!(okz, had, "{op:?} in place on an unshared copy of a {} of {}", X::NAME, m.len());
        agree(&y, &w, rng, "changed in place")?;
        agree(&z, &w, rng, "changed in place, unshared")?;
        if let Some(p) = p {
            agree(&p, &w, rng, "from the persistent form")?;
            ensure!(p == y && y == p && p == z, "{op:?} on a {} of {}: the forms differ", X::NAME, m.len());
        }
        agree(&x, &m, rng, "after both forms")?;
    }
    Ok(())
}

/// An iterator whose announced bounds are lawful but anything else.
struct Hinted<I>(I, usize, u8);
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let x = self.0.next();
        if x.is_some() {
            self.1 -= 1;
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.2 {
            0 => (self.1, Some(self.1)),
            1 => (0, None),
            2 => (0, Some(usize::MAX)),
            3 => (self.1 / 2, Some(self.1 * 2 + 100)),
            _ => (self.1, None),
        }
    }
}

// C21
fn construction<X: Wide>(c: &mut Ctx, k: &Case, rng: &mut Rng) -> Res {
    let n = k.n;
    let dup = rng.chance(1, 3);
    let key = |i: u32| if dup { k.key(i % (n as u32 / 2 + 1)) } else { k.key(i) };
    let mut step = X::new(&k.cfg);
    let mut m = if X::SEQ { M::Seq(VecDeque::new()) } else { M::Key(BTreeMap::new()) };
    for i in 0..n as u32 {
        // A list or stack made by an iterator has its elements in the order given.
        let j = if X::PUT_FRONT { n as u32 - 1 - i } else { i };
        let op = Op::Add(key(j), j);
        step.apply_mut(op);
        model_apply::<X>(&mut m, op);
    }
    let hint = rng.below(5) as u8;
    c.count(&format!("hint_{hint}"), 1);
    let it = (0..n as u32).map(|i| (N::new(key(i)), N::new(i)));
    let mut h = Hinted(it, n, hint);
    let mut whole = X::collect(&mut h);
    c.eval();
    agree(&whole, &m, rng, "collected")?;
    ensure!(whole == step, "a {} of {n} collected differs from one made stepwise", X::NAME);
    let mut ext = X::new(&k.cfg);
    let first = rng.below(n + 1);
    for i in 0..first as u32 {
        ext.apply_mut(Op::Add(key(i), i));
    }
    let old = ext.clone();
    let shared = rng.chance(1, 2);
    let mut h = Hinted((first as u32..n as u32).map(|i| N::new(key(i))), n - first, hint);
    if !shared {
        drop(old.clone());
    }
    if ext.extended(&mut h) {
        c.eval();
        agree(&ext, &m, rng, "extended")?;
        ensure_eq!(contents(&old).len(), first, "what was extended a clone of");
        ensure!(ext == step, "a {} extended from {first} to {n} differs from one made stepwise", X::NAME);
        let mut mm = m.clone();
        some_ops(c, k, &mut ext, &mut mm, 20, rng)?;
        agree(&ext, &mm, rng, "extended, then changed")?;
    }
    let mut mm = m.clone();
    some_ops(c, k, &mut whole, &mut mm, 20, rng)?;
    c.eval();
    agree(&whole, &mm, rng, "collected, then changed")
}

// C22
fn configurations<X: Wide>(c: &mut Ctx, k: &Case, rng: &mut Rng) -> Res {
    let (mut x, mut m) = k.build::<X>(rng);
    let k2 = Case { cfg: Cfg { bits: *rng.pick(&[1, 2, 3, 5, 6, 9, 16, 33, 255]), degree: *rng.pick(&[2, 4, 8, 16, 32, 64]), mode: if X::NAME == "HashTrieSet" { k.cfg.mode } else { Mode::Good(rng.next()) } }, n: k.n, spread: k.spread };
    let mut y = X::new(&k2.cfg);
    for i in 0..k.n as u32 {
        y.apply_mut(Op::Add(k.key(i), i));
    }
    // The same contents first.
    let (mut x2, mut m2) = (X::new(&k.cfg), if X::SEQ { M::Seq(VecDeque::new()) } else { M::Key(BTreeMap::new()) });
    for i in 0..k.n as u32 {
        let op = Op::Add(k.key(i), i);
        x2.apply_mut(op);
        model_apply::<X>(&mut m2, op);
    }
    for _ in 0..60 {
        let op = k.op::<X>(&m2, rng);
        let w = model_apply::<X>(&mut m2, op);
        ensure_eq!((x2.apply_mut(op), y.apply_mut(op)), (w, w), "{op:?} on two {} of {} in two configurations", X::NAME, m2.len());
    }
    c.eval();
    agree(&x2, &m2, rng, "in one configuration")?;
    agree(&y, &m2, rng, "in another configuration")?;
    ensure!(x2 == y && y == x2, "two {} of {} in different configurations differ", X::NAME, m2.len());
    some_ops(c, k, &mut x, &mut m, 60, rng)?;
    agree(&x, &m, rng, "changed")
}

// C16
fn threads<X: Wide + Send + Sync>(c: &mut Ctx, k: &Case, rng: &mut Rng) -> Res {
    let (x, m) = k.build::<X>(rng);
    let (x2, m2) = {
        let (mut x2, mut m2) = (x.clone(), m.clone());
        some_ops(c, k, &mut x2, &mut m2, 20, rng)?;
        (x2, m2)
    };
    let count = rng.range(2, 6);
    let results: Vec<Res> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..count)
            .map(|t| {
                let mut rng = Rng::of(&[rng.next(), t as u64]);
                let (x, m, x2, m2) = (&x, &m, &x2, &m2);
                let cfg = k.cfg;
                s.spawn(move || -> Res {
                    if X::NAME.starts_with("Hash") {
                        // What the stateless hasher does belongs to the thread.
                        ZB::mk(cfg.mode);
                    }
                    let mut c = Ctx::new(args());
                    for _ in 0..2 {
                        let (a, ma) = if rng.chance(1, 2) { (x, m) } else { (x2, m2) };
                        let (mut y, mut my) = (a.clone(), ma.clone());
                        some_ops(&mut c, k, &mut y, &mut my, 150, &mut rng)?;
                        agree(&y, &my, &mut rng, "changed by a thread")?;
                        agree(a, ma, &mut rng, "shared by the threads")?;
                        ensure!(*a == *a, "a shared version differs from itself");
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".to_string()))).collect()
    });
    for r in results {
        c.eval();
        c.count("large_threads", 1);
        r?;
    }
    agree(&x, &m, rng, "after the threads ended")?;
    drop(x);
    agree(&x2, &m2, rng, "after the threads ended")
}

// C23
fn display<X: Wide>(c: &mut Ctx, k: &Case, rng: &mut Rng) -> Res {
    let (x, m) = k.build::<X>(rng);
    let mut items = Vec::new();
    x.visit(&mut |a, b| {
        items.push(match b {
            Some(b) => format!("{}: {}", a.v, b.v),
            None => a.v.to_string(),
        })
    });
    let (open, close) = match X::NAME {
        "List" | "Vector" => ("[", "]"),
        "Stack" => ("Stack(", ")"),
        "Queue" => ("Queue(", ")"),
        _ => ("{", "}"),
    };
    let want = format!("{open}{}{close}", items.join(", "));
    c.eval();
    let got = x.to_string();
    if got != want {
        let i = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        let show = |s: &str| s[i.saturating_sub(20).min(s.len())..(i + 20).min(s.len())].to_string();
        return Err(format!("Display of a {} of {}: ...{:?}... instead of ...{:?}... at byte {i} of {}", X::NAME, m.len(), show(&got), show(&want), want.len()));
    }
    // A writer that fails somewhere stops it there.
    struct W {
        left: usize,
        failed: bool,
        after: usize,
    }
    impl fmt::Write for W {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            if self.failed {
                self.after += 1;
                return Err(fmt::Error);
            }
            if s.len() > self.left {
                self.failed = true;
                return Err(fmt::Error);
            }
            self.left -= s.len();
            Ok(())
        }
    }
    for _ in 0..3 {
        let mut w = W { left: rng.below(want.len()), failed: false, after: 0 };
        let r = fmt::write(&mut w, format_args!("{x}"));
        ensure!(r.is_err() && w.failed, "Display of a {} of {} does not report the error of the writer", X::NAME, m.len());
        ensure_eq!(w.after, 0, "Display of a {} of {}: writes after the error", X::NAME, m.len());
    }
    Ok(())
}

// C24
fn totality<X: Wide>(c: &mut Ctx, k: &Case, rng: &mut Rng) -> Res {
    let (x, m) = k.build::<X>(rng);
    let (mut y, mut my) = (x.clone(), m.clone());
    c.eval();
    guard(|| x.misuse(&m)).unwrap_or_else(Err)?;
    agree(&x, &m, rng, "after misuse")?;
    guard(|| some_ops(c, k, &mut y, &mut my, 100, rng)).unwrap_or_else(Err)?;
    // To nothing, and beyond.
    guard(|| -> Res {
        if X::SEQ {
            while my.len() > 0 {
                model_apply::<X>(&mut my, Op::Sub(0));
                ensure!(y.apply_mut(Op::Sub(0)), "a {} of {} refuses", X::NAME, my.len() + 1);
            }
        } else {
            for (q, _) in my.items() {
                model_apply::<X>(&mut my, Op::Sub(q));
                ensure!(y.apply_mut(Op::Sub(q)), "a {} of {} refuses to remove {q}", X::NAME, my.len() + 1);
            }
        }
        ensure!(!y.apply_mut(Op::Sub(0)) && !y.apply_mut(Op::Sub(1)), "removing from an emptied {} succeeds", X::NAME);
        Ok(())
    })
    .unwrap_or_else(Err)?;
    agree(&y, &my, rng, "emptied")?;
    y.misuse(&my)?;
    some_ops(c, k, &mut y, &mut my, 20, rng)?;
    agree(&y, &my, rng, "used again")
}

// C07
fn set_relations(c: &mut Ctx, n: usize, rng: &mut Rng) -> Res {
    let spread = rng.chance(1, 2);
    let key = |i: u32| if spread { i.wrapping_mul(0x9E37_79B1) } else { i };
    let a: BTreeSet<u32> = (0..n as u32).map(key).collect();
    let mut b = a.clone();
    let av: Vec<u32> = a.iter().copied().collect();
    let what = match rng.below(7) {
        0 => "equal",
        1 => {
            b.remove(&av[rng.below(av.len().max(1)).min(av.len() - 1)]);
            "one less"
        }
        2 => {
            b.insert(key(n as u32 + rng.below(1000) as u32));
            "one more"
        }
        3 => {
            b.remove(&av[rng.below(av.len())]);
            b.insert(key(n as u32 + rng.below(1000) as u32));
            "one other"
        }
        4 => {
            b = (0..n as u32 / 2 + 1).map(|i| key(n as u32 + 10 + i)).collect();
            "disjoint"
        }
        5 => {
            b = (0..n as u32 / 2 + 1).map(|i| key(n as u32 + 10 + i)).collect();
            b.insert(av[rng.below(av.len())]);
            "meeting in one"
        }
        _ => {
            b = [av[0], av[av.len() - 1], av[av.len() / 2]].into_iter().collect();
            "three of it"
        }
    };
    c.count(&format!("pairs_{}", what.replace(' ', "_")), 1);
    c.t(|| format!("sets of {} and {}: {what}", a.len(), b.len()));
    let want = (a.is_disjoint(&b), a.is_subset(&b), a.is_superset(&b), b.is_disjoint(&a), b.is_subset(&a), b.is_superset(&a), a == b);
    macro_rules! go {
        ($x:expr, $y:expr, $name:literal) => {{
            let (x, y) = ($x, $y);
            c.eval();
            let got = (x.is_disjoint(&y), x.is_subset(&y), x.is_superset(&y), y.is_disjoint(&x), y.is_subset(&x), y.is_superset(&x), x == y);
            ensure_eq!(got, want, concat!($name, ": disjoint, subset, superset, both ways, and equality of sets of {} and {} ({})"), a.len(), b.len(), what);
        }};
    }
    let mk = |s: &BTreeSet<u32>, rng: &mut Rng| {
        let mut r = RedBlackTreeSet::<u32, ArcK>::new_with_ptr_kind();
        let mut v: Vec<u32> = s.iter().copied().collect();
        rng.shuffle(&mut v);
        for x in v {
            r.insert_mut(x);
        }
        r
    };
    go!(mk(&a, rng), mk(&b, rng), "RedBlackTreeSet");
    let degree = *rng.pick(&[2u8, 8, 64, 64]);
    let mode = Mode::Good(rng.next());
    let mk = |s: &BTreeSet<u32>| {
        let mut r = HashTrieSet::<u32, RcK, HB>::new_with_hasher_and_degree_and_ptr_kind(HB(mode), degree);
        for x in s {
            r.insert_mut(*x);
        }
        r
    };
    go!(mk(&a), mk(&b), "HashTrieSet");
    // Sharing structure.
    if what.starts_with("one") {
        let x = mk(&a);
        let mut y = x.clone();
        for q in a.difference(&b) {
            y.remove_mut(q);
        }
        for q in b.difference(&a) {
            y.insert_mut(*q);
        }
        go!(x, y, "HashTrieSet (sharing)");
    }
    Ok(())
}

fn size(rng: &mut Rng, heavy: bool) -> usize {
    let at = |rng: &mut Rng, x: usize| (x + rng.below(5)).saturating_sub(2);
    match rng.below(if heavy { 32 } else { 30 }) {
        0..=3 => rng.range(1, 70),
        4..=7 => {
            let x = *rng.pick(&[31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 511, 512]);
            at(rng, x).max(1)
        }
        8..=13 => {
            let x = *rng.pick(&[1023, 1024, 1056, 1057, 2047, 2048, 4095, 4096, 4097, 8192]);
            at(rng, x)
        }
        14..=18 => {
            let x = *rng.pick(&[16384, 32767, 32768, 32769, 33792, 33793]);
            at(rng, x)
        }
        19..=25 => {
            let x = *rng.pick(&[65535, 65536, 65537, 65568, 66000]);
            at(rng, x)
        }
        26..=28 => rng.range(300, 20_000),
        29 => *rng.pick(&[100_000, 131_072, 131_073]),
        _ => {
            let x = *rng.pick(&[262_144, 1_048_576, 1_048_577, 1_048_608]);
            at(rng, x)
        }
    }
}

fn main() {
    let mode = args().mode;
    let m = mode.clone();
    let quick: u64 = match m.as_str() {
        "c08" | "c23" => 700,
        "c09" | "c10" | "c20" | "c12" | "c01" | "c07" | "c13" => 400,
        _ => 400,
    };
    run(Plan { quick, thorough: quick * 25, hang_secs: 120 }, |ctx, case, rng| {
        ctx.count("large_cases", 1);
        // Some left over by a case that failed.
        LIVE.with(|l| l.set(0));
        SUM.with(|l| l.set(0));
        FUSE.with(|f| f.set(-1));
        let kind = case % 8;
        let heavy = kind < 4 && m != "c13" && m != "c12";
        let n = size(rng, heavy);
        if m == "c07" {
            ctx.fp(n as u64 ^ case << 32);
            ctx.nontrivial();
            ctx.max("size", n as u64);
            return set_relations(ctx, n, rng);
        }
        // Few elements per node make it slow.
        let bits = if n > 200_000 { *rng.pick(&[5, 5, 5, 6, 4]) } else { *rng.pick(&[5, 5, 5, 5, 1, 2, 3, 4, 6, 7, 8, 10, 15, 16, 17, 31, 32, 63, 255]) };
        let degree = *rng.pick(&[64, 64, 64, 32, 16, 8, 4, 2]);
        let hm = match rng.below(6) {
            0 => Mode::Ident,
            1 => Mode::Twins,
            2 => Mode::SharedLow(rng.range(1, 30) as u32),
            _ => Mode::Good(rng.next()),
        };
        let k = Case { cfg: Cfg { bits, degree, mode: hm }, n, spread: rng.chance(1, 2) };
        macro_rules! all {
            ($x:ty) => {{
                describe::<$x>(ctx, &k);
                ctx.count(<$x>::NAME, 1);
                match m.as_str() {
                    "c01" => persistence::<$x>(ctx, &k, rng),
                    "c08" => iteration::<$x>(ctx, &k, rng),
                    "c09" => relations::<$x>(ctx, &k, rng),
                    "c10" => round_trip::<$x>(ctx, &k, rng),
                    "c11" => bad_text::<$x>(ctx, &k, rng),
                    "c12" => release::<$x>(ctx, &k, rng),
                    "c13" => sharing::<$x>(ctx, &k, rng),
                    "c17" => panics::<$x>(ctx, &k, rng),
                    "c20" => forms::<$x>(ctx, &k, rng),
                    "c21" => construction::<$x>(ctx, &k, rng),
                    "c22" => configurations::<$x>(ctx, &k, rng),
                    "c23" => display::<$x>(ctx, &k, rng),
                    "c24" => totality::<$x>(ctx, &k, rng),
                    _ => panic!("harness: no mode {m}"),
                }
            }};
        }
        if m == "c16" {
            macro_rules! shared {
                ($x:ty) => {{
                    describe::<$x>(ctx, &k);
                    ctx.count(<$x>::NAME, 1);
                    threads::<$x>(ctx, &k, rng)
                }};
            }
            return match kind {
                0 => shared!(List<N, ArcTK>),
                1 => shared!(Stack<N, ArcTK>),
                2 => shared!(Queue<N, ArcK>),
                3 => shared!(Vector<N, ArcTK>),
                4 => shared!(HashTrieMap<N, N, ArcTK, HB>),
                5 => shared!(RedBlackTreeMap<N, N, ArcTK>),
                6 => shared!(HashTrieSet<N, ArcTK, ZB>),
                _ => shared!(RedBlackTreeSet<N, ArcTK>),
            };
        }
        match kind {
            0 => all!(List<N, ArcTK>),
            1 => all!(Stack<N, RcK>),
            2 => all!(Queue<N, ArcTK>),
            3 => all!(Vector<N, RcK>),
            4 => all!(HashTrieMap<N, N, ArcTK, HB>),
            5 => all!(RedBlackTreeMap<N, N, RcK>),
            6 => all!(HashTrieSet<N, RcK, ZB>),
            _ => all!(RedBlackTreeSet<N, ArcTK>),
        }
    });
}
