//! The collections under test, behind one interface, all holding instrumented elements.

use crate::ctx::Res;
use crate::hashers::{HB, MkHasher, Mode, Recorder, ZB};
use crate::model::{Item, Kind, Model, Op, P as Pair, Ret};
use crate::rng::Rng;
use crate::tok::{QKey, Tok};
use crate::{ensure, ensure_eq};
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use rpds::*;
use std::any::Any;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::ops::Bound;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ptr {
    Rc,
    Arc,
    ArcT,
}
pub const PTRS: [Ptr; 3] = [Ptr::Rc, Ptr::Arc, Ptr::ArcT];

#[derive(Clone, Debug)]
pub struct Cfg {
    pub kind: Kind,
    pub ptr: Ptr,
    pub bits: u8,
    pub degree: u8,
    pub mode: Mode,
    /// The hasher is a type without state (then all collections of the case have the same mode).
    pub stateless: bool,
    /// Number of different keys.
    pub universe: u32,
    /// Distance between consecutive keys.
    pub stride: u32,
}

impl Cfg {
    pub fn simple(kind: Kind) -> Cfg {
        Cfg { kind, ptr: Ptr::Rc, bits: 5, degree: 64, mode: Mode::Good(1), stateless: false, universe: 32, stride: 1 }
    }
    pub fn key(&self, i: u32) -> u32 {
        i.wrapping_mul(self.stride)
    }
    pub fn describe(&self) -> String {
        format!(
            "{} ptr={:?}{}{} keys={}x{}",
            self.kind.label(),
            self.ptr,
            if self.kind == Kind::Vector { format!(" bits={}", self.bits) } else { String::new() },
            if self.kind.is_hash() { format!(" degree={} hasher={:?}{}", self.degree, self.mode, if self.stateless { " (stateless)" } else { "" }) } else { String::new() },
            self.universe,
            self.stride
        )
    }
}

fn tk(p: Pair) -> Tok {
    Tok::new(p.0, p.1)
}

fn some_pair(t: Option<&Tok>) -> Option<Pair> {
    t.map(Tok::pair)
}

/// A panic of the operation itself, as opposed to one injected in a callback.
fn catches<R>(f: impl FnOnce() -> R) -> Option<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            if e.is::<crate::tok::Injected>() || e.is::<crate::tok::Budget>() {
                std::panic::resume_unwind(e);
            }
            None
        }
    }
}

pub trait Coll: Clone + PartialEq + Display + Debug + 'static {
    const KIND: Kind;
    fn empty(cfg: &Cfg) -> Self;
    /// The in-place form.
    fn do_mut(&mut self, op: &Op) -> Ret;
    /// The persistent form; an operation without one is applied in place to a clone.
    fn do_new(&self, op: &Op) -> (Self, Ret) {
        let mut c = self.clone();
        let r = c.do_mut(op);
        (c, r)
    }
    fn each(&self, f: &mut dyn FnMut(&Tok, Option<&Tok>));
    fn size_q(&self) -> usize;
    fn empty_q(&self) -> bool;
    /// Everything but iteration and size.
    fn probe(&self, m: &Model, cfg: &Cfg, rng: &mut Rng, deep: bool) -> Res;
    fn record(&self) -> Option<Recorder> {
        None
    }
    fn compare(&self, _o: &Self) -> Option<Ordering> {
        None
    }
    fn identical(&self, _o: &Self) -> Option<bool> {
        None
    }
    /// is_disjoint, is_subset, is_superset
    fn relations(&self, _o: &Self) -> Option<[bool; 3]> {
        None
    }
    fn extend_with(&mut self, _items: &mut dyn Iterator<Item = (Tok, Option<Tok>)>) -> bool {
        false
    }
    /// Answers to lookups, as opposed to iteration, for snapshots.
    fn answers(&self, cfg: &Cfg, out: &mut Vec<Option<Item>>);
    fn from_items(cfg: &Cfg, items: &mut dyn Iterator<Item = (Tok, Option<Tok>)>) -> Self;
}

fn rec<T: Hash>(t: &T) -> Recorder {
    let mut r = Recorder::default();
    t.hash(&mut r);
    r
}

fn seq_model(m: &Model) -> Result<&std::collections::VecDeque<Pair>, String> {
    match m {
        Model::Seq(_, s) => Ok(s),
        Model::Map(..) => Err("harness: wrong model".into()),
    }
}
fn map_model(m: &Model) -> Result<&BTreeMap<u32, (u32, Pair)>, String> {
    match m {
        Model::Map(_, s) => Ok(s),
        Model::Seq(..) => Err("harness: wrong model".into()),
    }
}

// ---------------------------------------------------------------------------------------------- List

impl<P: SharedPointerKind + 'static> Coll for List<Tok, P> {
    const KIND: Kind = Kind::List;
    fn empty(_: &Cfg) -> Self {
        List::new_with_ptr_kind()
    }
    fn do_mut(&mut self, op: &Op) -> Ret {
        match op {
            Op::Put(p) => {
                self.push_front_mut(tk(*p));
                Ret::Unit
            }
            Op::Take => Ret::Bool(self.drop_first_mut()),
            Op::Reverse => {
                self.reverse_mut();
                Ret::Unit
            }
            _ => Ret::Unit,
        }
    }
    fn do_new(&self, op: &Op) -> (Self, Ret) {
        match op {
            Op::Put(p) => (self.push_front(tk(*p)), Ret::Unit),
            Op::Take => match self.drop_first() {
                Some(l) => (l, Ret::Bool(true)),
                None => (self.clone(), Ret::Bool(false)),
            },
            Op::Reverse => (self.reverse(), Ret::Unit),
            _ => (self.clone(), Ret::Unit),
        }
    }
    fn each(&self, f: &mut dyn FnMut(&Tok, Option<&Tok>)) {
        for t in self.iter() {
            f(t, None)
        }
    }
    fn size_q(&self) -> usize {
        self.len()
    }
    fn empty_q(&self) -> bool {
        self.is_empty()
    }
    fn probe(&self, m: &Model, _: &Cfg, _: &mut Rng, _: bool) -> Res {
        let s = seq_model(m)?;
        ensure_eq!(some_pair(self.first()), s.front().copied(), "first()");
        ensure_eq!(some_pair(self.last()), s.back().copied(), "last()");
        Ok(())
    }
    fn record(&self) -> Option<Recorder> {
        Some(rec(self))
    }
    fn compare(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn answers(&self, _: &Cfg, out: &mut Vec<Option<Item>>) {
        out.push(some_pair(self.first()).map(|p| (p, None)));
        out.push(some_pair(self.last()).map(|p| (p, None)));
    }
    fn from_items(_: &Cfg, items: &mut dyn Iterator<Item = (Tok, Option<Tok>)>) -> Self {
        items.map(|x| x.0).collect()
    }
}

// ---------------------------------------------------------------------------------------------- Stack

impl<P: SharedPointerKind + 'static> Coll for Stack<Tok, P> {
    const KIND: Kind = Kind::Stack;
    fn empty(_: &Cfg) -> Self {
        Stack::new_with_ptr_kind()
    }
    fn do_mut(&mut self, op: &Op) -> Ret {
        match op {
            Op::Put(p) => {
                self.push_mut(tk(*p));
                Ret::Unit
            }
            Op::Take => Ret::Bool(self.pop_mut()),
            _ => Ret::Unit,
        }
    }
    fn do_new(&self, op: &Op) -> (Self, Ret) {
        match op {
            Op::Put(p) => (self.push(tk(*p)), Ret::Unit),
            Op::Take => match self.pop() {
                Some(l) => (l, Ret::Bool(true)),
                None => (self.clone(), Ret::Bool(false)),
            },
            _ => (self.clone(), Ret::Unit),
        }
    }
    fn each(&self, f: &mut dyn FnMut(&Tok, Option<&Tok>)) {
        for t in self.iter() {
            f(t, None)
        }
    }
    fn size_q(&self) -> usize {
        self.size()
    }
    fn empty_q(&self) -> bool {
        self.is_empty()
    }
    fn probe(&self, m: &Model, _: &Cfg, _: &mut Rng, _: bool) -> Res {
        let s = seq_model(m)?;
        ensure_eq!(some_pair(self.peek()), s.front().copied(), "peek()");
        Ok(())
    }
    fn record(&self) -> Option<Recorder> {
        Some(rec(self))
    }
    fn compare(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn answers(&self, _: &Cfg, out: &mut Vec<Option<Item>>) {
        out.push(some_pair(self.peek()).map(|p| (p, None)));
    }
    fn from_items(_: &Cfg, items: &mut dyn Iterator<Item = (Tok, Option<Tok>)>) -> Self {
        items.map(|x| x.0).collect()
    }
}

// ---------------------------------------------------------------------------------------------- Queue

impl<P: SharedPointerKind + 'static> Coll for Queue<Tok, P> {
    const KIND: Kind = Kind::Queue;
    fn empty(_: &Cfg) -> Self {
        Queue::new_with_ptr_kind()
    }
    fn do_mut(&mut self, op: &Op) -> Ret {
        match op {
            Op::Put(p) => {
                self.enqueue_mut(tk(*p));
                Ret::Unit
            }
            Op::Take => Ret::Bool(self.dequeue_mut()),
            _ => Ret::Unit,
        }
    }
    fn do_new(&self, op: &Op) -> (Self, Ret) {
        match op {
            Op::Put(p) => (self.enqueue(tk(*p)), Ret::Unit),
            Op::Take => match self.dequeue() {
                Some(l) => (l, Ret::Bool(true)),
                None => (self.clone(), Ret::Bool(false)),
            },
            _ => (self.clone(), Ret::Unit),
        }
    }
    fn each(&self, f: &mut dyn FnMut(&Tok, Option<&Tok>)) {
        for t in self.iter() {
            f(t, None)
        }
    }
    fn size_q(&self) -> usize {
        self.len()
    }
    fn empty_q(&self) -> bool {
        self.is_empty()
    }
    fn probe(&self, m: &Model, _: &Cfg, _: &mut Rng, _: bool) -> Res {
        let s = seq_model(m)?;
        ensure_eq!(some_pair(self.peek()), s.front().copied(), "peek()");
        Ok(())
    }
    fn record(&self) -> Option<Recorder> {
        Some(rec(self))
    }
    fn compare(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn answers(&self, _: &Cfg, out: &mut Vec<Option<Item>>) {
        out.push(some_pair(self.peek()).map(|p| (p, None)));
    }
    fn from_items(_: &Cfg, items: &mut dyn Iterator<Item = (Tok, Option<Tok>)>) -> Self {
        items.map(|x| x.0).collect()
    }
}

// ---------------------------------------------------------------------------------------------- Vector

impl<P: SharedPointerKind + 'static> Coll for Vector<Tok, P> {
    const KIND: Kind = Kind::Vector;
    fn extend_with(&mut self, items: &mut dyn Iterator<Item = (Tok, Option<Tok>)>) -> bool {
        self.extend(items.map(|x| x.0));
        true
    }
    fn empty(cfg: &Cfg) -> Self {
        Vector::new_with_bits(cfg.bits)
    }
    fn do_mut(&mut self, op: &Op) -> Ret {
        match op {
            Op::Put(p) => {
                self.push_back_mut(tk(*p));
                Ret::Unit
            }
            Op::Take => Ret::Bool(self.drop_last_mut()),
            Op::Set(i, p) => Ret::Bool(self.set_mut(*i, tk(*p))),
            Op::GetMut(i, p) => match self.get_mut(*i) {
                Some(r) => {
                    r.put(p.0, p.1);
                    Ret::Bool(true)
                }
                None => Ret::Bool(false),
            },
            Op::PeekMut(i) => Ret::Bool(self.get_mut(*i).is_some()),
            Op::IndexMut(i, p) => match catches(|| self[*i].put(p.0, p.1)) {
                Some(()) => Ret::Unit,
                None => Ret::Panicked,
            },
            Op::Extend(v) => {
                self.extend(v.iter().map(|p| tk(*p)));
                Ret::Unit
            }
            _ => Ret::Unit,
        }
    }
    fn do_new(&self, op: &Op) -> (Self, Ret) {
        match op {
            Op::Put(p) => (self.push_back(tk(*p)), Ret::Unit),
            Op::Take => match self.drop_last() {
                Some(l) => (l, Ret::Bool(true)),
                None => (self.clone(), Ret::Bool(false)),
            },
            Op::Set(i, p) => match self.set(*i, tk(*p)) {
                Some(l) => (l, Ret::Bool(true)),
                None => (self.clone(), Ret::Bool(false)),
            },
            _ => {
                let mut c = self.clone();
                let r = c.do_mut(op);
                (c, r)
            }
        }
    }
    fn each(&self, f: &mut dyn FnMut(&Tok, Option<&Tok>)) {
        for t in self.iter() {
            f(t, None)
        }
    }
    fn size_q(&self) -> usize {
        self.len()
    }
    fn empty_q(&self) -> bool {
        self.is_empty()
    }
    fn probe(&self, m: &Model, _: &Cfg, rng: &mut Rng, deep: bool) -> Res {
        let s = seq_model(m)?;
        ensure_eq!(some_pair(self.first()), s.front().copied(), "first()");
        ensure_eq!(some_pair(self.last()), s.back().copied(), "last()");
        let n = s.len();
        if deep {
            for (i, p) in s.iter().enumerate() {
                ensure_eq!(some_pair(self.get(i)), Some(*p), "get({i}) of {n}");
            }
        }
        for _ in 0..4 {
            let i = rng.below(n + 2);
            ensure_eq!(some_pair(self.get(i)), s.get(i).copied(), "get({i}) of {n}");
            if i < n {
                ensure_eq!(self[i].pair(), s[i], "[{i}] of {n}");
            }
        }
        for i in [n, n + 1, n * 2, usize::MAX, usize::MAX / 2, 1 << (usize::BITS / 2), usize::MAX - 1] {
            if i >= n {
                ensure!(self.get(i).is_none(), "get({i}) of {n} found something");
            }
        }
        if deep {
            let b: Vec<Pair> = self.iter().rev().map(Tok::pair).collect();
            ensure!(b.iter().eq(s.iter().rev()), "backward iteration: got {b:?}, expected the reverse of {s:?}");
            ensure!(catches(|| self[n].key()).is_none(), "[{n}] of {n} did not panic");
        }
        Ok(())
    }
    fn record(&self) -> Option<Recorder> {
        Some(rec(self))
    }
    fn compare(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn answers(&self, _: &Cfg, out: &mut Vec<Option<Item>>) {
        out.push(some_pair(self.first()).map(|p| (p, None)));
        out.push(some_pair(self.last()).map(|p| (p, None)));
        for i in 0..=self.len() {
            out.push(some_pair(self.get(i)).map(|p| (p, None)));
        }
        for t in self.iter().rev() {
            out.push(Some((t.pair(), None)));
        }
    }
    fn from_items(_: &Cfg, items: &mut dyn Iterator<Item = (Tok, Option<Tok>)>) -> Self {
        items.map(|x| x.0).collect()
    }
}

// ---------------------------------------------------------------------------------------------- maps

macro_rules! map_common {
    () => {
        fn do_mut(&mut self, op: &Op) -> Ret {
            match op {
                Op::Insert(k, v) => {
                    self.insert_mut(tk(*k), tk(*v));
                    Ret::Unit
                }
                Op::Remove(k, true) => Ret::Bool(self.remove_mut(&QKey(*k))),
                Op::Remove(k, false) => {
                    let t = Tok::new(*k, u32::MAX);
                    Ret::Bool(self.remove_mut(&t))
                }
                Op::MapGetMut(k, v, borrowed) => {
                    let t = Tok::new(*k, u32::MAX);
                    let r = if *borrowed { self.get_mut(&QKey(*k)) } else { self.get_mut(&t) };
                    match r {
                        Some(x) => {
                            x.put(v.0, v.1);
                            Ret::Bool(true)
                        }
                        None => Ret::Bool(false),
                    }
                }
                Op::MapPeekMut(k) => Ret::Bool(self.get_mut(&QKey(*k)).is_some()),
                _ => Ret::Unit,
            }
        }
        fn do_new(&self, op: &Op) -> (Self, Ret) {
            match op {
                Op::Insert(k, v) => (self.insert(tk(*k), tk(*v)), Ret::Unit),
                Op::Remove(k, b) => {
                    // The persistent form does not say whether the key was there: the size does.
                    let n = if *b { self.remove(&QKey(*k)) } else { self.remove(&Tok::new(*k, u32::MAX)) };
                    let r = n.size() != self.size();
                    (n, Ret::Bool(r))
                }
                _ => {
                    let mut c = self.clone();
                    let r = c.do_mut(op);
                    (c, r)
                }
            }
        }
        fn each(&self, f: &mut dyn FnMut(&Tok, Option<&Tok>)) {
            for (k, v) in self.iter() {
                f(k, Some(v))
            }
        }
        fn size_q(&self) -> usize {
            self.size()
        }
        fn empty_q(&self) -> bool {
            self.is_empty()
        }
        fn identical(&self, o: &Self) -> Option<bool> {
            Some(self.ptr_eq(o))
        }
        fn answers(&self, cfg: &Cfg, out: &mut Vec<Option<Item>>) {
            for i in 0..cfg.universe {
                let k = QKey(cfg.key(i));
                out.push(self.get_key_value(&k).map(|(k, v)| (k.pair(), Some(v.pair()))));
                out.push(self.get(&k).map(|v| (v.pair(), None)));
                out.push(if self.contains_key(&k) { Some(((1, 1), None)) } else { None });
            }
            for k in self.keys() {
                out.push(Some((k.pair(), None)));
            }
            for v in self.values() {
                out.push(Some((v.pair(), None)));
            }
        }
    };
}

macro_rules! map_probe {
    ($self:ident, $s:ident, $cfg:ident, $rng:ident, $deep:ident) => {
        let tries = if $deep { $cfg.universe } else { 4 };
        for i in 0..tries {
            let k = $cfg.key(if $deep { i } else { $rng.below($cfg.universe as usize) as u32 });
            let want = $s.get(&k);
            let q = QKey(k);
            ensure_eq!($self.get(&q).map(Tok::pair), want.map(|w| w.1), "get({k})");
            ensure_eq!(
                $self.get_key_value(&q).map(|(k, v)| (k.pair(), v.pair())),
                want.map(|w| ((k, w.0), w.1)),
                "get_key_value({k})"
            );
            ensure_eq!($self.contains_key(&q), want.is_some(), "contains_key({k})");
            if $rng.chance(1, 4) {
                let t = Tok::new(k, u32::MAX);
                ensure_eq!($self.get(&t).map(Tok::pair), want.map(|w| w.1), "get(owned {k})");
                ensure_eq!($self.contains_key(&t), want.is_some(), "contains_key(owned {k})");
                if let Some(w) = want {
                    ensure_eq!($self[&t].pair(), w.1, "[owned {k}]");
                    ensure_eq!($self[&q].pair(), w.1, "[{k}]");
                }
            }
        }
        if $deep {
            let ks: Vec<Pair> = $self.keys().map(Tok::pair).collect();
            let vs: Vec<Pair> = $self.values().map(Tok::pair).collect();
            let it: Vec<(Pair, Pair)> = $self.iter().map(|(k, v)| (k.pair(), v.pair())).collect();
            ensure!(
                ks.len() == it.len() && ks.iter().zip(&it).all(|(a, b)| *a == b.0),
                "keys() {ks:?} does not go with iter() {it:?}"
            );
            ensure!(
                vs.len() == it.len() && vs.iter().zip(&it).all(|(a, b)| *a == b.1),
                "values() {vs:?} does not go with iter() {it:?}"
            );
        }
    };
}

impl<P: SharedPointerKind + 'static, H: MkHasher> Coll for HashTrieMap<Tok, Tok, P, H> {
    const KIND: Kind = Kind::HtMap;
    fn empty(cfg: &Cfg) -> Self {
        HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(H::mk(cfg.mode), cfg.degree)
    }
    map_common!();
    fn probe(&self, m: &Model, cfg: &Cfg, rng: &mut Rng, deep: bool) -> Res {
        let s = map_model(m)?;
        map_probe!(self, s, cfg, rng, deep);
        Ok(())
    }
    fn from_items(_: &Cfg, items: &mut dyn Iterator<Item = (Tok, Option<Tok>)>) -> Self {
        items.map(|(k, v)| (k, v.unwrap_or_else(|| Tok::new(0, 0)))).collect()
    }
}

/// A random range over the keys, with both ends of every kind; `None` if it is one that must panic.
pub fn random_bounds(cfg: &Cfg, rng: &mut Rng) -> (Bound<u32>, Bound<u32>) {
    let span = cfg.universe as usize + 3;
    let at = |rng: &mut Rng| -> u32 {
        // Keys of the map, and (with a stride) positions between them.
        let k = cfg.key(rng.below(span) as u32);
        if cfg.stride > 1 && rng.chance(1, 3) { k.wrapping_add(1) } else { k }
    };
    let a = at(rng);
    let b = if rng.chance(1, 6) { a } else { at(rng) };
    let (a, b) = if a > b && !rng.chance(1, 8) { (b, a) } else { (a, b) };
    let lo = match rng.below(3) {
        0 => Bound::Unbounded,
        1 => Bound::Included(a),
        _ => Bound::Excluded(a),
    };
    let hi = match rng.below(3) {
        0 => Bound::Unbounded,
        1 => Bound::Included(b),
        _ => Bound::Excluded(b),
    };
    (lo, hi)
}

/// The documented conditions for `range()` to panic.
pub fn range_must_panic(r: &(Bound<u32>, Bound<u32>)) -> bool {
    use Bound::*;
    match r {
        (Excluded(a), Excluded(b)) if a == b => true,
        (Included(a) | Excluded(a), Included(b) | Excluded(b)) => a > b,
        _ => false,
    }
}

pub fn as_q(b: &Bound<u32>) -> Bound<QKey> {
    match b {
        Bound::Included(x) => Bound::Included(QKey(*x)),
        Bound::Excluded(x) => Bound::Excluded(QKey(*x)),
        Bound::Unbounded => Bound::Unbounded,
    }
}
pub fn as_ref<T>(b: &Bound<T>) -> Bound<&T> {
    match b {
        Bound::Included(x) => Bound::Included(x),
        Bound::Excluded(x) => Bound::Excluded(x),
        Bound::Unbounded => Bound::Unbounded,
    }
}

/// What the range must deliver, in ascending order, from first principles.
pub fn range_model(s: &BTreeMap<u32, (u32, Pair)>, r: &(Bound<u32>, Bound<u32>)) -> Vec<(u32, u32, Pair)> {
    s.iter()
        .filter(|(k, _)| match r.0 {
            Bound::Included(a) => **k >= a,
            Bound::Excluded(a) => **k > a,
            Bound::Unbounded => true,
        })
        .filter(|(k, _)| match r.1 {
            Bound::Included(a) => **k <= a,
            Bound::Excluded(a) => **k < a,
            Bound::Unbounded => true,
        })
        .map(|(k, (u, v))| (*k, *u, *v))
        .collect()
}

/// On a big map: a few steps from both ends of a range, in step with the standard library's.
fn brief_range<T: PartialEq + Debug>(
    s: &BTreeMap<u32, (u32, Pair)>,
    r: &(Bound<u32>, Bound<u32>),
    mut it: impl DoubleEndedIterator<Item = T>,
    f: impl Fn((&u32, &(u32, Pair))) -> T,
    rng: &mut Rng,
) -> Res {
    let mut want = s.range((as_ref(&r.0), as_ref(&r.1)));
    for step in 0..rng.range(4, 24) {
        let (a, b, side) = if rng.chance(1, 2) {
            (it.next(), want.next().map(&f), "next()")
        } else {
            (it.next_back(), want.next_back().map(&f), "next_back()")
        };
        ensure!(a == b, "range({r:?}) of {} entries: {side} at step {step} gave {a:?} instead of {b:?}", s.len());
        if b.is_none() {
            break;
        }
    }
    Ok(())
}

/// Consumes a double-ended iterator in a random way and compares with the expected sequence.
pub fn both_ends<T: PartialEq + Debug>(
    mut it: impl DoubleEndedIterator<Item = T>,
    want: &[T],
    rng: &mut Rng,
    what: &str,
) -> Res {
    let (mut i, mut j) = (0, want.len());
    // Sometimes one side only, sometimes runs, sometimes strict alternation.
    let style = rng.below(5);
    let mut turn = rng.chance(1, 2);
    while i < j {
        let front = match style {
            0 => true,
            1 => false,
            2 => {
                turn = !turn;
                turn
            }
            3 => {
                if rng.chance(1, 5) {
                    turn = !turn
                }
                turn
            }
            _ => rng.chance(1, 2),
        };
        if front {
            let got = it.next();
            ensure!(got.as_ref() == Some(&want[i]), "{what}: next() gave {got:?} instead of {:?} (front {i}, back {j}, of {want:?})", want[i]);
            i += 1;
        } else {
            let got = it.next_back();
            j -= 1;
            ensure!(got.as_ref() == Some(&want[j]), "{what}: next_back() gave {got:?} instead of {:?} (front {i}, back {}, of {want:?})", want[j], j + 1);
        }
    }
    for _ in 0..3 {
        let (a, b) = if rng.chance(1, 2) {
            let a = it.next();
            (a, it.next_back())
        } else {
            let b = it.next_back();
            (it.next(), b)
        };
        ensure!(a.is_none() && b.is_none(), "{what}: gave {a:?}/{b:?} after its {} elements {want:?}", want.len());
    }
    Ok(())
}

impl<P: SharedPointerKind + 'static> Coll for RedBlackTreeMap<Tok, Tok, P> {
    const KIND: Kind = Kind::RbMap;
    fn empty(_: &Cfg) -> Self {
        RedBlackTreeMap::new_with_ptr_kind()
    }
    map_common!();
    fn probe(&self, m: &Model, cfg: &Cfg, rng: &mut Rng, deep: bool) -> Res {
        let s = map_model(m)?;
        map_probe!(self, s, cfg, rng, deep);
        let e = |x: (&u32, &(u32, Pair))| ((*x.0, x.1.0), x.1.1);
        ensure_eq!(self.first().map(|(k, v)| (k.pair(), v.pair())), s.first_key_value().map(e), "first()");
        ensure_eq!(self.last().map(|(k, v)| (k.pair(), v.pair())), s.last_key_value().map(e), "last()");
        for _ in 0..if deep { 3 } else { 1 } {
            let r = random_bounds(cfg, rng);
            let q = (as_q(&r.0), as_q(&r.1));
            let it = catches(|| self.range::<QKey, _>((as_ref(&q.0), as_ref(&q.1))));
            match it {
                None => ensure!(range_must_panic(&r), "range({r:?}) panicked"),
                Some(it) => {
                    ensure!(!range_must_panic(&r), "range({r:?}) did not panic");
                    let it = it.map(|(k, v)| (k.key(), k.uid(), v.pair()));
                    if s.len() > 200 && !deep {
                        return brief_range(s, &r, it, |(k, v)| (*k, v.0, v.1), rng);
                    }
                    let want = range_model(s, &r);
                    both_ends(it, &want, rng, &format!("range({r:?})"))?;
                }
            }
        }
        Ok(())
    }
    fn record(&self) -> Option<Recorder> {
        Some(rec(self))
    }
    fn compare(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn from_items(_: &Cfg, items: &mut dyn Iterator<Item = (Tok, Option<Tok>)>) -> Self {
        items.map(|(k, v)| (k, v.unwrap_or_else(|| Tok::new(0, 0)))).collect()
    }
}

// ---------------------------------------------------------------------------------------------- sets

macro_rules! set_common {
    () => {
        fn do_mut(&mut self, op: &Op) -> Ret {
            match op {
                Op::Insert(k, _) => {
                    self.insert_mut(tk(*k));
                    Ret::Unit
                }
                Op::Remove(k, true) => Ret::Bool(self.remove_mut(&QKey(*k))),
                Op::Remove(k, false) => {
                    let t = Tok::new(*k, u32::MAX);
                    Ret::Bool(self.remove_mut(&t))
                }
                _ => Ret::Unit,
            }
        }
        fn do_new(&self, op: &Op) -> (Self, Ret) {
            match op {
                Op::Insert(k, _) => (self.insert(tk(*k)), Ret::Unit),
                Op::Remove(k, b) => {
                    let n = if *b { self.remove(&QKey(*k)) } else { self.remove(&Tok::new(*k, u32::MAX)) };
                    let r = n.size() != self.size();
                    (n, Ret::Bool(r))
                }
                _ => (self.clone(), Ret::Unit),
            }
        }
        fn each(&self, f: &mut dyn FnMut(&Tok, Option<&Tok>)) {
            for k in self.iter() {
                f(k, None)
            }
        }
        fn size_q(&self) -> usize {
            self.size()
        }
        fn empty_q(&self) -> bool {
            self.is_empty()
        }
        fn identical(&self, o: &Self) -> Option<bool> {
            Some(self.ptr_eq(o))
        }
        fn relations(&self, o: &Self) -> Option<[bool; 3]> {
            Some([self.is_disjoint(o), self.is_subset(o), self.is_superset(o)])
        }
        fn answers(&self, cfg: &Cfg, out: &mut Vec<Option<Item>>) {
            for i in 0..cfg.universe {
                let k = QKey(cfg.key(i));
                out.push(self.get(&k).map(|k| (k.pair(), None)));
                out.push(if self.contains(&k) { Some(((1, 1), None)) } else { None });
            }
        }
    };
}

macro_rules! set_probe {
    ($self:ident, $s:ident, $cfg:ident, $rng:ident, $deep:ident) => {
        let tries = if $deep { $cfg.universe } else { 4 };
        for i in 0..tries {
            let k = $cfg.key(if $deep { i } else { $rng.below($cfg.universe as usize) as u32 });
            let want = $s.get(&k);
            let q = QKey(k);
            ensure_eq!($self.get(&q).map(Tok::pair), want.map(|w| (k, w.0)), "get({k})");
            ensure_eq!($self.contains(&q), want.is_some(), "contains({k})");
            if $rng.chance(1, 4) {
                let t = Tok::new(k, u32::MAX);
                ensure_eq!($self.get(&t).map(Tok::pair), want.map(|w| (k, w.0)), "get(owned {k})");
                ensure_eq!($self.contains(&t), want.is_some(), "contains(owned {k})");
            }
        }
    };
}

impl<P: SharedPointerKind + 'static, H: MkHasher> Coll for HashTrieSet<Tok, P, H> {
    const KIND: Kind = Kind::HtSet;
    fn empty(cfg: &Cfg) -> Self {
        HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(H::mk(cfg.mode), cfg.degree)
    }
    set_common!();
    fn probe(&self, m: &Model, cfg: &Cfg, rng: &mut Rng, deep: bool) -> Res {
        let s = map_model(m)?;
        set_probe!(self, s, cfg, rng, deep);
        Ok(())
    }
    fn from_items(_: &Cfg, items: &mut dyn Iterator<Item = (Tok, Option<Tok>)>) -> Self {
        items.map(|x| x.0).collect()
    }
}

impl<P: SharedPointerKind + 'static> Coll for RedBlackTreeSet<Tok, P> {
    const KIND: Kind = Kind::RbSet;
    fn empty(_: &Cfg) -> Self {
        RedBlackTreeSet::new_with_ptr_kind()
    }
    set_common!();
    fn probe(&self, m: &Model, cfg: &Cfg, rng: &mut Rng, deep: bool) -> Res {
        let s = map_model(m)?;
        set_probe!(self, s, cfg, rng, deep);
        ensure_eq!(self.first().map(Tok::pair), s.first_key_value().map(|(k, v)| (*k, v.0)), "first()");
        ensure_eq!(self.last().map(Tok::pair), s.last_key_value().map(|(k, v)| (*k, v.0)), "last()");
        for _ in 0..if deep { 3 } else { 1 } {
            let r = random_bounds(cfg, rng);
            let q = (as_q(&r.0), as_q(&r.1));
            let it = catches(|| self.range::<QKey, _>((as_ref(&q.0), as_ref(&q.1))));
            match it {
                None => ensure!(range_must_panic(&r), "range({r:?}) panicked"),
                Some(it) => {
                    ensure!(!range_must_panic(&r), "range({r:?}) did not panic");
                    if s.len() > 200 && !deep {
                        return brief_range(s, &r, it.map(Tok::pair), |(k, v)| (*k, v.0), rng);
                    }
                    let want: Vec<Pair> = range_model(s, &r).iter().map(|x| (x.0, x.1)).collect();
                    both_ends(it.map(Tok::pair), &want, rng, &format!("range({r:?})"))?;
                }
            }
        }
        Ok(())
    }
    fn record(&self) -> Option<Recorder> {
        Some(rec(self))
    }
    fn compare(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn from_items(_: &Cfg, items: &mut dyn Iterator<Item = (Tok, Option<Tok>)>) -> Self {
        items.map(|x| x.0).collect()
    }
}

// ---------------------------------------------------------------------------------------------- erased

/// Everything a version says about itself, in the order it says it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Snapshot {
    pub len: usize,
    pub empty: bool,
    pub items: Vec<Item>,
    pub answers: Vec<Option<Item>>,
}

pub trait Subj: Any {
    fn cfg(&self) -> &Cfg;
    fn dup(&self) -> Box<dyn Subj>;
    fn apply(&self, op: &Op) -> (Box<dyn Subj>, Ret);
    fn apply_mut(&mut self, op: &Op) -> Ret;
    fn each(&self, f: &mut dyn FnMut(&Tok, Option<&Tok>));
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn check(&self, m: &Model, rng: &mut Rng, deep: bool) -> Res;
    fn snapshot(&self) -> Snapshot;
    fn same(&self, o: &dyn Subj) -> Option<bool>;
    fn cmp_with(&self, o: &dyn Subj) -> Option<Ordering>;
    fn ptr_eq(&self, o: &dyn Subj) -> Option<bool>;
    fn relations(&self, o: &dyn Subj) -> Option<[bool; 3]>;
    /// Whether there is such an operation.
    fn extend_with(&mut self, items: &mut dyn Iterator<Item = (Tok, Option<Tok>)>) -> bool;
    fn collect_from(&self, items: &mut dyn Iterator<Item = (Tok, Option<Tok>)>) -> Box<dyn Subj>;
    fn record(&self) -> Option<Recorder>;
    fn show(&self) -> String;
    fn display(&self) -> &dyn Display;
    fn debug(&self) -> String;
    fn rebuilt(&self) -> Box<dyn Subj>;
    fn collected(&self) -> Box<dyn Subj>;
    fn as_any(&self) -> &dyn Any;
}

pub struct S<C: Coll> {
    pub c: C,
    pub cfg: Cfg,
}

impl<C: Coll> Subj for S<C> {
    fn cfg(&self) -> &Cfg {
        &self.cfg
    }
    fn dup(&self) -> Box<dyn Subj> {
        Box::new(S { c: self.c.clone(), cfg: self.cfg.clone() })
    }
    fn apply(&self, op: &Op) -> (Box<dyn Subj>, Ret) {
        let (c, r) = self.c.do_new(op);
        (Box::new(S { c, cfg: self.cfg.clone() }), r)
    }
    fn apply_mut(&mut self, op: &Op) -> Ret {
        self.c.do_mut(op)
    }
    fn each(&self, f: &mut dyn FnMut(&Tok, Option<&Tok>)) {
        self.c.each(f)
    }
    fn len(&self) -> usize {
        self.c.size_q()
    }
    fn is_empty(&self) -> bool {
        self.c.empty_q()
    }
    fn check(&self, m: &Model, rng: &mut Rng, deep: bool) -> Res {
        ensure_eq!(self.c.size_q(), m.len(), "length");
        ensure_eq!(self.c.empty_q(), m.is_empty(), "is_empty()");
        if deep {
            let mut got: Vec<Item> = Vec::with_capacity(m.len());
            self.c.each(&mut |k, v| got.push((k.pair(), v.map(Tok::pair))));
            let want = m.items();
            if C::KIND.is_hash() {
                got.sort_unstable();
            }
            ensure_eq!(got, want, "iteration");
        }
        self.c.probe(m, &self.cfg, rng, deep)
    }
    fn snapshot(&self) -> Snapshot {
        let mut items = vec![];
        self.c.each(&mut |k, v| items.push((k.pair(), v.map(Tok::pair))));
        let mut answers = vec![];
        self.c.answers(&self.cfg, &mut answers);
        Snapshot { len: self.c.size_q(), empty: self.c.empty_q(), items, answers }
    }
    fn same(&self, o: &dyn Subj) -> Option<bool> {
        o.as_any().downcast_ref::<S<C>>().map(|o| self.c == o.c)
    }
    fn cmp_with(&self, o: &dyn Subj) -> Option<Ordering> {
        o.as_any().downcast_ref::<S<C>>().and_then(|o| self.c.compare(&o.c))
    }
    fn ptr_eq(&self, o: &dyn Subj) -> Option<bool> {
        o.as_any().downcast_ref::<S<C>>().and_then(|o| self.c.identical(&o.c))
    }
    fn relations(&self, o: &dyn Subj) -> Option<[bool; 3]> {
        o.as_any().downcast_ref::<S<C>>().and_then(|o| self.c.relations(&o.c))
    }
    fn extend_with(&mut self, items: &mut dyn Iterator<Item = (Tok, Option<Tok>)>) -> bool {
        self.c.extend_with(items)
    }
    fn collect_from(&self, items: &mut dyn Iterator<Item = (Tok, Option<Tok>)>) -> Box<dyn Subj> {
        Box::new(S { c: C::from_items(&self.cfg, items), cfg: self.cfg.clone() })
    }
    fn record(&self) -> Option<Recorder> {
        self.c.record()
    }
    fn show(&self) -> String {
        self.c.to_string()
    }
    fn display(&self) -> &dyn Display {
        &self.c
    }
    fn debug(&self) -> String {
        format!("{:?}", self.c)
    }
    /// The same contents, sharing nothing with this version, built one element at a time.
    fn rebuilt(&self) -> Box<dyn Subj> {
        let mut items = vec![];
        self.c.each(&mut |k, v| items.push((k.pair(), v.map(Tok::pair))));
        if matches!(C::KIND, Kind::List | Kind::Stack) {
            items.reverse();
        }
        let mut c = C::empty(&self.cfg);
        for (k, v) in items {
            let op = if C::KIND.is_seq() { Op::Put(k) } else { Op::Insert(k, v.unwrap_or((0, 0))) };
            c.do_mut(&op);
        }
        Box::new(S { c, cfg: self.cfg.clone() })
    }
    /// The same contents through `FromIterator`, so with the default configuration.
    fn collected(&self) -> Box<dyn Subj> {
        let mut items = vec![];
        self.c.each(&mut |k, v| items.push((k.pair(), v.map(Tok::pair))));
        let mut it = items.into_iter().map(|(k, v)| (tk(k), v.map(tk)));
        Box::new(S { c: C::from_items(&self.cfg, &mut it), cfg: self.cfg.clone() })
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

fn b<C: Coll>(cfg: &Cfg) -> Box<dyn Subj> {
    Box::new(S { c: C::empty(cfg), cfg: cfg.clone() })
}

fn by_kind<P: SharedPointerKind + 'static>(cfg: &Cfg) -> Box<dyn Subj> {
    match cfg.kind {
        Kind::List => b::<List<Tok, P>>(cfg),
        Kind::Stack => b::<Stack<Tok, P>>(cfg),
        Kind::Vector => b::<Vector<Tok, P>>(cfg),
        Kind::Queue => b::<Queue<Tok, P>>(cfg),
        Kind::HtMap if cfg.stateless => b::<HashTrieMap<Tok, Tok, P, ZB>>(cfg),
        Kind::HtMap => b::<HashTrieMap<Tok, Tok, P, HB>>(cfg),
        Kind::RbMap => b::<RedBlackTreeMap<Tok, Tok, P>>(cfg),
        Kind::HtSet if cfg.stateless => b::<HashTrieSet<Tok, P, ZB>>(cfg),
        Kind::HtSet => b::<HashTrieSet<Tok, P, HB>>(cfg),
        Kind::RbSet => b::<RedBlackTreeSet<Tok, P>>(cfg),
    }
}

pub fn empty(cfg: &Cfg) -> Box<dyn Subj> {
    match cfg.ptr {
        Ptr::Rc => by_kind::<RcK>(cfg),
        Ptr::Arc => by_kind::<ArcK>(cfg),
        Ptr::ArcT => by_kind::<ArcTK>(cfg),
    }
}

impl Snapshot {
    /// With the order of a hash collection taken out.
    pub fn canonical(mut self, cfg: &Cfg) -> Snapshot {
        if cfg.kind.is_hash() {
            self.items.sort_unstable();
            let lookups = cfg.universe as usize * if cfg.kind.is_map() { 3 } else { 2 };
            let n = self.answers.len();
            if lookups <= n {
                self.answers[lookups..].sort_unstable();
            }
        }
        self
    }
}
