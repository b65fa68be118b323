//! The same collections with elements of many types: without size, without destructor, large, over-aligned, with niches.
//!
//! What a collection does may not depend on what kind of type its elements have, and an optimisation for some of them is
//! where such a dependence would come from.  Short histories over a few versions, each compared with a `Vec` or `BTreeMap`.

// Not all of it is compiled for every check.
#![allow(dead_code, unused_variables)]

use crate::alloc;
use crate::ctx::{Ctx, Res};
use crate::hashers::{HB, MkHasher, Recorder, ZB, modes};
use crate::model::Kind;
use crate::rng::Rng;
use crate::{ensure, ensure_eq};
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use rpds::*;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[repr(align(128))]
pub struct Aligned(u8);

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Unit;

pub trait Elem: Clone + Ord + Hash + Debug + 'static {
    fn of(i: u32) -> Self;
}
macro_rules! elem {
    ($( $t:ty: |$i:ident| $e:expr; )*) => { $( impl Elem for $t { fn of($i: u32) -> Self { $e } } )* };
}
elem! {
    (): |_i| ();
    Unit: |_i| Unit;
    bool: |i| i % 2 == 1;
    u8: |i| i as u8;
    u32: |i| i;
    u64: |i| i as u64;
    u128: |i| (i as u128) << 70;
    char: |i| char::from_u32(i % 50_000).unwrap_or('?');
    Aligned: |i| Aligned(i as u8);
    [u64; 40]: |i| [i as u64; 40];
    &'static str: |i| ["a", "b", "", "a longer one", "c", "d", "e"][i as usize % 7];
    Option<bool>: |i| [None, Some(false), Some(true)][i as usize % 3];
    String: |i| format!("{i}");
    Box<u32>: |i| Box::new(i);
    Rc<u32>: |i| Rc::new(i);
    Option<Box<u8>>: |i| if i % 5 == 0 { None } else { Some(Box::new(i as u8)) };
    (u8, String): |i| (i as u8, "x".repeat((i % 3) as usize));
}

#[derive(Clone, Copy)]
pub struct Want {
    /// Compare the relations (==, cmp, hash) of versions too.
    pub relations: bool,
    /// Check the allocator's balance at the end.
    pub balance: bool,
}

trait Seq<T: Elem>: Clone + FromIterator<T> + Debug + Eq + Ord + Hash {
    const NAME: &'static str;
    /// Where `put` and `take` work in the model: at the front?
    const PUT_FRONT: bool;
    const TAKE_FRONT: bool;
    fn empty(bits: u8) -> Self;
    fn put(&self, t: T) -> Self;
    fn put_mut(&mut self, t: T);
    fn take(&self) -> Option<Self>;
    fn take_mut(&mut self) -> bool;
    fn size(&self) -> usize;
    fn none(&self) -> bool;
    fn ends(&self) -> (Option<&T>, Option<&T>);
    fn all(&self) -> Vec<T>;
    fn reversed(&self) -> Option<Self> {
        None
    }
    fn reverse(&mut self) {}
    fn at(&self, _: usize) -> Option<Option<&T>> {
        None
    }
    fn set(&self, _: usize, _: T) -> Option<Self> {
        None
    }
    fn set_mut(&mut self, _: usize, _: T) -> bool {
        false
    }
    fn at_mut(&mut self, _: usize) -> Option<&mut T> {
        None
    }
    fn extended(&mut self, _: &mut dyn Iterator<Item = T>) -> bool {
        false
    }
}

impl<T: Elem, P: SharedPointerKind> Seq<T> for List<T, P> {
    const NAME: &'static str = "List";
    const PUT_FRONT: bool = true;
    const TAKE_FRONT: bool = true;
    fn empty(_: u8) -> Self {
        List::new_with_ptr_kind()
    }
    fn put(&self, t: T) -> Self {
        self.push_front(t)
    }
    fn put_mut(&mut self, t: T) {
        self.push_front_mut(t);
    }
    fn take(&self) -> Option<Self> {
        self.drop_first()
    }
    fn take_mut(&mut self) -> bool {
        self.drop_first_mut()
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn none(&self) -> bool {
        self.is_empty()
    }
    fn ends(&self) -> (Option<&T>, Option<&T>) {
        (self.first(), self.last())
    }
    fn all(&self) -> Vec<T> {
        self.iter().cloned().collect()
    }
    fn reversed(&self) -> Option<Self> {
        Some(self.reverse())
    }
    fn reverse(&mut self) {
        self.reverse_mut();
    }
}
impl<T: Elem, P: SharedPointerKind> Seq<T> for Stack<T, P> {
    const NAME: &'static str = "Stack";
    const PUT_FRONT: bool = true;
    const TAKE_FRONT: bool = true;
    fn empty(_: u8) -> Self {
        Stack::new_with_ptr_kind()
    }
    fn put(&self, t: T) -> Self {
        self.push(t)
    }
    fn put_mut(&mut self, t: T) {
        self.push_mut(t);
    }
    fn take(&self) -> Option<Self> {
        self.pop()
    }
    fn take_mut(&mut self) -> bool {
        self.pop_mut()
    }
    fn size(&self) -> usize {
        Stack::size(self)
    }
    fn none(&self) -> bool {
        self.is_empty()
    }
    fn ends(&self) -> (Option<&T>, Option<&T>) {
        (self.peek(), self.iter().last())
    }
    fn all(&self) -> Vec<T> {
        self.iter().cloned().collect()
    }
}
impl<T: Elem, P: SharedPointerKind> Seq<T> for Queue<T, P> {
    const NAME: &'static str = "Queue";
    const PUT_FRONT: bool = false;
    const TAKE_FRONT: bool = true;
    fn empty(_: u8) -> Self {
        Queue::new_with_ptr_kind()
    }
    fn put(&self, t: T) -> Self {
        self.enqueue(t)
    }
    fn put_mut(&mut self, t: T) {
        self.enqueue_mut(t);
    }
    fn take(&self) -> Option<Self> {
        self.dequeue()
    }
    fn take_mut(&mut self) -> bool {
        self.dequeue_mut()
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn none(&self) -> bool {
        self.is_empty()
    }
    fn ends(&self) -> (Option<&T>, Option<&T>) {
        (self.peek(), self.iter().last())
    }
    fn all(&self) -> Vec<T> {
        self.iter().cloned().collect()
    }
}
impl<T: Elem, P: SharedPointerKind> Seq<T> for Vector<T, P> {
    const NAME: &'static str = "Vector";
    const PUT_FRONT: bool = false;
    const TAKE_FRONT: bool = false;
    fn empty(bits: u8) -> Self {
        Vector::new_with_bits(bits)
    }
    fn put(&self, t: T) -> Self {
        self.push_back(t)
    }
    fn put_mut(&mut self, t: T) {
        self.push_back_mut(t);
    }
    fn take(&self) -> Option<Self> {
        self.drop_last()
    }
    fn take_mut(&mut self) -> bool {
        self.drop_last_mut()
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn none(&self) -> bool {
        self.is_empty()
    }
    fn ends(&self) -> (Option<&T>, Option<&T>) {
        (self.first(), self.last())
    }
    fn all(&self) -> Vec<T> {
        self.iter().cloned().collect()
    }
    fn at(&self, i: usize) -> Option<Option<&T>> {
        Some(self.get(i))
    }
    fn set(&self, i: usize, t: T) -> Option<Self> {
        Vector::set(self, i, t)
    }
    fn set_mut(&mut self, i: usize, t: T) -> bool {
        Vector::set_mut(self, i, t)
    }
    fn at_mut(&mut self, i: usize) -> Option<&mut T> {
        self.get_mut(i)
    }
    fn extended(&mut self, it: &mut dyn Iterator<Item = T>) -> bool {
        self.extend(it);
        true
    }
}

fn show<T: Debug>(t: &T) -> String {
    let mut s = format!("{t:?}");
    if s.len() > 400 {
        let mut at = 400;
        while !s.is_char_boundary(at) {
            at -= 1;
        }
        s.truncate(at);
        s.push_str("...");
    }
    s
}

fn calls<X: Hash>(x: &X) -> Recorder {
    let mut r = Recorder::default();
    x.hash(&mut r);
    r
}

fn seq_check<T: Elem, X: Seq<T>>(x: &X, m: &[T], what: &dyn Fn() -> String) -> Res {
    ensure!(x.size() == m.len() && x.none() == m.is_empty(), "{}: {} elements instead of {}", what(), x.size(), m.len());
    let e = x.ends();
    ensure!(e == (m.first(), m.last()), "{}: ends {} of {}", what(), show(&e), show(&m));
    let a = x.all();
    ensure!(a == m, "{}: iteration yields {} instead of {}", what(), show(&a), show(&m));
    if x.at(0).is_some() {
        for i in 0..m.len() + 2 {
            let g = x.at(i).flatten();
            ensure!(g == m.get(i), "{}: get({i}) of {} is {}", what(), show(&m), show(&g));
        }
    }
    Ok(())
}

fn seq_run<T: Elem, X: Seq<T>>(ctx: &mut Ctx, want: Want, rng: &mut Rng) -> Res {
    let bits = *rng.pick(&[1u8, 1, 2, 3, 5, 5, 8]);
    let target = *rng.pick(&[3usize, 8, 20, 40, 80]);
    let n = rng.range(6, 70);
    let name = std::any::type_name::<T>();
    let mut next = rng.next() as u32 % 1000;
    let mut pool: Vec<(X, Vec<T>)> = vec![(X::empty(bits), vec![])];
    let mut growing = true;
    let mut log: Vec<String> = vec![];
    let mut changed = 0;
    for _ in 0..n {
        let i = rng.below(pool.len());
        let persistent = rng.chance(2, 5);
        if rng.chance(1, 10) {
            // Several at once, by one of the constructors.
            let k = rng.below(target);
            let items: Vec<T> = (0..k as u32).map(|j| T::of(next.wrapping_add(j))).collect();
            next = next.wrapping_add(k as u32);
            if rng.chance(1, 2) {
                let mut x = pool[i].0.clone();
                let mut m = pool[i].1.clone();
                if x.extended(&mut items.iter().cloned()) {
                    m.extend(items);
                    log.push(format!("{i}: clone, extend by {k}"));
                    pool.push((x, m));
                }
            } else {
                log.push(format!("collect {k}"));
                pool.push((items.iter().cloned().collect(), items));
            }
        } else {
            next = next.wrapping_add(1);
            let t = T::of(next);
            let len = pool[i].1.len();
            if len >= target {
                growing = false;
            } else if len == 0 {
                growing = true;
            }
            let op = match rng.below(10) {
                0..=5 => usize::from(!growing),
                6 => usize::from(growing),
                7 => 2,
                8 => 3,
                _ => 4,
            };
            let mut m = pool[i].1.clone();
            let at = rng.below(len + 2);
            log.push(format!("{i}: op {op} at {at} of {len} {}", if persistent { "persistent" } else { "in place" }));
            let made: Option<X> = match op {
                0 => {
                    if X::PUT_FRONT { m.insert(0, t.clone()) } else { m.push(t.clone()) }
                    if persistent {
                        Some(pool[i].0.put(t))
                    } else {
                        pool[i].0.put_mut(t);
                        None
                    }
                }
                1 => {
                    if len > 0 {
                        if X::TAKE_FRONT { drop(m.remove(0)) } else { drop(m.pop()) }
                    }
                    if persistent {
                        let r = pool[i].0.take();
                        ensure!(r.is_some() == (len > 0), "{} of {name}: taking from {len} elements; {log:?}", X::NAME);
                        r
                    } else {
                        let r = pool[i].0.take_mut();
                        ensure!(r == (len > 0), "{} of {name}: taking in place from {len} elements says {r}; {log:?}", X::NAME);
                        None
                    }
                }
                2 => {
                    if let Some(x) = pool[i].0.reversed() {
                        m.reverse();
                        if persistent {
                            Some(x)
                        } else {
                            drop(x);
                            pool[i].0.reverse();
                            None
                        }
                    } else {
                        continue;
                    }
                }
                3 => {
                    if pool[i].0.at(0).is_none() {
                        continue;
                    }
                    if at < len {
                        m[at] = t.clone();
                    }
                    if persistent {
                        let r = pool[i].0.set(at, t);
                        ensure!(r.is_some() == (at < len), "{} of {name}: set({at}) of {len}; {log:?}", X::NAME);
                        r
                    } else {
                        let r = pool[i].0.set_mut(at, t);
                        ensure!(r == (at < len), "{} of {name}: set_mut({at}) of {len} says {r}; {log:?}", X::NAME);
                        None
                    }
                }
                _ => {
                    if pool[i].0.at(0).is_none() {
                        continue;
                    }
                    if at < len {
                        m[at] = t.clone();
                    }
                    let r = pool[i].0.at_mut(at);
                    ensure!(r.is_some() == (at < len), "{} of {name}: get_mut({at}) of {len}; {log:?}", X::NAME);
                    if let Some(r) = r {
                        *r = t;
                    }
                    None
                }
            };
            changed += 1;
            match made {
                Some(x) => pool.push((x, m)),
                None if persistent && op != 4 => {}
                None => pool[i].1 = m,
            }
        }
        if rng.chance(1, 8) {
            let x = pool[i].clone();
            pool.push(x);
        }
        if pool.len() > 4 {
            pool.swap_remove(rng.below(4));
        }
        ctx.eval();
        for (j, (x, m)) in pool.iter().enumerate() {
            seq_check(x, m, &|| format!("{} of {name} (bits {bits}), version {j}, {log:?}", X::NAME))?;
        }
        if want.relations {
            relations(&pool, rng, &|| format!("{} of {name} (bits {bits}), {log:?}", X::NAME))?;
        }
        if log.len() > 80 {
            log.remove(0);
        }
    }
    ctx.count("typed_operations", changed);
    Ok(())
}

fn relations<T: Ord + Hash + Clone, X: Ord + Hash + FromIterator<T>>(
    pool: &[(X, Vec<T>)],
    rng: &mut Rng,
    what: &dyn Fn() -> String,
) -> Res {
    let (i, j) = (rng.below(pool.len()), rng.below(pool.len()));
    let built: X = pool[j].1.iter().cloned().collect();
    for (y, how) in [(&pool[j].0, "each other"), (&built, "a rebuilt one")] {
        let (x, m) = &pool[i];
        let o = m.cmp(&pool[j].1);
        ensure!((x == y) == o.is_eq() && (y == x) == o.is_eq(), "{}: versions {i} and {j}, {how}: ==", what());
        ensure!(x.cmp(y) == o && y.cmp(x) == o.reverse(), "{}: versions {i} and {j}, {how}: cmp", what());
        ensure!(x.partial_cmp(y) == Some(o), "{}: versions {i} and {j}, {how}: partial_cmp", what());
        if o.is_eq() {
            ensure!(calls(x) == calls(y), "{}: versions {i} and {j}, {how}: equal and hashed differently", what());
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------- maps and sets

trait Keyed<K: Elem, V: Elem>: Clone + PartialEq {
    const NAME: &'static str;
    const ORDERED: bool;
    fn ins(&self, k: K, v: V) -> Self;
    fn ins_mut(&mut self, k: K, v: V);
    fn del(&self, k: &K) -> Self;
    fn del_mut(&mut self, k: &K) -> bool;
    fn has(&self, k: &K) -> bool;
    fn val(&self, k: &K) -> Option<V>;
    fn val_mut(&mut self, _: &K) -> Option<&mut V> {
        None
    }
    fn size(&self) -> usize;
    fn none(&self) -> bool;
    fn all(&self) -> Vec<(K, V)>;
    fn ends(&self) -> Option<(Option<K>, Option<K>)> {
        None
    }
    fn between(&self, _: &K, _: &K) -> Option<Vec<K>> {
        None
    }
    /// Equality, order (if any) and hash (if any) of two.
    fn rel(&self, o: &Self) -> (bool, Option<std::cmp::Ordering>, bool);
}

macro_rules! keyed_map {
    () => {
        fn ins(&self, k: K, v: V) -> Self {
            self.insert(k, v)
        }
        fn ins_mut(&mut self, k: K, v: V) {
            self.insert_mut(k, v);
        }
        fn del(&self, k: &K) -> Self {
            self.remove(k)
        }
        fn del_mut(&mut self, k: &K) -> bool {
            self.remove_mut(k)
        }
        fn has(&self, k: &K) -> bool {
            self.contains_key(k)
        }
        fn val(&self, k: &K) -> Option<V> {
            self.get(k).cloned()
        }
        fn val_mut(&mut self, k: &K) -> Option<&mut V> {
            self.get_mut(k)
        }
        fn size(&self) -> usize {
            Self::size(self)
        }
        fn none(&self) -> bool {
            self.is_empty()
        }
        fn all(&self) -> Vec<(K, V)> {
            self.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
        }
    };
}
macro_rules! keyed_set {
    () => {
        fn ins(&self, k: K, (): ()) -> Self {
            self.insert(k)
        }
        fn ins_mut(&mut self, k: K, (): ()) {
            self.insert_mut(k);
        }
        fn del(&self, k: &K) -> Self {
            self.remove(k)
        }
        fn del_mut(&mut self, k: &K) -> bool {
            self.remove_mut(k)
        }
        fn has(&self, k: &K) -> bool {
            self.contains(k)
        }
        fn val(&self, k: &K) -> Option<()> {
            self.get(k).filter(|x| *x == k).map(|_| ())
        }
        fn size(&self) -> usize {
            Self::size(self)
        }
        fn none(&self) -> bool {
            self.is_empty()
        }
        fn all(&self) -> Vec<(K, ())> {
            self.iter().map(|k| (k.clone(), ())).collect()
        }
    };
}

impl<K: Elem, V: Elem, P: SharedPointerKind, H: MkHasher> Keyed<K, V> for HashTrieMap<K, V, P, H> {
    const NAME: &'static str = "HashTrieMap";
    const ORDERED: bool = false;
    keyed_map!();
    fn rel(&self, o: &Self) -> (bool, Option<std::cmp::Ordering>, bool) {
        (self == o, None, true)
    }
}
impl<K: Elem, P: SharedPointerKind, H: MkHasher> Keyed<K, ()> for HashTrieSet<K, P, H> {
    const NAME: &'static str = "HashTrieSet";
    const ORDERED: bool = false;
    keyed_set!();
    fn rel(&self, o: &Self) -> (bool, Option<std::cmp::Ordering>, bool) {
        (self == o, None, true)
    }
}
impl<K: Elem, V: Elem, P: SharedPointerKind> Keyed<K, V> for RedBlackTreeMap<K, V, P> {
    const NAME: &'static str = "RedBlackTreeMap";
    const ORDERED: bool = true;
    keyed_map!();
    fn ends(&self) -> Option<(Option<K>, Option<K>)> {
        Some((self.first().map(|x| x.0.clone()), self.last().map(|x| x.0.clone())))
    }
    fn between(&self, a: &K, b: &K) -> Option<Vec<K>> {
        Some(self.range(a..=b).map(|x| x.0.clone()).collect())
    }
    fn rel(&self, o: &Self) -> (bool, Option<std::cmp::Ordering>, bool) {
        (self == o, Some(self.cmp(o)), calls(self) == calls(o))
    }
}
impl<K: Elem, P: SharedPointerKind> Keyed<K, ()> for RedBlackTreeSet<K, P> {
    const NAME: &'static str = "RedBlackTreeSet";
    const ORDERED: bool = true;
    keyed_set!();
    fn ends(&self) -> Option<(Option<K>, Option<K>)> {
        Some((self.first().cloned(), self.last().cloned()))
    }
    fn between(&self, a: &K, b: &K) -> Option<Vec<K>> {
        Some(self.range(a..=b).cloned().collect())
    }
    fn rel(&self, o: &Self) -> (bool, Option<std::cmp::Ordering>, bool) {
        (self == o, Some(self.cmp(o)), calls(self) == calls(o))
    }
}

fn keyed_check<K: Elem, V: Elem, X: Keyed<K, V>>(x: &X, m: &BTreeMap<K, V>, universe: u32, rng: &mut Rng, what: &dyn Fn() -> String) -> Res {
    ensure!(x.size() == m.len() && x.none() == m.is_empty(), "{}: size {} instead of {}", what(), x.size(), m.len());
    let mut a = x.all();
    if !X::ORDERED {
        a.sort();
    }
    ensure!(a.iter().map(|x| (&x.0, &x.1)).eq(m.iter()), "{}: iteration yields {} instead of {}", what(), show(&a), show(m));
    for i in 0..universe.min(24) {
        let k = K::of(i);
        ensure!(x.has(&k) == m.contains_key(&k), "{}: contains {}", what(), show(&k));
        ensure!(x.val(&k).as_ref() == m.get(&k), "{}: value of {}", what(), show(&k));
    }
    if let Some(e) = x.ends() {
        let w = (m.keys().next().cloned(), m.keys().next_back().cloned());
        ensure!(e == w, "{}: ends are {} instead of {}", what(), show(&e), show(&w));
    }
    let (mut a, mut b) = (K::of(rng.below(universe as usize) as u32), K::of(rng.below(universe as usize) as u32));
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    if let Some(r) = x.between(&a, &b) {
        ensure!(r.iter().eq(m.range(a.clone()..=b.clone()).map(|x| x.0)), "{}: range {a:?}..={b:?} is {}", what(), show(&r));
    }
    Ok(())
}

fn keyed_run<K: Elem, V: Elem, X: Keyed<K, V>>(ctx: &mut Ctx, want: Want, rng: &mut Rng, cfg: &str, empty: X) -> Res {
    let universe = *rng.pick(&[2u32, 6, 20, 60, 200]);
    let n = rng.range(6, 70);
    let name = format!("{} of {} and {}, {cfg}", X::NAME, std::any::type_name::<K>(), std::any::type_name::<V>());
    let mut pool: Vec<(X, BTreeMap<K, V>)> = vec![(empty, BTreeMap::new())];
    let mut log: Vec<String> = vec![];
    let mut changed = 0;
    let removing = rng.range(1, 6);
    for step in 0..n {
        let i = rng.below(pool.len());
        let persistent = rng.chance(2, 5);
        let (ki, vi) = (rng.below(universe as usize) as u32, rng.next() as u32);
        let k = K::of(ki);
        let mut m = pool[i].1.clone();
        let op = rng.below(10);
        log.push(format!("{i}: {} {ki} {}", if op < removing { "remove" } else if op == 9 { "get_mut" } else { "insert" }, if persistent { "persistent" } else { "in place" }));
        let made = if op < removing {
            let was = m.remove(&k).is_some();
            if persistent {
                Some(pool[i].0.del(&k))
            } else {
                let r = pool[i].0.del_mut(&k);
                ensure!(r == was, "{name}: removing in place says {r}; {log:?}");
                None
            }
        } else if op == 9 {
            // On a clone, or in place.
            let mut x = if persistent { Some(pool[i].0.clone()) } else { None };
            let r = x.as_mut().unwrap_or(&mut pool[i].0).val_mut(&k);
            if let Some(r) = r {
                *r = V::of(vi);
                m.insert(k, V::of(vi));
            }
            x
        } else {
            // Insertion replaces the key too.
            m.remove(&k);
            m.insert(k.clone(), V::of(vi));
            if persistent {
                Some(pool[i].0.ins(k, V::of(vi)))
            } else {
                pool[i].0.ins_mut(k, V::of(vi));
                None
            }
        };
        changed += 1;
        match made {
            Some(x) => pool.push((x, m)),
            None => pool[i].1 = m,
        }
        if pool.len() > 4 {
            pool.swap_remove(rng.below(4));
        }
        ctx.eval();
        for (j, (x, m)) in pool.iter().enumerate() {
            if j == pool.len() - 1 || j == i || step % 5 == 0 {
                keyed_check(x, m, universe, rng, &|| format!("{name}, version {j}, {log:?}"))?;
            }
        }
        if want.relations {
            let (a, b) = (rng.below(pool.len()), rng.below(pool.len()));
            let o = pool[a].1.cmp(&pool[b].1);
            let (e, c, h) = pool[a].0.rel(&pool[b].0);
            ensure!(e == o.is_eq(), "{name}: versions {a} and {b}: == says {e}; {log:?}");
            ensure!(c.is_none() || c == Some(o), "{name}: versions {a} and {b}: cmp says {c:?}; {log:?}");
            ensure!(!e || h, "{name}: versions {a} and {b} are equal and hashed differently; {log:?}");
        }
    }
    ctx.count("typed_operations", changed);
    Ok(())
}

// ----------------------------------------------------------------------------------------------------- dispatch

// Compiling them all takes a while, so that every check says which ones it wants.
fn run_seq<T: Elem, P: SharedPointerKind>(ctx: &mut Ctx, kind: Kind, want: Want, rng: &mut Rng) -> Res {
    match kind {
        #[cfg(feature = "typed_list")]
        Kind::List => seq_run::<T, List<T, P>>(ctx, want, rng),
        #[cfg(feature = "typed_list")]
        Kind::Stack => seq_run::<T, Stack<T, P>>(ctx, want, rng),
        #[cfg(feature = "typed_queue")]
        Kind::Queue => seq_run::<T, Queue<T, P>>(ctx, want, rng),
        #[cfg(feature = "typed_vector")]
        Kind::Vector => seq_run::<T, Vector<T, P>>(ctx, want, rng),
        _ => panic!("harness: {} is not compiled in", kind.label()),
    }
}

fn run_keyed<T: Elem, V: Elem, P: SharedPointerKind, H: MkHasher>(ctx: &mut Ctx, kind: Kind, want: Want, rng: &mut Rng) -> Res {
    match kind {
        #[cfg(feature = "typed_tree")]
        Kind::RbMap => keyed_run(ctx, want, rng, "", RedBlackTreeMap::<T, V, P>::new_with_ptr_kind()),
        #[cfg(feature = "typed_tree")]
        Kind::RbSet => keyed_run(ctx, want, rng, "", RedBlackTreeSet::<T, P>::new_with_ptr_kind()),
        #[cfg(feature = "typed_hash")]
        Kind::HtMap | Kind::HtSet => {
            let mode = modes(rng);
            let degree = *rng.pick(&[2u8, 4, 8, 32, 64, 64]);
            let d = format!("{mode:?}, degree {degree}");
            if kind == Kind::HtMap {
                keyed_run(ctx, want, rng, &d, HashTrieMap::<T, V, P, H>::new_with_hasher_and_degree_and_ptr_kind(H::mk(mode), degree))
            } else {
                keyed_run(ctx, want, rng, &d, HashTrieSet::<T, P, H>::new_with_hasher_and_degree_and_ptr_kind(H::mk(mode), degree))
            }
        }
        _ => panic!("harness: {} is not compiled in", kind.label()),
    }
}

fn seqs(ctx: &mut Ctx, which: usize, kind: Kind, want: Want, rng: &mut Rng) -> Res {
    match which {
        0 => run_seq::<(), RcK>(ctx, kind, want, rng),
        1 => run_seq::<bool, ArcK>(ctx, kind, want, rng),
        2 => run_seq::<u8, RcK>(ctx, kind, want, rng),
        3 => run_seq::<u32, ArcTK>(ctx, kind, want, rng),
        4 => run_seq::<u128, ArcK>(ctx, kind, want, rng),
        5 => run_seq::<Aligned, ArcTK>(ctx, kind, want, rng),
        6 => run_seq::<[u64; 40], RcK>(ctx, kind, want, rng),
        7 => run_seq::<&'static str, ArcK>(ctx, kind, want, rng),
        8 => run_seq::<Option<bool>, RcK>(ctx, kind, want, rng),
        9 => run_seq::<String, ArcK>(ctx, kind, want, rng),
        10 => run_seq::<Box<u32>, ArcTK>(ctx, kind, want, rng),
        _ => run_seq::<Option<Box<u8>>, RcK>(ctx, kind, want, rng),
    }
}

fn keyeds(ctx: &mut Ctx, which: usize, kind: Kind, want: Want, rng: &mut Rng) -> Res {
    match which {
        0 => run_keyed::<(), u32, RcK, ZB>(ctx, kind, want, rng),
        1 => run_keyed::<bool, (), ArcK, HB>(ctx, kind, want, rng),
        2 => run_keyed::<u8, u8, RcK, ZB>(ctx, kind, want, rng),
        3 => run_keyed::<u64, String, ArcTK, HB>(ctx, kind, want, rng),
        4 => run_keyed::<u128, Option<Box<u8>>, ArcK, ZB>(ctx, kind, want, rng),
        5 => run_keyed::<char, Unit, RcK, HB>(ctx, kind, want, rng),
        6 => run_keyed::<Aligned, [u64; 40], ArcTK, HB>(ctx, kind, want, rng),
        7 => run_keyed::<&'static str, bool, ArcK, ZB>(ctx, kind, want, rng),
        8 => run_keyed::<String, Box<u32>, ArcTK, ZB>(ctx, kind, want, rng),
        _ => run_keyed::<Rc<u32>, (u8, String), RcK, HB>(ctx, kind, want, rng),
    }
}

/// One short history over elements of a type chosen at random.
pub fn case(ctx: &mut Ctx, kind: Kind, want: Want, rng: &mut Rng) -> Res {
    let which = rng.below(if kind.is_seq() { 12 } else { 10 });
    ctx.fp(0x7e9ed << 32 | (which as u64) << 8 | kind as u64);
    ctx.fp(rng.next());
    ctx.t(|| format!("typed history over {}, element type {which}", kind.label()));
    ctx.count("typed_cases", 1);
    // The stateless hasher's thread-local, and other one-off allocations.
    if want.balance {
        let _ = ZB::mk(modes(rng));
    }
    // Counters are created before the balance is taken.
    ctx.count("typed_operations", 0);
    ctx.eval();
    let before = alloc::snap();
    if kind.is_seq() { seqs(ctx, which, kind, want, rng) } else { keyeds(ctx, which, kind, want, rng) }?;
    if want.balance {
        let after = alloc::snap();
        ctx.count("typed_balances", 1);
        ensure_eq!(after.live_n - before.live_n, 0, "blocks still allocated after a history over {}, element type {which}", kind.label());
        ensure_eq!(after.live - before.live, 0, "bytes still allocated after a history over {}, element type {which}", kind.label());
    }
    ctx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------------------------------------- great numbers

fn huge_seq<X: Seq<u32>>(ctx: &mut Ctx, n: usize, bits: u8, rng: &mut Rng) -> Res {
    ctx.t(|| format!("{} of {n} numbers, bits {bits}", X::NAME));
    ctx.count("huge_cases", 1);
    ctx.max("largest_collection", n as u64);
    ctx.fp(n as u64 | (bits as u64) << 48);
    let mut x = X::empty(bits);
    let mut m: std::collections::VecDeque<u32> = std::collections::VecDeque::with_capacity(n + 8);
    for i in 0..n as u32 {
        x.put_mut(i);
        if X::PUT_FRONT { m.push_front(i) } else { m.push_back(i) }
    }
    let full = |x: &X, m: &std::collections::VecDeque<u32>, what: &str| -> Res {
        ensure_eq!(x.size(), m.len(), "size of a {} of {n} after {what}", X::NAME);
        ensure_eq!(x.ends(), (m.front(), m.back()), "ends of a {} of {n} after {what}", X::NAME);
        let a = x.all();
        ensure_eq!(a.len(), m.len(), "length of the iteration of a {} of {n} after {what}", X::NAME);
        if let Some(i) = a.iter().zip(m).position(|(a, b)| a != b) {
            return Err(format!("iteration of a {} of {n} numbers (bits {bits}): element {i} is {} instead of {}, after {what}", X::NAME, a[i], m[i]));
        }
        if x.at(0).is_some() {
            let step = (m.len() / 50_000).max(1);
            for i in (0..m.len()).step_by(step).chain(m.len().saturating_sub(2000)..m.len() + 3) {
                let g = x.at(i).flatten();
                ensure!(g == m.get(i), "get({i}) of a {} of {n} numbers (bits {bits}) is {g:?} after {what}", X::NAME);
            }
        }
        Ok(())
    };
    ctx.eval();
    full(&x, &m, "building")?;
    let old = (x.clone(), m.clone());
    // Persistent operations around the edge.
    for step in 0..12 {
        let v = rng.next() as u32;
        let y = if step % 3 == 2 { x.take() } else { Some(x.put(v)) };
        let Some(y) = y else { return Err(format!("a {} of {n} numbers refuses", X::NAME)) };
        if step % 3 != 2 {
            if X::PUT_FRONT { m.push_front(v) } else { m.push_back(v) }
        } else if X::TAKE_FRONT {
            m.pop_front();
        } else {
            m.pop_back();
        }
        ensure_eq!((y.size(), y.ends()), (m.len(), (m.front(), m.back())), "a {} around {n}", X::NAME);
        x = y;
    }
    for _ in 0..40 {
        if x.at(0).is_none() {
            break;
        }
        let i = rng.below(m.len());
        let v = rng.next() as u32;
        if rng.chance(1, 4) && bits < 12 {
            let Some(y) = x.set(i, v) else { return Err(format!("set({i}) of {n} is refused")) };
            x = y;
        } else {
            ensure!(x.set_mut(i, v), "set_mut({i}) of {n} is refused");
        }
        m[i] = v;
    }
    if let Some(r) = x.reversed() {
        let w: std::collections::VecDeque<u32> = m.iter().rev().copied().collect();
        ctx.eval();
        full(&r, &w, "a persistent reverse")?;
        x.reverse();
        full(&x, &w, "reversing in place what is shared")?;
        drop(r);
        x.reverse();
        full(&x, &m, "reversing in place")?;
    }
    ctx.eval();
    full(&x, &m, "changes")?;
    full(&old.0, &old.1, "changes of a derived one")?;
    if rng.chance(1, 2) {
        drop(old);
    }
    let c: X = m.iter().copied().collect();
    ctx.eval();
    full(&c, &m, "collecting")?;
    // Down again.
    let keep = rng.below(70_000);
    while m.len() > keep {
        ensure!(x.take_mut(), "a {} of {} refuses", X::NAME, m.len());
        if X::TAKE_FRONT { m.pop_front() } else { m.pop_back() };
    }
    full(&x, &m, "shrinking")?;
    for i in 0..100 {
        x.put_mut(i);
        if X::PUT_FRONT { m.push_front(i) } else { m.push_back(i) }
    }
    ctx.eval();
    full(&x, &m, "growing again")
}

fn huge_keyed<X: Keyed<u32, u32>>(ctx: &mut Ctx, n: u32, rng: &mut Rng, what: &str, empty: X) -> Res {
    ctx.t(|| format!("{} of {n} numbers, {what}", X::NAME));
    ctx.count("huge_cases", 1);
    ctx.max("largest_collection", n as u64);
    ctx.fp(n as u64);
    let mut x = empty;
    let mut m: BTreeMap<u32, u32> = BTreeMap::new();
    let shuffled = rng.chance(1, 2);
    let key = |i: u32| if shuffled { i.wrapping_mul(0x9E37_79B1) } else { i };
    for i in 0..n {
        x.ins_mut(key(i), i);
        m.insert(key(i), i);
    }
    let full = |x: &X, m: &BTreeMap<u32, u32>, when: &str| -> Res {
        ensure_eq!(x.size(), m.len(), "size of a {} of {n}, {what}, after {when}", X::NAME);
        let mut a = x.all();
        if !X::ORDERED {
            a.sort_unstable();
        }
        ensure!(a.iter().map(|x| (&x.0, &x.1)).eq(m.iter()), "iteration of a {} of {n}, {what}, after {when}", X::NAME);
        for i in (0..n + 5).step_by(37) {
            ensure!(x.val(&key(i)).as_ref() == m.get(&key(i)), "get of {} in a {} of {n}, {what}, after {when}", key(i), X::NAME);
        }
        if let Some(e) = x.ends() {
            ensure_eq!(e, (m.keys().next().copied(), m.keys().next_back().copied()), "ends of a {} of {n}, after {when}", X::NAME);
        }
        Ok(())
    };
    ctx.eval();
    full(&x, &m, "building")?;
    let old = x.clone();
    let om = m.clone();
    for j in 0..3000 {
        let k = key(rng.below(n as usize + 10) as u32);
        if rng.chance(1, 2) {
            m.insert(k, j);
            if rng.chance(1, 8) { x = x.ins(k, j) } else { x.ins_mut(k, j) }
        } else {
            let w = m.remove(&k).is_some();
            if rng.chance(1, 8) {
                x = x.del(&k)
            } else {
                ensure_eq!(x.del_mut(&k), w, "removing {k} from a {} of {n}, {what}", X::NAME);
            }
        }
    }
    ctx.eval();
    full(&x, &m, "changes")?;
    full(&old, &om, "changes of a derived one")?;
    drop(old);
    let from = rng.below(3) as u32;
    for i in 0..n {
        if i % 3 != from {
            let w = m.remove(&key(i)).is_some();
            ensure_eq!(x.del_mut(&key(i)), w, "removing {} from a {} of {n}, {what}", key(i), X::NAME);
        }
    }
    ctx.eval();
    full(&x, &m, "removing two thirds")
}

/// Collections of many thousands or millions of numbers.
pub fn huge(ctx: &mut Ctx, kind: Kind, n: usize, rng: &mut Rng) -> Res {
    ctx.nontrivial();
    let bits = if n > 200_000 { *rng.pick(&[5u8, 5, 4, 6, 8]) } else { *rng.pick(&[1u8, 2, 3, 5, 8, 10, 15, 16, 17, 20, 31, 32, 63, 255]) };
    match kind {
        #[cfg(feature = "typed_list")]
        Kind::List => huge_seq::<List<u32, RcK>>(ctx, n, 5, rng),
        #[cfg(feature = "typed_list")]
        Kind::Stack => huge_seq::<Stack<u32, ArcK>>(ctx, n, 5, rng),
        #[cfg(feature = "typed_queue")]
        Kind::Queue => huge_seq::<Queue<u32, RcK>>(ctx, n, 5, rng),
        #[cfg(feature = "typed_vector")]
        Kind::Vector => huge_seq::<Vector<u32, ArcTK>>(ctx, n, bits, rng),
        #[cfg(feature = "typed_tree")]
        Kind::RbMap => huge_keyed(ctx, n as u32, rng, "", RedBlackTreeMap::<u32, u32, RcK>::new_with_ptr_kind()),
        #[cfg(feature = "typed_hash")]
        Kind::HtMap => {
            let mode = crate::hashers::Mode::Good(rng.next());
            let degree = *rng.pick(&[2u8, 16, 64, 64]);
            huge_keyed(
                ctx,
                n as u32,
                rng,
                &format!("degree {degree}"),
                HashTrieMap::<u32, u32, RcK, HB>::new_with_hasher_and_degree_and_ptr_kind(HB(mode), degree),
            )
        }
        _ => panic!("harness: {} is not compiled in", kind.label()),
    }
}
