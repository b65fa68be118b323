//! C15: no operation needs stack in proportion to the number of elements.
//!
//! Every operation is run on very long collections, from building to dropping, in a thread with a small stack: a
//! recursion per element overflows it, which ends the process.  Elements also record how deep the stack is whenever
//! one of their callbacks runs.
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use core_h::ctx::{Ctx, Plan, Res, guard, run};
use core_h::hashers::{HB, Mode, set_default};
use core_h::mon::{self, MonArc};
use core_h::rng::Rng;
use core_h::{ensure, ensure_eq};
use rpds::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering as O};
use std::sync::{Arc, Barrier};

const STACK: usize = 192 << 10;

thread_local! {
    static BASE: Cell<usize> = const { Cell::new(0) };
}
static DEEPEST: AtomicU64 = AtomicU64::new(0);
static SEEN: AtomicU64 = AtomicU64::new(0);

#[inline(never)]
fn here() {
    let x = 0u8;
    let a = &x as *const u8 as usize;
    let _ = BASE.try_with(|b| {
        if b.get() != 0 {
            DEEPEST.fetch_max(b.get().saturating_sub(a) as u64, O::Relaxed);
        }
    });
}
fn base() {
    let x = 0u8;
    BASE.with(|b| b.set(&x as *const u8 as usize));
}

/// An element that notes the depth of the stack now and then, and always when dropped by its last owner.
struct D(u32);
fn note(x: u32) {
    if x % 16 == 3 {
        here();
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        note(self.0);
        D(self.0)
    }
}
impl Drop for D {
    fn drop(&mut self) {
        note(self.0);
    }
}
impl PartialEq for D {
    fn eq(&self, o: &D) -> bool {
        note(self.0);
        self.0 == o.0
    }
}
impl Eq for D {}
impl PartialOrd for D {
    fn partial_cmp(&self, o: &D) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for D {
    fn cmp(&self, o: &D) -> Ordering {
        note(self.0);
        self.0.cmp(&o.0)
    }
}
impl Hash for D {
    fn hash<H: Hasher>(&self, h: &mut H) {
        note(self.0);
        h.write_u32(self.0)
    }
}
impl Debug for D {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        note(self.0);
        Debug::fmt(&self.0, f)
    }
}
impl Display for D {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        note(self.0);
        Display::fmt(&self.0, f)
    }
}
impl Serialize for D {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        note(self.0);
        // A string, so that it can be the key of a JSON object.
        s.collect_str(&self.0)
    }
}
impl<'de> Deserialize<'de> for D {
    fn deserialize<De: Deserializer<'de>>(d: De) -> Result<D, De::Error> {
        let s = String::deserialize(d)?;
        let x = s.parse().map_err(serde::de::Error::custom)?;
        note(x);
        Ok(D(x))
    }
}

struct Op<C> {
    name: &'static str,
    f: fn(C, usize) -> Res,
}

struct Null(u64);
impl Write for Null {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

trait Big: Clone + Debug + Display + PartialEq + Serialize + DeserializeOwned + 'static {
    fn build(n: usize) -> Self;
    fn collect(n: usize) -> Self;
    fn count(&self) -> usize;
    fn size_(&self) -> usize;
    /// In place, one element at a time, until empty.
    fn empty_out(&mut self);
    /// Persistent; one step.
    fn grow(&self, x: u32) -> Self;
    fn shrink(&self) -> Self;
}

fn common<C: Big>() -> Vec<Op<C>> {
    macro_rules! op {
        ($name:literal, $c:ident, $n:ident, $b:block) => {
            Op { name: $name, f: |$c: C, $n: usize| -> Res { $b } }
        };
        ($name:literal, mut $c:ident, $n:ident, $b:block) => {
            Op { name: $name, f: |mut $c: C, $n: usize| -> Res { $b } }
        };
    }
    vec![
        op!("drop", c, n, {
            ensure_eq!(c.size_(), n, "size");
            drop(c);
            Ok(())
        }),
        op!("collect", c, n, {
            drop(c);
            let d = C::collect(n);
            ensure_eq!(d.size_(), n, "size");
            drop(d);
            Ok(())
        }),
        op!("clone", c, n, {
            let d = c.clone();
            drop(c);
            ensure_eq!(d.count(), n, "iterated");
            Ok(())
        }),
        op!("iterate", c, n, {
            ensure_eq!(c.count(), n, "iterated");
            Ok(())
        }),
        op!("debug", c, n, {
            let mut w = Null(0);
            let _ = write!(w, "{c:?}");
            ensure!(w.0 > n as u64, "wrote {} bytes", w.0);
            Ok(())
        }),
        op!("debug_alternate", c, n, {
            let mut w = Null(0);
            let _ = write!(w, "{c:#?}");
            ensure!(w.0 > n as u64, "wrote {} bytes", w.0);
            Ok(())
        }),
        op!("display", c, n, {
            let mut w = Null(0);
            let _ = write!(w, "{c}");
            ensure!(w.0 > n as u64, "wrote {} bytes", w.0);
            Ok(())
        }),
        op!("eq", c, n, {
            let d = C::build(n);
            ensure!(c == d, "not equal");
            ensure!(c == c.clone(), "not equal to its clone");
            drop(c);
            drop(d);
            Ok(())
        }),
        op!("ne", c, n, {
            let d = C::build(n).shrink().grow(n as u32 + 7);
            ensure!(c != d, "equal");
            Ok(())
        }),
        op!("empty_out", mut c, _n, {
            c.empty_out();
            ensure_eq!(c.size_(), 0, "size");
            Ok(())
        }),
        op!("empty_out_shared", mut c, n, {
            let d = c.clone();
            c.empty_out();
            ensure_eq!(c.size_(), 0, "size");
            ensure_eq!(d.count(), n, "iterated");
            drop(d);
            Ok(())
        }),
        op!("versions_dropped_oldest_first", c, n, {
            let mut v = vec![c];
            for i in 0..2000 {
                let x = if i % 3 == 2 { v[v.len() - 1].shrink() } else { v[v.len() - 1].grow((n + i) as u32) };
                v.push(x);
            }
            v.into_iter().for_each(drop);
            Ok(())
        }),
        op!("versions_dropped_newest_first", c, n, {
            let mut v = vec![c];
            for i in 0..2000 {
                let x = if i % 3 == 2 { v[v.len() - 1].shrink() } else { v[v.len() - 1].grow((n + i) as u32) };
                v.push(x);
            }
            while v.pop().is_some() {}
            Ok(())
        }),
        op!("every_version_while_growing", c, n, {
            drop(c);
            let mut v = vec![C::build(0)];
            for i in 0..(n / 8).min(100_000) {
                let x = v[v.len() - 1].grow(i as u32);
                v.push(x);
            }
            // From the middle outwards.
            let mut r = v.split_off(v.len() / 2);
            r.reverse();
            while let (Some(a), b) = (r.pop(), v.pop()) {
                drop((a, b));
            }
            Ok(())
        }),
        op!("serialize", c, n, {
            let mut w = Null(0);
            serde_json::to_writer(&mut w, &c).map_err(|e| e.to_string())?;
            ensure!(w.0 > n as u64, "wrote {} bytes", w.0);
            Ok(())
        }),
        op!("deserialize", c, n, {
            let s = serde_json::to_vec(&c).map_err(|e| e.to_string())?;
            drop(c);
            let d: C = serde_json::from_slice(&s).map_err(|e| e.to_string())?;
            ensure_eq!(d.size_(), n, "size");
            Ok(())
        }),
        op!("deserialize_truncated", c, _n, {
            let mut s = serde_json::to_vec(&c).map_err(|e| e.to_string())?;
            drop(c);
            s.truncate(s.len() - 2);
            ensure!(serde_json::from_slice::<C>(&s).is_err(), "accepted");
            Ok(())
        }),
        op!("panic_with_it_alive", c, n, {
            let r = guard(move || {
                let d = c;
                if d.size_() == n {
                    std::panic::panic_any(core_h::tok::Injected);
                }
            });
            ensure!(r.is_err(), "no panic");
            Ok(())
        }),
    ]
}

fn ordered<C: Big + Ord + Hash>() -> Vec<Op<C>> {
    macro_rules! op {
        ($name:literal, $c:ident, $n:ident, $b:block) => {
            Op { name: $name, f: |$c: C, $n: usize| -> Res { $b } }
        };
    }
    vec![
        op!("hash", c, _n, {
            let mut h = std::hash::DefaultHasher::new();
            c.hash(&mut h);
            std::hint::black_box(h.finish());
            Ok(())
        }),
        op!("cmp", c, n, {
            let d = C::build(n);
            ensure_eq!(c.cmp(&d), Ordering::Equal, "cmp");
            ensure_eq!(c.partial_cmp(&d.grow(n as u32 + 9)) == Some(Ordering::Equal), false, "partial_cmp");
            Ok(())
        }),
    ]
}

type It = Box<dyn Iterator<Item = D>>;
fn up(n: usize) -> It {
    Box::new((0..n as u32).map(D))
}

macro_rules! seq_big {
    ($t:ident, $put:ident, $put_p:ident, $take:ident, $take_p:ident, $len:ident) => {
        impl<P: SharedPointerKind + 'static> Big for $t<D, P> {
            fn build(n: usize) -> Self {
                let mut c: Self = std::iter::empty().collect();
                for x in up(n) {
                    c.$put(x);
                }
                c
            }
            fn collect(n: usize) -> Self {
                up(n).collect()
            }
            fn count(&self) -> usize {
                self.iter().fold(0, |a, _| a + 1)
            }
            fn size_(&self) -> usize {
                self.$len()
            }
            fn empty_out(&mut self) {
                while self.$take() {}
            }
            fn grow(&self, x: u32) -> Self {
                self.$put_p(D(x))
            }
            fn shrink(&self) -> Self {
                self.$take_p().unwrap_or_else(|| self.clone())
            }
        }
    };
}
seq_big!(List, push_front_mut, push_front, drop_first_mut, drop_first, len);
seq_big!(Stack, push_mut, push, pop_mut, pop, size);
seq_big!(Queue, enqueue_mut, enqueue, dequeue_mut, dequeue, len);
seq_big!(Vector, push_back_mut, push_back, drop_last_mut, drop_last, len);

impl<P: SharedPointerKind + 'static> Big for HashTrieMap<D, D, P, HB> {
    fn build(n: usize) -> Self {
        let mut c = Self::default();
        for x in up(n) {
            let v = D(x.0 + 1);
            c.insert_mut(x, v);
        }
        c
    }
    fn collect(n: usize) -> Self {
        up(n).map(|x| { let v = D(x.0); (x, v) }).collect()
    }
    fn count(&self) -> usize {
        self.iter().fold(0, |a, _| a + 1)
    }
    fn size_(&self) -> usize {
        self.size()
    }
    fn empty_out(&mut self) {
        let ks: Vec<u32> = self.keys().map(|k| k.0).collect();
        for k in ks {
            self.remove_mut(&D(k));
        }
    }
    fn grow(&self, x: u32) -> Self {
        self.insert(D(x), D(x))
    }
    fn shrink(&self) -> Self {
        match self.keys().next() {
            Some(k) => self.remove(k),
            None => self.clone(),
        }
    }
}
impl<P: SharedPointerKind + 'static> Big for RedBlackTreeMap<D, D, P> {
    fn build(n: usize) -> Self {
        let mut c = Self::new_with_ptr_kind();
        for x in up(n) {
            let v = D(x.0 + 1);
            c.insert_mut(x, v);
        }
        c
    }
    fn collect(n: usize) -> Self {
        up(n).map(|x| { let v = D(x.0); (x, v) }).collect()
    }
    fn count(&self) -> usize {
        self.iter().fold(0, |a, _| a + 1)
    }
    fn size_(&self) -> usize {
        self.size()
    }
    fn empty_out(&mut self) {
        let ks: Vec<u32> = self.keys().map(|k| k.0).collect();
        for k in ks {
            self.remove_mut(&D(k));
        }
    }
    fn grow(&self, x: u32) -> Self {
        self.insert(D(x), D(x))
    }
    fn shrink(&self) -> Self {
        match self.first() {
            Some((k, _)) => self.remove(k),
            None => self.clone(),
        }
    }
}
macro_rules! set_big {
    ($t:ty) => {
        impl<P: SharedPointerKind + 'static> Big for $t {
            fn build(n: usize) -> Self {
                let mut c: Self = std::iter::empty().collect();
                for x in up(n) {
                    c.insert_mut(x);
                }
                c
            }
            fn collect(n: usize) -> Self {
                up(n).collect()
            }
            fn count(&self) -> usize {
                self.iter().fold(0, |a, _| a + 1)
            }
            fn size_(&self) -> usize {
                self.size()
            }
            fn empty_out(&mut self) {
                let ks: Vec<u32> = self.iter().map(|k| k.0).collect();
                for k in ks {
                    self.remove_mut(&D(k));
                }
            }
            fn grow(&self, x: u32) -> Self {
                self.insert(D(x))
            }
            fn shrink(&self) -> Self {
                match self.iter().next() {
                    Some(k) => self.remove(k),
                    None => self.clone(),
                }
            }
        }
    };
}
set_big!(HashTrieSet<D, P, HB>);
set_big!(RedBlackTreeSet<D, P>);

macro_rules! ops {
    ($t:ty; $($name:literal => |$c:ident, $n:ident| $b:block)*) => {
        vec![$(Op::<$t> { name: $name, f: |#[allow(unused_mut)] mut $c: $t, $n: usize| -> Res { let _ = ($n, &mut $c); $b } }),*]
    };
}

fn list_ops<P: SharedPointerKind + 'static>() -> Vec<Op<List<D, P>>> {
    ops! { List<D, P>;
        "reverse" => |c, n| { let d = c.reverse(); drop(c); ensure_eq!(d.count(), n, "iterated"); Ok(()) }
        "reverse_mut" => |c, n| { c.reverse_mut(); ensure_eq!(c.count(), n, "iterated"); Ok(()) }
        "reverse_mut_shared" => |c, n| {
            let d = c.clone();
            c.reverse_mut();
            drop(d);
            ensure_eq!(c.count(), n, "iterated");
            Ok(())
        }
        "reverse_mut_shared_tail" => |c, n| {
            let mut t = c.clone();
            for _ in 0..n / 2 { t.drop_first_mut(); }
            c.reverse_mut();
            drop(c);
            ensure_eq!(t.count(), n - n / 2, "iterated");
            drop(t);
            Ok(())
        }
        "many_heads_one_tail" => |c, n| {
            let heads: Vec<_> = (0..500).map(|i| c.push_front(D(i))).collect();
            drop(c);
            let last = heads[250].clone();
            drop(heads);
            ensure_eq!(last.count(), n + 1, "iterated");
            drop(last);
            Ok(())
        }
        "tails_dropped_after_the_heads" => |c, n| {
            let mut v = vec![c.clone()];
            for i in 0..n {
                c.drop_first_mut();
                if i % 1000 == 0 { v.push(c.clone()); }
            }
            v.into_iter().for_each(drop);
            Ok(())
        }
        "tails_dropped_before_the_heads" => |c, n| {
            let mut v = vec![c.clone()];
            for i in 0..n {
                c.drop_first_mut();
                if i % 1000 == 0 { v.push(c.clone()); }
            }
            while v.pop().is_some() {}
            Ok(())
        }
        "last" => |c, n| {
            ensure_eq!(c.last().map(|d| d.0), if n == 0 { None } else { Some(0) }, "last");
            ensure_eq!(c.first().map(|d| d.0), (n as u32).checked_sub(1), "first");
            Ok(())
        }
        "replaced_while_held" => |c, n| {
            let mut slot = vec![c, List::new_with_ptr_kind()];
            slot[1] = slot[0].clone();
            slot[0] = List::build(n / 2);
            slot[1] = List::new_with_ptr_kind();
            Ok(())
        }
    }
}
fn stack_ops<P: SharedPointerKind + 'static>() -> Vec<Op<Stack<D, P>>> {
    ops! { Stack<D, P>;
        "many_tops_one_rest" => |c, n| {
            let heads: Vec<_> = (0..500).map(|i| c.push(D(i))).collect();
            drop(c);
            let last = heads[250].clone();
            drop(heads);
            ensure_eq!(last.count(), n + 1, "iterated");
            Ok(())
        }
    }
}
fn queue_ops<P: SharedPointerKind + 'static>() -> Vec<Op<Queue<D, P>>> {
    ops! { Queue<D, P>;
        "first_dequeue_in_place" => |c, n| { c.dequeue_mut(); ensure_eq!(c.count(), n - 1, "iterated"); Ok(()) }
        "first_dequeue_shared" => |c, n| {
            let d = c.dequeue().ok_or("empty")?;
            let e = c.dequeue().ok_or("empty")?;
            ensure_eq!(d.count() + e.count() + c.count(), 3 * n - 2, "iterated");
            Ok(())
        }
        "half_and_half" => |c, n| {
            c.dequeue_mut();
            for i in 0..n { c.enqueue_mut(D(i as u32)); }
            ensure_eq!(c.count(), 2 * n - 1, "iterated");
            let mut w = Null(0);
            let _ = write!(w, "{c} {c:?}");
            let d = c.clone();
            drop(c);
            let mut it = d.iter();
            it.next();
            ensure_eq!(it.count(), 2 * n - 2, "rest");
            Ok(())
        }
        "peek" => |c, _n| {
            ensure_eq!(c.peek().map(|d| d.0), Some(0), "peek");
            Ok(())
        }
    }
}
fn vector_ops<P: SharedPointerKind + 'static>() -> Vec<Op<Vector<D, P>>> {
    ops! { Vector<D, P>;
        "backwards" => |c, n| { ensure_eq!(c.iter().rev().count(), n, "iterated"); Ok(()) }
        "set_all" => |c, n| {
            let d = c.clone();
            for i in (0..n).step_by(7) { c.set_mut(i, D(1)); }
            drop(d);
            for i in (0..n).step_by(7) { c[i] = D(2); }
            Ok(())
        }
        "one_bit" => |c, n| {
            drop(c);
            let mut v: Vector<D, P> = Vector::new_with_bits(1);
            v.extend(up(n));
            ensure_eq!(v.iter().rev().count(), n, "iterated");
            let mut w = Null(0);
            let _ = write!(w, "{v} {v:?}");
            let d = v.clone();
            while v.drop_last_mut() {}
            drop(d);
            Ok(())
        }
    }
}
fn htmap_ops<P: SharedPointerKind + 'static>() -> Vec<Op<HashTrieMap<D, D, P, HB>>> {
    ops! { HashTrieMap<D, D, P, HB>;
        "lookups" => |c, n| {
            for i in (0..n as u32).step_by((n / 1000).max(1)) {
                ensure!(c.contains_key(&D(i)), "lost {i}");
                ensure!(c.get_mut(&D(i)).is_some(), "lost {i}");
            }
            ensure!(!c.contains_key(&D(n as u32 + 5)), "invented");
            Ok(())
        }
        "values" => |c, n| { ensure_eq!(c.values().count() + c.keys().count(), 2 * n, "iterated"); Ok(()) }
        "replace_all" => |c, n| {
            let d = c.clone();
            for i in (0..n as u32).step_by((n / 1000).max(1)) { c.insert_mut(D(i), D(0)); }
            drop(c);
            drop(d);
            Ok(())
        }
        "degree_2" => |c, n| {
            drop(c);
            let mut m: HashTrieMap<D, D, P, HB> = HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(HB::default(), 2);
            for i in 0..n as u32 { m.insert_mut(D(i), D(i)); }
            ensure_eq!(m.iter().count(), n, "iterated");
            let mut w = Null(0);
            let _ = write!(w, "{m} {m:?}");
            let d = m.clone();
            m.empty_out();
            drop(m);
            drop(d);
            Ok(())
        }
    }
}
fn rbmap_ops<P: SharedPointerKind + 'static>() -> Vec<Op<RedBlackTreeMap<D, D, P>>> {
    ops! { RedBlackTreeMap<D, D, P>;
        "backwards" => |c, n| { ensure_eq!(c.iter().rev().count(), n, "iterated"); Ok(()) }
        "range" => |c, n| {
            ensure_eq!(c.range(D(1)..D(n as u32 - 1)).rev().count(), n - 2, "iterated");
            ensure_eq!(c.range(..D(n as u32 - 1)).count(), n - 1, "iterated");
            Ok(())
        }
        "lookups" => |c, n| {
            let d = c.clone();
            for i in 0..n as u32 {
                ensure!(c.get_mut(&D(i)).is_some(), "lost {i}");
            }
            drop(d);
            Ok(())
        }
    }
}
fn htset_ops<P: SharedPointerKind + 'static>() -> Vec<Op<HashTrieSet<D, P, HB>>> {
    ops! { HashTrieSet<D, P, HB>;
        "relations" => |c, n| {
            let d = HashTrieSet::<D, P, HB>::build(n.min(3000));
            ensure!(d.is_subset(&c), "not a subset");
            ensure!(c.is_superset(&d), "not a superset");
            ensure!(!c.is_disjoint(&d), "disjoint");
            let e: HashTrieSet<D, P, HB> = (0..n.min(3000) as u32).map(|i| D(i + n as u32)).collect();
            ensure!(c.is_disjoint(&e) && e.is_disjoint(&c), "not disjoint");
            Ok(())
        }
    }
}
fn rbset_ops<P: SharedPointerKind + 'static>() -> Vec<Op<RedBlackTreeSet<D, P>>> {
    ops! { RedBlackTreeSet<D, P>;
        "relations" => |c, n| {
            let d = RedBlackTreeSet::<D, P>::build(n);
            ensure!(c.is_subset(&d) && d.is_superset(&c), "not a subset");
            ensure!(!c.is_disjoint(&d), "disjoint");
            let e: RedBlackTreeSet<D, P> = (0..n as u32).map(|i| D(i + n as u32)).collect();
            ensure!(c.is_disjoint(&e) && e.is_disjoint(&c), "not disjoint");
            Ok(())
        }
        "backwards" => |c, n| { ensure_eq!(c.iter().rev().count(), n, "iterated"); Ok(()) }
    }
}

/// What a case does, to be done on a small stack.
type Task = Box<dyn FnOnce() -> Res + Send>;

struct Entry {
    name: String,
    task: Box<dyn Fn(usize, Mode) -> Task>,
    collides: bool,
}

fn add<C: Big>(out: &mut Vec<Entry>, kind: &str, ptr: &str, hash: bool, ops: Vec<Op<C>>) {
    for o in ops {
        let f = o.f;
        for collides in [false, true] {
            if collides && !hash {
                continue;
            }
            out.push(Entry {
                name: format!("{kind}<{ptr}> {}{}", o.name, if collides { " (one bucket)" } else { "" }),
                task: Box::new(move |n, mode| {
                    Box::new(move || {
                        set_default(mode);
                        let c = C::build(n);
                        f(c, n)
                    })
                }),
                collides,
            });
        }
    }
}

fn entries_of<P: SharedPointerKind + 'static>(out: &mut Vec<Entry>, ptr: &str) {
    macro_rules! kind {
        ($name:literal, $t:ty, $hash:literal, $($ops:expr),*) => {{
            let mut v = common::<$t>();
            $(v.extend($ops);)*
            add(out, $name, ptr, $hash, v);
        }};
    }
    kind!("List", List<D, P>, false, ordered(), list_ops());
    kind!("Stack", Stack<D, P>, false, ordered(), stack_ops());
    kind!("Queue", Queue<D, P>, false, ordered(), queue_ops());
    kind!("Vector", Vector<D, P>, false, ordered(), vector_ops());
    kind!("HashTrieMap", HashTrieMap<D, D, P, HB>, true, htmap_ops());
    kind!("RedBlackTreeMap", RedBlackTreeMap<D, D, P>, false, ordered(), rbmap_ops());
    kind!("HashTrieSet", HashTrieSet<D, P, HB>, true, htset_ops());
    kind!("RedBlackTreeSet", RedBlackTreeSet<D, P>, false, ordered(), rbset_ops());
}

/// Elements of other kinds, without anything to drop among them: everything a collection of them does, in one go.
trait Plain: Clone + Debug + Ord + Hash + Serialize + DeserializeOwned + 'static {
    const NAME: &'static str;
    fn of(x: u32) -> Self;
}
impl Plain for u32 {
    const NAME: &'static str = "u32";
    fn of(x: u32) -> u32 {
        x
    }
}
impl Plain for () {
    const NAME: &'static str = "()";
    fn of(_: u32) {}
}
impl Plain for Box<u64> {
    const NAME: &'static str = "Box<u64>";
    fn of(x: u32) -> Box<u64> {
        Box::new(u64::from(x))
    }
}
impl Plain for Option<String> {
    const NAME: &'static str = "Option<String>";
    fn of(x: u32) -> Option<String> {
        (x % 4 > 0).then(|| x.to_string())
    }
}
impl Plain for (u32, [u64; 6]) {
    const NAME: &'static str = "(u32, [u64; 6])";
    fn of(x: u32) -> Self {
        (x, [7; 6])
    }
}
fn rest<C: Clone + Debug + PartialEq + Serialize + DeserializeOwned>(c: C, n: usize) -> Res {
    let d = c.clone();
    ensure!(c == d, "a clone is not equal");
    drop(c);
    write!(Null(0), "{d:?}").map_err(|e| e.to_string())?;
    let j = serde_json::to_vec(&d).map_err(|e| e.to_string())?;
    drop(d);
    let e: C = serde_json::from_slice(&j).map_err(|e| e.to_string())?;
    drop(e);
    let _ = n;
    Ok(())
}
macro_rules! plain_seq {
    ($f:ident, $t:ident, $put:ident, $take:ident, $take_p:ident, $len:ident, |$c:ident| $more:expr) => {
        fn $f<T: Plain, P: SharedPointerKind + 'static>(n: usize) -> Res {
            let mut c: $t<T, P> = std::iter::empty().collect();
            for x in 0..n as u32 {
                c.$put(T::of(x));
            }
            let d: $t<T, P> = (0..n as u32).map(T::of).collect();
            ensure!(d.$len() == c.$len() && d.iter().count() == n, "size");
            let _ = (c == d, c.cmp(&d), hash_it(&c));
            drop(d);
            let mut tail = c.clone();
            for _ in 0..n / 3 {
                tail.$take();
            }
            let $c = c.clone();
            $more;
            let mut e = c.clone();
            drop(c);
            let tail2 = tail.$take_p();
            drop(tail);
            drop(tail2);
            while e.$take() {}
            drop(e);
            rest::<$t<T, P>>((0..n as u32).map(T::of).collect(), n)
        }
    };
}
fn hash_it<T: Hash>(x: &T) -> u64 {
    let mut h = std::hash::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
plain_seq!(plain_list, List, push_front_mut, drop_first_mut, drop_first, len, |c| {
    let r = c.reverse();
    let mut s = c;
    s.reverse_mut();
    drop(r)
});
plain_seq!(plain_stack, Stack, push_mut, pop_mut, pop, size, |c| drop(c));
plain_seq!(plain_queue, Queue, enqueue_mut, dequeue_mut, dequeue, len, |c| {
    let d = c.dequeue();
    drop(c);
    drop(d)
});
plain_seq!(plain_vector, Vector, push_back_mut, drop_last_mut, drop_last, len, |c| {
    let d = c.set(0, T::of(1));
    drop(c);
    drop(d)
});
fn plain_htmap<T: Plain, P: SharedPointerKind + 'static>(n: usize) -> Res {
    let c: HashTrieMap<T, T, P, HB> = (0..n as u32).map(|x| (T::of(x), T::of(x))).collect();
    let mut e = c.clone();
    for x in 0..n as u32 {
        e.remove_mut(&T::of(x));
    }
    ensure!(e.is_empty() && c.iter().count() == c.size(), "size");
    let s: HashTrieSet<T, P, HB> = c.keys().cloned().collect();
    if T::NAME == "u32" {
        rest(c, n)?;
    }
    rest(s, n)
}
fn plain_rbmap<T: Plain, P: SharedPointerKind + 'static>(n: usize) -> Res {
    let c: RedBlackTreeMap<T, T, P> = (0..n as u32).map(|x| (T::of(x), T::of(x))).collect();
    let mut e = c.clone();
    for x in 0..n as u32 {
        e.remove_mut(&T::of(x));
    }
    ensure!(e.is_empty() && c.iter().count() == c.size(), "size");
    let s: RedBlackTreeSet<T, P> = c.keys().cloned().collect();
    let _ = (c.cmp(&c.clone()), hash_it(&s));
    if T::NAME == "u32" {
        rest(c, n)?;
    }
    rest(s, n)
}
fn plain_entries<T: Plain, P: SharedPointerKind + 'static>(out: &mut Vec<Entry>, ptr: &str) {
    let fs: [(&str, bool, fn(usize) -> Res); 6] = [
        ("List", false, plain_list::<T, P>),
        ("Stack", false, plain_stack::<T, P>),
        ("Queue", false, plain_queue::<T, P>),
        ("Vector", false, plain_vector::<T, P>),
        ("HashTrieMap and set", true, plain_htmap::<T, P>),
        ("RedBlackTreeMap and set", false, plain_rbmap::<T, P>),
    ];
    for (name, hash, f) in fs {
        for collides in [false, true] {
            if collides && !hash {
                continue;
            }
            out.push(Entry {
                name: format!("{name} of {} <{ptr}>, everything{}", T::NAME, if collides { " (one bucket)" } else { "" }),
                task: Box::new(move |n, mode| {
                    Box::new(move || {
                        set_default(mode);
                        f(n)
                    })
                }),
                collides,
            });
        }
    }
}

fn small(f: impl FnOnce() -> Res + Send + 'static) -> std::thread::JoinHandle<Res> {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            base();
            let r = guard(f);
            SEEN.fetch_add(1, O::Relaxed);
            match r {
                Ok(r) => r,
                Err(e) => Err(e),
            }
        })
        .expect("cannot start a thread")
}

fn join(h: std::thread::JoinHandle<Res>) -> Res {
    match h.join() {
        Ok(r) => r,
        Err(_) => Err("harness: the thread panicked".into()),
    }
}

/// Several threads let go of versions that share their elements, at the same time.
struct Sent<T>(T);
/// What may be sent is C16's business.
unsafe impl<T> Send for Sent<T> {}
impl<T> Sent<T> {
    fn get(self) -> T {
        self.0
    }
}

fn concurrent<C: Big>(n: usize, rng: &mut Rng, delays: u32, mode: Mode) -> Res {
    set_default(mode);
    let threads = rng.range(2, 6);
    let style = rng.below(5);
    let whole = Arc::new(C::build(n));
    let barrier = Arc::new(Barrier::new(threads));
    let mut versions: Vec<C> = vec![];
    let mut v = (*whole).clone();
    for i in 0..threads {
        v = match style {
            0 => v,
            1 => v.grow((n + i) as u32),
            2 => v.shrink(),
            3 => {
                let mut x = v;
                for _ in 0..n / (threads + 1) {
                    x = x.shrink();
                }
                x
            }
            _ => {
                if i % 2 == 0 {
                    v.grow((n + i) as u32)
                } else {
                    v.shrink().shrink()
                }
            }
        };
        versions.push(v.clone());
    }
    drop(v);
    drop(whole);
    let hs: Vec<_> = versions
        .into_iter()
        .enumerate()
        .map(|(i, v)| {
            let barrier = barrier.clone();
            let seed = rng.next();
            let empties = rng.chance(1, 4);
            let v = Sent(v);
            small(move || {
                mon::delays(delays, seed);
                let mut v = v.get();
                barrier.wait();
                if empties && i == 0 {
                    v.empty_out();
                }
                drop(v);
                mon::delays(0, 1);
                Ok(())
            })
        })
        .collect();
    for h in hs {
        join(h)?;
    }
    Ok(())
}

fn main() {
    let dev = core_h::ctx::args().mode == "dev";
    let mut es = vec![];
    entries_of::<RcK>(&mut es, "Rc");
    if !dev {
        entries_of::<ArcK>(&mut es, "Arc");
    }
    entries_of::<ArcTK>(&mut es, "ArcT");
    plain_entries::<u32, RcK>(&mut es, "Rc");
    plain_entries::<Box<u64>, ArcTK>(&mut es, "ArcT");
    if !dev {
        plain_entries::<(), RcK>(&mut es, "Rc");
        plain_entries::<u32, ArcTK>(&mut es, "ArcT");
        plain_entries::<Option<String>, RcK>(&mut es, "Rc");
        plain_entries::<(u32, [u64; 6]), ArcK>(&mut es, "Arc");
    }
    let singles = es.len() as u64;
    let concurrent_cases: u64 = if dev { 40 } else { 240 };
    let total = singles + concurrent_cases;
    run(Plan { quick: total, thorough: total * 12, hang_secs: 300 }, |ctx: &mut Ctx, case, rng| {
        let round = case / total;
        let i = case % total;
        ctx.eval();
        ctx.fp(case);
        ctx.nontrivial();
        let t0 = std::time::Instant::now();
        let r = if i < singles {
            let e = &es[i as usize];
            let n = match (e.collides, dev, round) {
                // The tree-shaped ones print their nodes, which gets very indented.
                _ if e.name.contains("debug_alternate") && !e.name.contains("List") => if e.collides { 4000 } else { 20_000 },
                (true, _, 0) => 5_000,
                (true, false, _) => rng.range(3_000, 20_000),
                (true, true, _) => rng.range(3_000, 8_000),
                (false, true, 0) => 40_000,
                (false, true, _) => rng.range(30_000, 300_000),
                (false, false, 0) => 100_000,
                (false, false, _) => rng.range(100_000, 2_000_000),
            };
            let mode = if e.collides {
                if rng.chance(1, 2) { Mode::Const(rng.next()) } else { Mode::Few(1) }
            } else {
                Mode::Good(rng.next())
            };
            let t = (e.task)(n, mode);
            ctx.t(|| format!("{} with {n} elements on a stack of {STACK} bytes", e.name));
            ctx.count("single_thread", 1);
            ctx.count("elements", n as u64);
            if ctx.samples.len() < 3 && !ctx.tracing {
                ctx.samples.push(format!("{} with {n} elements on a stack of {} KiB", e.name, STACK >> 10));
            }
            join(small(t)).map_err(|m| format!("{} with {n} elements: {m}", e.name))
        } else {
            let n = rng.range(20_000, if dev { 60_000 } else { 120_000 });
            let delays = *rng.pick(&[0u32, 0, 1, 8]);
            let which = rng.below(10);
            let mode = if which >= 8 { Mode::Const(3) } else { Mode::Good(1) };
            ctx.t(|| format!("concurrent drops, kind {which}, {n} elements"));
            ctx.count("concurrent_drops", 1);
            let n2 = if which >= 8 { n / 30 } else { n };
            match which {
                0 => concurrent::<List<D, ArcK>>(n2, rng, 0, mode),
                1 => concurrent::<List<D, ArcTK>>(n2, rng, 0, mode),
                2 => concurrent::<List<D, MonArc>>(n2, rng, delays, mode),
                3 => concurrent::<Stack<D, MonArc>>(n2, rng, delays, mode),
                4 => concurrent::<Queue<D, MonArc>>(n2, rng, delays, mode),
                5 => concurrent::<Queue<D, ArcTK>>(n2, rng, 0, mode),
                6 => concurrent::<Stack<D, ArcTK>>(n2, rng, 0, mode),
                7 => concurrent::<Vector<D, ArcTK>>(n2, rng, 0, mode),
                8 => concurrent::<HashTrieMap<D, D, MonArc, HB>>(n2, rng, delays, mode),
                _ => concurrent::<HashTrieSet<D, ArcTK, HB>>(n2, rng, 0, mode),
            }
        };
        if std::env::var_os("RPDS_TIMES").is_some() {
            eprintln!("{:?} {i} {}", t0.elapsed(), es.get(i as usize).map_or("concurrent", |e| &e.name));
        }
        let depth = DEEPEST.load(O::Relaxed);
        ctx.max("stack_depth_bytes_at_a_callback", depth);
        ctx.count("threads_run", SEEN.swap(0, O::Relaxed));
        r
    });
}
