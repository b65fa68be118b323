//! C16: thread-safe variants behave sequentially under concurrent sharing.
//!
//! Threads start from the same versions, read them through shared references, clone, update and drop their own, and
//! send versions to each other; each compares everything it sees with its own sequential model.  Delays are injected
//! around pointer operations.  The same program runs under ThreadSanitizer and Miri.  Auto traits are observed through
//! probes that pick a constant by trait resolution.
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use core_h::ctx::{Ctx, Plan, Res, guard, run};
use core_h::hashers::{HB, Mode};
use core_h::model::{Item, KINDS, Kind, Model, Op, P as Pair, Ret};
use core_h::mon::{self, MonArc};
use core_h::pool::{Gen, note_cfg, op_fp, random_cfg};
use core_h::rng::{Rng, mix};
use core_h::subj::Cfg;
use core_h::{ensure, ensure_eq};
use rpds::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering as O};
use std::sync::{Arc, Barrier, Mutex};

/// Elements alive, in all threads.  Relaxed on purpose: the monitors must not order the threads.
static LIVE: AtomicI64 = AtomicI64::new(0);
static TICKET: AtomicU64 = AtomicU64::new(0);
static BAD: AtomicU64 = AtomicU64::new(0);

struct E {
    key: u32,
    uid: u32,
    heap: Box<u64>,
}
const MAGIC: u64 = 0x5eed_0123_4567_89ab;
impl E {
    fn new(p: Pair) -> E {
        LIVE.fetch_add(1, O::Relaxed);
        E { key: p.0, uid: p.1, heap: Box::new(MAGIC) }
    }
    fn ok(&self) {
        if *self.heap != MAGIC {
            BAD.fetch_add(1, O::Relaxed);
        }
    }
    fn pair(&self) -> Pair {
        self.ok();
        (self.key, self.uid)
    }
    fn put(&mut self, p: Pair) {
        self.ok();
        self.key = p.0;
        self.uid = p.1;
    }
}
impl Clone for E {
    fn clone(&self) -> E {
        self.ok();
        E::new((self.key, self.uid))
    }
}
impl Drop for E {
    fn drop(&mut self) {
        self.ok();
        *self.heap = 0;
        LIVE.fetch_sub(1, O::Relaxed);
    }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        self.ok();
        self.key == o.key
    }
}
impl Eq for E {}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for E {
    fn cmp(&self, o: &E) -> Ordering {
        self.ok();
        self.key.cmp(&o.key)
    }
}
impl Hash for E {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.ok();
        h.write_u32(self.key)
    }
}

/// Lets threads share what the probes below check to be shareable: were it not, the probes would say so, where the compiler
/// could only refuse to build the check.
struct Shared<T>(T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}

trait Conc: Clone + PartialEq + 'static {
    fn empty(cfg: &Cfg) -> Self;
    fn do_mut(&mut self, op: &Op) -> Ret;
    fn do_new(&self, op: &Op) -> (Self, Ret);
    fn items(&self) -> Vec<Item>;
    fn size_(&self) -> usize;
    fn probe(&self, m: &Model, rng: &mut Rng) -> Res;
}

macro_rules! plain_seq {
    ($t:ident, $new:expr, $put:ident, $put_p:ident, $take:ident, $take_p:ident, $len:ident, [$($q:ident => $end:ident),*]) => {
        impl<P: SharedPointerKind + Send + Sync + 'static> Conc for $t<E, P> {
            fn empty(cfg: &Cfg) -> Self {
                $new(cfg)
            }
            fn do_mut(&mut self, op: &Op) -> Ret {
                match op {
                    Op::Put(p) => {
                        self.$put(E::new(*p));
                        Ret::Unit
                    }
                    Op::Take => Ret::Bool(self.$take()),
                    o => self.other_mut(o),
                }
            }
            fn do_new(&self, op: &Op) -> (Self, Ret) {
                match op {
                    Op::Put(p) => (self.$put_p(E::new(*p)), Ret::Unit),
                    Op::Take => match self.$take_p() {
                        Some(x) => (x, Ret::Bool(true)),
                        None => (self.clone(), Ret::Bool(false)),
                    },
                    o => self.other_new(o),
                }
            }
            fn items(&self) -> Vec<Item> {
                self.iter().map(|e| (e.pair(), None)).collect()
            }
            fn size_(&self) -> usize {
                self.$len()
            }
            fn probe(&self, m: &Model, rng: &mut Rng) -> Res {
                let items = m.items();
                $(ensure_eq!(self.$q().map(E::pair), items.$end().map(|x| x.0), stringify!($q));)*
                self.other_probe(&items, rng)
            }
        }
    };
}
trait Other: Clone {
    fn other_mut(&mut self, _: &Op) -> Ret {
        Ret::Unit
    }
    fn other_new(&self, op: &Op) -> (Self, Ret) {
        let mut c = self.clone();
        let r = c.other_mut(op);
        (c, r)
    }
    fn other_probe(&self, _: &[Item], _: &mut Rng) -> Res {
        Ok(())
    }
}
impl<P: SharedPointerKind> Other for Stack<E, P> {}
impl<P: SharedPointerKind> Other for Queue<E, P> {}
impl<P: SharedPointerKind> Other for List<E, P> {
    fn other_mut(&mut self, op: &Op) -> Ret {
        if let Op::Reverse = op {
            self.reverse_mut();
        }
        Ret::Unit
    }
    fn other_new(&self, op: &Op) -> (Self, Ret) {
        (if let Op::Reverse = op { self.reverse() } else { self.clone() }, Ret::Unit)
    }
}
impl<P: SharedPointerKind> Other for Vector<E, P> {
    fn other_mut(&mut self, op: &Op) -> Ret {
        match op {
            Op::Set(i, p) => Ret::Bool(self.set_mut(*i, E::new(*p))),
            Op::GetMut(i, p) => match self.get_mut(*i) {
                Some(r) => {
                    r.put(*p);
                    Ret::Bool(true)
                }
                None => Ret::Bool(false),
            },
            Op::PeekMut(i) => Ret::Bool(self.get_mut(*i).is_some()),
            Op::IndexMut(i, p) => {
                if *i >= self.len() {
                    return Ret::Panicked;
                }
                self[*i].put(*p);
                Ret::Unit
            }
            Op::Extend(v) => {
                self.extend(v.iter().map(|p| E::new(*p)));
                Ret::Unit
            }
            _ => Ret::Unit,
        }
    }
    fn other_new(&self, op: &Op) -> (Self, Ret) {
        if let Op::Set(i, p) = op {
            return match self.set(*i, E::new(*p)) {
                Some(x) => (x, Ret::Bool(true)),
                None => (self.clone(), Ret::Bool(false)),
            };
        }
        let mut c = self.clone();
        let r = c.other_mut(op);
        (c, r)
    }
    fn other_probe(&self, items: &[Item], rng: &mut Rng) -> Res {
        for _ in 0..6 {
            let i = rng.below(items.len() + 2);
            ensure_eq!(self.get(i).map(E::pair), items.get(i).map(|x| x.0), "get({i})");
        }
        ensure!(self.iter().rev().map(E::pair).eq(items.iter().rev().map(|x| x.0)), "backward iteration");
        Ok(())
    }
}
plain_seq!(List, |_| List::new_with_ptr_kind(), push_front_mut, push_front, drop_first_mut, drop_first, len, [first => first, last => last]);
plain_seq!(Stack, |_| Stack::new_with_ptr_kind(), push_mut, push, pop_mut, pop, size, [peek => first]);
plain_seq!(Queue, |_| Queue::new_with_ptr_kind(), enqueue_mut, enqueue, dequeue_mut, dequeue, len, [peek => first]);
plain_seq!(Vector, |c: &Cfg| Vector::new_with_bits(c.bits), push_back_mut, push_back, drop_last_mut, drop_last, len, [first => first, last => last]);

macro_rules! keyed {
    ($t:ty, $new:expr, map) => {
        impl<P: SharedPointerKind + Send + Sync + 'static> Conc for $t {
            fn empty(cfg: &Cfg) -> Self {
                $new(cfg)
            }
            fn do_mut(&mut self, op: &Op) -> Ret {
                match op {
                    Op::Insert(k, v) => {
                        self.insert_mut(E::new(*k), E::new(*v));
                        Ret::Unit
                    }
                    Op::Remove(k, _) => Ret::Bool(self.remove_mut(&E::new((*k, 0)))),
                    Op::MapGetMut(k, v, _) => match self.get_mut(&E::new((*k, 0))) {
                        Some(r) => {
                            r.put(*v);
                            Ret::Bool(true)
                        }
                        None => Ret::Bool(false),
                    },
                    Op::MapPeekMut(k) => Ret::Bool(self.get_mut(&E::new((*k, 0))).is_some()),
                    _ => Ret::Unit,
                }
            }
            fn do_new(&self, op: &Op) -> (Self, Ret) {
                match op {
                    Op::Insert(k, v) => (self.insert(E::new(*k), E::new(*v)), Ret::Unit),
                    Op::Remove(k, _) => {
                        let n = self.remove(&E::new((*k, 0)));
                        let r = n.size() != self.size();
                        (n, Ret::Bool(r))
                    }
                    _ => {
                        let mut c = self.clone();
                        let r = c.do_mut(op);
                        (c, r)
                    }
                }
            }
            fn items(&self) -> Vec<Item> {
                self.iter().map(|(k, v)| (k.pair(), Some(v.pair()))).collect()
            }
            fn size_(&self) -> usize {
                self.size()
            }
            fn probe(&self, m: &Model, rng: &mut Rng) -> Res {
                if let Model::Map(_, m) = m {
                    for _ in 0..3 {
                        let k = rng.below(m.len() + 4) as u32;
                        let want = m.get(&k);
                        let q = E::new((k, 0));
                        ensure_eq!(self.get(&q).map(E::pair), want.map(|x| x.1), "get({k})");
                        ensure_eq!(self.get_key_value(&q).map(|x| x.0.pair()), want.map(|x| (k, x.0)), "get_key_value({k})");
                        ensure_eq!(self.contains_key(&q), want.is_some(), "contains_key({k})");
                    }
                }
                Ok(())
            }
        }
    };
    ($t:ty, $new:expr, set) => {
        impl<P: SharedPointerKind + Send + Sync + 'static> Conc for $t {
            fn empty(cfg: &Cfg) -> Self {
                $new(cfg)
            }
            fn do_mut(&mut self, op: &Op) -> Ret {
                match op {
                    Op::Insert(k, _) => {
                        self.insert_mut(E::new(*k));
                        Ret::Unit
                    }
                    Op::Remove(k, _) => Ret::Bool(self.remove_mut(&E::new((*k, 0)))),
                    _ => Ret::Unit,
                }
            }
            fn do_new(&self, op: &Op) -> (Self, Ret) {
                match op {
                    Op::Insert(k, _) => (self.insert(E::new(*k)), Ret::Unit),
                    Op::Remove(k, _) => {
                        let n = self.remove(&E::new((*k, 0)));
                        let r = n.size() != self.size();
                        (n, Ret::Bool(r))
                    }
                    _ => (self.clone(), Ret::Unit),
                }
            }
            fn items(&self) -> Vec<Item> {
                self.iter().map(|k| (k.pair(), None)).collect()
            }
            fn size_(&self) -> usize {
                self.size()
            }
            fn probe(&self, m: &Model, rng: &mut Rng) -> Res {
                if let Model::Map(_, m) = m {
                    for _ in 0..3 {
                        let k = rng.below(m.len() + 4) as u32;
                        let want = m.get(&k);
                        let q = E::new((k, 0));
                        ensure_eq!(self.get(&q).map(E::pair), want.map(|x| (k, x.0)), "get({k})");
                        ensure_eq!(self.contains(&q), want.is_some(), "contains({k})");
                    }
                }
                Ok(())
            }
        }
    };
}
fn htm<P: SharedPointerKind>(c: &Cfg) -> HashTrieMap<E, E, P, HB> {
    HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(HB(c.mode), c.degree)
}
fn hts<P: SharedPointerKind>(c: &Cfg) -> HashTrieSet<E, P, HB> {
    HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(HB(c.mode), c.degree)
}
keyed!(HashTrieMap<E, E, P, HB>, htm, map);
keyed!(RedBlackTreeMap<E, E, P>, |_| RedBlackTreeMap::new_with_ptr_kind(), map);
keyed!(HashTrieSet<E, P, HB>, hts, set);
keyed!(RedBlackTreeSet<E, P>, |_| RedBlackTreeSet::new_with_ptr_kind(), set);

struct V<C> {
    c: C,
    m: Model,
}

fn full<C: Conc>(c: &C, m: &Model, hash: bool, rng: &mut Rng) -> Res {
    ensure_eq!(c.size_(), m.len(), "size");
    let mut got = c.items();
    if hash {
        got.sort_unstable();
    }
    ensure_eq!(got, m.items(), "iteration");
    c.probe(m, rng)
}

#[derive(Default)]
struct Out {
    err: Option<String>,
    ops: u64,
    checks: u64,
    sent: u64,
    received: u64,
    delays: u64,
    tickets: Vec<u64>,
}

struct Plan16 {
    threads: usize,
    ops: usize,
    prefill: usize,
    delay: u32,
    /// Threads send versions to each other (which also orders them, so not always).
    exchange: bool,
}

fn case<C: Conc>(ctx: &mut Ctx, cfg: &Cfg, p: &Plan16, rng: &mut Rng) -> Res {
    let hash = cfg.kind.is_hash();
    let live0 = LIVE.load(O::Relaxed);
    // The common past.
    let mut g = Gen::with_target(cfg, p.prefill.max(2), rng);
    let mut base: Vec<V<C>> = vec![V { c: C::empty(cfg), m: Model::new(cfg.kind) }];
    for _ in 0..p.prefill * 2 {
        let i = rng.below(base.len());
        let op = g.op(cfg, &base[i].m, rng);
        if matches!(op, Op::IndexMut(i, _) | Op::Set(i, _) | Op::GetMut(i, _) if i > 1 << 20) {
            continue;
        }
        ctx.fp(op_fp(&op));
        if rng.chance(1, 4) && base.len() < 5 {
            let mut m = base[i].m.clone();
            m.apply(&op);
            let c = base[i].c.do_new(&op).0;
            base.push(V { c, m });
        } else {
            base[i].m.apply(&op);
            base[i].c.do_mut(&op);
        }
    }
    let base = Arc::new(Shared(base));
    let barrier = Arc::new(Barrier::new(p.threads));
    let mail: Arc<Shared<Mutex<Vec<V<C>>>>> = Arc::new(Shared(Mutex::new(vec![])));
    TICKET.store(0, O::Relaxed);
    let hs: Vec<_> = (0..p.threads)
        .map(|t| {
            let base = base.clone();
            let barrier = barrier.clone();
            let mail = mail.clone();
            let cfg = cfg.clone();
            let mut rng = Rng::new(rng.next());
            let (ops, delay, exchange, target) = (p.ops, p.delay, p.exchange, p.prefill.max(2));
            // Some threads let go of the common past early.
            let hold = rng.chance(1, 3);
            std::thread::spawn(move || {
                let mut out = Out::default();
                let r = guard(|| -> Res {
                    let mut base = Some(base);
                    let mut pool: Vec<V<C>> = vec![];
                    let mut g = Gen::with_target(&cfg, target, &mut rng);
                    g.next_uid = (t as u32 + 1) << 24;
                    barrier.wait();
                    mon::delays(delay, rng.next());
                    if let Some(b) = &base {
                        for v in b.0.iter() {
                            if rng.chance(2, 3) {
                                pool.push(V { c: v.c.clone(), m: v.m.clone() });
                            }
                        }
                    }
                    if !hold {
                        base = None;
                    }
                    for n in 0..ops {
                        out.tickets.push(TICKET.fetch_add(1, O::Relaxed));
                        out.ops += 1;
                        // Read the shared version itself, not a clone of it.
                        if let Some(b) = base.as_ref().filter(|_| rng.chance(1, 6)) {
                            let v = rng.pick(&b.0);
                            out.checks += 1;
                            full(&v.c, &v.m, hash, &mut rng).map_err(|e| format!("thread {t}, step {n}: {e} (shared version)"))?;
                            if rng.chance(1, 2) {
                                pool.push(V { c: v.c.clone(), m: v.m.clone() });
                            }
                        }
                        if exchange && rng.chance(1, 8) {
                            let mut mail = mail.0.lock().map_err(|_| "harness: poisoned")?;
                            if rng.chance(1, 2) && !pool.is_empty() {
                                let i = rng.below(pool.len());
                                mail.push(V { c: pool[i].c.clone(), m: pool[i].m.clone() });
                                out.sent += 1;
                                if mail.len() > 8 {
                                    let i = rng.below(8);
                                    mail.swap_remove(i);
                                }
                            } else if !mail.is_empty() {
                                let i = rng.below(mail.len());
                                let v = mail.swap_remove(i);
                                drop(mail);
                                pool.push(v);
                                out.received += 1;
                            }
                        }
                        if pool.is_empty() {
                            pool.push(V { c: C::empty(&cfg), m: Model::new(cfg.kind) });
                        }
                        let i = rng.below(pool.len());
                        let op = g.op(&cfg, &pool[i].m, &mut rng);
                        let at = if rng.chance(1, 3) {
                            let mut m = pool[i].m.clone();
                            let want = m.apply(&op);
                            if want == Ret::Panicked {
                                continue;
                            }
                            let (c, got) = pool[i].c.do_new(&op);
                            ensure_eq!(got, want, "thread {t}, step {n}: result of the persistent {op:?}");
                            pool.push(V { c, m });
                            pool.len() - 1
                        } else {
                            let v = &mut pool[i];
                            let want = v.m.apply(&op);
                            let got = v.c.do_mut(&op);
                            ensure_eq!(got, want, "thread {t}, step {n}: result of the in-place {op:?}");
                            i
                        };
                        if rng.chance(1, 4) {
                            out.checks += 1;
                            full(&pool[at].c, &pool[at].m, hash, &mut rng).map_err(|e| format!("thread {t}, step {n}: {e} after {op:?}"))?;
                        }
                        if rng.chance(1, 10) && pool.len() > 1 {
                            // Equality looks at shared structure of two versions.
                            let j = rng.below(pool.len());
                            let same = pool[at].c == pool[j].c;
                            let want = keys(&pool[at].m) == keys(&pool[j].m);
                            out.checks += 1;
                            ensure_eq!(same, want, "thread {t}, step {n}: == of two versions");
                        }
                        while pool.len() > 5 {
                            let j = rng.below(pool.len());
                            pool.swap_remove(j);
                        }
                        if n == ops / 2 {
                            base = None;
                        }
                    }
                    for v in &pool {
                        out.checks += 1;
                        full(&v.c, &v.m, hash, &mut rng).map_err(|e| format!("thread {t}, at the end: {e}"))?;
                    }
                    Ok(())
                });
                mon::delays(0, 1);
                out.delays = mon::delays_made();
                out.err = match r {
                    Ok(Ok(())) => None,
                    Ok(Err(e)) => Some(e),
                    Err(e) => Some(format!("thread {t}: {e}")),
                };
                out
            })
        })
        .collect();
    drop(base);
    let mut order: Vec<(u64, usize)> = vec![];
    let mut errs = vec![];
    for (t, h) in hs.into_iter().enumerate() {
        let o = h.join().map_err(|_| "harness: a thread panicked".to_string())?;
        ctx.count("thread_operations", o.ops);
        ctx.count("versions_sent", o.sent);
        ctx.count("versions_received", o.received);
        ctx.count("delays_injected", o.delays);
        ctx.evals += o.checks;
        order.extend(o.tickets.iter().map(|x| (*x, t)));
        errs.extend(o.err);
    }
    let left = mail.0.lock().map_err(|_| "harness: poisoned")?.len();
    for v in mail.0.lock().map_err(|_| "harness: poisoned")?.drain(..) {
        full(&v.c, &v.m, hash, rng)?;
    }
    let _ = left;
    drop(mail);
    // How the threads really interleaved is part of what makes the case distinct.
    order.sort_unstable();
    let mut switches = 0;
    for w in order.windows(2) {
        ctx.fp(w[0].1 as u64);
        switches += u64::from(w[0].1 != w[1].1);
    }
    ctx.count("thread_switches", switches);
    if switches as usize > p.threads {
        ctx.nontrivial();
        ctx.count("interleaved_cases", 1);
    }
    if ctx.samples.len() < 3 && !ctx.tracing {
        ctx.samples.push(format!("{}: {} threads x {} operations, {switches} switches between threads", cfg.describe(), p.threads, p.ops));
    }
    ensure!(errs.is_empty(), "{} ({})", errs.join("; "), cfg.describe());
    ensure_eq!(LIVE.load(O::Relaxed), live0, "elements alive when every version is gone ({})", cfg.describe());
    ensure_eq!(BAD.load(O::Relaxed), 0, "elements used when not alive ({})", cfg.describe());
    Ok(())
}

/// What `==` of two versions compares: keys of the elements; keys, and keys of the values, of maps.
fn keys(m: &Model) -> Vec<(u32, Option<u32>)> {
    m.items().into_iter().map(|(k, v)| (k.0, v.map(|v| v.0))).collect()
}

fn by_kind<P: SharedPointerKind + Send + Sync + 'static>(ctx: &mut Ctx, cfg: &Cfg, p: &Plan16, rng: &mut Rng) -> Res {
    match cfg.kind {
        Kind::List => case::<List<E, P>>(ctx, cfg, p, rng),
        Kind::Stack => case::<Stack<E, P>>(ctx, cfg, p, rng),
        Kind::Vector => case::<Vector<E, P>>(ctx, cfg, p, rng),
        Kind::Queue => case::<Queue<E, P>>(ctx, cfg, p, rng),
        Kind::HtMap => case::<HashTrieMap<E, E, P, HB>>(ctx, cfg, p, rng),
        Kind::RbMap => case::<RedBlackTreeMap<E, E, P>>(ctx, cfg, p, rng),
        Kind::HtSet => case::<HashTrieSet<E, P, HB>>(ctx, cfg, p, rng),
        Kind::RbSet => case::<RedBlackTreeSet<E, P>>(ctx, cfg, p, rng),
    }
}

// ------------------------------------------------------------------------------------------ auto traits

trait Not {
    const SEND: bool = false;
    const SYNC: bool = false;
}
struct IsSend<T>(std::marker::PhantomData<T>);
struct IsSync<T>(std::marker::PhantomData<T>);
impl<T> Not for IsSend<T> {}
impl<T> Not for IsSync<T> {}
impl<T: Send> IsSend<T> {
    const SEND: bool = true;
}
impl<T: Sync> IsSync<T> {
    const SYNC: bool = true;
}

/// The same by value, for types without a name, such as those of iterators: an inherent method wins when its bound
/// holds, the method of the trait otherwise.
trait NotVal {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
struct SendVal<T>(std::marker::PhantomData<T>);
struct SyncVal<T>(std::marker::PhantomData<T>);
impl<T> NotVal for SendVal<T> {}
impl<T> NotVal for SyncVal<T> {}
impl<T: Send> SendVal<T> {
    fn send(&self) -> bool {
        true
    }
}
impl<T: Sync> SyncVal<T> {
    fn sync(&self) -> bool {
        true
    }
}
fn of<T>(_: &T) -> std::marker::PhantomData<T> {
    std::marker::PhantomData
}
/// A builder of hashers which must stay on its thread.
#[derive(Clone)]
struct StayingHB(#[allow(dead_code)] Neither);
impl std::hash::BuildHasher for StayingHB {
    type Hasher = std::collections::hash_map::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        Default::default()
    }
}

/// Sync but not Send.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
struct SyncOnly(*const u8);
unsafe impl Sync for SyncOnly {}
/// Send but not Sync.
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
struct SendOnly(Cell<u8>);
impl Hash for SendOnly {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(self.0.get())
    }
}
/// Neither.
type Neither = *const u8;
type Both = u8;

fn auto_traits(ctx: &mut Ctx) -> Res {
    macro_rules! probe {
        ($want:expr, $($t:ty),* $(,)?) => {$(
            let got = (IsSend::<$t>::SEND, IsSync::<$t>::SYNC);
            ctx.eval();
            ctx.count("auto_trait_probes", 1);
            ensure_eq!(got, $want, "(Send, Sync) of {}", std::any::type_name::<$t>());
        )*};
    }
    macro_rules! kinds {
        ($want:expr, $p:ty, $e:ty) => {
            probe!(
                $want,
                List<$e, $p>, Stack<$e, $p>, Queue<$e, $p>, Vector<$e, $p>, HashTrieSet<$e, $p>, RedBlackTreeSet<$e, $p>,
                HashTrieMap<$e, u8, $p>, HashTrieMap<u8, $e, $p>, HashTrieMap<$e, $e, $p>,
                RedBlackTreeMap<$e, u8, $p>, RedBlackTreeMap<u8, $e, $p>, RedBlackTreeMap<$e, $e, $p>,
            );
        };
    }
    // The probe itself.
    probe!((true, true), Both);
    probe!((true, false), SendOnly);
    probe!((false, true), SyncOnly);
    probe!((false, false), Neither);
    kinds!((true, true), ArcTK, Both);
    kinds!((true, true), ArcK, Both);
    kinds!((false, false), ArcTK, SendOnly);
    kinds!((false, false), ArcK, SendOnly);
    kinds!((false, false), ArcTK, SyncOnly);
    kinds!((false, false), ArcK, SyncOnly);
    kinds!((false, false), ArcTK, Neither);
    kinds!((false, false), ArcK, Neither);
    kinds!((false, false), RcK, Both);
    kinds!((false, false), RcK, SendOnly);
    kinds!((false, false), RcK, SyncOnly);
    kinds!((false, false), RcK, Neither);
    macro_rules! sync_aliases {
        ($want:expr, $e:ty) => {
            probe!(
                $want,
                ListSync<$e>, StackSync<$e>, QueueSync<$e>, VectorSync<$e>, HashTrieSetSync<$e>, RedBlackTreeSetSync<$e>,
                HashTrieMapSync<$e, u8>, HashTrieMapSync<u8, $e>, RedBlackTreeMapSync<$e, u8>, RedBlackTreeMapSync<u8, $e>,
            );
        };
    }
    sync_aliases!((true, true), Both);
    sync_aliases!((true, true), String);
    sync_aliases!((false, false), SendOnly);
    sync_aliases!((false, false), SyncOnly);
    sync_aliases!((false, false), std::rc::Rc<u8>);
    // A map or set owns its hasher, so it may go no further than that.
    probe!(
        (false, false),
        HashTrieMap<u8, u8, ArcTK, StayingHB>, HashTrieSet<u8, ArcTK, StayingHB>,
        HashTrieMap<u8, u8, ArcK, StayingHB>, HashTrieSet<u8, ArcK, StayingHB>,
    );
    // Iterators: those over a thread-safe variant go wherever references to the elements may go.
    macro_rules! iter_probe {
        ($want:expr, $what:expr, $v:expr) => {{
            // A match, and no let, keeps the collection until the iterator is done with.
            match &$v {
                v => {
                    let got = (SendVal(of(v)).send(), SyncVal(of(v)).sync());
                    ctx.eval();
                    ctx.count("auto_trait_probes_of_iterators", 1);
                    ensure_eq!(got, $want, "(Send, Sync) of the iterator of {}: {}", $what, std::any::type_name_of_val(v));
                }
            }
        }};
    }
    macro_rules! iterators {
        ($want:expr, $p:ty, $e:ty) => {{
            iter_probe!($want, "a List", List::<$e, $p>::new_with_ptr_kind().iter());
            iter_probe!($want, "a Stack", Stack::<$e, $p>::new_with_ptr_kind().iter());
            iter_probe!($want, "a Queue", Queue::<$e, $p>::new_with_ptr_kind().iter());
            iter_probe!($want, "a Vector", Vector::<$e, $p>::new_with_ptr_kind().iter());
            iter_probe!($want, "a RedBlackTreeSet", RedBlackTreeSet::<$e, $p>::new_with_ptr_kind().iter());
            iter_probe!($want, "a range of a RedBlackTreeSet", RedBlackTreeSet::<$e, $p>::new_with_ptr_kind().range::<$e, _>(..));
            iter_probe!($want, "a RedBlackTreeMap", RedBlackTreeMap::<u8, $e, $p>::new_with_ptr_kind().iter());
            iter_probe!($want, "a range of a RedBlackTreeMap", RedBlackTreeMap::<u8, $e, $p>::new_with_ptr_kind().range(3..));
            iter_probe!($want, "a RedBlackTreeMap", RedBlackTreeMap::<$e, u8, $p>::new_with_ptr_kind().keys());
            iter_probe!($want, "a RedBlackTreeMap", RedBlackTreeMap::<u8, $e, $p>::new_with_ptr_kind().values());
            let hb = std::hash::RandomState::new();
            iter_probe!($want, "a HashTrieSet", HashTrieSet::<$e, $p, _>::new_with_hasher_with_ptr_kind(hb.clone()).iter());
            iter_probe!($want, "a HashTrieMap", HashTrieMap::<u8, $e, $p, _>::new_with_hasher_and_ptr_kind(hb.clone()).iter());
            iter_probe!($want, "a HashTrieMap", HashTrieMap::<$e, u8, $p, _>::new_with_hasher_and_ptr_kind(hb.clone()).keys());
            iter_probe!($want, "a HashTrieMap", HashTrieMap::<u8, $e, $p, _>::new_with_hasher_and_ptr_kind(hb.clone()).values());
        }};
    }
    iter_probe!((true, true), "the probe itself", 1u8);
    iter_probe!((true, false), "the probe itself", SendOnly(Cell::new(1)));
    iter_probe!((false, true), "the probe itself", SyncOnly(std::ptr::null()));
    iterators!((true, true), ArcTK, Both);
    iterators!((true, true), ArcK, Both);
    iterators!((true, true), ArcTK, String);
    iterators!((false, false), ArcTK, SendOnly);
    iterators!((false, false), ArcK, SendOnly);
    iterators!((false, false), ArcTK, Neither);
    iterators!((false, false), RcK, SendOnly);
    iterators!((false, false), RcK, Neither);
    Ok(())
}

fn main() {
    let mode = core_h::ctx::args().mode;
    let miri = mode == "miri";
    let tsan = mode == "tsan";
    let (q, t) = if miri { (24, 400) } else if tsan { (8_000, 200_000) } else { (20_000, 600_000) };
    run(Plan { quick: q, thorough: t, hang_secs: 600 }, |ctx, c, rng| {
        if c == 0 {
            auto_traits(ctx)?;
        }
        let kind = KINDS[(mix(c ^ 0x77) % 8) as usize];
        let kind = if miri { KINDS[(c % 8) as usize] } else { kind };
        let mut cfg = random_cfg(kind, rng);
        if rng.chance(1, 2) {
            cfg.stride = 1;
        }
        // The pointers of triomphe synchronize with a fence, which ThreadSanitizer does not understand.
        let which = if tsan { 2 * rng.below(2) } else { rng.below(3) };
        cfg.ptr = if which == 1 { core_h::subj::Ptr::ArcT } else { core_h::subj::Ptr::Arc };
        note_cfg(ctx, &cfg);
        let p = if miri {
            Plan16 { threads: rng.range(2, 3), ops: 10, prefill: rng.range(2, 10), delay: 0, exchange: rng.chance(1, 2) }
        } else {
            Plan16 {
                threads: rng.range(2, 6),
                ops: if tsan { rng.range(20, 120) } else { rng.range(40, 400) },
                prefill: *rng.pick(&[1, 3, 10, 30, 80, 200]),
                delay: *rng.pick(&[0, 2, 10, 60]),
                exchange: rng.chance(1, 3),
            }
        };
        if p.exchange {
            ctx.count("cases_with_exchange", 1);
        }
        let _ = Mode::Ident;
        match which {
            0 => by_kind::<ArcK>(ctx, &cfg, &p, rng),
            1 => by_kind::<ArcTK>(ctx, &cfg, &p, rng),
            _ => by_kind::<MonArc>(ctx, &cfg, &p, rng),
        }
    });
}
