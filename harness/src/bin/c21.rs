//! C21: however a collection is constructed, it is the one that inserting the elements one by one gives.
//!
//! Collections are collected from and extended by iterators that announce all the lengths a lawful iterator may
//! announce, while the allocator is watched; made by every macro; and made by every constructor. Each is compared with
//! a model and with the collection built step by step, and then taken through a random history.
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use core_h::alloc;
use core_h::ctx::{Ctx, Plan, Res, guard, run};
use core_h::hashers::{HB, set_default};
use core_h::history::element_errors;
use core_h::model::{Item, KINDS, Kind, Model, Op};
use core_h::pool::{Gen, note_cfg, random_cfg};
use core_h::rng::Rng;
use core_h::subj::{Cfg, Subj, empty};
use core_h::tok::{self, Tok};
use core_h::{ensure, ensure_eq};
use rpds::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

// ------------------------------------------------------------------------------ iterators and what they announce

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Hint {
    Exact,
    Unknown,
    LowerOnly,
    /// At least `0` less than what comes, at most this much more.
    Loose(usize, usize),
    UpperHuge(usize),
    UpperMax,
    /// Announces less and less precisely, then exactly again.
    Changing,
}
const HINTS: [&str; 7] = ["exact", "unknown", "lower_only", "loose", "upper_huge", "upper_max", "changing"];

fn hint(rng: &mut Rng) -> (Hint, usize) {
    let i = rng.below(7);
    let h = match i {
        0 => Hint::Exact,
        1 => Hint::Unknown,
        2 => Hint::LowerOnly,
        3 => Hint::Loose(rng.below(50), rng.below(5000)),
        4 => Hint::UpperHuge(1 << rng.range(20, 62)),
        5 => Hint::UpperMax,
        _ => Hint::Changing,
    };
    (h, i)
}

struct It {
    items: VecDeque<Item>,
    hint: Hint,
    /// Comes after the end, which must be heeded.
    after: Vec<Item>,
    ended: bool,
    asked: std::cell::Cell<usize>,
}
impl It {
    fn new(items: &[Item], hint: Hint, after: Vec<Item>) -> It {
        It { items: items.iter().copied().collect(), hint, after, ended: false, asked: Default::default() }
    }
}
impl Iterator for It {
    type Item = (Tok, Option<Tok>);
    fn next(&mut self) -> Option<Self::Item> {
        let x = match self.items.pop_front() {
            Some(x) => x,
            None if !self.ended => {
                self.ended = true;
                return None;
            }
            None => self.after.pop()?,
        };
        Some((Tok::new(x.0.0, x.0.1), x.1.map(|v| Tok::new(v.0, v.1))))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        self.asked.set(self.asked.get() + 1);
        match self.hint {
            Hint::Exact => (n, Some(n)),
            Hint::Unknown => (0, None),
            Hint::LowerOnly => (n, None),
            Hint::Loose(a, b) => (n.saturating_sub(a), Some(n + b)),
            Hint::UpperHuge(b) => (n / 2, Some(n.saturating_add(b))),
            Hint::UpperMax => (0, Some(usize::MAX)),
            Hint::Changing => match self.asked.get() % 3 {
                0 => (0, None),
                1 => (n, Some(usize::MAX)),
                _ => (n, Some(n)),
            },
        }
    }
}

/// What comes of building from these elements.
fn collected_model(kind: Kind, items: &[Item]) -> Model {
    let mut m = Model::new(kind);
    match &mut m {
        Model::Seq(_, s) => s.extend(items.iter().map(|x| x.0)),
        Model::Map(..) => {
            for (k, v) in items {
                m.apply(&Op::Insert(*k, v.unwrap_or((0, 0))));
            }
        }
    }
    m
}

fn random_items(cfg: &Cfg, n: usize, uid: &mut u32, rng: &mut Rng) -> Vec<Item> {
    let mut tick = || {
        *uid += 1;
        *uid
    };
    (0..n)
        .map(|_| {
            let k = (cfg.key(rng.below(cfg.universe as usize) as u32), tick());
            (k, cfg.kind.is_map().then(|| (cfg.key(rng.below(9) as u32), tick())))
        })
        .collect()
}

fn stepwise(cfg: &Cfg, items: &[Item]) -> Box<dyn Subj> {
    let mut s = empty(cfg);
    let rev: Vec<Item> = match cfg.kind {
        Kind::List | Kind::Stack => items.iter().rev().copied().collect(),
        _ => items.to_vec(),
    };
    for (k, v) in rev {
        let op = if cfg.kind.is_seq() { Op::Put(k) } else { Op::Insert(k, v.unwrap_or((0, 0))) };
        s.apply_mut(&op);
    }
    s
}

/// The collection behaves like its model from now on.
fn later(ctx: &mut Ctx, s: &mut Box<dyn Subj>, m: &mut Model, g: &mut Gen, cfg: &Cfg, ops: usize, rng: &mut Rng) -> Res {
    let (first, first_m) = (s.dup(), m.clone());
    for i in 0..ops {
        let op = g.op(cfg, m, rng);
        ctx.t(|| format!("then {op:?}"));
        let want = m.apply(&op);
        let got = if rng.chance(1, 3) {
            let (n, r) = s.apply(&op);
            *s = n;
            r
        } else {
            s.apply_mut(&op)
        };
        ctx.eval();
        ensure_eq!(got, want, "result of {op:?} {i} operations after it was built");
        s.check(m, rng, i % 4 == 0 || i + 1 == ops).map_err(|e| format!("{e}, {i} operations after it was built"))?;
    }
    first.check(&first_m, rng, true).map_err(|e| format!("{e}, in what was built, after changing a copy of it"))
}

fn from_iterator(ctx: &mut Ctx, kind: Kind, rng: &mut Rng) -> Res {
    tok::reset();
    let mut cfg = random_cfg(kind, rng);
    set_default(cfg.mode);
    note_cfg(ctx, &cfg);
    let n = match rng.below(6) {
        0 => rng.below(3),
        1..=3 => rng.range(2, 40),
        4 => *rng.pick(&[31usize, 32, 33, 63, 64, 65, 1023, 1024, 1025]),
        _ => rng.range(40, 400),
    };
    let mut uid = 0;
    let items = random_items(&cfg, n, &mut uid, rng);
    let after = if rng.chance(1, 4) { random_items(&cfg, 3, &mut uid, rng) } else { vec![] };
    let (h, hi) = hint(rng);
    let what = format!("{} elements, announced as {h:?}{}, {}", n, if after.is_empty() { "" } else { ", not fused" }, cfg.describe());
    ctx.t(|| what.clone());
    ctx.t(|| format!("{items:?}"));
    ctx.count(&format!("hint_{}", HINTS[hi]), 1);
    ctx.fp(n as u64);
    ctx.fp(hi as u64);
    ctx.fp(rng.next());
    let fail = |e: String| format!("{e} ({what})");

    // Vectors are extended in their configuration, everything else is collected into the default one.
    let extend = kind == Kind::Vector && rng.chance(1, 2);
    tok::reserve(4 * n + 64);
    let build = |h: Hint, after: &[Item]| -> Result<(Box<dyn Subj>, u64, u64), String> {
        let mut it = It::new(&items, h, after.to_vec());
        let mut s = empty(&cfg);
        let before = alloc::snap().live;
        alloc::reset_peak();
        let s = guard(|| {
            if extend {
                s.extend_with(&mut it);
                s
            } else {
                s.collect_from(&mut it)
            }
        })?;
        // What is left of the iterator is the same whatever it announces.
        Ok((s, (alloc::peak() - before).max(0) as u64, (alloc::snap().live - before).max(0) as u64))
    };
    let (plain, peak0, held0) = build(Hint::LowerOnly, &[]).map_err(fail)?;
    let (mut s, peak, held) = build(h, &after).map_err(fail)?;
    ctx.eval();
    ctx.max("peak_permille_of_plain", peak * 1000 / (peak0 + 256));
    ensure!(peak <= 4 * peak0 + 2048, "{}", fail(format!("building took {peak} bytes, {peak0} when announced plainly")));
    ensure!(held <= 2 * held0 + 1024, "{}", fail(format!("what was built holds {held} bytes, {held0} when announced plainly")));
    let mut m = collected_model(kind, &items);
    s.check(&m, rng, true).map_err(fail)?;
    plain.check(&m, rng, true).map_err(fail)?;
    ensure_eq!(s.same(plain.as_ref()), Some(true), "equality with the one from a plain iterator ({what})");
    if !extend {
        cfg.bits = 5;
        cfg.degree = 64;
    }
    let by_hand = stepwise(&cfg, &items);
    ensure!(s.same(by_hand.as_ref()) == Some(true) && by_hand.same(s.as_ref()) == Some(true), "{}", fail("differs from the one built by hand".into()));
    ensure!(s.cmp_with(by_hand.as_ref()).is_none_or(|c| c.is_eq()), "{}", fail("does not compare as equal to the one built by hand".into()));
    ensure!(s.record() == by_hand.record(), "{}", fail("hashes differently from the one built by hand".into()));
    let mut g = Gen::new(&cfg, rng);
    g.next_uid = 1 << 20;
    let ops = rng.range(4, 24);
    later(ctx, &mut s, &mut m, &mut g, &cfg, ops, rng).map_err(fail)?;

    // Extending what has a past, and is shared.
    if kind == Kind::Vector {
        let old = s.dup();
        let old_m = m.clone();
        let k = rng.below(50);
        let more = random_items(&cfg, k, &mut uid, rng);
        let (h, _) = hint(rng);
        ctx.t(|| format!("extended by {} announced as {h:?}", more.len()));
        guard(|| s.extend_with(&mut It::new(&more, h, vec![]))).map_err(fail)?;
        m.apply(&Op::Extend(more.iter().map(|x| x.0).collect()));
        ctx.count("extended_shared", 1);
        s.check(&m, rng, true).map_err(|e| fail(format!("after extending: {e}")))?;
        old.check(&old_m, rng, true).map_err(|e| fail(format!("after extending a copy: {e}")))?;
        later(ctx, &mut s, &mut m, &mut g, &cfg, 6, rng).map_err(fail)?;
    }
    drop((s, plain, by_hand));
    ensure_eq!(tok::live(), 0, "elements alive at the end ({what})");
    element_errors().map_err(fail)?;
    if n >= 2 {
        ctx.nontrivial();
    }
    if ctx.samples.len() < 2 && !ctx.tracing && n > 5 {
        ctx.samples.push(what);
    }
    Ok(())
}

// --------------------------------------------------------------------------------- macros, constructors, Default

type X = (u32, u32);

/// Compares with the model, then keeps changing both.
macro_rules! drive {
    ($c:expr, $m:expr, $rng:expr, $what:expr, |$a:ident| $view:expr, |$b:ident| $mview:expr, $( ($cc:ident, $mm:ident, $x:ident) => $step:block ),*) => {{
        let mut c = $c;
        let mut m = $m;
        for i in 0..12 {
            let (got, want) = ({ let $a = &c; $view }, { let $b = &m; $mview });
            ensure!(got == want, "{} has {got:?} after {i} changes, expected {want:?}", $what);
            let kept = c.clone();
            let x: X = ($rng.below(12) as u32, $rng.next() as u32);
            let n = 0 $( + { let _ = stringify!($cc); 1 } )*;
            let mut k = $rng.below(n);
            $(
                if k == 0 {
                    let ($cc, $mm, $x) = (&mut c, &mut m, x);
                    $step
                }
                k = k.wrapping_sub(1);
            )*
            let _ = (k, &kept);
        }
        let (got, want) = ({ let $a = &c; $view }, { let $b = &m; $mview });
        ensure!(got == want, "{} has {got:?} in the end, expected {want:?}", $what);
    }};
}

fn d_list<P: SharedPointerKind>(c: List<X, P>, m: Vec<X>, rng: &mut Rng, what: &str) -> Res {
    drive!(c, VecDeque::from(m), rng, what, |a| (a.len(), a.is_empty(), a.first().copied(), a.last().copied(), a.iter().copied().collect::<Vec<_>>()),
        |b| (b.len(), b.is_empty(), b.front().copied(), b.back().copied(), b.iter().copied().collect::<Vec<_>>()),
        (c, m, x) => { c.push_front_mut(x); m.push_front(x) },
        (c, m, x) => { *c = c.push_front(x); m.push_front(x) },
        (c, m, _x) => { let r = c.drop_first_mut(); ensure_eq!(r, m.pop_front().is_some(), "{what}: drop_first_mut()") },
        (c, m, _x) => { *c = c.reverse(); m.make_contiguous().reverse() });
    Ok(())
}
fn d_stack<P: SharedPointerKind>(c: Stack<X, P>, m: Vec<X>, rng: &mut Rng, what: &str) -> Res {
    drive!(c, VecDeque::from(m), rng, what, |a| (a.size(), a.is_empty(), a.peek().copied(), a.iter().copied().collect::<Vec<_>>()),
        |b| (b.len(), b.is_empty(), b.front().copied(), b.iter().copied().collect::<Vec<_>>()),
        (c, m, x) => { c.push_mut(x); m.push_front(x) },
        (c, m, x) => { *c = c.push(x); m.push_front(x) },
        (c, m, _x) => { let r = c.pop_mut(); ensure_eq!(r, m.pop_front().is_some(), "{what}: pop_mut()") });
    Ok(())
}
fn d_queue<P: SharedPointerKind>(c: Queue<X, P>, m: Vec<X>, rng: &mut Rng, what: &str) -> Res {
    drive!(c, VecDeque::from(m), rng, what, |a| (a.len(), a.is_empty(), a.peek().copied(), a.iter().copied().collect::<Vec<_>>()),
        |b| (b.len(), b.is_empty(), b.front().copied(), b.iter().copied().collect::<Vec<_>>()),
        (c, m, x) => { c.enqueue_mut(x); m.push_back(x) },
        (c, m, x) => { *c = c.enqueue(x); m.push_back(x) },
        (c, m, _x) => { let r = c.dequeue_mut(); ensure_eq!(r, m.pop_front().is_some(), "{what}: dequeue_mut()") });
    Ok(())
}
fn d_vector<P: SharedPointerKind>(c: Vector<X, P>, m: Vec<X>, rng: &mut Rng, what: &str) -> Res {
    drive!(c, m, rng, what, |a| (a.len(), a.is_empty(), a.first().copied(), a.last().copied(), (0..a.len()).map(|i| a[i]).collect::<Vec<_>>(), a.iter().copied().collect::<Vec<_>>()),
        |b| (b.len(), b.is_empty(), b.first().copied(), b.last().copied(), b.clone(), b.clone()),
        (c, m, x) => { c.push_back_mut(x); m.push(x) },
        (c, m, x) => { *c = c.push_back(x); m.push(x) },
        (c, m, x) => { c.extend([x; 40]); m.extend([x; 40]) },
        (c, m, x) => { let i = x.1 as usize % (m.len() + 1); let r = c.set_mut(i, x); ensure_eq!(r, i < m.len(), "{what}: set_mut()"); if r { m[i] = x } },
        (c, m, _x) => { let r = c.drop_last_mut(); ensure_eq!(r, m.pop().is_some(), "{what}: drop_last_mut()") });
    Ok(())
}
fn d_ht_map<P: SharedPointerKind, H: std::hash::BuildHasher + Clone>(c: HashTrieMap<u32, X, P, H>, m: Vec<X>, rng: &mut Rng, what: &str) -> Res {
    drive!(c, m.into_iter().map(|x| (x.0, x)).collect::<BTreeMap<u32, X>>(), rng, what,
        |a| { let mut v: Vec<X> = a.values().copied().collect(); v.sort_unstable(); (a.size(), a.is_empty(), v, (0..12).map(|k| a.get(&k).copied()).collect::<Vec<_>>()) },
        |b| { let mut v: Vec<X> = b.values().copied().collect(); v.sort_unstable(); (b.len(), b.is_empty(), v, (0..12).map(|k| b.get(&k).copied()).collect::<Vec<_>>()) },
        (c, m, x) => { c.insert_mut(x.0, x); m.insert(x.0, x); },
        (c, m, x) => { *c = c.insert(x.0, x); m.insert(x.0, x); },
        (c, m, x) => { let r = c.remove_mut(&x.0); ensure_eq!(r, m.remove(&x.0).is_some(), "{what}: remove_mut()") });
    Ok(())
}
fn d_rb_map<P: SharedPointerKind>(c: RedBlackTreeMap<u32, X, P>, m: Vec<X>, rng: &mut Rng, what: &str) -> Res {
    drive!(c, m.into_iter().map(|x| (x.0, x)).collect::<BTreeMap<u32, X>>(), rng, what,
        |a| (a.size(), a.is_empty(), a.values().copied().collect::<Vec<_>>(), (0..12).map(|k| a.get(&k).copied()).collect::<Vec<_>>()),
        |b| (b.len(), b.is_empty(), b.values().copied().collect::<Vec<_>>(), (0..12).map(|k| b.get(&k).copied()).collect::<Vec<_>>()),
        (c, m, x) => { c.insert_mut(x.0, x); m.insert(x.0, x); },
        (c, m, x) => { *c = c.insert(x.0, x); m.insert(x.0, x); },
        (c, m, x) => { let r = c.remove_mut(&x.0); ensure_eq!(r, m.remove(&x.0).is_some(), "{what}: remove_mut()") });
    Ok(())
}
fn d_ht_set<P: SharedPointerKind, H: std::hash::BuildHasher + Clone>(c: HashTrieSet<u32, P, H>, m: Vec<X>, rng: &mut Rng, what: &str) -> Res {
    drive!(c, m.into_iter().map(|x| x.0).collect::<BTreeSet<u32>>(), rng, what,
        |a| { let mut v: Vec<u32> = a.iter().copied().collect(); v.sort_unstable(); (a.size(), a.is_empty(), v, (0..12).map(|k| a.contains(&k)).collect::<Vec<_>>()) },
        |b| (b.len(), b.is_empty(), b.iter().copied().collect::<Vec<_>>(), (0..12).map(|k| b.contains(&k)).collect::<Vec<_>>()),
        (c, m, x) => { c.insert_mut(x.0); m.insert(x.0); },
        (c, m, x) => { *c = c.insert(x.0); m.insert(x.0); },
        (c, m, x) => { let r = c.remove_mut(&x.0); ensure_eq!(r, m.remove(&x.0), "{what}: remove_mut()") });
    Ok(())
}
fn d_rb_set<P: SharedPointerKind>(c: RedBlackTreeSet<u32, P>, m: Vec<X>, rng: &mut Rng, what: &str) -> Res {
    drive!(c, m.into_iter().map(|x| x.0).collect::<BTreeSet<u32>>(), rng, what,
        |a| (a.size(), a.is_empty(), a.iter().copied().collect::<Vec<_>>(), (0..12).map(|k| a.contains(&k)).collect::<Vec<_>>()),
        |b| (b.len(), b.is_empty(), b.iter().copied().collect::<Vec<_>>(), (0..12).map(|k| b.contains(&k)).collect::<Vec<_>>()),
        (c, m, x) => { c.insert_mut(x.0); m.insert(x.0); },
        (c, m, x) => { *c = c.insert(x.0); m.insert(x.0); },
        (c, m, x) => { let r = c.remove_mut(&x.0); ensure_eq!(r, m.remove(&x.0), "{what}: remove_mut()") });
    Ok(())
}

fn rev(v: &[X]) -> Vec<X> {
    v.iter().rev().copied().collect()
}

/// All sixteen macros with the given arguments, each of which must be evaluated once.
macro_rules! all_macros {
    ($rng:expr, $( $i:tt )*) => {{
        let rng = $rng;
        let n: usize = 0 $( + { let _ = $i; 1 } )*;
        // Few different keys, so that arguments replace earlier ones.
        let xs: Vec<X> = (0..n).map(|_| (rng.below(12) as u32, rng.next() as u32)).collect();
        let used = std::cell::RefCell::new(vec![0u32; n]);
        #[allow(unused_variables)]
        let a = |i: usize| -> X { used.borrow_mut()[i] += 1; xs[i] };
        #[allow(unused_variables)]
        let k = |i: usize| -> u32 { used.borrow_mut()[i] += 1; xs[i].0 };
        let mut expect = 0;
        let mut once = |what: &str, per: u32| -> Res {
            expect += per;
            let u = used.borrow();
            ensure!(u.iter().all(|x| *x == expect), "{what}: its arguments were evaluated {u:?} times, expected {expect}");
            Ok(())
        };
        let r = rng;
        let l: List<X> = list![$( a($i) ),*];
        once("list!", 1)?;
        d_list(l, xs.clone(), r, "list!")?;
        let l: ListSync<X> = list_sync![$( a($i) ),*];
        once("list_sync!", 1)?;
        d_list(l, xs.clone(), r, "list_sync!")?;
        let l: Stack<X> = stack![$( a($i) ),*];
        once("stack!", 1)?;
        d_stack(l, rev(&xs), r, "stack!")?;
        let l: StackSync<X> = stack_sync![$( a($i) ),*];
        once("stack_sync!", 1)?;
        d_stack(l, rev(&xs), r, "stack_sync!")?;
        let l: Queue<X> = queue![$( a($i) ),*];
        once("queue!", 1)?;
        d_queue(l, xs.clone(), r, "queue!")?;
        let l: QueueSync<X> = queue_sync![$( a($i) ),*];
        once("queue_sync!", 1)?;
        d_queue(l, xs.clone(), r, "queue_sync!")?;
        let l: Vector<X> = vector![$( a($i) ),*];
        once("vector!", 1)?;
        d_vector(l, xs.clone(), r, "vector!")?;
        let l: VectorSync<X> = vector_sync![$( a($i) ),*];
        once("vector_sync!", 1)?;
        d_vector(l, xs.clone(), r, "vector_sync!")?;
        let l: HashTrieMap<u32, X> = ht_map![$( k($i) => a($i) ),*];
        once("ht_map!", 2)?;
        d_ht_map(l, xs.clone(), r, "ht_map!")?;
        let l: HashTrieMapSync<u32, X> = ht_map_sync![$( k($i) => a($i) ),*];
        once("ht_map_sync!", 2)?;
        d_ht_map(l, xs.clone(), r, "ht_map_sync!")?;
        let l: RedBlackTreeMap<u32, X> = rbt_map![$( k($i) => a($i) ),*];
        once("rbt_map!", 2)?;
        d_rb_map(l, xs.clone(), r, "rbt_map!")?;
        let l: RedBlackTreeMapSync<u32, X> = rbt_map_sync![$( k($i) => a($i) ),*];
        once("rbt_map_sync!", 2)?;
        d_rb_map(l, xs.clone(), r, "rbt_map_sync!")?;
        let l: HashTrieSet<u32> = ht_set![$( k($i) ),*];
        once("ht_set!", 1)?;
        d_ht_set(l, xs.clone(), r, "ht_set!")?;
        let l: HashTrieSetSync<u32> = ht_set_sync![$( k($i) ),*];
        once("ht_set_sync!", 1)?;
        d_ht_set(l, xs.clone(), r, "ht_set_sync!")?;
        let l: RedBlackTreeSet<u32> = rbt_set![$( k($i) ),*];
        once("rbt_set!", 1)?;
        d_rb_set(l, xs.clone(), r, "rbt_set!")?;
        let l: RedBlackTreeSetSync<u32> = rbt_set_sync![$( k($i) ),*];
        once("rbt_set_sync!", 1)?;
        d_rb_set(l, xs.clone(), r, "rbt_set_sync!")?;
    }};
}

fn macros(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    ctx.count("macros", 1);
    ctx.eval();
    ctx.fp(rng.next());
    let arity = rng.below(10);
    ctx.t(|| format!("macros, arity class {arity}"));
    match arity {
        0 => all_macros!(rng,),
        1 => all_macros!(rng, 0),
        2 => all_macros!(rng, 0 1),
        3 => all_macros!(rng, 0 1 2),
        4 => all_macros!(rng, 0 1 2 3),
        5 => all_macros!(rng, 0 1 2 3 4),
        6 => all_macros!(rng, 0 1 2 3 4 5 6),
        7 => all_macros!(rng, 0 1 2 3 4 5 6 7 8 9 10 11),
        8 => all_macros!(rng, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32),
        _ => all_macros!(rng, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34
            35 36 37 38 39 40 41 42 43 44 45 46 47 48),
    }
    if arity >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

/// The iterators programs really use.
fn natural(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    let n = rng.below(120);
    let xs: Vec<X> = (0..n).map(|_| (rng.below(12) as u32, rng.next() as u32)).collect();
    let which = rng.below(9);
    ctx.count("natural_iterators", 1);
    ctx.fp(rng.next());
    ctx.t(|| format!("natural iterator {which} over {n}"));
    let it = || -> Box<dyn Iterator<Item = X> + '_> {
        let v = xs.clone();
        match which {
            0 => Box::new(v.into_iter()),
            1 => Box::new((0..usize::MAX).map_while(move |i| v.get(i).copied())),
            2 => Box::new((0usize..).take(n).map(move |i| v[i])),
            3 => {
                let b = v[n / 2..].to_vec();
                Box::new(v.into_iter().take(n / 2).chain(b))
            }
            4 => Box::new(v.into_iter().flat_map(|x| [Some(x), None]).flatten()),
            5 => Box::new((0..u64::MAX).flat_map(move |i| { let x = v.get(i as usize).copied(); std::iter::once(x) }).map_while(|x| x)),
            6 => {
                let mut i = v.into_iter();
                Box::new(std::iter::from_fn(move || i.next()))
            }
            7 => Box::new(xs.iter().copied().collect::<Vector<X>>().iter().copied().collect::<Vec<_>>().into_iter()),
            _ => Box::new(std::iter::repeat(()).zip(v).map(|x| x.1)),
        }
    };
    ctx.eval();
    let w = format!("a collection from iterator {which} over {n} elements");
    d_list::<RcK>(it().collect(), xs.clone(), rng, &w)?;
    d_stack::<ArcTK>(it().collect(), xs.clone(), rng, &w)?;
    d_queue::<ArcK>(it().collect(), xs.clone(), rng, &w)?;
    d_vector::<RcK>(it().collect(), xs.clone(), rng, &w)?;
    d_ht_map::<RcK, HB>(it().map(|x| (x.0, x)).collect(), xs.clone(), rng, &w)?;
    d_ht_map::<ArcTK, std::hash::RandomState>(it().map(|x| (x.0, x)).collect(), xs.clone(), rng, &w)?;
    d_rb_map::<ArcK>(it().map(|x| (x.0, x)).collect(), xs.clone(), rng, &w)?;
    d_ht_set::<ArcK, HB>(it().map(|x| x.0).collect(), xs.clone(), rng, &w)?;
    d_rb_set::<RcK>(it().map(|x| x.0).collect(), xs.clone(), rng, &w)?;
    let mut v: Vector<X, ArcTK> = Vector::new_with_bits(*rng.pick(&[1u8, 2, 3, 5]));
    let at = rng.below(n + 1);
    v.extend(xs[..at].to_vec());
    v.extend(it().skip(at));
    d_vector(v, xs.clone(), rng, &w)?;
    if n >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn constructors(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    ctx.count("constructors", 1);
    ctx.eval();
    ctx.fp(rng.next());
    ctx.t(|| "constructors".into());
    ctx.nontrivial();
    let degree = 1u8 << rng.range(1, 6);
    let bits = rng.range(1, 8) as u8;
    let hb = HB(core_h::hashers::modes(rng));
    set_default(core_h::hashers::modes(rng));
    let e = Vec::new;
    d_list(List::new(), e(), rng, "List::new()")?;
    d_list(List::new_sync(), e(), rng, "List::new_sync()")?;
    d_list(List::<X, ArcK>::new_with_ptr_kind(), e(), rng, "List::new_with_ptr_kind()")?;
    d_list(List::<X, ArcK>::default(), e(), rng, "List::default()")?;
    d_stack(Stack::new(), e(), rng, "Stack::new()")?;
    d_stack(Stack::new_sync(), e(), rng, "Stack::new_sync()")?;
    d_stack(Stack::<X, ArcK>::new_with_ptr_kind(), e(), rng, "Stack::new_with_ptr_kind()")?;
    d_stack(Stack::<X, ArcK>::default(), e(), rng, "Stack::default()")?;
    d_queue(Queue::new(), e(), rng, "Queue::new()")?;
    d_queue(Queue::new_sync(), e(), rng, "Queue::new_sync()")?;
    d_queue(Queue::<X, ArcK>::new_with_ptr_kind(), e(), rng, "Queue::new_with_ptr_kind()")?;
    d_queue(Queue::<X, ArcK>::default(), e(), rng, "Queue::default()")?;
    d_vector(Vector::new(), e(), rng, "Vector::new()")?;
    d_vector(Vector::new_sync(), e(), rng, "Vector::new_sync()")?;
    d_vector(Vector::<X, ArcK>::new_with_ptr_kind(), e(), rng, "Vector::new_with_ptr_kind()")?;
    d_vector(Vector::<X, RcK>::new_with_bits(bits), e(), rng, "Vector::new_with_bits()")?;
    d_vector(Vector::<X, ArcK>::default(), e(), rng, "Vector::default()")?;
    d_ht_map(HashTrieMap::new(), e(), rng, "HashTrieMap::new()")?;
    d_ht_map(HashTrieMap::new_sync(), e(), rng, "HashTrieMap::new_sync()")?;
    d_ht_map(HashTrieMap::new_with_degree(degree), e(), rng, "HashTrieMap::new_with_degree()")?;
    d_ht_map(HashTrieMap::new_sync_with_degree(degree), e(), rng, "HashTrieMap::new_sync_with_degree()")?;
    d_ht_map(HashTrieMap::<u32, X, ArcK, HB>::new_with_hasher_and_ptr_kind(hb.clone()), e(), rng, "HashTrieMap::new_with_hasher_and_ptr_kind()")?;
    d_ht_map(HashTrieMap::<u32, X, RcK, HB>::new_with_hasher_and_degree_and_ptr_kind(hb.clone(), degree), e(), rng, "HashTrieMap::new_with_hasher_and_degree_and_ptr_kind()")?;
    d_ht_map(HashTrieMap::<u32, X, ArcTK, HB>::default(), e(), rng, "HashTrieMap::default()")?;
    d_ht_set(HashTrieSet::new(), e(), rng, "HashTrieSet::new()")?;
    d_ht_set(HashTrieSet::new_sync(), e(), rng, "HashTrieSet::new_sync()")?;
    d_ht_set(HashTrieSet::new_with_degree(degree), e(), rng, "HashTrieSet::new_with_degree()")?;
    d_ht_set(HashTrieSet::new_with_degree_sync(degree), e(), rng, "HashTrieSet::new_with_degree_sync()")?;
    d_ht_set(HashTrieSet::<u32, ArcK, HB>::new_with_hasher_with_ptr_kind(hb.clone()), e(), rng, "HashTrieSet::new_with_hasher_with_ptr_kind()")?;
    d_ht_set(HashTrieSet::<u32, RcK, HB>::new_with_hasher_and_degree_and_ptr_kind(hb, degree), e(), rng, "HashTrieSet::new_with_hasher_and_degree_and_ptr_kind()")?;
    d_ht_set(HashTrieSet::<u32, ArcTK, HB>::default(), e(), rng, "HashTrieSet::default()")?;
    d_rb_map(RedBlackTreeMap::new(), e(), rng, "RedBlackTreeMap::new()")?;
    d_rb_map(RedBlackTreeMap::new_sync(), e(), rng, "RedBlackTreeMap::new_sync()")?;
    d_rb_map(RedBlackTreeMap::<u32, X, ArcK>::new_with_ptr_kind(), e(), rng, "RedBlackTreeMap::new_with_ptr_kind()")?;
    d_rb_map(RedBlackTreeMap::<u32, X, ArcK>::default(), e(), rng, "RedBlackTreeMap::default()")?;
    d_rb_set(RedBlackTreeSet::new(), e(), rng, "RedBlackTreeSet::new()")?;
    d_rb_set(RedBlackTreeSet::new_sync(), e(), rng, "RedBlackTreeSet::new_sync()")?;
    d_rb_set(RedBlackTreeSet::<u32, ArcK>::new_with_ptr_kind(), e(), rng, "RedBlackTreeSet::new_with_ptr_kind()")?;
    d_rb_set(RedBlackTreeSet::<u32, ArcK>::default(), e(), rng, "RedBlackTreeSet::default()")?;
    Ok(())
}

fn main() {
    alloc::set_limit(1 << 30);
    run(Plan { quick: 60_000, thorough: 3_000_000, hang_secs: 150 }, |ctx, case, rng| match case % 16 {
        0 => macros(ctx, rng),
        1 => natural(ctx, rng),
        2 if case % 64 == 2 => constructors(ctx, rng),
        _ => from_iterator(ctx, *rng.pick(&KINDS), rng),
    });
}
