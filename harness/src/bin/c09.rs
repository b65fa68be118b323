//! C09: equality, ordering and hashing depend only on contents.
//!
//! Pairs of collections with known, related contents, built in different ways (shared or apart, other configuration,
//! other pointer kind, detours on the way), are compared with each other in both directions; the verdicts must be those
//! of the contents. The exact calls made to a hasher are recorded.
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use core_h::ctx::{Ctx, Plan, Res, run};
use core_h::ensure;
use core_h::hashers::{HB, MkHasher, Recorder, ZB, modes};
use core_h::history::element_errors;
use core_h::model::{KINDS, Kind, Op};
use core_h::pool::{note_cfg, random_cfg};
use core_h::rng::Rng;
use core_h::subj::{Cfg, Coll, PTRS, Ptr};
use core_h::tok::{self, Tok};
use core_h::typed::{self, Want};
use rpds::*;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::hash::Hash;

/// Keys in iteration order (ascending for maps and sets), with the value for maps.
type C = Vec<(u32, u32)>;

fn uid(rng: &mut Rng) -> u32 {
    rng.next() as u32
}

fn put(kind: Kind, e: (u32, u32), rng: &mut Rng) -> Op {
    let u = uid(rng);
    match kind {
        _ if kind.is_seq() => Op::Put((e.0, u)),
        Kind::HtMap | Kind::RbMap => Op::Insert((e.0, u), (e.1, uid(rng))),
        _ => Op::Insert((e.0, u), (0, 0)),
    }
}

fn step<X: Coll>(x: &mut X, op: &Op, rng: &mut Rng) {
    if rng.chance(1, 3) {
        *x = x.do_new(op).0;
    } else {
        x.do_mut(op);
    }
}

/// Builds the contents by one of many ways.
fn build<X: Coll>(cfg: &Cfg, c: &C, rng: &mut Rng) -> X {
    let kind = X::KIND;
    let mut x = X::empty(cfg);
    let mut order: C = c.clone();
    match kind {
        Kind::List | Kind::Stack => order.reverse(),
        _ if kind.is_seq() => {}
        _ => {
            if rng.chance(3, 4) {
                rng.shuffle(&mut order)
            }
        }
    }
    if kind == Kind::List && rng.chance(1, 3) {
        // Through a reversal.
        for e in c {
            let op = put(kind, *e, rng);
            step(&mut x, &op, rng);
        }
        step(&mut x, &Op::Reverse, rng);
        return x;
    }
    if kind == Kind::Queue {
        // The same contents, divided in another way between its halves.
        for _ in 0..rng.below(4) {
            let op = put(kind, (7, 7), rng);
            step(&mut x, &op, rng);
        }
        let cut = rng.below(c.len() + 1);
        for e in &c[..cut] {
            let op = put(kind, *e, rng);
            step(&mut x, &op, rng);
        }
        while x.size_q() > cut {
            step(&mut x, &Op::Take, rng);
        }
        for e in &c[cut..] {
            let op = put(kind, *e, rng);
            step(&mut x, &op, rng);
        }
        return x;
    }
    let detours = rng.chance(1, 2);
    for e in order {
        if detours && rng.chance(1, 4) {
            // Something that comes and goes.
            if kind.is_seq() {
                let op = put(kind, (9, 9), rng);
                step(&mut x, &op, rng);
                step(&mut x, &Op::Take, rng);
            } else {
                let k = 1000 + rng.below(40) as u32;
                if c.iter().any(|e| e.0 == k) {
                    continue_with(&mut x, kind, e, rng);
                    continue;
                }
                let op = put(kind, (k, 1), rng);
                step(&mut x, &op, rng);
                if rng.chance(1, 2) {
                    let op = put(kind, (e.0, 5), rng);
                    step(&mut x, &op, rng);
                }
                step(&mut x, &Op::Remove(k, rng.chance(1, 2)), rng);
            }
        }
        let op = put(kind, e, rng);
        step(&mut x, &op, rng);
    }
    x
}

fn continue_with<X: Coll>(x: &mut X, kind: Kind, e: (u32, u32), rng: &mut Rng) {
    let op = put(kind, e, rng);
    step(x, &op, rng);
}

/// From `x` (holding `a`) to `b`, keeping what structure can be kept.
fn steer<X: Coll>(x: &X, a: &C, b: &C, rng: &mut Rng) -> X {
    let kind = X::KIND;
    let mut x = x.clone();
    match kind {
        Kind::List | Kind::Stack => {
            let common = a.iter().rev().zip(b.iter().rev()).take_while(|(p, q)| p.0 == q.0).count();
            for _ in common..a.len() {
                step(&mut x, &Op::Take, rng);
            }
            for e in b[..b.len() - common].iter().rev() {
                let op = put(kind, *e, rng);
                step(&mut x, &op, rng);
            }
        }
        Kind::Queue => {
            for e in b {
                let op = put(kind, *e, rng);
                step(&mut x, &op, rng);
            }
            for _ in 0..a.len() {
                step(&mut x, &Op::Take, rng);
            }
        }
        Kind::Vector => {
            while x.size_q() > b.len() {
                step(&mut x, &Op::Take, rng);
            }
            for (i, e) in b.iter().enumerate() {
                if i >= a.len() {
                    let op = put(kind, *e, rng);
                    step(&mut x, &op, rng);
                } else if a[i].0 != e.0 {
                    step(&mut x, &Op::Set(i, (e.0, uid(rng))), rng);
                }
            }
        }
        _ => {
            let (ma, mb): (BTreeMap<u32, u32>, BTreeMap<u32, u32>) = (a.iter().copied().collect(), b.iter().copied().collect());
            let mut todo: Vec<Op> = vec![];
            for k in ma.keys().filter(|k| !mb.contains_key(k)) {
                todo.push(Op::Remove(*k, rng.chance(1, 2)));
            }
            for (k, v) in &mb {
                match ma.get(k) {
                    Some(w) if w == v || !kind.is_map() => {}
                    Some(_) if rng.chance(1, 2) => todo.push(Op::MapGetMut(*k, (*v, uid(rng)), rng.chance(1, 2))),
                    _ => todo.push(put(kind, (*k, *v), rng)),
                }
            }
            rng.shuffle(&mut todo);
            for op in todo {
                step(&mut x, &op, rng);
            }
        }
    }
    x
}

fn contents(kind: Kind, cfg: &Cfg, rng: &mut Rng) -> C {
    let most = *rng.pick(&[3, 8, 24, 80]);
    let n = rng.below(most);
    if kind.is_seq() {
        (0..n).map(|_| (cfg.key(rng.below(cfg.universe as usize) as u32), 0)).collect()
    } else {
        let m: BTreeMap<u32, u32> = (0..n).map(|_| (cfg.key(rng.below(cfg.universe as usize) as u32), rng.below(3) as u32)).collect();
        m.into_iter().map(|(k, v)| (k, if kind.is_map() { v } else { 0 })).collect()
    }
}

fn related(kind: Kind, a: &C, cfg: &Cfg, rng: &mut Rng) -> (C, &'static str) {
    let mut b = a.clone();
    let k = cfg.key(rng.below(cfg.universe as usize) as u32);
    let i = rng.below(a.len().max(1));
    let how = match rng.below(9) {
        0..=2 => "equal",
        3 => {
            b.truncate(i);
            "prefix"
        }
        4 => {
            if b.is_empty() {
                "equal"
            } else if kind.is_map() {
                b[i].1 += 1 + rng.below(2) as u32;
                "one value differs"
            } else {
                b[i].0 = k;
                "one element differs"
            }
        }
        5 => {
            if !b.is_empty() {
                b.remove(i);
            }
            "one missing"
        }
        6 => {
            if !b.is_empty() {
                let l = b.len() - 1;
                b[l].0 = b[l].0.wrapping_add(1);
            }
            "last differs"
        }
        7 => {
            if b.len() > 1 {
                let j = rng.below(b.len());
                if kind.is_seq() {
                    b.swap(i, j)
                } else {
                    let t = b[i].1;
                    b[i].1 = b[j].1;
                    b[j].1 = t;
                }
            }
            "two swapped"
        }
        _ => {
            b = contents(kind, cfg, rng);
            "unrelated"
        }
    };
    if !kind.is_seq() {
        let m: BTreeMap<u32, u32> = b.into_iter().collect();
        b = m.into_iter().collect();
    }
    (b, how)
}

fn verdict(kind: Kind, a: &C, b: &C) -> Ordering {
    if kind.is_map() { a.cmp(b) } else { a.iter().map(|x| x.0).cmp(b.iter().map(|x| x.0)) }
}

fn rec<T: Hash>(t: &T) -> Recorder {
    let mut r = Recorder::default();
    t.hash(&mut r);
    r
}

fn eq_only<A: PartialEq<B>, B: PartialEq<A>>(ctx: &mut Ctx, x: &A, y: &B, want: Ordering, what: &dyn Fn() -> String) -> Res {
    ctx.eval();
    let e = want == Ordering::Equal;
    ensure!((x == y) == e, "{}: == says {}", what(), x == y);
    ensure!((y == x) == e, "{}: reversed == says {}", what(), y == x);
    ensure!((x != y) == !e, "{}: != says {}", what(), x != y);
    ctx.count(if e { "equal_pairs" } else { "unequal_pairs" }, 1);
    Ok(())
}

fn ordered<A: PartialEq<B> + PartialOrd<B> + Hash, B: PartialEq<A> + PartialOrd<A> + Hash>(
    ctx: &mut Ctx,
    x: &A,
    y: &B,
    want: Ordering,
    what: &dyn Fn() -> String,
) -> Res {
    eq_only(ctx, x, y, want, what)?;
    let (p, q) = (x.partial_cmp(y), y.partial_cmp(x));
    ensure!(p == Some(want), "{}: partial_cmp says {p:?} instead of {want:?}", what());
    ensure!(q == Some(want.reverse()), "{}: reversed partial_cmp says {q:?} instead of {:?}", what(), want.reverse());
    ensure!((x < y) == want.is_lt() && (x <= y) == want.is_le(), "{}: < or <=", what());
    ensure!((x > y) == want.is_gt() && (x >= y) == want.is_ge(), "{}: > or >=", what());
    if want == Ordering::Equal {
        let (r, s) = (rec(x), rec(y));
        ensure!(r == s, "{}: equal, but they feed a hasher {:?} and {:?}", what(), r.calls, s.calls);
        ctx.count("hash_comparisons", 1);
    } else {
        // The elements feed a hasher all that they compare by, so nothing of a difference may get lost.
        let (r, s) = (rec(x).bytes(), rec(y).bytes());
        ensure!(r != s, "{}: different, but they feed a hasher the same bytes {r:?}", what());
        ctx.count("hash_differences", 1);
    }
    ctx.count("ordered_pairs", 1);
    Ok(())
}

fn total<A: Ord>(ctx: &mut Ctx, x: &A, y: &A, want: Ordering, what: &dyn Fn() -> String) -> Res {
    ctx.eval();
    ensure!(x.cmp(y) == want, "{}: cmp says {:?} instead of {want:?}", what(), x.cmp(y));
    ensure!(y.cmp(x) == want.reverse(), "{}: reversed cmp says {:?}", what(), y.cmp(x));
    Ok(())
}

macro_rules! seqlike {
    ($f:ident, $t:ident, $( $u:ty ),*) => {
        fn $f<P: SharedPointerKind + 'static, PO: SharedPointerKind + 'static>(
            ctx: &mut Ctx, cfg: &Cfg, cfg2: &Cfg, a: &C, b: &C, rng: &mut Rng, what: &dyn Fn() -> String,
        ) -> Res {
            let x: $t<$($u,)* P> = build(cfg, a, rng);
            let w = verdict(cfg.kind, a, b);
            let y = steer(&x, a, b, rng);
            ordered(ctx, &x, &y, w, &|| format!("{}, sharing structure", what()))?;
            total(ctx, &x, &y, w, &|| format!("{}, sharing structure", what()))?;
            let z: $t<$($u,)* P> = build(cfg2, b, rng);
            ordered(ctx, &x, &z, w, &|| format!("{}, built apart", what()))?;
            total(ctx, &x, &z, w, &|| format!("{}, built apart", what()))?;
            let o: $t<$($u,)* PO> = build(cfg2, b, rng);
            ordered(ctx, &x, &o, w, &|| format!("{}, other pointer kind", what()))?;
            ordered(ctx, &x, &x.clone(), Ordering::Equal, &|| format!("{}, first and its clone", what()))?;
            ordered(ctx, &y, &o, Ordering::Equal, &|| format!("{}, second sharing and apart", what()))
        }
    };
}
seqlike!(list, List, Tok);
seqlike!(stack, Stack, Tok);
seqlike!(queue, Queue, Tok);
seqlike!(vector, Vector, Tok);
seqlike!(rbmap, RedBlackTreeMap, Tok, Tok);
seqlike!(rbset, RedBlackTreeSet, Tok);

macro_rules! hashlike {
    ($f:ident, $t:ident, $( $u:ty ),*) => {
        fn $f<P: SharedPointerKind + 'static, PO: SharedPointerKind + 'static, H: MkHasher>(
            ctx: &mut Ctx, cfg: &Cfg, cfg2: &Cfg, a: &C, b: &C, rng: &mut Rng, what: &dyn Fn() -> String,
        ) -> Res {
            let x: $t<$($u,)* P, H> = build(cfg, a, rng);
            let w = verdict(cfg.kind, a, b);
            let y = steer(&x, a, b, rng);
            eq_only(ctx, &x, &y, w, &|| format!("{}, sharing structure", what()))?;
            let z: $t<$($u,)* P, H> = build(cfg2, b, rng);
            eq_only(ctx, &x, &z, w, &|| format!("{}, built apart", what()))?;
            let o: $t<$($u,)* PO, H> = build(cfg2, b, rng);
            eq_only(ctx, &x, &o, w, &|| format!("{}, other pointer kind", what()))?;
            eq_only(ctx, &x, &x.clone(), Ordering::Equal, &|| format!("{}, first and its clone", what()))?;
            eq_only(ctx, &y, &o, Ordering::Equal, &|| format!("{}, second sharing and apart", what()))
        }
    };
}
hashlike!(htmap, HashTrieMap, Tok, Tok);
hashlike!(htset, HashTrieSet, Tok);

fn pick<P: SharedPointerKind + 'static, PO: SharedPointerKind + 'static>(
    ctx: &mut Ctx,
    cfg: &Cfg,
    cfg2: &Cfg,
    a: &C,
    b: &C,
    rng: &mut Rng,
    what: &dyn Fn() -> String,
) -> Res {
    let f = match cfg.kind {
        Kind::List => list::<P, PO>,
        Kind::Stack => stack::<P, PO>,
        Kind::Queue => queue::<P, PO>,
        Kind::Vector => vector::<P, PO>,
        Kind::RbMap => rbmap::<P, PO>,
        Kind::RbSet => rbset::<P, PO>,
        Kind::HtMap if cfg.stateless => htmap::<P, PO, ZB>,
        Kind::HtMap => htmap::<P, PO, HB>,
        Kind::HtSet if cfg.stateless => htset::<P, PO, ZB>,
        Kind::HtSet => htset::<P, PO, HB>,
    };
    f(ctx, cfg, cfg2, a, b, rng, what)
}

fn pair_case(ctx: &mut Ctx, kind: Kind, rng: &mut Rng) -> Res {
    let mut cfg = random_cfg(kind, rng);
    if rng.chance(1, 2) {
        cfg.universe = cfg.universe.min(4);
    }
    note_cfg(ctx, &cfg);
    let mut cfg2 = random_cfg(kind, rng);
    cfg2.universe = cfg.universe;
    cfg2.stride = cfg.stride;
    cfg2.mode = if !cfg.stateless && rng.chance(1, 2) { modes(rng) } else { cfg.mode };
    let a = contents(kind, &cfg, rng);
    let (b, how) = related(kind, &a, &cfg, rng);
    ctx.count(&format!("pair_{}", how.replace(' ', "_")), 1);
    for x in a.iter().chain([&(u32::MAX, 0)]).chain(b.iter()) {
        ctx.fp((x.0 as u64) << 32 | x.1 as u64);
    }
    let what = || format!("{} of {a:?} and {b:?} ({how}; {} / {})", kind.label(), cfg.describe(), cfg2.describe());
    ctx.t(&what);
    let po = *rng.pick(&PTRS);
    match (cfg.ptr, po) {
        (Ptr::Rc, Ptr::Rc) => pick::<RcK, RcK>(ctx, &cfg, &cfg2, &a, &b, rng, &what)?,
        (Ptr::Rc, Ptr::Arc) => pick::<RcK, ArcK>(ctx, &cfg, &cfg2, &a, &b, rng, &what)?,
        (Ptr::Rc, Ptr::ArcT) => pick::<RcK, ArcTK>(ctx, &cfg, &cfg2, &a, &b, rng, &what)?,
        (Ptr::Arc, Ptr::Rc) => pick::<ArcK, RcK>(ctx, &cfg, &cfg2, &a, &b, rng, &what)?,
        (Ptr::Arc, Ptr::Arc) => pick::<ArcK, ArcK>(ctx, &cfg, &cfg2, &a, &b, rng, &what)?,
        (Ptr::Arc, Ptr::ArcT) => pick::<ArcK, ArcTK>(ctx, &cfg, &cfg2, &a, &b, rng, &what)?,
        (Ptr::ArcT, Ptr::Rc) => pick::<ArcTK, RcK>(ctx, &cfg, &cfg2, &a, &b, rng, &what)?,
        (Ptr::ArcT, Ptr::Arc) => pick::<ArcTK, ArcK>(ctx, &cfg, &cfg2, &a, &b, rng, &what)?,
        (Ptr::ArcT, Ptr::ArcT) => pick::<ArcTK, ArcTK>(ctx, &cfg, &cfg2, &a, &b, rng, &what)?,
    }
    if a.len() + b.len() >= 2 {
        ctx.nontrivial();
    }
    if ctx.samples.len() < 3 && !ctx.tracing && a.len() > 4 && a.len() < 12 {
        ctx.samples.push(what());
    }
    Ok(())
}

// ------------------------------------------------------------------------------- division between neighbours

/// The bytes fed to a hasher by the pieces of `v`, cut at the given places, as neighbours.
fn fed<X: Hash>(v: &[u8], cuts: &[usize], mk: &dyn Fn(&[u8]) -> X) -> Vec<u8> {
    let mut r = Recorder::default();
    let mut from = 0;
    for c in cuts.iter().copied().chain([v.len()]) {
        mk(&v[from..c]).hash(&mut r);
        from = c;
    }
    r.bytes()
}

fn division_case(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    let n = rng.below(12);
    let same = rng.chance(1, 2);
    let v: Vec<u8> = if same { vec![rng.below(4) as u8; n] } else { (0..n).map(|_| rng.below(4) as u8).collect() };
    let sorted: Vec<u8> = (0..n as u8).collect();
    let k = rng.range(1, 3);
    let cuts = |rng: &mut Rng| {
        let mut c: Vec<usize> = (0..k).map(|_| rng.below(n + 1)).collect();
        c.sort_unstable();
        c
    };
    let (c, d) = (cuts(rng), cuts(rng));
    if c == d {
        return Ok(());
    }
    for x in v.iter().map(|x| *x as u64).chain(c.iter().chain(&d).map(|x| *x as u64 + 100)) {
        ctx.fp(x);
    }
    type Feed<'a> = Box<dyn Fn(&[usize]) -> Vec<u8> + 'a>;
    let (v, sorted) = (&v[..], &sorted[..]);
    let kinds: Vec<(&str, Feed<'_>)> = vec![
        ("List", Box::new(|c| fed(v, c, &|s| s.iter().copied().collect::<List<u8>>()))),
        ("Stack", Box::new(|c| fed(v, c, &|s| s.iter().copied().collect::<Stack<u8>>()))),
        ("Queue", Box::new(|c| fed(v, c, &|s| s.iter().copied().collect::<Queue<u8>>()))),
        ("Vector", Box::new(|c| fed(v, c, &|s| s.iter().copied().collect::<Vector<u8>>()))),
        ("RedBlackTreeSet", Box::new(|c| fed(sorted, c, &|s| s.iter().copied().collect::<RedBlackTreeSet<u8>>()))),
        ("RedBlackTreeMap", Box::new(|c| fed(sorted, c, &|s| s.iter().map(|k| (*k, k % 2)).collect::<RedBlackTreeMap<u8, u8>>()))),
        ("Vector of Vector", Box::new(|c| {
            let mut from = 0;
            let mut o: Vector<Vector<u8>> = Vector::new();
            for c in c.iter().copied().chain([v.len()]) {
                o.push_back_mut(v[from..c].iter().copied().collect());
                from = c;
            }
            rec(&o).bytes()
        })),
        ("List of Queue", Box::new(|c| {
            let mut from = 0;
            let mut o: List<Queue<u8>> = List::new();
            for c in c.iter().copied().chain([v.len()]) {
                o.push_front_mut(v[from..c].iter().copied().collect());
                from = c;
            }
            rec(&o).bytes()
        })),
    ];
    for (name, f) in &kinds {
        ctx.eval();
        ctx.count("divisions", 1);
        let (x, y) = (f(&c), f(&d));
        ensure!(
            x != y,
            "{name}: {v:?} (or {sorted:?}) divided at {c:?} and at {d:?} feeds a hasher the same bytes {x:?}"
        );
    }
    ctx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------------- elements with a partial order only

/// A number, or (above `NOT`) nothing that can be compared, not even with itself.
#[derive(Clone, Debug)]
struct Fa(u8);
/// Another type with the same meaning, at another scale: `Fb(x)` stands for `Fa(2 x)`.
#[derive(Clone, Debug)]
struct Fb(u8);
const NOT: u8 = 200;
fn part(a: Option<u8>, b: Option<u8>) -> Option<Ordering> {
    a?.partial_cmp(&b?)
}
impl Fa {
    fn num(&self) -> Option<u8> {
        (self.0 < NOT).then_some(self.0)
    }
}
impl Fb {
    fn num(&self) -> Option<u8> {
        (self.0 < NOT).then(|| 2 * self.0)
    }
}
macro_rules! partial {
    ($($a:ident $b:ident),*) => {$(
        impl PartialEq<$b> for $a {
            fn eq(&self, o: &$b) -> bool {
                part(self.num(), o.num()) == Some(Ordering::Equal)
            }
        }
        impl PartialOrd<$b> for $a {
            fn partial_cmp(&self, o: &$b) -> Option<Ordering> {
                part(self.num(), o.num())
            }
        }
    )*};
}
partial!(Fa Fa, Fb Fb, Fa Fb, Fb Fa);

/// Comparing `x` with `y`, whose contents are known to compare as they do in `want`: equal, and in which order if any.
fn partly<A: PartialEq<B> + PartialOrd<B>, B: PartialEq<A> + PartialOrd<A>>(
    ctx: &mut Ctx, x: &A, y: &B, want: (bool, Option<Ordering>), what: &dyn Fn() -> String,
) -> Res {
    partly_eq(ctx, x, y, want.0, what)?;
    let (w, r) = (want.1, want.1.map(Ordering::reverse));
    let (p, q) = (x.partial_cmp(y), y.partial_cmp(x));
    ensure!(p == w, "{}: partial_cmp says {p:?} instead of {w:?}", what());
    ensure!(q == r, "{}: reversed partial_cmp says {q:?} instead of {r:?}", what());
    let is = |f: fn(Ordering) -> bool| w.is_some_and(f);
    ensure!((x < y) == is(Ordering::is_lt) && (x <= y) == is(Ordering::is_le), "{}: < or <=", what());
    ensure!((x > y) == is(Ordering::is_gt) && (x >= y) == is(Ordering::is_ge), "{}: > or >=", what());
    if w.is_none() {
        ctx.count("pairs_without_order", 1);
    }
    Ok(())
}
fn partly_eq<A: PartialEq<B>, B: PartialEq<A>>(ctx: &mut Ctx, x: &A, y: &B, e: bool, what: &dyn Fn() -> String) -> Res {
    ctx.eval();
    ctx.count("partial_pairs", 1);
    ensure!((x == y) == e, "{}: == says {}", what(), x == y);
    ensure!((y == x) == e, "{}: reversed == says {}", what(), y == x);
    ensure!((x != y) == !e, "{}: != says {}", what(), x != y);
    Ok(())
}

fn partial_elements(rng: &mut Rng) -> Vec<u8> {
    let n = rng.range(0, 9);
    let not = rng.below(4);
    (0..n).map(|_| if rng.chance(not, 12) { NOT + rng.below(3) as u8 } else { 2 * rng.below(4) as u8 }).collect()
}

fn partial_by<P: SharedPointerKind + 'static, PO: SharedPointerKind + 'static>(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    let a = partial_elements(rng);
    let mut b = a.clone();
    for _ in 0..rng.below(3) {
        let i = rng.below(b.len() + 1);
        match rng.below(5) {
            0 => b.insert(i, 2 * rng.below(4) as u8),
            1 => b.insert(i, NOT),
            _ if i == b.len() => {}
            2 => b[i] = NOT,
            3 => b[i] = 2 * rng.below(4) as u8,
            _ => {
                b.remove(i);
            }
        }
    }
    for x in a.iter().chain(&b) {
        ctx.fp(*x as u64);
    }
    ctx.fp(a.len() as u64);
    let fa = |v: &[u8]| v.iter().map(|x| Fa(*x)).collect::<Vec<Fa>>();
    let of = |x: &[Fa], y: &[Fa]| (x.iter().eq(y.iter()), x.iter().partial_cmp(y.iter()));
    let (va, vb) = (fa(&a), fa(&b));
    let (w, self_w) = (of(&va, &vb), of(&va, &va));
    let show = |k: &str| format!("{k} of {a:?} and of {b:?}");
    macro_rules! seq {
        ($t:ident, $name:expr) => {{
            let x: $t<Fa, P> = va.iter().cloned().collect();
            let y: $t<Fa, PO> = vb.iter().cloned().collect();
            let z: $t<Fa, P> = vb.iter().cloned().collect();
            partly(ctx, &x, &y, w, &|| show($name))?;
            partly(ctx, &x, &z, w, &|| show($name))?;
            // The same elements in memory: one which is not equal to itself still is not.
            partly(ctx, &x, &x.clone(), self_w, &|| format!("{} of {a:?} and its clone", $name))?;
        }};
    }
    seq!(List, "a List");
    seq!(Queue, "a Queue");
    seq!(Vector, "a Vector");
    {
        // A stack is compared from its top.
        let of = |x: &[Fa], y: &[Fa]| (x.iter().rev().eq(y.iter().rev()), x.iter().rev().partial_cmp(y.iter().rev()));
        let mut x: Stack<Fa, P> = Stack::new_with_ptr_kind();
        let mut y: Stack<Fa, PO> = Stack::new_with_ptr_kind();
        va.iter().for_each(|e| x.push_mut(e.clone()));
        vb.iter().for_each(|e| y.push_mut(e.clone()));
        partly(ctx, &x, &y, of(&va, &vb), &|| show("a Stack"))?;
        partly(ctx, &x, &x.clone(), of(&va, &va), &|| format!("a Stack of {a:?} and its clone"))?;
    }
    {
        // Vectors of elements of two types.
        let x: Vector<Fa, P> = va.iter().cloned().collect();
        let mut y: Vector<Fb, PO> = Vector::new_with_bits(*rng.pick(&[1, 2, 5]));
        y.extend(b.iter().map(|e| Fb(if *e < NOT { *e / 2 } else { *e })));
        partly(ctx, &x, &y, w, &|| format!("{}, as two types", show("a Vector")))?;
        let x: Vector<String, P> = a.iter().map(|x| x.to_string()).collect();
        let t: Vec<String> = b.iter().map(|x| x.to_string()).collect();
        let y: Vector<&str, PO> = t.iter().map(|x| &x[..]).collect();
        partly_eq_one(ctx, &x, &y, a == b, &|| show("Vectors of String and of &str"))?;
    }
    {
        // Values with a partial order, under the same or other keys.
        let key = |i: usize| i as u32 * 3;
        let shift = usize::from(rng.chance(1, 6));
        let ka: Vec<(u32, Fa)> = va.iter().cloned().enumerate().map(|(i, v)| (key(i), v)).collect();
        let kb: Vec<(u32, Fa)> = vb.iter().cloned().enumerate().map(|(i, v)| (key(i + shift * (i & 1)), v)).collect();
        // With a shift, two entries may fall on the same key: the later one stays.
        let kb: Vec<(u32, Fa)> = kb.into_iter().collect::<BTreeMap<_, _>>().into_iter().collect();
        let of = |x: &[(u32, Fa)], y: &[(u32, Fa)]| {
            let eq = x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && p.1 == q.1);
            (eq, x.iter().partial_cmp(y.iter()))
        };
        let (w, self_w) = (of(&ka, &kb), of(&ka, &ka));
        let show = |k: &str| format!("{k} of {ka:?} and of {kb:?}");
        let x: RedBlackTreeMap<u32, Fa, P> = ka.iter().cloned().collect();
        let y: RedBlackTreeMap<u32, Fa, PO> = kb.iter().rev().cloned().collect();
        partly(ctx, &x, &y, w, &|| show("a RedBlackTreeMap"))?;
        // A map counts as equal to itself without a look at its values (see the release notes), which is observable
        // only when one of them is not equal to itself.
        if self_w.0 {
            partly(ctx, &x, &x.clone(), self_w, &|| format!("a RedBlackTreeMap of {ka:?} and its clone"))?;
        }
        let hb = HB(modes(rng));
        let mut x = HashTrieMap::<u32, Fa, P, HB>::new_with_hasher_and_ptr_kind(hb.clone());
        let mut y = HashTrieMap::<u32, Fa, PO, HB>::new_with_hasher_and_degree_and_ptr_kind(hb, *rng.pick(&[2, 8, 64]));
        ka.iter().cloned().for_each(|(k, v)| x.insert_mut(k, v));
        kb.iter().cloned().for_each(|(k, v)| y.insert_mut(k, v));
        partly_eq(ctx, &x, &y, w.0, &|| show("a HashTrieMap"))?;
        if self_w.0 {
            partly_eq(ctx, &x, &x.clone(), true, &|| format!("a HashTrieMap of {ka:?} and its clone"))?;
        }
    }
    if !a.is_empty() {
        ctx.nontrivial();
    }
    Ok(())
}

fn partly_eq_one<A: PartialEq<B>, B>(ctx: &mut Ctx, x: &A, y: &B, e: bool, what: &dyn Fn() -> String) -> Res {
    ctx.eval();
    ensure!((x == y) == e && (x != y) != e, "{}: == says {}, != says {}", what(), x == y, x != y);
    Ok(())
}

fn partial_case(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    match rng.below(4) {
        0 => partial_by::<RcK, ArcTK>(ctx, rng),
        1 => partial_by::<ArcK, RcK>(ctx, rng),
        2 => partial_by::<ArcTK, ArcTK>(ctx, rng),
        _ => partial_by::<RcK, RcK>(ctx, rng),
    }
}

fn main() {
    run(Plan { quick: 800_000, thorough: 12_000_000, hang_secs: 150 }, |ctx, case, rng| {
        tok::reset();
        if case % 16 == 15 {
            return division_case(ctx, rng);
        }
        if case % 16 == 13 {
            return partial_case(ctx, rng);
        }
        if case / 16 % 8 == 5 {
            return typed::case(ctx, KINDS[(case % 8) as usize], Want { relations: true, balance: false }, rng);
        }
        pair_case(ctx, KINDS[(case % 8) as usize], rng)?;
        element_errors()
    });
}
