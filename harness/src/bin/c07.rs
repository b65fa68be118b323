//! C07: sets are correct sets, and compare correctly.
//!
//! Histories of both set types against the model (as C05 and C06 do for maps), and pairs of sets, sharing structure or
//! not, whose is_disjoint, is_subset and is_superset must give the mathematical answer.
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use core_h::ctx::{Ctx, Plan, Res, run};
use core_h::ensure;
use core_h::hashers::{HB, HB2, Mode, modes};
use core_h::history::{big_case, model_case};
use core_h::model::Kind;
use core_h::pool::random_cfg;
use core_h::typed::{self, Want};
use core_h::rng::Rng;
use core_h::subj::{Ptr, PTRS};
use core_h::tok::{self, QKey, Tok};
use rpds::{HashTrieSet, RedBlackTreeSet};
use std::collections::BTreeSet;
use std::hash::BuildHasher;

type M = BTreeSet<u32>;

trait SetLike: Clone {
    fn put(&mut self, k: u32);
    fn del(&mut self, k: u32);
    fn put_new(&self, k: u32) -> Self;
    fn del_new(&self, k: u32) -> Self;
    fn keys(&self) -> M;
}
impl<P: SharedPointerKind, H: BuildHasher + Clone> SetLike for HashTrieSet<Tok, P, H> {
    fn put(&mut self, k: u32) {
        self.insert_mut(Tok::new(k, 1))
    }
    fn del(&mut self, k: u32) {
        self.remove_mut(&QKey(k));
    }
    fn put_new(&self, k: u32) -> Self {
        self.insert(Tok::new(k, 1))
    }
    fn del_new(&self, k: u32) -> Self {
        self.remove(&QKey(k))
    }
    fn keys(&self) -> M {
        self.iter().map(Tok::key).collect()
    }
}
impl<P: SharedPointerKind> SetLike for RedBlackTreeSet<Tok, P> {
    fn put(&mut self, k: u32) {
        self.insert_mut(Tok::new(k, 1))
    }
    fn del(&mut self, k: u32) {
        self.remove_mut(&QKey(k));
    }
    fn put_new(&self, k: u32) -> Self {
        self.insert(Tok::new(k, 1))
    }
    fn del_new(&self, k: u32) -> Self {
        self.remove(&QKey(k))
    }
    fn keys(&self) -> M {
        self.iter().map(Tok::key).collect()
    }
}

fn fill<S: SetLike>(mut s: S, m: &M, rng: &mut Rng) -> S {
    let mut ks: Vec<u32> = m.iter().copied().collect();
    if rng.chance(2, 3) {
        rng.shuffle(&mut ks);
    }
    for k in ks {
        // Sometimes leave the traces of keys that came and went.
        if rng.chance(1, 8) {
            let x = k.wrapping_add(1);
            if !m.contains(&x) {
                s.put(x);
                s.del(x);
            }
        }
        if rng.chance(1, 2) { s.put(k) } else { s = s.put_new(k) }
    }
    s
}

/// A second content related to the first in one of the ways that matter.
fn related(a: &M, universe: u32, rng: &mut Rng) -> (M, &'static str) {
    let some = |rng: &mut Rng| rng.below(universe as usize) as u32;
    let pick = |rng: &mut Rng| a.iter().nth(rng.below(a.len())).copied();
    match rng.below(12) {
        0 => (a.clone(), "equal"),
        1 => (M::new(), "empty"),
        2 => (a.iter().filter(|_| rng.chance(1, 2)).copied().collect(), "nested"),
        3 => {
            let mut b = a.clone();
            for _ in 0..rng.range(1, 4) {
                b.insert(some(rng));
            }
            (b, "extended")
        }
        4 => ((0..universe).filter(|k| !a.contains(k) && rng.chance(1, 2)).collect(), "disjoint"),
        5 => {
            // Disjoint but for one.
            let mut b: M = (0..universe).filter(|k| !a.contains(k) && rng.chance(1, 2)).collect();
            if let Some(k) = pick(rng) {
                b.insert(k);
            }
            (b, "meeting in one")
        }
        6 => {
            // Nested but for one.
            let mut b: M = a.iter().filter(|_| rng.chance(2, 3)).copied().collect();
            b.insert(some(rng));
            (b, "nested but for one")
        }
        7 => {
            // The same but for one swapped.
            let mut b = a.clone();
            if let Some(k) = pick(rng) {
                b.remove(&k);
                b.insert(some(rng));
            }
            (b, "one swapped")
        }
        8 => {
            let top = a.last().copied().unwrap_or(0);
            ((top..top + 1 + rng.below(5) as u32).filter(|_| rng.chance(2, 3)).collect(), "above")
        }
        9 => {
            let low = a.first().copied().unwrap_or(0);
            ((low.saturating_sub(4)..=low).filter(|_| rng.chance(2, 3)).collect(), "below")
        }
        10 => {
            let mut b = M::new();
            b.extend(if rng.chance(1, 2) { pick(rng) } else { Some(some(rng)) });
            (b, "single")
        }
        _ => ((0..rng.below(universe as usize + 1)).map(|_| some(rng)).collect(), "random"),
    }
}

/// Turns `s` (holding `a`) into a set holding `b` that still shares what it can.
fn steer<S: SetLike>(s: &S, a: &M, b: &M, rng: &mut Rng) -> S {
    let mut s = s.clone();
    let mut todo: Vec<(bool, u32)> =
        a.difference(b).map(|k| (false, *k)).chain(b.difference(a).map(|k| (true, *k))).collect();
    rng.shuffle(&mut todo);
    for (add, k) in todo {
        match (add, rng.chance(1, 2)) {
            (true, true) => s.put(k),
            (true, false) => s = s.put_new(k),
            (false, true) => s.del(k),
            (false, false) => s = s.del_new(k),
        }
    }
    s
}

struct Answers {
    disjoint: bool,
    subset: bool,
    superset: bool,
}

fn judge(ctx: &mut Ctx, what: &str, a: &M, b: &M, x: Answers) -> Res {
    ctx.eval();
    let d = a.is_disjoint(b);
    let sub = a.is_subset(b);
    let sup = a.is_superset(b);
    ensure!(x.disjoint == d, "{what}: {a:?}.is_disjoint({b:?}) is {}", x.disjoint);
    ensure!(x.subset == sub, "{what}: {a:?}.is_subset({b:?}) is {}", x.subset);
    ensure!(x.superset == sup, "{what}: {a:?}.is_superset({b:?}) is {}", x.superset);
    ctx.count(if d { "disjoint_true" } else { "disjoint_false" }, 1);
    ctx.count(if sub { "subset_true" } else { "subset_false" }, 1);
    ctx.count(if sup { "superset_true" } else { "superset_false" }, 1);
    Ok(())
}

fn ht<P: SharedPointerKind, H: BuildHasher + Clone, HO: BuildHasher + Clone>(
    a: &HashTrieSet<Tok, P, H>,
    b: &HashTrieSet<Tok, P, HO>,
) -> Answers {
    Answers { disjoint: a.is_disjoint(b), subset: a.is_subset(b), superset: a.is_superset(b) }
}
fn rb<P: SharedPointerKind, PO: SharedPointerKind>(a: &RedBlackTreeSet<Tok, P>, b: &RedBlackTreeSet<Tok, PO>) -> Answers {
    Answers { disjoint: a.is_disjoint(b), subset: a.is_subset(b), superset: a.is_superset(b) }
}

fn hash_pairs<P: SharedPointerKind>(ctx: &mut Ctx, a: &M, b: &M, rng: &mut Rng) -> Res {
    let deg = [2u8, 4, 8, 16, 32, 64];
    let mode = modes(rng);
    let e1 = HashTrieSet::<Tok, P, HB>::new_with_hasher_and_degree_and_ptr_kind(HB(mode), *rng.pick(&deg));
    let x = fill(e1, a, rng);
    let y = steer(&x, a, b, rng);
    let what = format!("HashTrieSet sharing structure, {mode:?}");
    judge(ctx, &what, a, b, ht(&x, &y))?;
    judge(ctx, &what, b, a, ht(&y, &x))?;
    judge(ctx, &what, a, a, ht(&x, &x.clone()))?;
    let mode2 = modes(rng);
    let e2 = HashTrieSet::<Tok, P, HB>::new_with_hasher_and_degree_and_ptr_kind(HB(mode2), *rng.pick(&deg));
    let z = fill(e2, b, rng);
    let what = format!("HashTrieSet built apart, {mode:?} and {mode2:?}");
    judge(ctx, &what, a, b, ht(&x, &z))?;
    judge(ctx, &what, b, a, ht(&z, &x))?;
    let mode3 = if rng.chance(1, 3) { mode } else { Mode::Good(rng.next()) };
    let e3 = HashTrieSet::<Tok, P, HB2>::new_with_hasher_and_degree_and_ptr_kind(HB2(mode3), *rng.pick(&deg));
    let w = fill(e3, b, rng);
    let what = format!("HashTrieSet with other hasher type, {mode:?} and {mode3:?}");
    judge(ctx, &what, a, b, ht(&x, &w))?;
    judge(ctx, &what, b, a, ht(&w, &x))?;
    ensure!(x.keys() == *a && y.keys() == *b && z.keys() == *b && w.keys() == *b, "contents of the sets compared: {a:?} {b:?}");
    Ok(())
}

fn rb_pairs<P: SharedPointerKind, PO: SharedPointerKind>(ctx: &mut Ctx, a: &M, b: &M, rng: &mut Rng) -> Res {
    let x = fill(RedBlackTreeSet::<Tok, P>::new_with_ptr_kind(), a, rng);
    let y = steer(&x, a, b, rng);
    judge(ctx, "RedBlackTreeSet sharing structure", a, b, rb(&x, &y))?;
    judge(ctx, "RedBlackTreeSet sharing structure", b, a, rb(&y, &x))?;
    judge(ctx, "RedBlackTreeSet and its clone", a, a, rb(&x, &x.clone()))?;
    let z = fill(RedBlackTreeSet::<Tok, PO>::new_with_ptr_kind(), b, rng);
    judge(ctx, "RedBlackTreeSet built apart", a, b, rb(&x, &z))?;
    judge(ctx, "RedBlackTreeSet built apart", b, a, rb(&z, &x))?;
    ensure!(x.keys() == *a && y.keys() == *b && z.keys() == *b, "contents of the sets compared: {a:?} {b:?}");
    Ok(())
}

fn pair_case(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    tok::reset();
    let universe = *rng.pick(&[1u32, 2, 3, 5, 8, 12, 20, 40, 100]);
    let density = rng.range(1, 8);
    let a: M = (0..universe).filter(|_| rng.chance(density, 8)).map(|k| k + 4).collect();
    let (b, how) = related(&a, universe + 8, rng);
    ctx.count(&format!("pair_{}", how.replace(' ', "_")), 1);
    ctx.t(|| format!("{a:?} and {b:?} ({how})"));
    for k in &a {
        ctx.fp(*k as u64);
    }
    ctx.fp(u64::MAX);
    for k in &b {
        ctx.fp(*k as u64);
    }
    let p = *rng.pick(&PTRS);
    match p {
        Ptr::Rc => hash_pairs::<RcK>(ctx, &a, &b, rng)?,
        Ptr::Arc => hash_pairs::<ArcK>(ctx, &a, &b, rng)?,
        Ptr::ArcT => hash_pairs::<ArcTK>(ctx, &a, &b, rng)?,
    }
    match rng.below(5) {
        0 => rb_pairs::<RcK, RcK>(ctx, &a, &b, rng)?,
        1 => rb_pairs::<ArcTK, ArcTK>(ctx, &a, &b, rng)?,
        2 => rb_pairs::<RcK, ArcTK>(ctx, &a, &b, rng)?,
        3 => rb_pairs::<ArcK, RcK>(ctx, &a, &b, rng)?,
        _ => rb_pairs::<ArcTK, ArcK>(ctx, &a, &b, rng)?,
    }
    if !a.is_empty() && !b.is_empty() {
        ctx.nontrivial();
    }
    if ctx.samples.len() < 2 && !ctx.tracing && a.len() > 3 && b.len() > 2 {
        ctx.samples.push(format!("pair: {a:?} and {b:?} ({how})"));
    }
    Ok(())
}

const PLAIN: Want = Want { relations: false, balance: false };

fn main() {
    run(Plan { quick: 160_000, thorough: 3_000_000, hang_secs: 150 }, |ctx, case, rng| {
        if case % 16 == 5 {
            return typed::case(ctx, *rng.pick(&[Kind::HtSet, Kind::RbSet]), PLAIN, rng);
        }
        if case % 4 != 0 {
            return pair_case(ctx, rng);
        }
        if case % 4000 == 8 {
            let kind = *rng.pick(&[Kind::HtSet, Kind::RbSet]);
            let mut cfg = random_cfg(kind, rng);
            cfg.mode = Mode::Good(rng.next());
            let size = rng.range(300, 5_000);
            cfg.universe = (size * 3 / 2) as u32;
            return big_case(ctx, &cfg, size, rng);
        }
        model_case(ctx, &[Kind::HtSet, Kind::RbSet], rng, 140)
    });
}
