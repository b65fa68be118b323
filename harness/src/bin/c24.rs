//! C24: operations are total; only the documented misuses panic.
//!
//! Every operation is called with extreme arguments in the states of random histories and in all small states, on
//! elements of extreme types; what is absent must be reported as such, indexing what is absent and invalid ranges and
//! parameters must panic, nothing else may, and the collection must be as before. A case that does not come to an end
//! is stopped.
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use core_h::ctx::{Ctx, Plan, Res, guard, run};
use core_h::hashers::{HB, modes, set_default};
use core_h::history::{element_errors, perform, perform_model, random_steps};
use core_h::model::{KINDS, Kind, Model, Op, Ret};
use core_h::pool::{Gen, note_cfg, op_fp, random_cfg};
use core_h::rng::Rng;
use core_h::subj::{Subj, as_ref, empty};
use core_h::tok;
use core_h::{ensure, ensure_eq};
use rpds::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::ops::Bound;

/// Must come to an end without a panic.
fn total<R>(what: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Result<R, String> {
    guard(f).map_err(|e| format!("{}: {e}", what()))
}

/// Must panic.
fn misuse<R>(what: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Res {
    match guard(f) {
        Ok(_) => Err(format!("{} did not panic", what())),
        Err(_) => Ok(()),
    }
}

/// Indices around every power of two, and around the length.
fn indices(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..usize::BITS).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    v.extend((0..usize::BITS).map(|k| usize::MAX >> k));
    v.extend((0..usize::BITS).map(|k| n.wrapping_add(1 << k)));
    v.extend((0..usize::BITS).map(|k| n.wrapping_sub(1 << k)));
    v.extend((0..4).map(|k| usize::MAX - k));
    v.extend([n.wrapping_mul(2), !n, n.wrapping_neg(), usize::MAX / 3, usize::MAX / 3 * 2]);
    v.sort_unstable();
    v.dedup();
    v
}

// ------------------------------------------------------------------------------ every index of every small vector

fn vector_grid(ctx: &mut Ctx, bits: u8, rng: &mut Rng) -> Res {
    ctx.fp(u64::from(bits) | rng.next() << 8);
    ctx.nontrivial();
    let top = *rng.pick(&[10usize, 40, 70, 140]);
    let mut v: Vector<u32, ArcTK> = Vector::new_with_bits(bits);
    let mut versions = vec![];
    for n in 0..=top {
        versions.push((v.clone(), n));
        v.push_back_mut(n as u32);
    }
    // The same lengths on the way down.
    let more = rng.below(3 * top);
    for n in 0..more {
        v.push_back_mut(n as u32);
    }
    while v.len() > top {
        ensure!(v.drop_last_mut(), "drop_last_mut()");
    }
    for n in (0..top).rev() {
        ensure!(total(|| format!("drop_last_mut() at {}, bits {bits}", n + 1), || v.drop_last_mut())?, "drop_last_mut()");
        versions.push((v.clone(), n));
    }
    ensure!(!v.drop_last_mut() && v.drop_last().is_none(), "drop_last of nothing, bits {bits}");
    for (v, n) in versions {
        if rng.chance(1, 3) {
            continue;
        }
        let at = |i: usize| format!("index {i} of {n}, bits {bits}");
        let mut all = indices(n);
        all.extend(0..n);
        for i in all {
            ctx.eval();
            let want = (i < n).then_some(i as u32);
            ensure_eq!(total(|| format!("get() of {}", at(i)), || v.get(i).copied())?, want, "get() of {}", at(i));
            if i < n && i > 3 && rng.chance(9, 10) {
                continue;
            }
            let mut w = v.clone();
            ensure_eq!(total(|| format!("get_mut() of {}", at(i)), || w.get_mut(i).copied())?, want, "get_mut() of {}", at(i));
            ensure_eq!(total(|| format!("set_mut() of {}", at(i)), || w.set_mut(i, 7777))?, i < n, "set_mut() of {}", at(i));
            match total(|| format!("set() of {}", at(i)), || v.set(i, 8888))? {
                None => ensure!(i >= n, "set() of {} refused", at(i)),
                Some(s) => {
                    ensure!(i < n && s.len() == n && s[i] == 8888, "set() of {} went wrong", at(i));
                }
            }
            ctx.count("absent_indices", u64::from(i >= n));
            if i >= n {
                if i > n + 2 && rng.chance(19, 20) {
                    ensure!(w == v && w.len() == n, "{}: changed without a cause", at(i));
                    continue;
                }
                ctx.count("absent_indices_indexed", 1);
                misuse(|| format!("[] of {}", at(i)), || v[i])?;
                misuse(|| format!("[] = of {}", at(i)), || w[i] = 1)?;
                ensure!(w == v && w.len() == n, "{}: changed without a cause", at(i));
            } else {
                ensure_eq!(total(|| format!("[] of {}", at(i)), || v[i])?, i as u32, "[] of {}", at(i));
                total(|| format!("[] = of {}", at(i)), || w[i] = 9999)?;
                ensure!(w[i] == 9999 && v[i] == i as u32, "{}: not written", at(i));
            }
        }
        ensure!(v.iter().copied().eq(0..n as u32), "contents of {n}, bits {bits}: changed without a cause");
    }
    ctx.count("vector_grids", 1);
    Ok(())
}

// ------------------------------------------------------------------------------------ every range of small trees

fn bounds(keys: &[i64]) -> Vec<Bound<i64>> {
    let mut b = vec![Bound::Unbounded];
    for k in keys {
        b.extend([Bound::Included(*k), Bound::Excluded(*k)]);
    }
    b
}

fn bad(r: &(Bound<i64>, Bound<i64>)) -> bool {
    use Bound::*;
    match r {
        (Excluded(a), Excluded(b)) if a == b => true,
        (Included(a) | Excluded(a), Included(b) | Excluded(b)) => a > b,
        _ => false,
    }
}

fn within(r: &(Bound<i64>, Bound<i64>), k: i64) -> bool {
    (match r.0 {
        Bound::Included(a) => k >= a,
        Bound::Excluded(a) => k > a,
        Bound::Unbounded => true,
    }) && match r.1 {
        Bound::Included(a) => k <= a,
        Bound::Excluded(a) => k < a,
        Bound::Unbounded => true,
    }
}

fn range_grid<P: SharedPointerKind>(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    // Extreme keys among them.
    let universe: Vec<i64> = [i64::MIN, i64::MIN + 1, -7, -1, 0, 1, 2, 3, 5, 8, 100, i64::MAX - 1, i64::MAX]
        .into_iter()
        .filter(|_| rng.chance(2, 3))
        .collect();
    let mut order = universe.clone();
    rng.shuffle(&mut order);
    let mut m: RedBlackTreeMap<i64, i64, P> = RedBlackTreeMap::new_with_ptr_kind();
    let mut s: RedBlackTreeSet<i64, P> = RedBlackTreeSet::new_with_ptr_kind();
    let mut model = BTreeSet::new();
    for k in order {
        if rng.chance(1, 2) {
            m.insert_mut(k, !k);
            s = s.insert(k);
            model.insert(k);
        } else {
            let other = *rng.pick(&universe);
            ensure_eq!(total(|| format!("remove_mut({other})"), || m.remove_mut(&other))?, model.contains(&other), "remove_mut");
            s = total(|| format!("remove({other})"), || s.remove(&other))?;
            model.remove(&other);
        }
        ctx.fp(k as u64);
    }
    if !model.is_empty() {
        ctx.nontrivial();
    }
    let mut keys = universe;
    keys.extend([i64::MIN, i64::MAX, 4]);
    let b = bounds(&keys);
    for lo in &b {
        for hi in &b {
            let r = (*lo, *hi);
            let what = || format!("range({r:?}) of {model:?}");
            ctx.eval();
            if bad(&r) {
                ctx.count("invalid_ranges", 1);
                misuse(what, || m.range(r).count())?;
                misuse(what, || s.range(r).count())?;
                continue;
            }
            ctx.count("valid_ranges", 1);
            let want: Vec<i64> = model.iter().copied().filter(|k| within(&r, *k)).collect();
            let (a, ar, c, cr) = total(what, || {
                let a: Vec<i64> = m.range(r).map(|(k, v)| if *v == !*k { *k } else { 12345 }).collect();
                let ar: Vec<i64> = m.range(r).rev().map(|(k, _)| *k).collect();
                let c: Vec<i64> = s.range((as_ref(&r.0), as_ref(&r.1))).copied().collect();
                let cr: Vec<i64> = s.range(r).rev().copied().collect();
                (a, ar, c, cr)
            })?;
            let back: Vec<i64> = want.iter().rev().copied().collect();
            ensure!(a == want && c == want && ar == back && cr == back, "{}: got {a:?}, {ar:?}, {c:?}, {cr:?}", what());
            // Beyond the end, and far beyond it.
            total(what, || {
                let mut it = m.range(r);
                let _ = it.nth(usize::MAX);
                let _ = it.next_back();
                let mut it = s.range(r);
                let _ = it.nth_back(want.len());
                let last = (it.next(), it.next_back(), it.size_hint().0);
                assert!(last.0.is_none() && last.1.is_none() && last.2 == 0);
            })?;
        }
    }
    // The other ways to write a range.
    let k = *rng.pick(&keys);
    let n = |f: &dyn Fn(i64) -> bool| model.iter().filter(|x| f(**x)).count();
    let got = total(
        || format!("ranges at {k}"),
        || [m.range(k..).count(), m.range(..k).count(), m.range(..=k).count(), m.range::<i64, _>(..).count(), m.range(k..=k).count(), m.range(k..k).count()],
    )?;
    ensure_eq!(got, [n(&|x| x >= k), n(&|x| x < k), n(&|x| x <= k), model.len(), n(&|x| x == k), 0], "ranges at {k} of {model:?}");
    ensure!(m.keys().copied().eq(model.iter().copied()) && s.iter().copied().eq(model.iter().copied()), "changed by ranges");
    Ok(())
}

// -------------------------------------------------------------------------------- everything, in states of histories

/// What can be asked of any iterator with both ends, after any number of steps.
fn hostile_iteration<I: Iterator>(it: impl Fn() -> I, n: usize, rng: &mut Rng) -> Res {
    let far = *rng.pick(&[n, n + 1, usize::MAX, usize::MAX - 1, usize::MAX / 2]);
    let mut a = it();
    ensure!(a.nth(far).is_none(), "nth({far}) of {n} is something");
    for _ in 0..3 {
        ensure!(a.next().is_none(), "next() after nth({far}) of {n} is something");
    }
    ensure_eq!(a.size_hint(), (0, Some(0)), "size_hint() after nth({far})");
    ensure_eq!(it().skip(far).count(), 0, "skip({far}) of {n}");
    ensure_eq!(it().take(usize::MAX).count(), n, "take(MAX)");
    ensure_eq!(it().step_by(usize::MAX).count(), usize::from(n > 0), "step_by(MAX) of {n}");
    ensure_eq!(it().last().is_some(), n > 0, "last() of {n}");
    ensure_eq!(it().size_hint(), (n, Some(n)), "size_hint()");
    ensure_eq!(it().chain(a).count(), n, "count() of a chain with what is exhausted");
    Ok(())
}

fn hostile_reverse<I: DoubleEndedIterator>(it: I, n: usize, rng: &mut Rng) -> Res {
    let far = *rng.pick(&[n, n + 1, usize::MAX, usize::MAX - 1, usize::MAX / 2]);
    let mut it = it;
    ensure!(it.nth_back(far).is_none(), "nth_back({far}) of {n} is something");
    for _ in 0..2 {
        ensure!(it.next_back().is_none() && it.next().is_none(), "something after nth_back({far}) of {n}");
    }
    Ok(())
}

/// Extreme operations that no history is likely to contain.
fn extreme_op(kind: Kind, g: &mut Gen, cfg: &core_h::subj::Cfg, m: &Model, rng: &mut Rng) -> Op {
    let n = m.len();
    let far = *rng.pick(&indices(n));
    let key = *rng.pick(&[0, u32::MAX, u32::MAX - 1, 1, 1 << 31, cfg.key(0).wrapping_sub(1), cfg.key(cfg.universe).wrapping_add(1)]);
    let e = (key, g.uid());
    match kind {
        Kind::List if rng.chance(1, 3) => Op::Reverse,
        Kind::List | Kind::Stack | Kind::Queue => Op::Take,
        Kind::Vector => match rng.below(6) {
            0 => Op::Set(far, e),
            1 => Op::GetMut(far, e),
            2 => Op::IndexMut(far, e),
            3 => Op::PeekMut(far),
            4 => Op::Extend(vec![]),
            _ => Op::Take,
        },
        Kind::HtMap | Kind::RbMap => match rng.below(4) {
            0 => Op::Remove(key, rng.chance(1, 2)),
            1 => Op::MapGetMut(key, e, rng.chance(1, 2)),
            2 => Op::MapPeekMut(key),
            _ => Op::Insert((key, g.uid()), e),
        },
        _ if rng.chance(1, 4) => Op::Insert((key, g.uid()), (0, 0)),
        _ => Op::Remove(key, rng.chance(1, 2)),
    }
}

fn history(ctx: &mut Ctx, kind: Kind, rng: &mut Rng) -> Res {
    tok::reset();
    let cfg = random_cfg(kind, rng);
    note_cfg(ctx, &cfg);
    ctx.t(|| cfg.describe());
    let mut g = if rng.chance(1, 3) { Gen::with_target(&cfg, 2, rng) } else { Gen::new(&cfg, rng) };
    let keep = rng.range(1, 3);
    let ops = rng.below(50);
    let (steps, _) = random_steps(&cfg, &mut g, keep, ops, rng);
    let mut pool: Vec<Box<dyn Subj>> = vec![empty(&cfg)];
    let mut models = vec![Model::new(kind)];
    for s in &steps {
        ctx.t(|| format!("{s:?}"));
        total(|| format!("{s:?} ({})", cfg.describe()), || perform(&mut pool, s))?;
        perform_model(&mut models, s);
    }
    // Empty ones, and one emptied.
    let mut v = pool[0].dup();
    let mut m = models[0].clone();
    while m.len() > 0 {
        let op = match &m {
            Model::Seq(..) => Op::Take,
            Model::Map(_, b) => Op::Remove(*b.keys().nth(rng.below(b.len())).unwrap_or(&0), true),
        };
        let r = total(|| format!("{op:?} at {} ({})", m.len(), cfg.describe()), || v.apply_mut(&op))?;
        ensure_eq!(r, m.apply(&op), "{op:?} while emptying ({})", cfg.describe());
    }
    pool.push(v);
    models.push(m);
    pool.push(empty(&cfg));
    models.push(Model::new(kind));

    for round in 0..12 {
        let i = rng.below(pool.len());
        let op = extreme_op(kind, &mut g, &cfg, &models[i], rng);
        ctx.fp(op_fp(&op));
        ctx.t(|| format!("extreme {op:?} on v{i} of size {}", models[i].len()));
        let what = || format!("{op:?} at size {} ({})", models[i].len(), cfg.describe());
        let before = pool[i].snapshot();
        let mut after = models[i].clone();
        let want = after.apply(&op);
        let (p, r) = total(what, || pool[i].apply(&op))?;
        ensure_eq!(r, want, "{}", what());
        ensure!(pool[i].snapshot() == before, "{} changed its operand", what());
        let mut q = pool[i].dup();
        let r = total(what, || q.apply_mut(&op))?;
        ensure_eq!(r, want, "{} in place", what());
        ctx.eval();
        ctx.count(
            match want {
                Ret::Bool(false) => "refused",
                Ret::Panicked => "panicked_as_documented",
                _ => "carried_out",
            },
            1,
        );
        for x in [&p, &q] {
            x.check(&after, rng, true).map_err(|e| format!("{e}, after {}", what()))?;
        }
        if matches!(want, Ret::Bool(false) | Ret::Panicked) {
            ensure!(q.snapshot() == before && p.snapshot() == before, "{} changed something", what());
        }
        if round % 3 == 0 {
            // Everything that compares or shows.
            let j = rng.below(pool.len());
            total(what, || {
                let (a, b) = (&q, &pool[j]);
                let _ = (a.same(b.as_ref()), a.cmp_with(b.as_ref()), a.relations(b.as_ref()), a.ptr_eq(b.as_ref()));
                let _ = (a.same(a.as_ref()), a.cmp_with(a.as_ref()), a.relations(a.as_ref()), a.record());
                let _ = (a.show(), a.debug(), a.len(), a.is_empty());
            })?;
        }
        pool.push(q);
        models.push(after);
    }
    for (v, m) in pool.iter().zip(&models) {
        ctx.eval();
        v.check(m, rng, true).map_err(|e| format!("{e}, at the end ({})", cfg.describe()))?;
    }
    ctx.nontrivial();
    element_errors()
}

// ------------------------------------------------------------------------------------------ elements of all types

trait El: Clone + Ord + Hash + Debug + 'static {
    const NAME: &'static str;
    fn some(rng: &mut Rng) -> Self;
}

macro_rules! el {
    ($t:ty, $rng:ident => $e:expr) => {
        impl El for $t {
            const NAME: &'static str = stringify!($t);
            fn some($rng: &mut Rng) -> Self {
                $e
            }
        }
    };
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Nothing;
impl Display for Nothing {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("nothing")
    }
}

el!((), _rng => ());
el!(Nothing, _rng => Nothing);
el!([u64; 0], _rng => []);
el!(bool, rng => rng.chance(1, 2));
el!(u8, rng => *rng.pick(&[0, 1, 127, 128, 254, 255]));
el!(i128, rng => *rng.pick(&[i128::MIN, i128::MIN + 1, -1, 0, 1, 1 << 64, i128::MAX - 1, i128::MAX]));
el!(usize, rng => *rng.pick(&[0, 1, usize::MAX, usize::MAX - 1, usize::MAX / 2, 63, 64, 65]));
el!(u64, rng => rng.next() >> rng.below(64));
el!(char, rng => *rng.pick(&['\0', 'a', 'é', char::MAX, '\u{d7ff}', '\u{e000}']));
el!(String, rng => "x".repeat(*rng.pick(&[0, 1, 2, 7, 8, 300])));
el!(&'static str, rng => *rng.pick(&["", "\0", "a", "ab", "b", "\u{10ffff}"]));
el!(Option<Box<u16>>, rng => rng.chance(3, 4).then(|| Box::new(*rng.pick(&[0, 1, u16::MAX]))));
el!(Vec<Vec<u8>>, rng => (0..rng.below(3)).map(|_| vec![rng.below(2) as u8; rng.below(3)]).collect());
el!(Vector<u8>, rng => (0..rng.below(4)).map(|_| rng.below(2) as u8).collect());
el!(List<i8>, rng => (0..rng.below(4)).map(|_| rng.below(2) as i8).collect());
el!([u32; 40], rng => [rng.below(5) as u32; 40]);
el!(std::time::Duration, rng => *rng.pick(&[std::time::Duration::MAX, std::time::Duration::ZERO, std::time::Duration::from_nanos(1)]));
el!(std::net::IpAddr, rng => if rng.chance(1, 2) { std::net::Ipv4Addr::BROADCAST.into() } else { std::net::Ipv6Addr::from(rng.below(4) as u128).into() });

fn typed_seq<T: El, P: SharedPointerKind + 'static>(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    let bits = *rng.pick(&[1u8, 1, 2, 3, 5, 8, 31, 63]);
    let (mut l, mut s, mut q) = (List::<T, P>::new_with_ptr_kind(), Stack::<T, P>::new_with_ptr_kind(), Queue::<T, P>::new_with_ptr_kind());
    let mut v = Vector::<T, P>::new_with_bits(bits);
    let (mut ml, mut ms, mut mq, mut mv) = (VecDeque::new(), VecDeque::new(), VecDeque::new(), VecDeque::<T>::new());
    let target = *rng.pick(&[1, 3, 20, 70]);
    for step in 0..3 * target {
        let up = rng.chance(if step < 2 * target { 3 } else { 1 }, 4);
        let inplace = rng.chance(1, 2);
        let e = T::some(rng);
        let what = || format!("step {step}, {} elements of type {}, bits {bits}", ml.len(), T::NAME);
        ctx.fp(u64::from(up) * 2 + u64::from(inplace) + step as u64 * 8);
        if up {
            total(what, || {
                if inplace {
                    l.push_front_mut(e.clone());
                    s.push_mut(e.clone());
                    q.enqueue_mut(e.clone());
                    v.push_back_mut(e.clone());
                } else {
                    l = l.push_front(e.clone());
                    s = s.push(e.clone());
                    q = q.enqueue(e.clone());
                    v = v.push_back(e.clone());
                }
            })?;
            ml.push_front(e.clone());
            ms.push_front(e.clone());
            mq.push_back(e.clone());
            mv.push_back(e);
        } else {
            let got = total(what, || {
                if inplace {
                    [l.drop_first_mut(), s.pop_mut(), q.dequeue_mut(), v.drop_last_mut()]
                } else {
                    let (a, b, c, d) = (l.drop_first(), s.pop(), q.dequeue(), v.drop_last());
                    let r = [a.is_some(), b.is_some(), c.is_some(), d.is_some()];
                    (l, s, q, v) = (a.unwrap_or(l.clone()), b.unwrap_or(s.clone()), c.unwrap_or(q.clone()), d.unwrap_or(v.clone()));
                    r
                }
            })?;
            let want = [ml.pop_front().is_some(), ms.pop_front().is_some(), mq.pop_front().is_some(), mv.pop_back().is_some()];
            ensure_eq!(got, want, "taking from list, stack, queue, vector, {step}, {} bits {bits}", T::NAME);
            ctx.count("refused", got.iter().filter(|x| !**x).count() as u64);
        }
        if rng.chance(1, 4) {
            l = if inplace {
                l.reverse_mut();
                l
            } else {
                l.reverse()
            };
            ml = ml.into_iter().rev().collect();
        }
        let near = rng.below(80);
        let i = *rng.pick(&[0, mv.len().wrapping_sub(1), mv.len(), usize::MAX, near]);
        let e = T::some(rng);
        let set = total(|| format!("set({i}) of {}, {}", mv.len(), T::NAME), || if inplace { v.set_mut(i, e.clone()) } else { v.set(i, e.clone()).map(|x| v = x).is_some() })?;
        ensure_eq!(set, i < mv.len(), "set({i}) of {}, {}", mv.len(), T::NAME);
        if let Some(x) = mv.get_mut(i) {
            *x = e;
        }
        ctx.eval();
        let (nl, nq, nv) = (ml.len(), mq.len(), mv.len());
        let what = || format!("{nl} {nq} {nv} elements of type {}, bits {bits}", T::NAME);
        ensure!(l.iter().eq(&ml) && s.iter().eq(&ms) && q.iter().eq(&mq) && v.iter().eq(&mv) && v.iter().rev().eq(mv.iter().rev()), "contents with {}", what());
        ensure!(l.len() == nl && s.size() == ms.len() && q.len() == nq && v.len() == nv, "lengths with {}", what());
        ensure!(l.is_empty() == (nl == 0) && s.is_empty() == ms.is_empty() && q.is_empty() == (nq == 0) && v.is_empty() == (nv == 0), "is_empty() with {}", what());
        ensure!(l.first() == ml.front() && l.last() == ml.back() && s.peek() == ms.front() && q.peek() == mq.front() && v.first() == mv.front() && v.last() == mv.back(), "ends with {}", what());
        ensure!(v.get(i) == mv.get(i) && v.get_mut(i).is_some() == (i < nv), "get({i}) with {}", what());
        if step % 5 == 0 {
            total(what, || {
                hostile_iteration(|| l.iter(), nl, rng)?;
                hostile_iteration(|| s.iter(), ms.len(), rng)?;
                hostile_iteration(|| q.iter(), nq, rng)?;
                hostile_iteration(|| v.iter(), nv, rng)?;
                hostile_reverse(v.iter(), nv, rng)
            })?
            .map_err(|e| format!("{e} ({})", what()))?;
            ctx.count("hostile_iterations", 4);
            let (l2, v2) = (l.clone(), v.clone());
            let _ = total(what, || (l == l2, v.cmp(&v2), l.cmp(&l2), q == q.clone(), s.cmp(&s.clone()), format!("{l:?}{v:?}{q:?}{s:?}")))?;
        }
    }
    Ok(())
}

fn typed_map<T: El, P: SharedPointerKind + 'static>(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    set_default(modes(rng));
    let degree = *rng.pick(&[2u8, 2, 4, 8, 16, 32, 64]);
    let mut h: HashTrieMap<T, T, P, HB> = HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(HB::default(), degree);
    let mut hs: HashTrieSet<T, P, HB> = HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(HB::default(), degree);
    let mut r: RedBlackTreeMap<T, T, P> = RedBlackTreeMap::new_with_ptr_kind();
    let mut rs: RedBlackTreeSet<T, P> = RedBlackTreeSet::new_with_ptr_kind();
    let mut m: BTreeMap<T, T> = BTreeMap::new();
    let target = *rng.pick(&[1, 3, 20, 40]);
    for step in 0..3 * target {
        let up = rng.chance(if step < 2 * target { 3 } else { 1 }, 4);
        let inplace = rng.chance(1, 2);
        let (k, v) = (T::some(rng), T::some(rng));
        ctx.fp(u64::from(up) * 2 + u64::from(inplace) + step as u64 * 8);
        let n = m.len();
        let what = || format!("step {step}, key {k:?} of type {}, size {n}, degree {degree}", T::NAME);
        if up {
            total(what, || {
                if inplace {
                    h.insert_mut(k.clone(), v.clone());
                    r.insert_mut(k.clone(), v.clone());
                    hs.insert_mut(k.clone());
                    rs.insert_mut(k.clone());
                } else {
                    h = h.insert(k.clone(), v.clone());
                    r = r.insert(k.clone(), v.clone());
                    hs = hs.insert(k.clone());
                    rs = rs.insert(k.clone());
                }
            })?;
            m.insert(k.clone(), v);
        } else {
            let was = m.remove(&k).is_some();
            if inplace {
                let got = total(what, || [h.remove_mut(&k), r.remove_mut(&k), hs.remove_mut(&k), rs.remove_mut(&k)])?;
                ensure_eq!(got, [was; 4], "remove_mut() {}", what());
            } else {
                total(what, || (h, r, hs, rs) = (h.remove(&k), r.remove(&k), hs.remove(&k), rs.remove(&k)))?;
            }
            ctx.count("refused", u64::from(!was));
        }
        ctx.eval();
        let q = T::some(rng);
        let n = m.len();
        let what = || format!("key {q:?} of type {}, size {n}, degree {degree}, step {step}", T::NAME);
        ensure!(h.size() == n && r.size() == n && hs.size() == n && rs.size() == n, "sizes, {}", what());
        ensure!(r.iter().eq(&m) && rs.iter().eq(m.keys()) && r.iter().rev().eq(m.iter().rev()), "contents of the trees, {}", what());
        let mut hk: Vec<(&T, &T)> = h.iter().collect();
        hk.sort();
        let mut hsk: Vec<&T> = hs.iter().collect();
        hsk.sort();
        ensure!(hk.into_iter().eq(&m) && hsk.into_iter().eq(m.keys()), "contents of the tries, {}", what());
        let want = m.get(&q);
        total(what, || {
            ensure!(h.get(&q) == want && r.get(&q) == want, "get()");
            ensure!(h.get_key_value(&q) == m.get_key_value(&q) && r.get_key_value(&q) == m.get_key_value(&q), "get_key_value()");
            ensure!([h.contains_key(&q), r.contains_key(&q), hs.contains(&q), rs.contains(&q)] == [want.is_some(); 4], "contains");
            ensure!(hs.get(&q).is_some() == want.is_some() && rs.get(&q).is_some() == want.is_some(), "get() of a set");
            let (mut h2, mut r2) = (h.clone(), r.clone());
            ensure!(h2.get_mut(&q).map(|x| x.clone()).as_ref() == want && r2.get_mut(&q).map(|x| x.clone()).as_ref() == want, "get_mut()");
            ensure!(r.first() == m.first_key_value() && r.last() == m.last_key_value(), "ends of the map");
            ensure!(rs.first() == m.keys().next() && rs.last() == m.keys().next_back(), "ends of the set");
            Ok(())
        })?
        .map_err(|e: String| format!("{e}, {}", what()))?;
        if let Some(w) = want {
            let got = total(what, || h[&q] == *w && r[&q] == *w)?;
            ensure!(got, "indexing, {}", what());
        } else {
            misuse(|| format!("h[..], {}", what()), || h[&q].clone())?;
            misuse(|| format!("r[..], {}", what()), || r[&q].clone())?;
            ctx.count("absent_keys_indexed", 2);
        }
        if step % 5 == 0 {
            total(what, || {
                hostile_iteration(|| h.iter(), n, rng)?;
                hostile_iteration(|| h.keys(), n, rng)?;
                hostile_iteration(|| h.values(), n, rng)?;
                hostile_iteration(|| r.iter(), n, rng)?;
                hostile_iteration(|| r.keys(), n, rng)?;
                hostile_iteration(|| hs.iter(), n, rng)?;
                hostile_iteration(|| rs.iter(), n, rng)?;
                hostile_reverse(r.iter(), n, rng)?;
                hostile_reverse(r.values(), n, rng)?;
                hostile_reverse(rs.iter(), n, rng)
            })?
            .map_err(|e| format!("{e} ({})", what()))?;
            ctx.count("hostile_iterations", 10);
            let none: HashTrieSet<T, P, HB> = HashTrieSet::new_with_hasher_with_ptr_kind(HB::default());
            let no: RedBlackTreeSet<T, P> = RedBlackTreeSet::new_with_ptr_kind();
            let got = total(what, || {
                let _ = format!("{h:?}{r:?}{hs:?}{rs:?}");
                [
                    (hs.is_disjoint(&none), hs.is_subset(&none), hs.is_superset(&none), none.is_subset(&hs)),
                    (rs.is_disjoint(&no), rs.is_subset(&no), rs.is_superset(&no), no.is_subset(&rs)),
                    (none.is_disjoint(&none), none.is_subset(&none), no.is_superset(&no), no.is_disjoint(&no)),
                    (h == h.clone(), r.cmp(&r.clone()).is_eq(), hs == hs.clone(), rs.partial_cmp(&rs.clone()).is_some()),
                ]
            })?;
            ensure_eq!(got, [(true, n == 0, true, true), (true, n == 0, true, true), (true, true, true, true), (true, true, true, true)], "relations, {}", what());
        }
    }
    Ok(())
}

fn typed<P: SharedPointerKind + 'static>(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    type F = fn(&mut Ctx, &mut Rng) -> Res;
    macro_rules! both {
        ($($t:ty),*) => { [$((typed_seq::<$t, P> as F, typed_map::<$t, P> as F, <$t>::NAME)),*] };
    }
    let all = both!(
        (), Nothing, [u64; 0], bool, u8, i128, usize, u64, char, String, &'static str, Option<Box<u16>>, Vec<Vec<u8>>, Vector<u8>, List<i8>,
        [u32; 40], std::time::Duration, std::net::IpAddr
    );
    let (a, b, name) = *rng.pick(&all);
    ctx.count(&format!("type {name}"), 1);
    ctx.nontrivial();
    if rng.chance(1, 2) { a(ctx, rng) } else { b(ctx, rng) }
}

// ------------------------------------------------------------------------------------------------- constructions

fn parameters(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    ctx.count("parameters", 1);
    let d = rng.next() as u8;
    ctx.fp(u64::from(d));
    let zero = || "zero bits".to_string();
    misuse(zero, || Vector::<u8, RcK>::new_with_bits(0))?;
    misuse(zero, || Vector::<u8, ArcK>::new_with_bits(0))?;
    let good = d.is_power_of_two() && d > 1 && u32::from(d) <= usize::BITS;
    let made = [
        guard(|| HashTrieMap::<u8, u8>::new_with_degree(d).size()),
        guard(|| HashTrieMapSync::<u8, u8>::new_sync_with_degree(d).size()),
        guard(|| HashTrieSet::<u8>::new_with_degree(d).size()),
        guard(|| HashTrieSetSync::<u8>::new_with_degree_sync(d).size()),
        guard(|| HashTrieMap::<u8, u8, ArcTK, HB>::new_with_hasher_and_degree_and_ptr_kind(HB::default(), d).size()),
        guard(|| HashTrieSet::<u8, ArcTK, HB>::new_with_hasher_and_degree_and_ptr_kind(HB::default(), d).size()),
    ];
    ctx.eval();
    for (i, m) in made.iter().enumerate() {
        ensure!(m.is_ok() == good, "constructor {i} with degree {d}: {m:?}");
    }
    if good {
        ctx.nontrivial();
    }
    let b = (rng.next() as u8).max(1);
    let mut v = total(|| format!("{b} bits"), || Vector::<u8, ArcTK>::new_with_bits(b))?;
    total(|| format!("{b} bits"), || (0..=255u8).for_each(|x| v.push_back_mut(x)))?;
    ensure!(v.iter().copied().eq(0..=255) && v.get(usize::MAX).is_none(), "{b} bits");
    Ok(())
}

fn main() {
    run(Plan { quick: 24_000, thorough: 1_000_000, hang_secs: 90 }, |ctx, case, rng| {
        let kind = KINDS[(case / 16 % 8) as usize];
        match case % 16 {
            0 => vector_grid(ctx, (case / 16 % 66) as u8 + 1, rng),
            1 => range_grid::<RcK>(ctx, rng),
            2 => range_grid::<ArcTK>(ctx, rng),
            3 => parameters(ctx, rng),
            4 | 5 => typed::<RcK>(ctx, rng),
            6 | 7 => typed::<ArcTK>(ctx, rng),
            8 => typed::<RcK>(ctx, rng),
            _ => history(ctx, kind, rng),
        }
    });
}
