//! C08: iterators yield every element exactly once, from both ends, with exact lengths.
//!
//! Every iterator of every collection is driven in random ways (next, next_back, nth, nth_back, folds from either end,
//! searches, adaptors, calls after the end) against the expected sequence; the announced length is checked at each step.
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use core_h::ctx::{Ctx, Plan, Res, run};
use core_h::ensure;
use core_h::hashers::{HB, MkHasher, ZB};
use core_h::history::element_errors;
use core_h::model::{Item, KINDS, Kind, Model, P as Pair};
use core_h::pool::{Gen, note_cfg, op_fp, random_cfg};
use core_h::rng::Rng;
use core_h::subj::{Cfg, Coll, Ptr, as_q, as_ref, random_bounds, range_model, range_must_panic};
use core_h::tok::{self, QKey, Tok};
use rpds::*;
use std::fmt::Debug;

/// How much an iterator says about its remaining length.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Says {
    Exact,
    Nothing,
}

fn hint<I: Iterator>(it: &I, left: usize, says: Says, at: &dyn Fn() -> String) -> Res {
    let (lo, hi) = it.size_hint();
    match says {
        Says::Exact => ensure!(lo == left && hi == Some(left), "{}: size_hint {:?} with {left} left", at(), (lo, hi)),
        Says::Nothing => {
            ensure!(lo <= left && hi.is_none_or(|h| h >= left), "{}: size_hint {:?} with {left} left", at(), (lo, hi))
        }
    }
    Ok(())
}

/// `want[i..j]` is what is left.
fn forward<X: PartialEq + Debug + Clone, I: Iterator>(
    ctx: &mut Ctx,
    mut it: I,
    conv: impl Fn(I::Item) -> X + Copy,
    want: &[X],
    says: Says,
    rng: &mut Rng,
    what: &str,
) -> Res {
    let j = want.len();
    let mut i = 0;
    ctx.eval();
    loop {
        hint(&it, j - i, says, &|| format!("{what}, {i} taken of {want:?}"))?;
        match rng.below(14) {
            0..=7 => {
                let g = it.next().map(conv);
                ensure!(g.as_ref() == want.get(i), "{what}: next() gave {g:?} at {i} of {want:?}");
                if i == j {
                    break;
                }
                i += 1;
            }
            8 => {
                let k = rng.below(4);
                let g = it.nth(k).map(conv);
                ensure!(g.as_ref() == want.get(i + k), "{what}: nth({k}) gave {g:?} at {i} of {want:?}");
                i = (i + k + 1).min(j);
                ctx.count("nth", 1);
            }
            9 => {
                let k = rng.below(5);
                let g: Vec<X> = it.by_ref().take(k).map(conv).collect();
                let e = (i + k).min(j);
                ensure!(g == want[i..e], "{what}: take({k}) gave {g:?} at {i} of {want:?}");
                i = e;
            }
            10 => {
                // A search that stops in the middle.
                let k = rng.below(j - i + 1);
                let mut n = 0;
                let g = it.find(|_| {
                    n += 1;
                    n > k
                });
                let g = g.map(conv);
                ensure!(g.as_ref() == want.get(i + k), "{what}: find gave {g:?} at {i} of {want:?}");
                i = (i + k + 1).min(j);
            }
            _ => {
                // Consume what is left in one go.
                let rest = &want[i..];
                match rng.below(6) {
                    0 => {
                        let n = it.count();
                        ensure!(n == rest.len(), "{what}: count() gave {n} at {i} of {want:?}");
                    }
                    1 => {
                        let g = it.last().map(conv);
                        ensure!(g.as_ref() == rest.last(), "{what}: last() gave {g:?} at {i} of {want:?}");
                    }
                    2 => {
                        let g = it.fold(vec![], |mut a, x| {
                            a.push(conv(x));
                            a
                        });
                        ensure!(g == rest, "{what}: fold() saw {g:?} at {i} of {want:?}");
                    }
                    3 => {
                        let g: Vec<X> = it.map(conv).collect();
                        ensure!(g == rest, "{what}: collect() gave {g:?} at {i} of {want:?}");
                    }
                    4 => {
                        let s = rng.range(1, 4);
                        let g: Vec<X> = it.step_by(s).map(conv).collect();
                        let e: Vec<X> = rest.iter().step_by(s).cloned().collect();
                        ensure!(g == e, "{what}: step_by({s}) gave {g:?} at {i} of {want:?}");
                    }
                    _ => {
                        let k = rng.below(rest.len() + 2);
                        let mut it = it.skip(k).peekable();
                        let p = it.peek().is_some();
                        ensure!(p == (k < rest.len()), "{what}: skip({k}).peek() at {i} of {want:?}");
                        let g: Vec<X> = it.map(conv).collect();
                        let e = if k < rest.len() { &rest[k..] } else { &[] };
                        ensure!(g == e, "{what}: skip({k}) gave {g:?} at {i} of {want:?}");
                    }
                }
                ctx.count("forward_consumed", 1);
                return Ok(());
            }
        }
    }
    for _ in 0..3 {
        let g = it.next().map(conv);
        ensure!(g.is_none(), "{what}: next() after the end gave {g:?} of {want:?}");
        hint(&it, 0, says, &|| format!("{what}, after the end of {want:?}"))?;
    }
    ctx.count("forward_to_the_end", 1);
    Ok(())
}

fn both<X: PartialEq + Debug + Clone, I: DoubleEndedIterator>(
    ctx: &mut Ctx,
    mut it: I,
    conv: impl Fn(I::Item) -> X + Copy,
    want: &[X],
    says: Says,
    rng: &mut Rng,
    what: &str,
) -> Res {
    let (mut i, mut j) = (0, want.len());
    let bias = rng.below(5);
    let mut turn = rng.chance(1, 2);
    ctx.eval();
    loop {
        hint(&it, j - i, says, &|| format!("{what}, {i} taken in front and {} at the back of {want:?}", want.len() - j))?;
        let front = match bias {
            0 => true,
            1 => false,
            2 => {
                turn = !turn;
                turn
            }
            3 => {
                if rng.chance(1, 6) {
                    turn = !turn;
                }
                turn
            }
            _ => rng.chance(1, 2),
        };
        let at = || format!("with {i} taken in front and {} at the back of {want:?}", want.len() - j);
        match rng.below(16) {
            0..=9 => {
                if front {
                    let g = it.next().map(conv);
                    ensure!(g.as_ref() == want[i..j].first(), "{what}: next() gave {g:?} {}", at());
                    if i == j {
                        break;
                    }
                    i += 1;
                } else {
                    let g = it.next_back().map(conv);
                    ensure!(g.as_ref() == want[i..j].last(), "{what}: next_back() gave {g:?} {}", at());
                    if i == j {
                        break;
                    }
                    j -= 1;
                }
            }
            10 | 11 => {
                let k = rng.below(4);
                let left = &want[i..j];
                if front {
                    let g = it.nth(k).map(conv);
                    ensure!(g.as_ref() == left.get(k), "{what}: nth({k}) gave {g:?} {}", at());
                    i = (i + k + 1).min(j);
                } else {
                    let g = it.nth_back(k).map(conv);
                    let e = left.len().checked_sub(k + 1).map(|x| &left[x]);
                    ensure!(g.as_ref() == e, "{what}: nth_back({k}) gave {g:?} {}", at());
                    j = j.saturating_sub(k + 1).max(i);
                }
                ctx.count("nth_and_nth_back", 1);
            }
            12 => {
                let left = &want[i..j];
                let k = rng.below(left.len() + 1);
                let mut n = 0;
                if front {
                    let g = it.find(|_| {
                        n += 1;
                        n > k
                    });
                    let g = g.map(conv);
                    ensure!(g.as_ref() == left.get(k), "{what}: find gave {g:?} {}", at());
                    i = (i + k + 1).min(j);
                } else {
                    let g = it.rfind(|_| {
                        n += 1;
                        n > k
                    });
                    let g = g.map(conv);
                    let e = left.len().checked_sub(k + 1).map(|x| &left[x]);
                    ensure!(g.as_ref() == e, "{what}: rfind gave {g:?} {}", at());
                    j = j.saturating_sub(k + 1).max(i);
                }
            }
            13 => {
                let left = &want[i..j];
                let k = rng.below(5).min(left.len());
                if front {
                    let g: Vec<X> = it.by_ref().take(k).map(conv).collect();
                    ensure!(g == left[..k], "{what}: take({k}) gave {g:?} {}", at());
                    i += k;
                } else {
                    let g: Vec<X> = it.by_ref().rev().take(k).map(conv).collect();
                    let e: Vec<X> = left.iter().rev().take(k).cloned().collect();
                    ensure!(g == e, "{what}: rev().take({k}) gave {g:?} {}", at());
                    j -= k;
                }
            }
            _ => {
                if i == j && rng.chance(2, 3) {
                    continue;
                }
                let left = &want[i..j];
                let back: Vec<X> = left.iter().rev().cloned().collect();
                match rng.below(5) {
                    0 => {
                        let g: Vec<X> = it.rev().map(conv).collect();
                        ensure!(g == back, "{what}: rev() gave {g:?} {}", at());
                    }
                    1 => {
                        let g = it.rfold(vec![], |mut a, x| {
                            a.push(conv(x));
                            a
                        });
                        ensure!(g == back, "{what}: rfold() saw {g:?} {}", at());
                    }
                    2 => {
                        let g = it.fold(vec![], |mut a, x| {
                            a.push(conv(x));
                            a
                        });
                        ensure!(g == left, "{what}: fold() saw {g:?} {}", at());
                    }
                    3 => {
                        let n = it.count();
                        ensure!(n == left.len(), "{what}: count() gave {n} {}", at());
                    }
                    _ => {
                        let g = it.last().map(conv);
                        ensure!(g.as_ref() == left.last(), "{what}: last() gave {g:?} {}", at());
                    }
                }
                ctx.count("both_ends_consumed", 1);
                return Ok(());
            }
        }
    }
    for n in 0..4 {
        let g = if (n % 2 == 0) == turn { it.next().map(conv) } else { it.next_back().map(conv) };
        ensure!(g.is_none(), "{what}: gave {g:?} after the ends met at {i} of {want:?}");
        hint(&it, 0, says, &|| format!("{what}, after the end of {want:?}"))?;
    }
    ctx.count("ends_met", 1);
    Ok(())
}

fn exact<I: ExactSizeIterator>(it: I, n: usize, what: &str) -> Res {
    ensure!(it.len() == n, "{what}: len() of the iterator is {} and there are {n}", it.len());
    Ok(())
}

fn kp(t: &Tok) -> Pair {
    t.pair()
}
fn ep(t: (&Tok, &Tok)) -> Item {
    (t.0.pair(), Some(t.1.pair()))
}

trait Drive: Coll {
    fn drive(&self, ctx: &mut Ctx, m: &Model, cfg: &Cfg, rng: &mut Rng) -> Res;
}

macro_rules! seq_drive {
    ($t:ident, $says:expr, $($extra:tt)*) => {
        impl<P: SharedPointerKind + 'static> Drive for $t<Tok, P> {
            fn drive(&self, ctx: &mut Ctx, m: &Model, _: &Cfg, rng: &mut Rng) -> Res {
                let want: Vec<Pair> = m.items().iter().map(|x| x.0).collect();
                let what = concat!(stringify!($t), "::iter()");
                forward(ctx, self.iter(), kp, &want, $says, rng, what)?;
                forward(ctx, self.into_iter(), kp, &want, $says, rng, concat!("&", stringify!($t)))?;
                let extra: fn(&Self, &mut Ctx, &[Pair], &mut Rng) -> Res = $($extra)*;
                extra(self, ctx, &want, rng)
            }
        }
    };
}
seq_drive!(List, Says::Exact, |s, _, w, _| exact(s.iter(), w.len(), "List::iter()"));
seq_drive!(Stack, Says::Exact, |s, _, w, _| exact(s.iter(), w.len(), "Stack::iter()"));
seq_drive!(Queue, Says::Exact, |_, _, _, _| Ok(()));
seq_drive!(Vector, Says::Exact, |s, ctx, w, rng| {
    exact(s.iter(), w.len(), "Vector::iter()")?;
    both(ctx, s.iter(), kp, w, Says::Exact, rng, "Vector::iter()")?;
    both(ctx, s.iter(), kp, w, Says::Exact, rng, "Vector::iter()")?;
    // Positions from the back, and chunks of it.
    if let Some(x) = w.last() {
        let p = s.iter().rposition(|t| kp(t) == *x);
        ensure!(p == Some(w.len() - 1), "Vector::iter().rposition() of the last of {w:?} is {p:?}");
    }
    Ok(())
});

/// The order a hash collection chose, after checking that it has what it should.
fn order_of(m: &Model, got: Vec<Item>) -> Result<Vec<Item>, String> {
    let mut s = got.clone();
    s.sort_unstable();
    let w = m.items();
    ensure!(s == w, "iteration of {w:?} yields {got:?}");
    Ok(got)
}

impl<P: SharedPointerKind + 'static, H: MkHasher> Drive for HashTrieMap<Tok, Tok, P, H> {
    fn drive(&self, ctx: &mut Ctx, m: &Model, _: &Cfg, rng: &mut Rng) -> Res {
        let want = order_of(m, self.iter().map(ep).collect())?;
        let ks: Vec<Pair> = want.iter().map(|x| x.0).collect();
        let vs: Vec<Pair> = want.iter().filter_map(|x| x.1).collect();
        forward(ctx, self.iter(), ep, &want, Says::Exact, rng, "HashTrieMap::iter()")?;
        forward(ctx, self.into_iter(), ep, &want, Says::Exact, rng, "&HashTrieMap")?;
        forward(ctx, self.keys(), kp, &ks, Says::Exact, rng, "HashTrieMap::keys()")?;
        forward(ctx, self.values(), kp, &vs, Says::Exact, rng, "HashTrieMap::values()")?;
        forward(ctx, self.clone().iter(), ep, &want, Says::Exact, rng, "HashTrieMap::clone().iter()")?;
        exact(self.iter(), want.len(), "HashTrieMap::iter()")?;
        exact(self.keys(), want.len(), "HashTrieMap::keys()")
    }
}
impl<P: SharedPointerKind + 'static, H: MkHasher> Drive for HashTrieSet<Tok, P, H> {
    fn drive(&self, ctx: &mut Ctx, m: &Model, _: &Cfg, rng: &mut Rng) -> Res {
        let want = order_of(m, self.iter().map(|k| (kp(k), None)).collect())?;
        let ks: Vec<Pair> = want.iter().map(|x| x.0).collect();
        forward(ctx, self.iter(), kp, &ks, Says::Exact, rng, "HashTrieSet::iter()")?;
        forward(ctx, self.into_iter(), kp, &ks, Says::Exact, rng, "&HashTrieSet")?;
        exact(self.iter(), ks.len(), "HashTrieSet::iter()")
    }
}

fn some_range(m: &Model, cfg: &Cfg, rng: &mut Rng) -> Option<((std::ops::Bound<u32>, std::ops::Bound<u32>), Vec<(u32, u32, Pair)>)> {
    let r = random_bounds(cfg, rng);
    if range_must_panic(&r) {
        return None;
    }
    match m {
        Model::Map(_, s) => Some((r, range_model(s, &r))),
        Model::Seq(..) => None,
    }
}

impl<P: SharedPointerKind + 'static> Drive for RedBlackTreeMap<Tok, Tok, P> {
    fn drive(&self, ctx: &mut Ctx, m: &Model, cfg: &Cfg, rng: &mut Rng) -> Res {
        let want = m.items();
        let ks: Vec<Pair> = want.iter().map(|x| x.0).collect();
        let vs: Vec<Pair> = want.iter().filter_map(|x| x.1).collect();
        forward(ctx, self.iter(), ep, &want, Says::Exact, rng, "RedBlackTreeMap::iter()")?;
        both(ctx, self.iter(), ep, &want, Says::Exact, rng, "RedBlackTreeMap::iter()")?;
        both(ctx, self.into_iter(), ep, &want, Says::Exact, rng, "&RedBlackTreeMap")?;
        both(ctx, self.keys(), kp, &ks, Says::Exact, rng, "RedBlackTreeMap::keys()")?;
        both(ctx, self.values(), kp, &vs, Says::Exact, rng, "RedBlackTreeMap::values()")?;
        exact(self.iter(), want.len(), "RedBlackTreeMap::iter()")?;
        for _ in 0..4 {
            if let Some((r, w)) = some_range(m, cfg, rng) {
                let w: Vec<Item> = w.iter().map(|x| ((x.0, x.1), Some(x.2))).collect();
                let q = (as_q(&r.0), as_q(&r.1));
                let what = format!("RedBlackTreeMap::range({r:?})");
                let it = self.range::<QKey, _>((as_ref(&q.0), as_ref(&q.1)));
                both(ctx, it, ep, &w, Says::Nothing, rng, &what)?;
                let it = self.range::<QKey, _>((as_ref(&q.0), as_ref(&q.1)));
                forward(ctx, it, ep, &w, Says::Nothing, rng, &what)?;
                ctx.count("ranges", 1);
            }
        }
        both(ctx, self.range::<QKey, _>(..), ep, &want, Says::Nothing, rng, "RedBlackTreeMap::range(..)")
    }
}
impl<P: SharedPointerKind + 'static> Drive for RedBlackTreeSet<Tok, P> {
    fn drive(&self, ctx: &mut Ctx, m: &Model, cfg: &Cfg, rng: &mut Rng) -> Res {
        let ks: Vec<Pair> = m.items().iter().map(|x| x.0).collect();
        forward(ctx, self.iter(), kp, &ks, Says::Exact, rng, "RedBlackTreeSet::iter()")?;
        both(ctx, self.iter(), kp, &ks, Says::Exact, rng, "RedBlackTreeSet::iter()")?;
        both(ctx, self.into_iter(), kp, &ks, Says::Exact, rng, "&RedBlackTreeSet")?;
        exact(self.iter(), ks.len(), "RedBlackTreeSet::iter()")?;
        for _ in 0..3 {
            if let Some((r, w)) = some_range(m, cfg, rng) {
                let w: Vec<Pair> = w.iter().map(|x| (x.0, x.1)).collect();
                let q = (as_q(&r.0), as_q(&r.1));
                let it = self.range::<QKey, _>((as_ref(&q.0), as_ref(&q.1)));
                both(ctx, it, kp, &w, Says::Nothing, rng, &format!("RedBlackTreeSet::range({r:?})"))?;
                ctx.count("ranges", 1);
            }
        }
        Ok(())
    }
}

fn go<C: Drive>(ctx: &mut Ctx, cfg: &Cfg, rng: &mut Rng) -> Res {
    let mut g = if cfg.universe >= 3000 { Gen::with_target(cfg, rng.range(300, 2500), rng) } else { Gen::new(cfg, rng) };
    let mut c = C::empty(cfg);
    let mut m = Model::new(cfg.kind);
    for op in g.prefill(cfg, rng) {
        ctx.fp(op_fp(&op));
        m.apply(&op);
        c.do_mut(&op);
    }
    let rounds = rng.range(1, 5);
    let mut seen = 0;
    for r in 0..rounds {
        c.drive(ctx, &m, cfg, rng).map_err(|e| format!("{e} (round {r}, {})", cfg.describe()))?;
        seen += m.len();
        let k = rng.below(14);
        let old = rng.chance(1, 2).then(|| (c.clone(), m.clone()));
        for _ in 0..k {
            let op = g.op(cfg, &m, rng);
            ctx.fp(op_fp(&op));
            ctx.t(|| format!("{op:?}"));
            m.apply(&op);
            if rng.chance(1, 2) {
                c.do_mut(&op);
            } else {
                c = c.do_new(&op).0;
            }
        }
        if let Some((oc, om)) = old {
            oc.drive(ctx, &om, cfg, rng).map_err(|e| format!("{e} (old version, {})", cfg.describe()))?;
        }
    }
    ctx.max("size", m.len() as u64);
    if seen > 2 {
        ctx.nontrivial();
    }
    if ctx.samples.len() < 3 && !ctx.tracing && seen > 20 {
        ctx.samples.push(format!("{}: every iterator driven {rounds} times over versions of about {} elements", cfg.describe(), m.len()));
    }
    Ok(())
}

fn by_kind<P: SharedPointerKind + 'static>(ctx: &mut Ctx, cfg: &Cfg, rng: &mut Rng) -> Res {
    match cfg.kind {
        Kind::List => go::<List<Tok, P>>(ctx, cfg, rng),
        Kind::Stack => go::<Stack<Tok, P>>(ctx, cfg, rng),
        Kind::Vector => go::<Vector<Tok, P>>(ctx, cfg, rng),
        Kind::Queue => go::<Queue<Tok, P>>(ctx, cfg, rng),
        Kind::HtMap if cfg.stateless => go::<HashTrieMap<Tok, Tok, P, ZB>>(ctx, cfg, rng),
        Kind::HtMap => go::<HashTrieMap<Tok, Tok, P, HB>>(ctx, cfg, rng),
        Kind::RbMap => go::<RedBlackTreeMap<Tok, Tok, P>>(ctx, cfg, rng),
        Kind::HtSet if cfg.stateless => go::<HashTrieSet<Tok, P, ZB>>(ctx, cfg, rng),
        Kind::HtSet => go::<HashTrieSet<Tok, P, HB>>(ctx, cfg, rng),
        Kind::RbSet => go::<RedBlackTreeSet<Tok, P>>(ctx, cfg, rng),
    }
}

fn main() {
    run(Plan { quick: 400_000, thorough: 8_000_000, hang_secs: 150 }, |ctx, case, rng| {
        tok::reset();
        // An iterator that never ends must not take the machine with it.
        tok::set_budget(100_000_000);
        let mut cfg = random_cfg(KINDS[(case % 8) as usize], rng);
        if case % 1600 < 8 {
            cfg.universe = 3000;
        }
        note_cfg(ctx, &cfg);
        ctx.t(|| cfg.describe());
        match cfg.ptr {
            Ptr::Rc => by_kind::<RcK>(ctx, &cfg, rng)?,
            Ptr::Arc => by_kind::<ArcK>(ctx, &cfg, rng)?,
            Ptr::ArcT => by_kind::<ArcTK>(ctx, &cfg, rng)?,
        }
        element_errors()
    });
}
