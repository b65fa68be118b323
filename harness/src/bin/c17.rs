//! C17: a panic in user code never corrupts a collection.
//!
//! From the end of a random history, one operation is executed again and again, from the same state rebuilt each time,
//! with a panic injected at each of its callbacks in turn; the state after each panic is audited.
use core_h::alloc;
use core_h::ctx::{Ctx, Plan, Res, run};
use core_h::hashers::set_default;
use core_h::history::{Step, audit, element_errors, perform, random_steps};
use core_h::model::{Item, KINDS, Kind, Model, Op, P as Pair};
use core_h::pool::{Gen, note_cfg, op_fp, random_cfg};
use core_h::rng::Rng;
use core_h::subj::{Cfg, Subj, empty};
use core_h::tok::{self, Tok};
use core_h::{ensure, ensure_eq};
use std::panic::{AssertUnwindSafe, catch_unwind};

const ALL: u32 = tok::M_CLONE | tok::M_CMP | tok::M_EQ | tok::M_HASH | tok::M_FMT | tok::M_ITER | tok::M_NEW;

/// One operation under fire.
#[derive(Clone, Debug)]
enum Act {
    InPlace(usize, Op),
    Persist(usize, Op),
    Extend(usize, Vec<(Pair, Pair)>, bool),
    Collect(usize, Vec<(Pair, Pair)>, bool),
    Eq(usize, usize),
    Cmp(usize, usize),
    Relations(usize, usize),
    Hash(usize),
    Show(usize),
    Debug(usize),
    Clone(usize),
    /// Lookups, ranges, and iteration in both directions.
    Read(usize, u64),
    Overwrite(usize, Vec<(Pair, Pair)>),
}

impl Act {
    fn label(&self) -> &'static str {
        match self {
            Act::InPlace(..) => "act_in_place",
            Act::Persist(..) => "act_persistent",
            Act::Extend(..) => "act_extend",
            Act::Collect(..) => "act_collect",
            Act::Eq(..) => "act_eq",
            Act::Cmp(..) => "act_cmp",
            Act::Relations(..) => "act_relations",
            Act::Hash(..) => "act_hash",
            Act::Show(..) => "act_display",
            Act::Debug(..) => "act_debug",
            Act::Clone(..) => "act_clone",
            Act::Read(..) => "act_read",
            Act::Overwrite(..) => "act_overwrite",
        }
    }
    /// The version it may change.
    fn target(&self) -> Option<usize> {
        match self {
            Act::InPlace(i, _) | Act::Extend(i, ..) | Act::Overwrite(i, _) => Some(*i),
            _ => None,
        }
    }
}

/// A user's iterator: every call of it can panic, and so can the construction of what it gives.
struct Feed<'a> {
    items: &'a [(Pair, Pair)],
    at: usize,
    exact: bool,
    map: bool,
}
impl Iterator for Feed<'_> {
    type Item = (Tok, Option<Tok>);
    fn next(&mut self) -> Option<Self::Item> {
        tok::tick_iter();
        let (k, v) = *self.items.get(self.at)?;
        self.at += 1;
        let k = Tok::new(k.0, k.1);
        tok::tick_new();
        let v = if self.map { Some(Tok::new(v.0, v.1)) } else { None };
        tok::tick_new();
        Some((k, v))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        tok::tick_iter();
        let n = self.items.len() - self.at;
        if self.exact { (n, Some(n)) } else { (0, None) }
    }
}

/// What it returned, as something to drop later, so that dropping is not part of it.
#[derive(Default)]
struct Kept {
    #[allow(dead_code)]
    v: Option<Box<dyn Subj>>,
    err: Option<String>,
}

fn act(pool: &mut [Box<dyn Subj>], m: &[Model], a: &Act) -> Kept {
    let map = pool[0].cfg().kind.is_map();
    let mut k = Kept::default();
    match a {
        Act::InPlace(i, op) => {
            pool[*i].apply_mut(op);
        }
        Act::Persist(i, op) => k.v = Some(pool[*i].apply(op).0),
        Act::Extend(i, items, exact) => {
            pool[*i].extend_with(&mut Feed { items, at: 0, exact: *exact, map });
        }
        Act::Collect(i, items, exact) => {
            k.v = Some(pool[*i].collect_from(&mut Feed { items, at: 0, exact: *exact, map }))
        }
        Act::Eq(i, j) => {
            let _ = pool[*i].same(pool[*j].as_ref());
        }
        Act::Cmp(i, j) => {
            let _ = pool[*i].cmp_with(pool[*j].as_ref());
        }
        Act::Relations(i, j) => {
            let _ = pool[*i].relations(pool[*j].as_ref());
        }
        Act::Hash(i) => {
            let _ = pool[*i].record();
        }
        Act::Show(i) => {
            let _ = pool[*i].show();
        }
        Act::Debug(i) => {
            let _ = pool[*i].debug();
        }
        Act::Clone(i) => k.v = Some(pool[*i].dup()),
        Act::Read(i, seed) => k.err = pool[*i].check(&m[*i], &mut Rng::new(*seed), true).err(),
        Act::Overwrite(i, items) => {
            let v = pool[*i].collect_from(&mut Feed { items, at: 0, exact: true, map });
            pool[*i] = v;
        }
    }
    k
}

fn shown(s: &dyn Subj) -> Vec<(Item, u32, Option<u32>)> {
    let mut v = vec![];
    s.each(&mut |k, x| v.push(((k.pair(), x.map(Tok::pair)), k.inst(), x.map(Tok::inst))));
    v
}

/// Everything in `before` that the operation is not about is still in `after`, in place.
fn unrelated_kept(a: &Act, before: &Model, after: &Model) -> Res {
    match (a, before, after) {
        (_, Model::Map(_, b), Model::Map(_, n)) => {
            let mine = |k: &u32| match a {
                Act::InPlace(_, Op::Insert(p, _)) => p.0 == *k,
                Act::InPlace(_, Op::Remove(x, _) | Op::MapGetMut(x, ..) | Op::MapPeekMut(x)) => x == k,
                Act::Extend(_, items, _) => items.iter().any(|i| i.0.0 == *k),
                _ => false,
            };
            for (k, v) in b {
                if !mine(k) {
                    ensure_eq!(n.get(k), Some(v), "entry {k}, which the operation is not about");
                }
            }
            for (k, v) in n {
                if !mine(k) {
                    ensure_eq!(b.get(k), Some(v), "entry {k}, which nobody inserted");
                }
            }
            Ok(())
        }
        (_, Model::Seq(kind, b), Model::Seq(_, n)) => match a {
            Act::InPlace(_, Op::Set(i, _) | Op::GetMut(i, _) | Op::IndexMut(i, _) | Op::PeekMut(i)) => {
                ensure_eq!(n.len(), b.len(), "length");
                for j in 0..b.len() {
                    ensure!(j == *i || b[j] == n[j], "element {j}, which the operation is not about, changed");
                }
                Ok(())
            }
            Act::InPlace(_, Op::Extend(x)) => {
                let full: Vec<Pair> = b.iter().chain(x).copied().collect();
                ensure!(n.len() >= b.len() && n.iter().eq(full.iter().take(n.len())), "elements lost or changed by an interrupted extension: {n:?}");
                Ok(())
            }
            Act::Extend(_, x, _) => {
                let full: Vec<Pair> = b.iter().copied().chain(x.iter().map(|i| i.0)).collect();
                ensure!(n.len() >= b.len() && n.iter().eq(full.iter().take(n.len())), "elements lost or changed by an interrupted extension: {n:?}");
                Ok(())
            }
            // No user code runs in the middle of the others: what they are about is one end (or, of a reversal, the order).
            Act::InPlace(_, Op::Reverse) => {
                ensure!(n.iter().eq(b.iter()) || n.iter().eq(b.iter().rev()), "elements lost by an interrupted reversal");
                Ok(())
            }
            Act::InPlace(_, op) => {
                let mut p = Model::Seq(*kind, b.clone());
                p.apply(op);
                ensure!(n == b || Model::Seq(*kind, n.clone()) == p, "elements lost by an interrupted operation");
                Ok(())
            }
            _ => {
                ensure!(n == b, "elements lost");
                Ok(())
            }
        },
        _ => Err("harness: wrong model".into()),
    }
}

struct Setup {
    cfg: Cfg,
    steps: Vec<Step>,
}

fn rebuild(s: &Setup) -> Vec<Box<dyn Subj>> {
    tok::reset();
    let mut pool = Vec::with_capacity(s.steps.len() + 1);
    pool.push(empty(&s.cfg));
    for st in &s.steps {
        perform(&mut pool, st);
    }
    pool
}

fn case(ctx: &mut Ctx, kind: Kind, rng: &mut Rng) -> Res {
    let mut cfg = random_cfg(kind, rng);
    if cfg.universe > 40 {
        cfg.universe = rng.range(1, 40) as u32;
    }
    set_default(cfg.mode);
    note_cfg(ctx, &cfg);
    ctx.t(|| cfg.describe());
    let target = rng.range(1, 40);
    let mut g = Gen::with_target(&cfg, target, rng);
    let keep = rng.range(1, 4);
    let ops = rng.range(0, 30);
    let (steps, models) = random_steps(&cfg, &mut g, keep, ops, rng);
    for s in &steps {
        if let Step::InPlace(_, op) | Step::Persist(_, op) | Step::CloneThen(_, op) = s {
            ctx.fp(op_fp(op));
        }
    }
    let setup = Setup { cfg: cfg.clone(), steps };
    let n = models.len();
    for _ in 0..4 {
        let i = rng.below(n);
        let j = rng.below(n);
        let items = |g: &mut Gen, rng: &mut Rng| -> Vec<(Pair, Pair)> {
            (0..rng.below(12)).map(|_| ((cfg.key(rng.below(cfg.universe as usize) as u32), g.uid()), (rng.below(9) as u32, g.uid()))).collect()
        };
        let a = match rng.below(26) {
            0..=9 => Act::InPlace(i, g.op(&cfg, &models[i], rng)),
            10..=13 => Act::Persist(i, g.op(&cfg, &models[i], rng)),
            14 | 15 => Act::Extend(i, items(&mut g, rng), rng.chance(1, 2)),
            16 | 17 => Act::Collect(i, items(&mut g, rng), rng.chance(1, 2)),
            18 => Act::Eq(i, j),
            19 => Act::Cmp(i, j),
            20 => Act::Relations(i, j),
            21 => Act::Hash(i),
            22 => if rng.chance(1, 2) { Act::Show(i) } else { Act::Debug(i) },
            23 => if rng.chance(1, 4) { Act::Clone(i) } else { Act::Overwrite(i, items(&mut g, rng)) },
            _ => Act::Read(i, rng.next()),
        };
        fire(ctx, &setup, &models, &a, rng).map_err(|e| format!("{e} ({a:?}, {})", cfg.describe()))?;
    }
    Ok(())
}

fn fire(ctx: &mut Ctx, setup: &Setup, models: &[Model], a: &Act, rng: &mut Rng) -> Res {
    // How many callbacks there are, and that the operation is fine without a fault.
    let mut pool = rebuild(setup);
    let c0 = tok::counts();
    let r = act(&mut pool, models, a);
    let c = tok::counts().since(c0);
    if let Some(e) = r.err {
        return Err(e);
    }
    drop(r);
    drop(pool);
    let points: u64 = (0..tok::NCB as u64).filter(|b| ALL & (1 << b) != 0).map(|b| c.0[b as usize]).sum();
    let mut ks: Vec<u64> = (0..points).collect();
    if points > 48 {
        rng.shuffle(&mut ks);
        ks.truncate(48);
    } else {
        ctx.count("operations_fully_enumerated", 1);
    }
    ctx.count("operations", 1);
    ctx.count("callbacks_seen", points);
    ctx.fp(points);
    for k in ks {
        let mut pool = rebuild(setup);
        tok::reserve(1 << 12);
        let before: Vec<_> = pool.iter().map(|v| shown(v.as_ref())).collect();
        ctx.t(|| format!("{a:?} with a panic at callback {k} of {points}; {} versions", pool.len()));
        tok::arm(ALL, k);
        let r = catch_unwind(AssertUnwindSafe(|| act(&mut pool, models, a)));
        let fired = tok::disarm();
        ensure!(fired, "the same operation from the same state made fewer callbacks ({k} of {points})");
        ctx.eval();
        ctx.count("faults_injected", 1);
        ctx.count(a.label(), 1);
        ctx.nontrivial();
        let at = format!("after a panic at callback {k} of {points}");
        match r {
            Ok(r) => {
                // The panic did not come out: no operation of this crate may swallow it.
                drop(r);
                return Err(format!("the panic was swallowed, {at}"));
            }
            Err(e) => {
                if !e.is::<tok::Injected>() {
                    let (m, l) = core_h::ctx::last_panic();
                    return Err(format!("another panic than the injected one: {m} at {l}, {at}"));
                }
            }
        }
        element_errors().map_err(|e| format!("{e}, {at}"))?;
        let mut now: Vec<Model> = vec![];
        for (v, b) in before.iter().enumerate() {
            let s = shown(pool[v].as_ref());
            if a.target() == Some(v) {
                let items: Vec<Item> = s.iter().map(|x| x.0).collect();
                let m = Model::of_items(setup.cfg.kind, &items).map_err(|e| format!("v{v}: {e}, {at}"))?;
                // Size, lookups, ends and iteration agree.
                pool[v].check(&m, rng, true).map_err(|e| format!("the updated version is inconsistent: {e}, {at}"))?;
                unrelated_kept(a, &models[v], &m).map_err(|e| format!("{e}, {at}"))?;
                if items != models[v].items() {
                    ctx.count("changed_before_the_panic", 1);
                }
                now.push(m);
            } else {
                ensure!(s == *b, "v{v} changed, {at}: {s:?} instead of {b:?}");
                pool[v].check(&models[v], rng, k % 4 == 0).map_err(|e| format!("v{v}: {e}, {at}"))?;
                now.push(models[v].clone());
            }
        }
        audit(&pool, &now, &mut vec![]).map_err(|e| format!("{e}, {at}"))?;
        // Life goes on.
        let mut g = Gen::with_target(&setup.cfg, 20, rng);
        for _ in 0..rng.below(8) {
            let i = rng.below(pool.len());
            let op = g.op(&setup.cfg, &now[i], rng);
            let want = now[i].apply(&op);
            let got = pool[i].apply_mut(&op);
            ensure_eq!(got, want, "result of {op:?}, {at}");
            pool[i].check(&now[i], rng, true).map_err(|e| format!("{e}, after {op:?}, {at}"))?;
        }
        audit(&pool, &now, &mut vec![]).map_err(|e| format!("{e} later, {at}"))?;
        drop(pool);
        ensure_eq!(tok::live(), 0, "elements alive when every version is gone, {at}");
        element_errors().map_err(|e| format!("{e}, {at}"))?;
    }
    // The memory itself, at one of the points.
    if points > 0 {
        let k = rng.next() % points;
        tok::reset();
        tok::reserve(1 << 14);
        let mut pool: Vec<Box<dyn Subj>> = Vec::with_capacity(setup.steps.len() + 2);
        let b = alloc::snap();
        pool.push(empty(&setup.cfg));
        for st in &setup.steps {
            perform(&mut pool, st);
        }
        tok::arm(ALL, k);
        let r = catch_unwind(AssertUnwindSafe(|| act(&mut pool, models, a)));
        tok::disarm();
        drop(r);
        pool.clear();
        let e = alloc::snap();
        if tok::within_reserve() {
            ctx.count("allocator_balances", 1);
            ensure!(
                b.live == e.live && b.live_n == e.live_n,
                "{} bytes in {} blocks are still allocated when every version is gone, after a panic at callback {k} of {points}",
                e.live - b.live,
                e.live_n - b.live_n
            );
        }
    }
    if ctx.samples.len() < 3 && !ctx.tracing && points > 4 {
        ctx.samples.push(format!("{}: {points} callbacks of {a:?}, a panic at each in turn", setup.cfg.describe()));
    }
    Ok(())
}

fn main() {
    run(Plan { quick: 40_000, thorough: 1_200_000, hang_secs: 120 }, |ctx, c, rng| case(ctx, KINDS[(c % 8) as usize], rng));
}
