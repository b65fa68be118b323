//! C13: updates share structure: untouched elements are neither copied nor moved.
//!
//! Every element instance has an address. After each operation the instances that survive must be where they were, in
//! every version; the Clone counter of elements tells whether anything was copied; ptr_eq must answer as documented.
use core_h::ctx::{Ctx, Plan, Res, run};
use core_h::history::element_errors;
use core_h::model::{KINDS, Kind, Model, Op, Ret};
use core_h::pool::{Gen, note_cfg, op_fp, random_cfg};
use core_h::rng::Rng;
use core_h::subj::{Cfg, Subj, empty};
use core_h::tok::{self, Cb, Tok};
use core_h::ensure;
use std::collections::BTreeMap;

/// Where each instance of a version is, and what it says.
type Map = BTreeMap<u32, (usize, u32, u32)>;

fn places(v: &dyn Subj) -> Map {
    let mut m = Map::new();
    let mut see = |t: &Tok| {
        m.insert(t.inst(), (t.addr(), t.key(), t.uid()));
    };
    v.each(&mut |k, x| {
        see(k);
        if let Some(x) = x {
            see(x)
        }
    });
    m
}

struct V {
    s: Box<dyn Subj>,
    m: Model,
    at: Map,
    id: usize,
}

/// The uids that the operation may replace: everything else has to stay.
fn replaced(m: &Model, op: &Op) -> Vec<u32> {
    match (m, op) {
        (Model::Seq(k, s), Op::Take) => match k {
            Kind::Vector => s.back().map(|p| p.1).into_iter().collect(),
            _ => s.front().map(|p| p.1).into_iter().collect(),
        },
        (Model::Seq(_, s), Op::Set(i, _)) => s.get(*i).map(|p| p.1).into_iter().collect(),
        (Model::Seq(_, s), Op::GetMut(i, _) | Op::IndexMut(i, _) | Op::PeekMut(i)) => {
            s.get(*i).map(|p| p.1).into_iter().collect()
        }
        (Model::Map(..), Op::Insert(k, _)) => of_key(m, k.0),
        (Model::Map(..), Op::Remove(k, _) | Op::MapGetMut(k, _, _) | Op::MapPeekMut(k)) => of_key(m, *k),
        _ => vec![],
    }
}

fn of_key(m: &Model, k: u32) -> Vec<u32> {
    match m {
        Model::Map(kind, b) => match b.get(&k) {
            Some(e) if kind.is_map() => vec![e.0, e.1.1],
            Some(e) => vec![e.0],
            None => vec![],
        },
        Model::Seq(..) => vec![],
    }
}

/// What happened between the old places of a version and those of what came out of it.
fn compare(old: &Map, new: &Map, m_old: &Model, op: &Op, clones: u64, cloned: &[u32], shared: impl Fn(u32) -> bool) -> Res {
    let touched = replaced(m_old, op);
    // uids are unique within a case, but a clone keeps its uid: instances are what counts.
    for (inst, (addr, k, uid)) in old {
        if touched.contains(uid) {
            continue;
        }
        match new.get(inst) {
            Some((a, k2, u2)) => {
                ensure!(a == addr, "untouched element {k}#{uid} moved from {addr:#x} to {a:#x}");
                ensure!((k2, u2) == (k, uid), "untouched element {k}#{uid} says {k2}#{u2}");
            }
            None => return Err(format!("untouched element {k}#{uid} is no longer the same instance")),
        }
    }
    if !op.is_mut_access() {
        ensure!(clones == 0, "{clones} calls of the elements' Clone ({cloned:?})");
        return Ok(());
    }
    // Mutable access: at most the value, and its key, and only if another version still has it.
    let limit = touched.len() as u64;
    ensure!(clones <= limit, "mutable access cloned {clones} elements ({cloned:?})");
    for u in cloned {
        ensure!(touched.contains(u), "mutable access to {touched:?} cloned {u}");
        let inst = old.iter().find(|x| x.1.2 == *u).map(|x| *x.0);
        if let Some(inst) = inst {
            ensure!(shared(inst), "mutable access cloned element #{u}, which no other version shares");
        }
    }
    Ok(())
}

fn case(ctx: &mut Ctx, kind: Kind, rng: &mut Rng) -> Res {
    tok::reset();
    let cfg: Cfg = random_cfg(kind, rng);
    note_cfg(ctx, &cfg);
    ctx.t(|| cfg.describe());
    let mut g = Gen::new(&cfg, rng);
    let keep = rng.range(1, 6);
    let ops = rng.range(10, 60);
    let mut s = empty(&cfg);
    let mut m = Model::new(kind);
    for op in g.prefill(&cfg, rng) {
        ctx.fp(op_fp(&op));
        m.apply(&op);
        s.apply_mut(&op);
    }
    let at = places(s.as_ref());
    let mut pool = vec![V { s, m, at, id: 0 }];
    let mut next = 1;
    let mut changes = 0;
    for step in 0..ops {
        let i = rng.below(pool.len());
        let op = g.op(&cfg, &pool[i].m, rng);
        ctx.fp(op_fp(&op));
        let form = if op.is_mut_access() { 1 + rng.below(2) } else { rng.below(3) };
        ctx.t(|| format!("{step}: form {form} {op:?} on v{}", pool[i].id));
        let err = |e: String| format!("{e}, by {op:?} form {form} (step {step}, {})", cfg.describe());
        match form {
            0 => {
                tok::take_cloned();
                let c0 = tok::counts();
                let (s, _) = pool[i].s.apply(&op);
                let clones = tok::counts().since(c0).get(Cb::Clone);
                let cloned = tok::take_cloned();
                let at = places(s.as_ref());
                ctx.eval();
                compare(&pool[i].at, &at, &pool[i].m, &op, clones, &cloned, |_| true).map_err(err)?;
                let mut m = pool[i].m.clone();
                let ret = m.apply(&op);
                // Removing what is not there.
                if let (Op::Remove(..), Ret::Bool(false)) = (&op, ret) {
                    if let Some(p) = s.ptr_eq(pool[i].s.as_ref()) {
                        ctx.eval();
                        ctx.count("absent_removals", 1);
                        ensure!(p, "{}", err("removing an absent element did not return a version identical in memory".into()));
                    }
                }
                ctx.count("persistent", 1);
                pool.push(V { s, m, at, id: next });
                next += 1;
                changes += 1;
            }
            1 => {
                tok::take_cloned();
                let c0 = tok::counts();
                let s0 = pool[i].s.dup();
                ctx.eval();
                let n = tok::counts().since(c0).get(Cb::Clone);
                ensure!(n == 0, "{}", err(format!("cloning the version called the elements' Clone {n} times")));
                let at0 = places(s0.as_ref());
                ensure!(at0 == pool[i].at, "{}", err("a clone holds its elements elsewhere".into()));
                if let Some(p) = s0.ptr_eq(pool[i].s.as_ref()) {
                    ctx.count("clone_identities", 1);
                    ensure!(p, "{}", err("a clone is not identical in memory to its original".into()));
                }
                let mut s = s0;
                let c0 = tok::counts();
                let ret = s.apply_mut(&op);
                let clones = tok::counts().since(c0).get(Cb::Clone);
                let cloned = tok::take_cloned();
                let at = places(s.as_ref());
                ctx.eval();
                compare(&pool[i].at, &at, &pool[i].m, &op, clones, &cloned, |_| true).map_err(err)?;
                let mut m = pool[i].m.clone();
                m.apply(&op);
                if op.is_mut_access() {
                    ctx.count(if ret == Ret::Bool(false) { "mut_access_absent" } else { "mut_access_shared" }, 1);
                }
                pool.push(V { s, m, at, id: next });
                next += 1;
                changes += 1;
            }
            _ => {
                tok::take_cloned();
                let c0 = tok::counts();
                pool[i].s.apply_mut(&op);
                let clones = tok::counts().since(c0).get(Cb::Clone);
                let cloned = tok::take_cloned();
                let at = places(pool[i].s.as_ref());
                let shared = |inst: u32| pool.iter().enumerate().any(|(j, v)| j != i && v.at.contains_key(&inst));
                ctx.eval();
                compare(&pool[i].at, &at, &pool[i].m, &op, clones, &cloned, shared).map_err(err)?;
                if op.is_mut_access() {
                    ctx.count(if cloned.is_empty() { "mut_access_in_place" } else { "mut_access_copied" }, 1);
                }
                pool[i].m.apply(&op);
                pool[i].at = at;
                changes += 1;
            }
        }
        // Nothing may have moved in any other version.
        for v in &pool {
            let now = places(v.s.as_ref());
            ctx.eval();
            if now != v.at {
                return Err(err(format!("elements of v{} moved or changed: {:?} then {:?}", v.id, v.at, now)));
            }
        }
        // Identity in memory against equality of contents.
        if !kind.is_seq() {
            let (a, b) = (rng.below(pool.len()), rng.below(pool.len()));
            let (a, b) = (&pool[a], &pool[b]);
            if let Some(true) = a.s.ptr_eq(b.s.as_ref()) {
                ctx.count("identical_pairs", 1);
                ctx.eval();
                ensure!(
                    a.m == b.m && a.at == b.at,
                    "{}",
                    err(format!("v{} and v{} are identical in memory but differ: {:?} / {:?}", a.id, b.id, a.m, b.m))
                );
            }
            if rng.chance(1, 8) && !a.m.is_empty() {
                let r = a.s.rebuilt();
                ctx.eval();
                ctx.count("independent_pairs", 1);
                ensure!(
                    r.ptr_eq(a.s.as_ref()) == Some(false) && a.s.ptr_eq(r.as_ref()) == Some(false),
                    "{}",
                    err("an independently built version is identical in memory".into())
                );
            }
        }
        // Reading does not copy either.
        if rng.chance(1, 6) {
            let c0 = tok::counts();
            let (a, b) = (&pool[0], &pool[pool.len() - 1]);
            let _ = a.s.same(b.s.as_ref());
            let _ = a.s.cmp_with(b.s.as_ref());
            let _ = a.s.record();
            let _ = a.s.snapshot();
            let _ = a.s.show();
            let n = tok::counts().since(c0).get(Cb::Clone);
            ctx.eval();
            ensure!(n == 0, "{}", err(format!("reading called the elements' Clone {n} times")));
        }
        while pool.len() > keep {
            let j = rng.below(pool.len());
            pool.swap_remove(j);
        }
    }
    element_errors()?;
    if changes >= 5 {
        ctx.nontrivial();
    }
    if ctx.samples.len() < 2 && !ctx.tracing {
        ctx.samples.push(format!("{}: {ops} operations, {} versions, up to {keep} kept", cfg.describe(), next));
    }
    Ok(())
}

fn main() {
    run(Plan { quick: 60_000, thorough: 1_500_000, hang_secs: 150 }, |ctx, c, rng| {
        let kind = KINDS[(c % 8) as usize];
        case(ctx, kind, rng)
    });
}
