//! Histories over many coexisting versions, monitored against the executable model.

use crate::ctx::{Ctx, Res};
use crate::model::{Kind, Model, Op, Ret};
use crate::pool::{Gen, note_cfg, op_fp, random_cfg};
use crate::rng::Rng;
use crate::subj::{Cfg, Subj, empty};
use crate::tok;
use crate::{ensure, ensure_eq};

pub struct Version {
    pub s: Box<dyn Subj>,
    pub m: Model,
    pub id: usize,
}

pub fn start(cfg: &Cfg) -> Version {
    Version { s: empty(cfg), m: Model::new(cfg.kind), id: 0 }
}

pub fn element_errors() -> Res {
    let e = tok::take_errors();
    ensure!(e.is_empty(), "{}", e.join("; "));
    Ok(())
}

fn boundaries(ctx: &mut Ctx, cfg: &Cfg, before: usize, after: usize) {
    if cfg.kind == Kind::Vector && before != after {
        let (lo, hi) = (before.min(after), before.max(after));
        let full = 1usize << cfg.bits.min(30);
        // Crossing a capacity of the trie: the root grows or shrinks.
        let mut cap = full;
        while cap <= hi {
            if lo <= cap && cap < hi {
                ctx.count("vector_root_height_changes", 1);
            }
            cap = match cap.checked_mul(full) {
                Some(c) => c,
                None => break,
            };
        }
    }
    if before > 0 && after == 0 {
        ctx.count("became_empty", 1);
    }
    ctx.max("size", after as u64);
}

/// One random history; every operation's result, and the version it produced, is compared with the model.
pub fn model_case(ctx: &mut Ctx, kinds: &[Kind], rng: &mut Rng, max_ops: usize) -> Res {
    tok::reset();
    let kind = *rng.pick(kinds);
    let cfg = random_cfg(kind, rng);
    note_cfg(ctx, &cfg);
    ctx.t(|| cfg.describe());
    let mut g = Gen::new(&cfg, rng);
    let keep = *rng.pick(&[1usize, 2, 4, 8]);
    let ops = rng.range(8, max_ops);
    let mut pool = vec![start(&cfg)];
    let mut next = 1;
    let mut mutations = 0;
    for op in g.prefill(&cfg, rng) {
        ctx.t(|| format!("v0.{op:?} in place"));
        ctx.fp(op_fp(&op));
        pool[0].m.apply(&op);
        pool[0].s.apply_mut(&op);
    }
    ctx.eval();
    pool[0].s.check(&pool[0].m, rng, true).map_err(|e| format!("{e}, after filling v0 ({})", cfg.describe()))?;

    // The callbacks one history can legitimately make are orders of magnitude below this.
    tok::set_budget(200_000_000);
    for step in 0..ops {
        let i = rng.below(pool.len());
        let op = g.op(&cfg, &pool[i].m, rng);
        ctx.fp(op_fp(&op));
        ctx.count(op.label(), 1);
        let form = rng.below(10);
        let before = pool[i].m.len();
        let want;
        let mut m;
        let at;
        match form {
            // Persistent form.
            0..=3 => {
                m = pool[i].m.clone();
                want = m.apply(&op);
                ctx.t(|| format!("{step}: v{next} = v{}.{op:?}", pool[i].id));
                let (s, got) = pool[i].s.apply(&op);
                ensure_eq!(got, want, "result of the persistent {op:?} (step {step}, {})", cfg.describe());
                pool.push(Version { s, m, id: next });
                next += 1;
                at = pool.len() - 1;
                ctx.count("form_persistent", 1);
            }
            // In place on a clone.
            4 => {
                let mut s = pool[i].s.dup();
                m = pool[i].m.clone();
                want = m.apply(&op);
                ctx.t(|| format!("{step}: v{next} = v{}.clone(); v{next}.{op:?} in place", pool[i].id));
                let got = s.apply_mut(&op);
                ensure_eq!(got, want, "result of the in-place {op:?} on a clone (step {step}, {})", cfg.describe());
                pool.push(Version { s, m, id: next });
                next += 1;
                at = pool.len() - 1;
                ctx.count("form_clone_then_in_place", 1);
            }
            // In place.
            _ => {
                ctx.t(|| format!("{step}: v{}.{op:?} in place", pool[i].id));
                want = pool[i].m.apply(&op);
                let got = pool[i].s.apply_mut(&op);
                ensure_eq!(got, want, "result of the in-place {op:?} (step {step}, {})", cfg.describe());
                at = i;
                ctx.count("form_in_place", 1);
            }
        }
        if want == Ret::Bool(false) || want == Ret::Panicked {
            ctx.count("refused", 1);
        } else {
            mutations += 1;
        }
        let after = pool[at].m.len();
        boundaries(ctx, &cfg, before, after);
        let deep = after <= 24 || rng.chance(1, 6);
        ctx.eval();
        pool[at]
            .s
            .check(&pool[at].m, rng, deep)
            .map_err(|e| format!("{e}, after {op:?} (step {step}, {})", cfg.describe()))?;
        if rng.chance(1, 12) {
            let j = rng.below(pool.len());
            ctx.eval();
            pool[j].s.check(&pool[j].m, rng, true).map_err(|e| {
                format!("{e}, in v{} looked at again after step {step} ({})", pool[j].id, cfg.describe())
            })?;
        }
        while pool.len() > keep {
            let j = rng.below(pool.len());
            ctx.t(|| format!("drop v{}", pool[j].id));
            pool.swap_remove(j);
        }
    }
    for v in &pool {
        ctx.eval();
        v.s.check(&v.m, rng, true).map_err(|e| format!("{e}, in v{} at the end ({})", v.id, cfg.describe()))?;
    }
    element_errors()?;
    if mutations >= 4 {
        ctx.nontrivial();
    }
    if ctx.samples.len() < 2 && !ctx.tracing && mutations > 10 {
        ctx.samples.push(format!("{}: {ops} operations, {} versions made, up to {keep} alive, largest target size {}", cfg.describe(), next, g.target));
    }
    Ok(())
}

/// One long history on few versions: sizes far beyond what the short ones reach.
pub fn big_case(ctx: &mut Ctx, cfg: &Cfg, size: usize, rng: &mut Rng) -> Res {
    tok::reset();
    note_cfg(ctx, cfg);
    ctx.t(|| format!("big: {} size {size}", cfg.describe()));
    ctx.fp(size as u64);
    ctx.count("big_cases", 1);
    let mut v = start(cfg);
    let mut old: Vec<Version> = vec![];
    let mut g = Gen::with_target(cfg, size, rng);
    let caps: Vec<usize> = {
        let full = 1usize << cfg.bits.min(20);
        let mut c = vec![];
        let mut x = full;
        while x <= size * 2 {
            c.push(x);
            x *= full;
        }
        c
    };
    let mut step = 0usize;
    // Grow in bulk, stopping around the capacities, then shrink in bulk.
    let bulk_put = |g: &mut Gen, m: &Model, rng: &mut Rng| -> Op {
        if cfg.kind.is_seq() {
            Op::Put((cfg.key(rng.below(cfg.universe as usize) as u32), g.uid()))
        } else {
            let mut i = rng.below(cfg.universe as usize) as u32;
            for _ in 0..8 {
                if !m.contains(cfg.key(i)) {
                    break;
                }
                i = rng.below(cfg.universe as usize) as u32;
            }
            Op::Insert((cfg.key(i), g.uid()), (i, g.uid()))
        }
    };
    let near = |n: usize| caps.iter().any(|c| n + 3 >= *c && n <= c + 3);
    let mut up = true;
    let mut phases = 0;
    while phases < 3 {
        step += 1;
        let n = v.m.len();
        let op = if near(n) && rng.chance(2, 3) || rng.chance(1, 50) {
            g.op(cfg, &v.m, rng)
        } else if up {
            bulk_put(&mut g, &v.m, rng)
        } else if cfg.kind.is_seq() {
            Op::Take
        } else {
            let k = match &v.m {
                Model::Map(_, b) => match rng.below(3) {
                    0 => b.first_key_value().map(|x| *x.0),
                    1 => b.last_key_value().map(|x| *x.0),
                    _ => b.range(cfg.key(rng.below(cfg.universe as usize) as u32)..).next().map(|x| *x.0),
                },
                Model::Seq(..) => None,
            };
            Op::Remove(k.unwrap_or(0), true)
        };
        if matches!(op, Op::Reverse) && n > 5000 && rng.chance(9, 10) {
            continue;
        }
        let persistent = rng.chance(1, if n > 2000 { 40 } else { 8 });
        let want = if persistent && rng.chance(1, 4) && n < 20_000 {
            let mut m = v.m.clone();
            let want = m.apply(&op);
            let (s, got) = v.s.apply(&op);
            ensure_eq!(got, want, "result of the persistent {op:?} at size {n}");
            let prev = std::mem::replace(&mut v, Version { s, m, id: step });
            if old.len() < 4 {
                old.push(prev);
            } else {
                let j = rng.below(4);
                old[j] = prev;
            }
            want
        } else if persistent {
            let want = v.m.apply(&op);
            let (s, got) = v.s.apply(&op);
            ensure_eq!(got, want, "result of the persistent {op:?} at size {n}");
            v.s = s;
            want
        } else {
            let want = v.m.apply(&op);
            let got = v.s.apply_mut(&op);
            ensure_eq!(got, want, "result of the in-place {op:?} at size {n}");
            want
        };
        let _ = want;
        boundaries(ctx, cfg, n, v.m.len());
        ctx.eval();
        v.s.check(&v.m, rng, false).map_err(|e| format!("{e}, after {op:?} at size {n} ({})", cfg.describe()))?;
        if up && v.m.len() >= size {
            ctx.eval();
            v.s.check(&v.m, rng, true).map_err(|e| format!("{e}, at size {} ({})", v.m.len(), cfg.describe()))?;
            up = false;
            phases += 1;
        } else if !up && (v.m.len() <= size / 4 || v.m.is_empty()) {
            ctx.eval();
            v.s.check(&v.m, rng, true).map_err(|e| format!("{e}, at size {} ({})", v.m.len(), cfg.describe()))?;
            up = true;
            phases += 1;
        }
        // With few keys the size may not be reachable.
        if step > size * 12 + 2000 {
            break;
        }
    }
    for o in &old {
        ctx.eval();
        o.s.check(&o.m, rng, true).map_err(|e| format!("{e}, in an old version of size {} ({})", o.m.len(), cfg.describe()))?;
    }
    ctx.count("big_steps", step as u64);
    element_errors()?;
    ctx.nontrivial();
    if ctx.samples.len() < 3 && !ctx.tracing {
        ctx.samples.push(format!("big: {} up to {size} elements in {step} steps", cfg.describe()));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ recorded histories

/// What was done, to be done again.
#[derive(Clone, Debug)]
pub enum Step {
    Persist(usize, Op),
    CloneThen(usize, Op),
    InPlace(usize, Op),
    Clone(usize),
    Drop(usize),
    Rebuild(usize),
    Collect(usize),
    Compare(usize, usize),
    Overwrite(usize, usize),
}

pub fn perform(pool: &mut Vec<Box<dyn Subj>>, s: &Step) {
    match s {
        Step::Persist(i, op) => {
            let v = pool[*i].apply(op).0;
            pool.push(v);
        }
        Step::CloneThen(i, op) => {
            let mut v = pool[*i].dup();
            v.apply_mut(op);
            pool.push(v);
        }
        Step::InPlace(i, op) => {
            pool[*i].apply_mut(op);
        }
        Step::Clone(i) => {
            let v = pool[*i].dup();
            pool.push(v);
        }
        Step::Drop(i) => {
            pool.swap_remove(*i);
        }
        Step::Rebuild(i) => {
            let v = pool[*i].rebuilt();
            pool.push(v);
        }
        Step::Collect(i) => {
            let v = pool[*i].collected();
            pool.push(v);
        }
        Step::Compare(i, j) => {
            let _ = pool[*i].same(pool[*j].as_ref());
            let _ = pool[*i].cmp_with(pool[*j].as_ref());
            let _ = pool[*i].show();
        }
        Step::Overwrite(i, j) => {
            let v = pool[*j].dup();
            pool[*i] = v;
        }
    }
}

/// Exactly the instances that the versions show are alive.
pub fn audit(pool: &[Box<dyn Subj>], m: &[Model], seen: &mut Vec<u32>) -> Res {
    seen.clear();
    let mut shown = 0;
    for v in pool {
        v.each(&mut |k, val| {
            seen.push(k.inst());
            if let Some(v) = val {
                seen.push(v.inst());
            }
        });
    }
    for x in m {
        shown += x.len() * if x.kind().is_map() { 2 } else { 1 };
    }
    ensure_eq!(seen.len(), shown, "number of elements the versions show");
    seen.sort_unstable();
    seen.dedup();
    for i in seen.iter() {
        ensure!(tok::is_live(*i), "a version shows instance {i}, which has been dropped");
    }
    if tok::live() != seen.len() {
        let extra: Vec<u32> = tok::live_set().into_iter().filter(|i| seen.binary_search(i).is_err()).collect();
        return Err(format!(
            "{} instances are alive, but the versions hold {}: instances {extra:?} are kept by nothing visible",
            tok::live(),
            seen.len()
        ));
    }
    Ok(())
}

/// The models' side of a step.
pub fn perform_model(m: &mut Vec<Model>, s: &Step) {
    match s {
        Step::Persist(i, op) | Step::CloneThen(i, op) => {
            let mut x = m[*i].clone();
            x.apply(op);
            m.push(x);
        }
        Step::InPlace(i, op) => {
            m[*i].apply(op);
        }
        Step::Clone(i) | Step::Rebuild(i) | Step::Collect(i) => {
            let x = m[*i].clone();
            m.push(x)
        }
        Step::Drop(i) => {
            m.swap_remove(*i);
        }
        Step::Compare(..) => {}
        Step::Overwrite(i, j) => m[*i] = m[*j].clone(),
    }
}

/// A random history that leaves between one and `keep` versions, with the models at its end.
pub fn random_steps(cfg: &Cfg, g: &mut Gen, keep: usize, ops: usize, rng: &mut Rng) -> (Vec<Step>, Vec<Model>) {
    let mut m = vec![Model::new(cfg.kind)];
    let mut steps = vec![];
    for op in g.prefill(cfg, rng) {
        let s = Step::InPlace(0, op);
        perform_model(&mut m, &s);
        steps.push(s);
    }
    for _ in 0..ops {
        let i = rng.below(m.len());
        let s = if m.len() > 1 && (m.len() > keep || rng.chance(1, 12)) {
            Step::Drop(i)
        } else {
            match rng.below(20) {
                0..=5 => Step::Persist(i, g.op(cfg, &m[i], rng)),
                6..=7 => Step::CloneThen(i, g.op(cfg, &m[i], rng)),
                8..=16 => Step::InPlace(i, g.op(cfg, &m[i], rng)),
                17 => Step::Clone(i),
                18 => Step::Rebuild(i),
                _ => Step::Overwrite(i, rng.below(m.len())),
            }
        };
        perform_model(&mut m, &s);
        steps.push(s);
    }
    while m.len() > keep {
        let s = Step::Drop(rng.below(m.len()));
        perform_model(&mut m, &s);
        steps.push(s);
    }
    (steps, m)
}
