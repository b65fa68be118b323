//! C12: every value is released exactly once, as soon as no version holds it, and all memory is given back.
//!
//! After each operation the set of living element instances must be exactly the set of the instances that the living
//! versions show. A second run of the same history, with nothing else allocating, must leave the allocator balance
//! where it was.
use core_h::typed::{self, Want};
use core_h::alloc;
use core_h::ctx::{Ctx, Plan, Res, run};
use core_h::history::{Step, audit, element_errors, perform};
use core_h::model::{KINDS, Kind, Model};
use core_h::pool::{Gen, note_cfg, op_fp, random_cfg};
use core_h::rng::Rng;
use core_h::subj::{Cfg, Subj, empty};
use core_h::tok;
use core_h::{ensure, ensure_eq};

fn case(ctx: &mut Ctx, kind: Kind, rng: &mut Rng) -> Res {
    tok::reset();
    let cfg: Cfg = random_cfg(kind, rng);
    note_cfg(ctx, &cfg);
    ctx.t(|| cfg.describe());
    let mut g = Gen::new(&cfg, rng);
    let keep = rng.range(1, 7);
    let ops = rng.range(10, 80);
    let mut pool: Vec<Box<dyn Subj>> = vec![empty(&cfg)];
    let mut m: Vec<Model> = vec![Model::new(kind)];
    let mut steps: Vec<Step> = vec![];
    let mut seen = vec![];
    let pre = g.prefill(&cfg, rng);
    for op in &pre {
        ctx.fp(op_fp(op));
        steps.push(Step::InPlace(0, op.clone()));
    }
    let n_pre = steps.len();
    for s in 0..n_pre {
        let st = steps[s].clone();
        perform(&mut pool, &st);
        if let Step::InPlace(_, op) = &st {
            m[0].apply(op);
        }
    }
    ctx.eval();
    audit(&pool, &m, &mut seen).map_err(|e| format!("{e}, after filling ({})", cfg.describe()))?;
    let mut drops = 0;
    for n in 0..ops {
        let i = rng.below(pool.len());
        let st = if pool.len() > keep && rng.chance(2, 3) || pool.len() > keep + 3 {
            drops += 1;
            Step::Drop(i)
        } else {
            match rng.below(24) {
                0..=6 => Step::Persist(i, g.op(&cfg, &m[i], rng)),
                7..=9 => Step::CloneThen(i, g.op(&cfg, &m[i], rng)),
                10..=18 => Step::InPlace(i, g.op(&cfg, &m[i], rng)),
                19 => Step::Clone(i),
                20 => Step::Rebuild(i),
                21 => Step::Collect(i),
                22 => Step::Compare(i, rng.below(pool.len())),
                _ => Step::Overwrite(i, rng.below(pool.len())),
            }
        };
        ctx.t(|| format!("{n}: {st:?} ({} versions)", pool.len()));
        match &st {
            Step::Persist(i, op) | Step::CloneThen(i, op) => {
                ctx.fp(op_fp(op));
                let mut x = m[*i].clone();
                x.apply(op);
                m.push(x);
            }
            Step::InPlace(i, op) => {
                ctx.fp(op_fp(op));
                m[*i].apply(op);
            }
            Step::Clone(i) | Step::Rebuild(i) | Step::Collect(i) => {
                let x = m[*i].clone();
                m.push(x)
            }
            Step::Drop(i) => {
                m.swap_remove(*i);
            }
            Step::Compare(..) => {}
            Step::Overwrite(i, j) => m[*i] = m[*j].clone(),
        }
        perform(&mut pool, &st);
        ctx.eval();
        audit(&pool, &m, &mut seen).map_err(|e| format!("{e}, after {st:?} (step {n}, {})", cfg.describe()))?;
        steps.push(st);
        if pool.is_empty() {
            pool.push(empty(&cfg));
            m.push(Model::new(kind));
            // Keep the record in step: an empty pool ends the recording.
            break;
        }
    }
    // Drop the rest in a random order.
    while !pool.is_empty() {
        let i = rng.below(pool.len());
        pool.swap_remove(i);
        m.swap_remove(i);
        ctx.eval();
        audit(&pool, &m, &mut seen).map_err(|e| format!("{e}, after dropping a version at the end ({})", cfg.describe()))?;
    }
    ensure_eq!(tok::live(), 0, "instances alive when every version is gone");
    element_errors()?;

    // The same history again, watching the allocator.
    tok::reset();
    tok::reserve(1 << 15);
    let mut pool: Vec<Box<dyn Subj>> = Vec::with_capacity(64);
    let before = alloc::snap();
    pool.push(empty(&cfg));
    for st in &steps {
        perform(&mut pool, st);
    }
    let during = alloc::snap();
    while !pool.is_empty() {
        let i = rng.below(pool.len());
        pool.swap_remove(i);
    }
    let after = alloc::snap();
    if tok::within_reserve() {
        ctx.eval();
        ctx.count("allocator_balances", 1);
        ensure!(
            after.live == before.live && after.live_n == before.live_n,
            "{} bytes in {} blocks are still allocated when every version is gone ({})",
            after.live - before.live,
            after.live_n - before.live_n,
            cfg.describe()
        );
    }
    ctx.count("allocations", during.allocs - before.allocs);
    ctx.count("elements_created", tok::created() as u64);
    if drops >= 3 {
        ctx.nontrivial();
    }
    if ctx.samples.len() < 2 && !ctx.tracing {
        ctx.samples.push(format!("{}: {} steps, {drops} versions dropped on the way", cfg.describe(), steps.len()));
    }
    Ok(())
}

fn main() {
    run(Plan { quick: 120_000, thorough: 2_500_000, hang_secs: 150 }, |ctx, c, rng| {
        let kind = KINDS[(c % 8) as usize];
        if c / 8 % 8 == 3 {
            return typed::case(ctx, kind, Want { relations: false, balance: true }, rng);
        }
        case(ctx, kind, rng)
    });
}
