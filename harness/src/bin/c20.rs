//! C20: in-place and persistent forms of an operation agree.
//!
//! The same operation is applied to the same version in its persistent form, in place on a clone (everything shared),
//! in place on an unshared copy, and in place on a version that shares only a part; results and reports are compared
//! with each other.
use core_h::typed::{self, Want};
use core_h::ctx::{Ctx, Plan, Res, run};
use core_h::history::element_errors;
use core_h::model::{KINDS, Kind, Model, Op, Ret};
use core_h::pool::{Gen, note_cfg, op_fp, random_cfg};
use core_h::rng::Rng;
use core_h::subj::{Cfg, Snapshot, Subj, empty};
use core_h::tok;
use core_h::ensure;

fn snap(s: &dyn Subj) -> Snapshot {
    s.snapshot().canonical(s.cfg())
}

fn agree(a: (&dyn Subj, Ret), b: (&dyn Subj, Ret), what: &str) -> Res {
    ensure!(a.1 == b.1, "{what}: the persistent form reports {:?}, the other {:?}", a.1, b.1);
    let (x, y) = (snap(a.0), snap(b.0));
    ensure!(x == y, "{what}: the persistent form gives {x:?}, the other {y:?}");
    ensure!(a.0.same(b.0) == Some(true) && b.0.same(a.0) == Some(true), "{what}: the results are not equal: {x:?}");
    if let Some(c) = a.0.cmp_with(b.0) {
        ensure!(c == std::cmp::Ordering::Equal, "{what}: the results compare as {c:?}");
    }
    let (ra, rb) = (a.0.record(), b.0.record());
    ensure!(ra == rb, "{what}: the results hash differently");
    Ok(())
}

fn case(ctx: &mut Ctx, kind: Kind, rng: &mut Rng) -> Res {
    tok::reset();
    let cfg: Cfg = random_cfg(kind, rng);
    note_cfg(ctx, &cfg);
    ctx.t(|| cfg.describe());
    let mut g = Gen::new(&cfg, rng);
    let mut s = empty(&cfg);
    // Only steers the choice of operations.
    let mut m = Model::new(kind);
    for op in g.prefill(&cfg, rng) {
        ctx.fp(op_fp(&op));
        m.apply(&op);
        s.apply_mut(&op);
    }
    let mut others: Vec<Box<dyn Subj>> = vec![];
    let ops = rng.range(10, 60);
    let mut effective = 0;
    for step in 0..ops {
        let op = g.op(&cfg, &m, rng);
        ctx.fp(op_fp(&op));
        ctx.t(|| format!("{step}: {op:?} at size {}", m.len()));
        let size = m.len();
        let err = |e: String| format!("{op:?} at size {size} {e} (step {step}, {})", cfg.describe());
        let before = snap(s.as_ref());
        let (p, pr) = s.apply(&op);
        ensure!(snap(s.as_ref()) == before, "{}", err("in its persistent form changed its operand".into()));

        let mut c = s.dup();
        let cr = c.apply_mut(&op);
        ctx.eval();
        agree((p.as_ref(), pr), (c.as_ref(), cr), "in place on a clone").map_err(err)?;
        ensure!(
            snap(s.as_ref()) == before,
            "{}",
            err(format!("in place on a clone was visible in the original: {before:?} then {:?}", snap(s.as_ref())))
        );
        ctx.count("on_clone", 1);

        // On a clone whose path to the element is no longer shared, or that shares only a part.
        if rng.chance(1, 2) {
            let mut d = s.dup();
            let warm = match kind {
                Kind::Vector => Some(Op::PeekMut(Gen::index(m.len(), rng))),
                Kind::HtMap | Kind::RbMap => Some(Op::MapPeekMut(cfg.key(rng.below(cfg.universe as usize) as u32))),
                _ => None,
            };
            if let Some(w) = warm {
                d.apply_mut(&w);
            }
            let dr = d.apply_mut(&op);
            ctx.eval();
            agree((p.as_ref(), pr), (d.as_ref(), dr), "in place on a partly shared clone").map_err(err)?;
            ensure!(snap(s.as_ref()) == before, "{}", err("in place on a partly shared clone was visible in the original".into()));
            ctx.count("on_partly_shared", 1);
        }
        if rng.chance(1, 2) {
            let mut r = s.rebuilt();
            let rr = r.apply_mut(&op);
            ctx.eval();
            agree((p.as_ref(), pr), (r.as_ref(), rr), "in place on an unshared copy").map_err(err)?;
            let r2 = s.rebuilt();
            let (q, qr) = r2.apply(&op);
            agree((p.as_ref(), pr), (q.as_ref(), qr), "persistent on an unshared copy").map_err(err)?;
            ctx.count("on_unshared", 1);
        }
        let changed = snap(p.as_ref()) != before;
        ctx.count(if pr == Ret::Bool(false) || pr == Ret::Panicked { "refused" } else if changed { "effective" } else { "no_change" }, 1);
        if pr == Ret::Bool(false) || pr == Ret::Panicked {
            ensure!(!changed, "{}", err("reports failure but changed something".into()));
        }
        effective += usize::from(changed);
        ctx.count(op.label(), 1);
        m.apply(&op);
        // Go on from any of the results.
        match rng.below(4) {
            0 => s = p,
            1 => s = c,
            2 => {
                let r = s.apply_mut(&op);
                ctx.eval();
                agree((p.as_ref(), pr), (s.as_ref(), r), "in place").map_err(err)?;
                ctx.count("on_itself", 1);
                if rng.chance(1, 2) {
                    others.push(p);
                }
            }
            _ => {
                others.push(c);
                others.push(s);
                s = p;
            }
        }
        while others.len() > 4 {
            let j = rng.below(others.len());
            others.swap_remove(j);
        }
    }
    element_errors()?;
    if effective >= 4 {
        ctx.nontrivial();
    }
    if ctx.samples.len() < 2 && !ctx.tracing {
        ctx.samples.push(format!("{}: {ops} operations, each in up to five forms", cfg.describe()));
    }
    Ok(())
}

fn main() {
    run(Plan { quick: 40_000, thorough: 1_500_000, hang_secs: 150 }, |ctx, c, rng| {
        let kind = KINDS[(c % 8) as usize];
        if c / 8 % 8 == 3 {
            return typed::case(ctx, kind, Want { relations: false, balance: false }, rng);
        }
        case(ctx, kind, rng)
    });
}
