//! C01: no operation ever changes another version.
//!
//! Every version is photographed when it is obtained (contents, order, size, every lookup), and every photograph is
//! compared again after each operation on any other version. The oracle is the version itself, not a model.
use core_h::typed::{self, Want};
use core_h::ctx::{Ctx, Plan, Res, run};
use core_h::ensure;
use core_h::history::element_errors;
use core_h::model::{KINDS, Kind, Model};
use core_h::pool::{Gen, note_cfg, op_fp, random_cfg};
use core_h::rng::Rng;
use core_h::subj::{Cfg, Snapshot, Subj, empty};
use core_h::tok;

struct V {
    s: Box<dyn Subj>,
    snap: Snapshot,
    show: Option<String>,
    m: Model,
    id: usize,
}

impl V {
    fn new(s: Box<dyn Subj>, m: Model, id: usize, rng: &mut Rng) -> V {
        let snap = s.snapshot();
        let show = rng.chance(1, 6).then(|| s.show());
        V { s, snap, show, m, id }
    }
    fn verify(&self, after: &dyn Fn() -> String) -> Res {
        let now = self.s.snapshot();
        if now != self.snap {
            return Err(format!(
                "v{} changed without being touched, {}: it was {:?}, it is {:?}",
                self.id,
                after(),
                Brief(&self.snap),
                Brief(&now)
            ));
        }
        if let Some(s) = &self.show {
            let t = self.s.show();
            ensure!(*s == t, "v{} prints differently without being touched, {}: {s} then {t}", self.id, after());
        }
        Ok(())
    }
}

struct Brief<'a>(&'a Snapshot);
impl std::fmt::Debug for Brief<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let s = self.0;
        let h = s.answers.iter().fold(0u64, |a, x| {
            core_h::rng::mix(a ^ x.map_or(1, |x| (x.0.0 as u64) << 32 | x.0.1 as u64))
        });
        write!(f, "(len {}, items {:?}, answers #{h:x})", s.len, s.items)
    }
}

fn case(ctx: &mut Ctx, kind: Kind, rng: &mut Rng) -> Res {
    tok::reset();
    let cfg: Cfg = random_cfg(kind, rng);
    note_cfg(ctx, &cfg);
    ctx.t(|| cfg.describe());
    let mut g = Gen::new(&cfg, rng);
    g.mut_access = true;
    let keep = rng.range(2, 10);
    let ops = rng.range(10, 70);
    let mut pool: Vec<V> = vec![];
    let mut s = empty(&cfg);
    let mut m = Model::new(kind);
    for op in g.prefill(&cfg, rng) {
        ctx.fp(op_fp(&op));
        m.apply(&op);
        s.apply_mut(&op);
    }
    ctx.t(|| format!("v0: {} elements", m.len()));
    pool.push(V::new(s, m, 0, rng));
    let mut next = 1;
    let mut shared_updates = 0;
    for step in 0..ops {
        let i = rng.below(pool.len());
        let op = g.op(&cfg, &pool[i].m, rng);
        ctx.fp(op_fp(&op));
        let touched: usize;
        let what: String;
        match rng.below(12) {
            0..=3 => {
                let (s, _) = pool[i].s.apply(&op);
                let mut m = pool[i].m.clone();
                m.apply(&op);
                pool.push(V::new(s, m, next, rng));
                what = format!("after v{next} = v{}.{op:?}", pool[i].id);
                next += 1;
                touched = pool.len() - 1;
                ctx.count("persistent_updates", 1);
            }
            4 | 5 => {
                let mut s = pool[i].s.dup();
                s.apply_mut(&op);
                let mut m = pool[i].m.clone();
                m.apply(&op);
                pool.push(V::new(s, m, next, rng));
                what = format!("after v{next} = clone of v{}, then {op:?} on it in place", pool[i].id);
                next += 1;
                touched = pool.len() - 1;
                shared_updates += 1;
                ctx.count("updates_of_fresh_clones", 1);
            }
            6..=9 => {
                // In place, on a version that may share with any other, several operations in a row.
                let n = if rng.chance(1, 3) { rng.range(2, 6) } else { 1 };
                let mut o = op;
                let mut done = vec![];
                for k in 0..n {
                    if k > 0 {
                        o = g.op(&cfg, &pool[i].m, rng);
                        ctx.fp(op_fp(&o));
                    }
                    pool[i].s.apply_mut(&o);
                    pool[i].m.apply(&o);
                    done.push(o.clone());
                }
                what = format!("after v{} updated in place: {done:?}", pool[i].id);
                let show = pool[i].show.is_some().then(|| pool[i].s.show());
                pool[i].snap = pool[i].s.snapshot();
                pool[i].show = show;
                touched = i;
                shared_updates += usize::from(pool.len() > 1);
                ctx.count("in_place_updates_beside_others", 1);
            }
            10 => {
                // A clone and its original must both stay what they are, whichever is dropped.
                let s = pool[i].s.dup();
                let m = pool[i].m.clone();
                what = format!("after v{next} = clone of v{}", pool[i].id);
                let v = V::new(s, m, next, rng);
                ensure!(v.snap == pool[i].snap, "a clone of v{} differs from it: {:?} / {:?}", pool[i].id, Brief(&pool[i].snap), Brief(&v.snap));
                pool.push(v);
                next += 1;
                touched = usize::MAX;
                ctx.count("clones", 1);
            }
            _ => {
                // Whole-version readers.
                let j = rng.below(pool.len());
                let _ = pool[i].s.same(pool[j].s.as_ref());
                let _ = pool[i].s.cmp_with(pool[j].s.as_ref());
                let _ = pool[i].s.record();
                let _ = pool[i].s.debug();
                what = format!("after reading v{} and v{}", pool[i].id, pool[j].id);
                touched = usize::MAX;
                ctx.count("readings", 1);
            }
        }
        ctx.t(|| format!("{step}: {what}"));
        for (j, v) in pool.iter().enumerate() {
            if j != touched {
                ctx.eval();
                v.verify(&|| format!("{what} (step {step}, {})", cfg.describe()))?;
            }
        }
        while pool.len() > keep {
            let j = rng.below(pool.len());
            let gone = pool.swap_remove(j);
            let id = gone.id;
            drop(gone);
            ctx.t(|| format!("{step}: drop v{id}"));
            for v in &pool {
                ctx.eval();
                v.verify(&|| format!("after v{id} was dropped (step {step}, {})", cfg.describe()))?;
            }
        }
    }
    element_errors()?;
    if shared_updates >= 3 {
        ctx.nontrivial();
    }
    ctx.max("versions_alive", keep as u64);
    ctx.count("versions_made", next as u64);
    ctx.max("size", pool.iter().map(|v| v.m.len()).max().unwrap_or(0) as u64);
    if ctx.samples.len() < 2 && !ctx.tracing && shared_updates > 5 {
        ctx.samples.push(format!(
            "{}: {ops} steps, {next} versions, {keep} alive at a time, each photographed and compared after every step",
            cfg.describe()
        ));
    }
    Ok(())
}

fn main() {
    run(Plan { quick: 60_000, thorough: 1_500_000, hang_secs: 150 }, |ctx, c, rng| {
        let kind = KINDS[(c % 8) as usize];
        if c / 8 % 8 == 3 {
            return typed::case(ctx, kind, Want { relations: false, balance: false }, rng);
        }
        case(ctx, kind, rng)
    });
}
