//! C22: the configuration never changes observable results.
//!
//! One history is carried out in many configurations at once (branching bits, degree, hasher, pointer kind), all
//! compared with one model and with each other; derived versions must still allocate as their configuration does; and
//! every number is tried as a configuration, to be refused or to work. The program is built and run with and without
//! the standard library feature, with and without assertions, and interpreted on 32-bit and big-endian targets.
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use core_h::alloc;
use core_h::ctx::{Ctx, Plan, Res, guard, run};
use core_h::hashers::{HB, Mode, modes, set_default};
use core_h::history::{Step, element_errors, perform_model, random_steps};
use core_h::model::{KINDS, Kind, Model};
use core_h::pool::{Gen, note_cfg, op_fp, random_cfg};
use core_h::rng::Rng;
use core_h::subj::{Cfg, PTRS, Subj, empty};
use core_h::tok::{self, Tok};
use core_h::{ensure, ensure_eq};
use rpds::*;

const MAX_DEGREE: u8 = usize::BITS as u8;

fn other_cfg(base: &Cfg, rng: &mut Rng) -> Cfg {
    let mut c = base.clone();
    c.ptr = *rng.pick(&PTRS);
    c.bits = match rng.below(6) {
        0 | 1 => 1,
        2 => rng.range(9, 30) as u8,
        3 => rng.range(31, 63) as u8,
        _ => rng.range(2, 8) as u8,
    };
    let top = if cfg!(miri) { 3 } else { 1 };
    c.degree = 1 << rng.range(top, MAX_DEGREE.trailing_zeros() as usize);
    c.stateless = base.kind.is_hash() && rng.chance(1, 4);
    if !c.stateless {
        c.mode = modes(rng);
    }
    c
}

/// The same history in several configurations.
fn differential(ctx: &mut Ctx, kind: Kind, rng: &mut Rng) -> Res {
    tok::reset();
    let mut base = random_cfg(kind, rng);
    base.degree = base.degree.min(MAX_DEGREE);
    if cfg!(miri) {
        base.universe = base.universe.min(12);
        base.degree = base.degree.max(8);
    }
    let n = if cfg!(miri) { 2 } else { rng.range(2, 4) };
    let mut cfgs = vec![base.clone()];
    for _ in 1..n {
        let c = other_cfg(&base, rng);
        cfgs.push(c);
    }
    set_default(modes(rng));
    let mut g = if cfg!(miri) { Gen::with_target(&base, 8, rng) } else { Gen::new(&base, rng) };
    let keep = rng.range(1, 3);
    let ops = if cfg!(miri) { rng.range(4, 16) } else { rng.range(8, 80) };
    let (steps, last) = random_steps(&base, &mut g, keep, ops, rng);
    if cfg!(miri) && steps.len() > 60 {
        return Ok(());
    }
    for c in &cfgs {
        ctx.t(|| c.describe());
        note_cfg(ctx, c);
    }
    let mut models = vec![Model::new(kind)];
    let mut pools: Vec<Vec<Box<dyn Subj>>> = cfgs.iter().map(|c| vec![empty(c)]).collect();
    let filled = steps.len() - steps.len().min(ops);
    for (i, s) in steps.iter().enumerate() {
        ctx.t(|| format!("{i}: {s:?}"));
        // What comes of it, according to the model.
        let want = match s {
            Step::Persist(j, op) | Step::CloneThen(j, op) | Step::InPlace(j, op) => {
                ctx.fp(op_fp(op));
                Some(models[*j].clone().apply(op))
            }
            _ => None,
        };
        perform_model(&mut models, s);
        for (p, c) in pools.iter_mut().zip(&cfgs) {
            let got = match s {
                Step::Persist(j, op) => {
                    let (v, r) = p[*j].apply(op);
                    p.push(v);
                    Some(r)
                }
                Step::CloneThen(j, op) => {
                    let mut v = p[*j].dup();
                    let r = v.apply_mut(op);
                    p.push(v);
                    Some(r)
                }
                Step::InPlace(j, op) => Some(p[*j].apply_mut(op)),
                s => {
                    core_h::history::perform(p, s);
                    None
                }
            };
            ensure_eq!(got, want, "result of step {i} {s:?} ({})", c.describe());
            if i < filled {
                continue;
            }
            let at = match s {
                Step::InPlace(j, _) | Step::Overwrite(j, _) => *j,
                _ => p.len() - 1,
            };
            ctx.eval();
            p[at].check(&models[at], rng, i % 4 == 0).map_err(|e| format!("{e}, after step {i} {s:?} ({})", c.describe()))?;
        }
    }
    for (p, c) in pools.iter().zip(&cfgs) {
        for (v, m) in p.iter().zip(&last) {
            ctx.eval();
            v.check(m, rng, true).map_err(|e| format!("{e}, at the end ({})", c.describe()))?;
        }
    }
    // The versions of different configurations are equal when the models are.
    for i in 0..cfgs.len() {
        for j in 0..cfgs.len() {
            for (a, (x, mx)) in pools[i].iter().zip(&last).enumerate() {
                for (b, (y, my)) in pools[j].iter().zip(&last).enumerate() {
                    if let Some(eq) = x.same(y.as_ref()) {
                        ctx.count("compared_across_configurations", u64::from(i != j));
                        ctx.eval();
                        ensure!(
                            eq == (seen(mx) == seen(my)),
                            "v{a} with {} and v{b} with {} compare as {}equal",
                            cfgs[i].describe(),
                            cfgs[j].describe(),
                            if eq { "" } else { "un" }
                        );
                    }
                    if let (Some(r), Some(w)) = (x.relations(y.as_ref()), relations(mx, my)) {
                        ctx.count("related_across_configurations", u64::from(i != j));
                        ensure_eq!(r, w, "disjoint, subset, superset of {} and {}", cfgs[i].describe(), cfgs[j].describe());
                    }
                }
            }
        }
    }
    element_errors()?;
    if steps.len() > 4 {
        ctx.nontrivial();
    }
    if ctx.samples.len() < 3 && !ctx.tracing && steps.len() > 10 {
        ctx.samples.push(cfgs.iter().map(Cfg::describe).collect::<Vec<_>>().join(" / "));
    }
    Ok(())
}

/// What the comparison of elements looks at: their keys.
fn seen(m: &Model) -> (Kind, Vec<(u32, Option<u32>)>) {
    let kind = m.kind();
    let all = m.items().into_iter().map(|(k, v)| (k.0, if kind.is_map() { v.map(|v| v.0) } else { None }));
    (kind, all.collect())
}

fn relations(a: &Model, b: &Model) -> Option<[bool; 3]> {
    match (a, b) {
        (Model::Map(k, x), Model::Map(_, y)) if k.is_set() => Some([
            !x.keys().any(|k| y.contains_key(k)),
            x.keys().all(|k| y.contains_key(k)),
            y.keys().all(|k| x.contains_key(k)),
        ]),
        _ => None,
    }
}

// ---------------------------------------------------------------- derived versions allocate as they are configured

/// Allocations of some persistent updates of what `fill` makes.
fn cost_of_updates(c: &dyn Subj, n: u32) -> u64 {
    let mut total = 0;
    for i in 0..8u32 {
        let k = i * (n / 8);
        let op = if c.cfg().kind == Kind::Vector {
            core_h::model::Op::Set(k as usize, (k, 9))
        } else {
            core_h::model::Op::Insert((k, 9), (k, 9))
        };
        let before = alloc::snap().allocs;
        let (v, _) = c.apply(&op);
        total += alloc::snap().allocs - before;
        drop(v);
    }
    total
}

fn fill(s: &mut Box<dyn Subj>, n: u32) {
    for k in 0..n {
        let op = if s.cfg().kind == Kind::Vector { core_h::model::Op::Put((k, 1)) } else { core_h::model::Op::Insert((k, 1), (k, 1)) };
        s.apply_mut(&op);
    }
}

fn kept(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    tok::reset();
    let kind = *rng.pick(&[Kind::Vector, Kind::Vector, Kind::HtMap, Kind::HtSet]);
    let mut cfg = random_cfg(kind, rng);
    cfg.bits = *rng.pick(&[1, 1, 2, 2, 3, 5, 8]);
    cfg.degree = *rng.pick(&[2, 2, 4, 4, 8, 16, MAX_DEGREE]);
    cfg.mode = Mode::Good(rng.next());
    set_default(cfg.mode);
    cfg.universe = 12;
    cfg.stride = 1;
    let n = 256;
    tok::reserve(40_000);
    let what = cfg.describe();
    ctx.t(|| what.clone());
    ctx.fp(rng.next());
    let mut fresh = empty(&cfg);
    fill(&mut fresh, n);
    let mut plain = cfg.clone();
    plain.bits = 5;
    plain.degree = MAX_DEGREE;
    let mut default = empty(&plain);
    fill(&mut default, n);
    let (own, other) = (cost_of_updates(fresh.as_ref(), n), cost_of_updates(default.as_ref(), n));
    if own >= 2 * other {
        ctx.count("configurations_told_from_the_default", 1);
    }
    // Something derived, emptied, and filled alike.
    let mut g = Gen::new(&cfg, rng);
    g.next_uid = 100;
    let ops = rng.range(1, 60);
    let (steps, _) = random_steps(&cfg, &mut g, 1, ops, rng);
    let mut pool: Vec<Box<dyn Subj>> = vec![empty(&cfg)];
    let mut rebuilt = 0;
    for s in &steps {
        if matches!(s, Step::Rebuild(_)) {
            rebuilt += 1;
        }
        core_h::history::perform(&mut pool, s);
    }
    let _ = rebuilt;
    let mut v = pool.swap_remove(0);
    let persistent = rng.chance(1, 2);
    let mut keys = vec![];
    v.each(&mut |k: &Tok, _| keys.push(k.key()));
    for k in keys {
        let op = if kind == Kind::Vector { core_h::model::Op::Take } else { core_h::model::Op::Remove(k, true) };
        if persistent {
            v = v.apply(&op).0;
        } else {
            v.apply_mut(&op);
        }
    }
    ensure_eq!(v.len(), 0, "length after taking everything out ({what})");
    let mut v = match rng.below(3) {
        0 => v.dup(),
        _ => v,
    };
    fill(&mut v, n);
    let got = cost_of_updates(v.as_ref(), n);
    ctx.eval();
    ctx.count("derived_versions_measured", 1);
    ctx.max("cost_deviation_percent", got.abs_diff(own) * 100 / own);
    ensure!(
        got.abs_diff(own) <= own / 4 + 1,
        "updates of a derived version allocate {got} times; of a fresh one with its configuration, {own}; with the default one, {other} ({what}, after {} steps)",
        steps.len()
    );
    ctx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------------------- what is accepted, and what is not

fn works_vector<P: SharedPointerKind>(mut v: Vector<u32, P>, n: u32) -> Res {
    for i in 0..n {
        v.push_back_mut(i);
        if i % 7 == 0 {
            v = v.push_back(i);
            v = v.drop_last().ok_or("drop_last() of a vector that is not empty")?;
        }
    }
    ensure_eq!(v.len(), n as usize, "length");
    for i in 0..n {
        ensure_eq!(v.get(i as usize), Some(&i), "get({i})");
        ensure!(v.set_mut(i as usize, i + 1), "set_mut({i})");
    }
    ensure_eq!(v.get(n as usize), None, "get({n})");
    ensure_eq!(v.get(usize::MAX), None, "get(MAX)");
    ensure!(v.iter().copied().eq(1..=n), "iteration");
    ensure!(v.iter().rev().copied().eq((1..=n).rev()), "backward iteration");
    for i in (0..n).rev() {
        ensure_eq!(v.last(), Some(&(i + 1)), "last()");
        ensure!(v.drop_last_mut(), "drop_last_mut()");
    }
    ensure!(v.is_empty() && !v.drop_last_mut(), "emptied");
    Ok(())
}

fn works_map<P: SharedPointerKind>(mut m: HashTrieMap<u32, u32, P, HB>, n: u32) -> Res {
    for i in 0..n {
        m.insert_mut(i, i);
        if i % 5 == 0 {
            m = m.insert(i, i + 7).insert(i, i);
        }
    }
    ensure_eq!(m.size(), n as usize, "size");
    for i in 0..n {
        ensure_eq!(m.get(&i), Some(&i), "get({i})");
    }
    ensure_eq!(m.get(&n), None, "get({n})");
    let mut all: Vec<u32> = m.keys().copied().collect();
    all.sort_unstable();
    ensure!(all.iter().copied().eq(0..n), "iteration");
    for i in 0..n {
        ensure!(m.remove_mut(&i), "remove_mut({i})");
        ensure!(!m.contains_key(&i) && m.size() == (n - i - 1) as usize, "remove_mut({i}) removed something else");
        if i + 1 < n {
            ensure_eq!(m.get(&(n - 1)), Some(&(n - 1)), "get({}) after remove_mut({i})", n - 1);
        }
    }
    Ok(())
}

fn works_set<P: SharedPointerKind, H: std::hash::BuildHasher + Clone>(mut m: HashTrieSet<u32, P, H>, n: u32) -> Res {
    for i in 0..n {
        m.insert_mut(i);
    }
    ensure_eq!(m.size(), n as usize, "size");
    let mut all: Vec<u32> = m.iter().copied().collect();
    all.sort_unstable();
    ensure!(all.iter().copied().eq(0..n), "iteration");
    for i in 0..n {
        ensure!(m.contains(&i) && m.remove_mut(&i) && !m.contains(&i), "remove_mut({i})");
    }
    Ok(())
}

fn accepted(ctx: &mut Ctx, number: u8, rng: &mut Rng) -> Res {
    ctx.fp(number as u64 | rng.next() << 8);
    ctx.nontrivial();
    ctx.t(|| format!("bits {number}, degree {number}"));
    let n = if cfg!(miri) { 12 } else { *rng.pick(&[20u32, 70, 130, 300]) };
    // Bits: every vector with at least one bit can work, as long as an index has that many.
    let v = guard(|| if rng.chance(1, 2) { Ok(Vector::<u32, RcK>::new_with_bits(number)) } else { Err(Vector::<u32, ArcTK>::new_with_bits(number)) });
    ctx.eval();
    match v {
        Err(_) => {
            ctx.count("bits_refused", 1);
            ensure!(number == 0 || number as u32 >= usize::BITS, "a vector of {number} bits is refused");
        }
        Ok(v) => {
            ctx.count("bits_accepted", 1);
            ensure!(number != 0, "a vector of 0 bits is accepted");
            guard(|| match v {
                Ok(v) => works_vector(v, n),
                Err(v) => works_vector(v, n),
            })
            .and_then(|r| r)
            .map_err(|e| format!("a vector of {number} bits is accepted and does not work: {e}"))?;
        }
    }
    let mode = if rng.chance(1, 4) { Mode::Ident } else { modes(rng) };
    set_default(mode);
    let good = number.is_power_of_two() && (2..=MAX_DEGREE).contains(&number);
    let n = if number == 2 && cfg!(miri) { 4 } else { n.min(130) };
    let which = rng.below(7);
    let r = guard(|| -> Box<dyn FnOnce() -> Res> {
        match which {
            0 => {
                let m = HashTrieMap::<u32, u32, RcK, HB>::new_with_hasher_and_degree_and_ptr_kind(HB(mode), number);
                Box::new(move || works_map(m, n))
            }
            1 => {
                let m = HashTrieMap::<u32, u32, ArcK, HB>::new_with_hasher_and_degree_and_ptr_kind(HB(mode), number);
                Box::new(move || works_map(m, n))
            }
            2 => {
                let m = HashTrieSet::<u32, ArcTK, HB>::new_with_hasher_and_degree_and_ptr_kind(HB(mode), number);
                Box::new(move || works_set(m, n))
            }
            3 => {
                let m = HashTrieSet::<u32>::new_with_degree(number);
                Box::new(move || works_set(m, n))
            }
            4 => {
                let m = HashTrieSetSync::<u32>::new_with_degree_sync(number);
                Box::new(move || works_set(m, n))
            }
            5 => {
                let m = HashTrieMap::<u32, u32>::new_with_degree(number);
                Box::new(move || works_default(m, n))
            }
            _ => {
                let m = HashTrieMapSync::<u32, u32>::new_sync_with_degree(number);
                Box::new(move || works_default(m, n))
            }
        }
    });
    ctx.eval();
    match r {
        Err(_) => {
            ctx.count("degrees_refused", 1);
            ensure!(!good, "a degree of {number} is refused");
        }
        Ok(f) => {
            ctx.count("degrees_accepted", 1);
            ensure!(number >= 2, "a degree of {number} is accepted");
            guard(f)
                .and_then(|r| r)
                .map_err(|e| format!("a degree of {number} is accepted and does not work: {e} ({mode:?}, constructor {which})"))?;
        }
    }
    Ok(())
}

/// With the hasher of the crate, which depends on its features.
fn works_default<P: SharedPointerKind, H: std::hash::BuildHasher + Clone>(mut m: HashTrieMap<u32, u32, P, H>, n: u32) -> Res {
    for i in 0..n {
        m = m.insert(i, i);
    }
    for i in 0..n {
        ensure_eq!(m.get(&i), Some(&i), "get({i})");
    }
    ensure_eq!(m.size(), n as usize, "size");
    for i in 0..n {
        m = m.remove(&i);
        ensure!(!m.contains_key(&i), "remove({i})");
    }
    ensure_eq!(m.size(), 0, "size in the end");
    Ok(())
}

fn main() {
    let (quick, thorough) = if cfg!(miri) { (96, 2_000) } else { (40_000, 1_500_000) };
    run(Plan { quick, thorough, hang_secs: 120 }, |ctx, case, rng| match case % 8 {
        0 if !cfg!(miri) => kept(ctx, rng),
        1 if cfg!(miri) => accepted(ctx, *rng.pick(&[0u8, 1, 2, 5, 7, 8, 16, 31, 32, 33, 62, 63, 64, 65, 128]), rng),
        1 => accepted(ctx, (case / 8 % 256) as u8, rng),
        _ => differential(ctx, *rng.pick(&KINDS), rng),
    });
}
