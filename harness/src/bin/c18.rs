//! C18: parallel iteration over a thread-safe hash map delivers every entry of that version exactly once.
//!
//! Maps of all shapes are iterated in thread pools of many sizes while the visits of every entry are counted; early
//! stopping and order-sensitive combinators are compared with the sequential ones; and a consumer of our own records
//! every fold it is given.
use archery::ArcTK;
use core_h::ctx::{Ctx, Plan, Res, guard, run};
use core_h::hashers::{HB, Mode, modes};
use core_h::rng::{Rng, mix};
use core_h::{ensure, ensure_eq};
use rayon::iter::plumbing::{Consumer, Folder, Reducer, UnindexedConsumer};
use rayon::prelude::*;
use rpds::HashTrieMap;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering as O};

/// Equal by `key` only.
#[derive(Clone, Debug)]
struct K {
    key: u32,
    uid: u32,
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.key == o.key
    }
}
impl Eq for K {}
impl std::hash::Hash for K {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u32(self.key)
    }
}
type V = (u32, u64);
type M = HashTrieMap<K, V, ArcTK, HB>;
type Model = BTreeMap<u32, (u32, V)>;

/// Something that takes a while, differently for every entry, so that work is stolen.
fn dawdle(key: u32, salt: u64, chance: u64) {
    let r = mix(key as u64 ^ salt);
    if r % 1024 < chance {
        match (r >> 12) % 4 {
            0 => std::thread::yield_now(),
            1 => std::thread::sleep(std::time::Duration::from_micros(r >> 40 & 31)),
            _ => {
                for _ in 0..(r >> 20 & 1023) {
                    std::hint::spin_loop();
                }
            }
        }
    }
}

struct Build {
    mode: Mode,
    degree: u8,
    universe: u32,
    stride: u32,
    n: usize,
}

fn build(b: &Build, rng: &mut Rng) -> Vec<(M, Model)> {
    let mut m: M = HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(HB(b.mode), b.degree);
    let mut model = Model::new();
    let mut out = vec![];
    let mut uid = 0;
    let mut step = |m: &mut M, model: &mut Model, insert: bool, persistent: bool, rng: &mut Rng| {
        let key = (rng.below(b.universe as usize) as u32).wrapping_mul(b.stride);
        uid += 1;
        if insert {
            let (k, v) = (K { key, uid }, (uid, mix(uid as u64)));
            if persistent {
                *m = m.insert(k, v);
            } else {
                m.insert_mut(k, v);
            }
            model.insert(key, (uid, v));
        } else {
            let key = match model.range(key..).next() {
                Some((k, _)) if rng.chance(3, 4) => *k,
                _ => key,
            };
            let k = K { key, uid };
            if persistent {
                *m = m.remove(&k);
            } else {
                m.remove_mut(&k);
            }
            model.remove(&key);
        }
    };
    for _ in 0..b.n * 4 + 20 {
        if model.len() >= b.n {
            break;
        }
        let (ins, per) = (rng.chance(9, 10), rng.chance(1, 8));
        step(&mut m, &mut model, ins, per, rng);
    }
    out.push((m.clone(), model.clone()));
    // Then shrink, maybe a lot: compressed branches, and buckets that have lost entries.
    let down = match rng.below(4) {
        0 => 0,
        1 => model.len() / 2,
        2 => model.len() * 9 / 10,
        _ => model.len(),
    };
    let to = model.len() - down;
    for _ in 0..b.n * 8 + 20 {
        if model.len() <= to {
            break;
        }
        let (ins, per) = (rng.chance(1, 10), rng.chance(1, 8));
        step(&mut m, &mut model, ins, per, rng);
    }
    for (k, v) in &mut model {
        if rng.chance(1, 6) {
            if let Some(r) = m.get_mut(&K { key: *k, uid: 0 }) {
                r.0 ^= 0x55;
                v.1.0 ^= 0x55;
            }
        }
    }
    out.push((m, model));
    out
}

// ------------------------------------------------------------------------- a consumer that records everything

#[derive(Default)]
struct Log {
    folds: AtomicU64,
    busy_folds: AtomicU64,
    splits: AtomicU64,
    consumed: AtomicU64,
    after_full: AtomicU64,
    stop: AtomicBool,
    limit: u64,
}
struct Rec {
    log: Arc<Log>,
    salt: u64,
    chance: u64,
}
struct Fold {
    log: Arc<Log>,
    seen: Vec<(usize, usize)>,
    salt: u64,
    chance: u64,
}
struct Cat;
impl Reducer<Vec<(usize, usize)>> for Cat {
    fn reduce(self, mut a: Vec<(usize, usize)>, b: Vec<(usize, usize)>) -> Vec<(usize, usize)> {
        a.extend(b);
        a
    }
}
impl<'a> Consumer<(&'a K, &'a V)> for Rec {
    type Folder = Fold;
    type Reducer = Cat;
    type Result = Vec<(usize, usize)>;
    fn split_at(self, _: usize) -> (Self, Self, Cat) {
        let l = self.split_off_left();
        (l, self, Cat)
    }
    fn into_folder(self) -> Fold {
        self.log.folds.fetch_add(1, O::Relaxed);
        Fold { log: self.log, seen: vec![], salt: self.salt, chance: self.chance }
    }
    fn full(&self) -> bool {
        self.log.stop.load(O::Relaxed)
    }
}
impl<'a> UnindexedConsumer<(&'a K, &'a V)> for Rec {
    fn split_off_left(&self) -> Rec {
        self.log.splits.fetch_add(1, O::Relaxed);
        Rec { log: self.log.clone(), salt: self.salt, chance: self.chance }
    }
    fn to_reducer(&self) -> Cat {
        Cat
    }
}
impl<'a> Folder<(&'a K, &'a V)> for Fold {
    type Result = Vec<(usize, usize)>;
    fn consume(mut self, (k, v): (&'a K, &'a V)) -> Fold {
        if self.log.stop.load(O::Relaxed) {
            self.log.after_full.fetch_add(1, O::Relaxed);
        }
        if self.log.consumed.fetch_add(1, O::Relaxed) + 1 >= self.log.limit {
            self.log.stop.store(true, O::Relaxed);
        }
        dawdle(k.key, self.salt, self.chance);
        self.seen.push((k as *const K as usize, v as *const V as usize));
        self
    }
    fn complete(self) -> Self::Result {
        self.log.busy_folds.fetch_add(!self.seen.is_empty() as u64, O::Relaxed);
        self.seen
    }
    fn full(&self) -> bool {
        self.log.stop.load(O::Relaxed)
    }
}

// ----------------------------------------------------------------------------------------------------- checks

fn every_entry_once(ctx: &mut Ctx, m: &M, model: &Model, salt: u64, chance: u64) -> Res {
    let slots: BTreeMap<u32, AtomicU64> = model.keys().map(|k| (*k, AtomicU64::new(0))).collect();
    let strange = AtomicU64::new(0);
    m.into_par_iter().for_each(|(k, v)| {
        dawdle(k.key, salt, chance);
        match slots.get(&k.key) {
            Some(s) if model.get(&k.key) == Some(&(k.uid, *v)) => {
                s.fetch_add(1, O::Relaxed);
            }
            _ => {
                strange.fetch_add(1, O::Relaxed);
            }
        }
    });
    ctx.eval();
    ctx.count("entries_visited", model.len() as u64);
    ensure_eq!(strange.load(O::Relaxed), 0, "entries that are not in the map");
    for (k, s) in &slots {
        ensure_eq!(s.load(O::Relaxed), 1, "visits of key {k} (of {})", model.len());
    }
    Ok(())
}

/// What a search may still look at once it has its answer, with a single worker (rayon asks for a quick stop, not for
/// an immediate one; the tree as it is stops at once).
fn slack(n: usize) -> u64 {
    4 + n as u64 / 16
}

fn recorded(ctx: &mut Ctx, m: &M, model: &Model, salt: u64, chance: u64, limit: u64, one_worker: bool, scattered: bool) -> Res {
    let log = Arc::new(Log { limit, ..Log::default() });
    let got = m.into_par_iter().drive_unindexed(Rec { log: log.clone(), salt, chance });
    let seq: Vec<(usize, usize)> = m.iter().map(|(k, v)| (k as *const K as usize, v as *const V as usize)).collect();
    ctx.eval();
    ctx.count("folds", log.folds.load(O::Relaxed));
    ctx.count("splits", log.splits.load(O::Relaxed));
    if scattered && limit > model.len() as u64 && model.len() >= 64 {
        // Work that is never divided is not parallel.
        ctx.count("divided", 1);
        ensure!(log.busy_folds.load(O::Relaxed) > 1, "the work on {} entries was not divided", model.len());
    }
    if limit > model.len() as u64 {
        // The reduction keeps left and right, so the very sequence must come out.
        ensure!(got == seq, "the folds saw {} entries instead of {}, or others, or in another order", got.len(), seq.len());
    } else {
        ctx.count("stopped_early", 1);
        let mut all: Vec<_> = seq.clone();
        all.sort_unstable();
        let mut g = got.clone();
        g.sort_unstable();
        let n = g.len();
        g.dedup();
        ensure_eq!(g.len(), n, "entries seen once, when stopped early");
        ensure!(g.iter().all(|x| all.binary_search(x).is_ok()), "saw an entry that is not in the map");
        ensure!(n as u64 >= limit.min(model.len() as u64), "stopped after {n} entries, asked for {limit}");
        // Being full is a hint, which may come late when it comes from another thread: with several workers it is
        // recorded how well it is heeded, with one it is judged, generously.
        let after = log.after_full.load(O::Relaxed);
        ctx.max("consumed_after_full", after);
        if one_worker {
            ctx.count("stops_judged", 1);
            ctx.max("consumed_after_full_by_one_worker", after);
            ensure!(after <= slack(model.len()), "went on through {after} of {} entries after it was full", model.len());
        }
    }
    Ok(())
}

fn aggregates(ctx: &mut Ctx, m: &M, model: &Model, salt: u64, chance: u64, rng: &mut Rng) -> Res {
    let n = model.len();
    let it = || m.into_par_iter().inspect(|(k, _)| dawdle(k.key, salt, chance));
    ctx.eval();
    ensure_eq!(it().count(), n, "count");
    ensure_eq!(it().map(|(k, _)| k.key as u64).sum::<u64>(), model.keys().map(|k| *k as u64).sum::<u64>(), "sum");
    ensure_eq!(it().map(|(_, v)| v.1).max(), model.values().map(|v| v.1.1).max(), "max");
    ensure_eq!(it().map(|(k, _)| k.key).min(), model.keys().copied().min(), "min");
    let seq: Vec<u32> = m.iter().map(|(k, _)| k.uid).collect();
    ensure!(it().map(|(k, _)| k.uid).collect::<Vec<_>>() == seq, "collect gave other entries than iteration, or in another order");
    let cat = it().map(|(k, _)| vec![k.uid]).reduce(Vec::new, |mut a, b| {
        a.extend(b);
        a
    });
    ensure!(cat == seq, "an order-sensitive reduction differs from the sequential one");
    let cat = it().fold(Vec::new, |mut a: Vec<u32>, (k, _)| { a.push(k.uid); a }).collect::<Vec<_>>().concat();
    ensure!(cat == seq, "fold differs from the sequential one");
    let map: BTreeMap<u32, (u32, V)> = it().map(|(k, v)| (k.key, (k.uid, *v))).collect();
    ensure!(map == *model, "collecting into a map gave other entries");
    let salt2 = rng.next();
    let pred = |k: u32| mix(k as u64 ^ salt2) % 3 == 0;
    let (a, b): (Vec<u32>, Vec<u32>) = it().map(|(k, _)| k.key).partition(|k| pred(*k));
    ensure_eq!((a.len(), b.len()), (model.keys().filter(|k| pred(**k)).count(), model.keys().filter(|k| !pred(**k)).count()), "partition");
    ensure_eq!(it().filter(|(k, _)| pred(k.key)).count(), a.len(), "filter and count");
    // Stopping early.
    let absent = u32::MAX - 12345;
    let some = model.keys().nth(rng.below(n.max(1))).copied();
    ctx.count("early_exits", 10);
    ensure_eq!(it().any(|(k, _)| k.key == absent), false, "any, of an absent key");
    ensure_eq!(it().all(|(k, _)| k.key != absent), true, "all, of an absent key");
    ensure_eq!(it().find_any(|(k, _)| k.key == absent).is_none(), true, "find_any of an absent key");
    if let Some(s) = some {
        ensure_eq!(it().any(|(k, _)| k.key == s), true, "any, of a present key");
        ensure_eq!(it().all(|(k, _)| k.key != s), false, "all, of a present key");
        ensure_eq!(it().find_any(|(k, _)| k.key == s).map(|(k, v)| (k.uid, *v)), model.get(&s).copied(), "find_any of a present key");
    }
    let first = m.iter().find(|(k, _)| pred(k.key)).map(|(k, _)| k.uid);
    ensure_eq!(it().find_first(|(k, _)| pred(k.key)).map(|(k, _)| k.uid), first, "find_first");
    let last = m.iter().filter(|(k, _)| pred(k.key)).last().map(|(k, _)| k.uid);
    ensure_eq!(it().find_last(|(k, _)| pred(k.key)).map(|(k, _)| k.uid), last, "find_last");
    let t = rng.below(n + 3);
    let mut taken: Vec<u32> = it().map(|(k, _)| k.key).take_any(t).collect();
    taken.sort_unstable();
    taken.dedup();
    ensure_eq!(taken.len(), t.min(n), "different entries out of take_any({t}) of {n}");
    ensure!(taken.iter().all(|k| model.contains_key(k)), "take_any({t}) gave something that is not in the map");
    let mut left: Vec<u32> = it().map(|(k, _)| k.key).skip_any(t).collect();
    left.sort_unstable();
    left.dedup();
    ensure_eq!(left.len(), n - t.min(n), "different entries out of skip_any({t}) of {n}");
    let r: Result<(), u32> = it().try_for_each(|(k, _)| if pred(k.key) { Err(k.key) } else { Ok(()) });
    match r {
        Ok(()) => ensure!(a.is_empty(), "try_for_each missed {} entries", a.len()),
        Err(k) => ensure!(pred(k) && model.contains_key(&k), "try_for_each reported {k}"),
    }
    let w: Vec<u32> = it().map(|(k, _)| if pred(k.key) { None } else { Some(k.key) }).while_some().collect();
    ensure!(w.iter().all(|k| model.contains_key(k) && !pred(*k)) && (!a.is_empty() || w.len() == n), "while_some gave {} of {n} entries", w.len());
    let sum = it().map(|(k, _)| k.uid as u64).try_fold(|| 0u64, |a, x| a.checked_add(x)).try_reduce(|| 0, |a, b| a.checked_add(b));
    ensure_eq!(sum, Some(model.values().map(|v| v.0 as u64).sum()), "try_fold and try_reduce");
    Ok(())
}

/// A search that every entry satisfies is over at once.
fn stops(ctx: &mut Ctx, m: &M, model: &Model) -> Res {
    let n = model.len();
    let looked = AtomicU64::new(0);
    let it = || m.into_par_iter().inspect(|_| { looked.fetch_add(1, O::Relaxed); });
    let mut judge = |what: &str| -> Res {
        let l = looked.swap(0, O::Relaxed);
        ctx.eval();
        ctx.count("stops_judged", 1);
        ctx.max("looked_at_by_one_worker", l);
        ensure!(l <= 1 + slack(n), "{what} looked at {l} of {n} entries, of which the first is an answer");
        Ok(())
    };
    ensure_eq!(it().any(|_| true), n > 0, "any");
    judge("any")?;
    ensure_eq!(it().all(|_| false), n == 0, "all");
    judge("all")?;
    ensure_eq!(it().find_any(|_| true).is_some(), n > 0, "find_any");
    judge("find_any")?;
    ensure_eq!(it().find_first(|_| true).is_some(), n > 0, "find_first");
    judge("find_first")?;
    ensure_eq!(it().try_for_each(|_| Err::<(), u8>(1)).is_err(), n > 0, "try_for_each");
    judge("try_for_each")
}

fn panics(ctx: &mut Ctx, m: &M, model: &Model, rng: &mut Rng) -> Res {
    if model.is_empty() {
        return Ok(());
    }
    let at = *model.keys().nth(rng.below(model.len())).unwrap_or(&0);
    let seen = AtomicU64::new(0);
    ctx.eval();
    ctx.count("panicking_closures", 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        m.into_par_iter().for_each(|(k, _)| {
            seen.fetch_add(1, O::Relaxed);
            if k.key == at {
                std::panic::panic_any(core_h::tok::Injected);
            }
        })
    }));
    ensure!(r.is_err(), "a panic in the closure did not come out");
    ensure!(seen.load(O::Relaxed) <= model.len() as u64, "more visits than entries");
    Ok(())
}

fn main() {
    const SIZES: [usize; 8] = [1, 2, 3, 4, 7, 8, 16, 40];
    // Small stacks: the iteration must not need more for a long bucket.
    let pools: Vec<rayon::ThreadPool> = SIZES
        .iter()
        .map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).stack_size(512 << 10).build().expect("no thread pool"))
        .collect();
    run(Plan { quick: 6_000, thorough: 250_000, hang_secs: 300 }, |ctx, c, rng| {
        let mode = modes(rng);
        let n = match rng.below(8) {
            0 => rng.below(3),
            1 | 2 => rng.range(2, 12),
            3 | 4 => rng.range(10, 60),
            5 | 6 => rng.range(50, 300),
            _ => rng.range(300, 2500),
        };
        // A few large maps: enough entries for any threshold on the number of entries or the depth of splits.
        let large = c % 300 == 150;
        let (n, mode) = if large {
            ctx.count("large_maps", 1);
            let n = *rng.pick(&[4096, 10_000, 20_000, 32_768, 40_000, 65_536, 66_000, 100_000, 131_073]);
            (n, match rng.below(4) { 0 => Mode::Ident, 1 => Mode::SharedLow(30), _ => Mode::Good(rng.next()) })
        } else {
            (n, mode)
        };
        let n = if matches!(mode, Mode::Const(_) | Mode::Few(_) | Mode::Groups | Mode::HalfConst) { n.min(600) } else { n };
        let b = Build {
            mode,
            degree: *rng.pick(&[2u8, 2, 4, 8, 16, 32, 64, 64]),
            universe: (n * rng.range(2, 5)).max(1) as u32,
            stride: *rng.pick(&[1u32, 1, 2, 64, 4096]),
            n,
        };
        let what = format!("{} entries, degree {}, {:?}, stride {}", b.n, b.degree, b.mode, b.stride);
        ctx.t(|| what.clone());
        ctx.fp(n as u64);
        ctx.fp(b.degree as u64);
        ctx.fp(rng.next());
        ctx.count(b.mode.label(), 1);
        ctx.count(&format!("degree_{}", b.degree), 1);
        let versions = build(&b, rng);
        for (m, model) in &versions {
            let p = rng.below(SIZES.len());
            let pool = &pools[p];
            let salt = rng.next();
            let chance = *rng.pick(&[0, 0, 20, 200, 1000]);
            let chance = if model.len() > 400 { chance.min(20) } else { chance };
            ctx.t(|| format!("{} entries now, {} threads, delays {chance}", model.len(), SIZES[p]));
            ctx.count(&format!("threads_{}", SIZES[p]), 1);
            ctx.max("entries", model.len() as u64);
            let limit = if rng.chance(1, 2) { u64::MAX } else { rng.range(1, model.len() + 1) as u64 };
            let r = pool.install(|| {
                guard(|| -> Res {
                    every_entry_once(ctx, m, model, salt, chance)?;
                    let (one, scattered) = (SIZES[p] == 1, matches!(mode, Mode::Good(_) | Mode::Ident | Mode::SharedLow(_)));
                    recorded(ctx, m, model, salt, chance, limit, one, scattered)?;
                    recorded(ctx, m, model, salt, 0, u64::MAX, one, scattered)?;
                    if one {
                        stops(ctx, m, model)?;
                    }
                    aggregates(ctx, m, model, salt, if chance > 100 { 0 } else { chance }, rng)?;
                    panics(ctx, m, model, rng)
                })
            });
            match r {
                Ok(r) => r.map_err(|e| format!("{e} ({what}; {} threads)", SIZES[p]))?,
                Err(e) => return Err(format!("{e} ({what}; {} threads)", SIZES[p])),
            }
            if model.len() > 1 {
                ctx.nontrivial();
            }
        }
        // The same version iterated by several at once, while others change clones of it.
        if rng.chance(1, 4) {
            let (m, model) = &versions[rng.below(2)];
            let pool = &pools[rng.below(SIZES.len())];
            let salt = rng.next();
            let errs = std::sync::Mutex::new(vec![]);
            let fail = |e: Res| {
                if let (Err(e), Ok(mut l)) = (e, errs.lock()) {
                    l.push(e);
                }
            };
            ctx.count("concurrent_iterations", 1);
            std::thread::scope(|s| {
                for t in 0..3u64 {
                    let fail = &fail;
                    s.spawn(move || {
                        let r = pool.install(|| {
                            let mut c = Ctx::new(core_h::ctx::args());
                            every_entry_once(&mut c, m, model, salt ^ t, 50)
                        });
                        fail(r);
                    });
                }
                let fail = &fail;
                s.spawn(move || {
                    let mut c = m.clone();
                    for (i, k) in model.keys().enumerate() {
                        if i % 2 == 0 {
                            c.remove_mut(&K { key: *k, uid: 0 });
                        } else if let Some(v) = c.get_mut(&K { key: *k, uid: 0 }) {
                            v.0 = v.0.wrapping_add(1);
                        }
                    }
                    let left = model.len() - model.len().div_ceil(2);
                    fail(if c.size() == left { Ok(()) } else { Err(format!("clone has {} entries, expected {left}", c.size())) });
                    drop(c);
                });
            });
            let errs = errs.into_inner().unwrap_or_default();
            ensure!(errs.is_empty(), "{} ({what})", errs.join("; "));
        }
        if ctx.samples.len() < 3 && !ctx.tracing && n > 3 {
            ctx.samples.push(what);
        }
        Ok(())
    });
}
