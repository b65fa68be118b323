//! C14: operations stay within their documented complexity.
//!
//! Every operation of long grow/shrink histories is measured in key comparisons, hash computations, element clones,
//! pointer operations (through an observing pointer kind: a deterministic measure of the nodes touched) and allocated
//! memory, and held against what the documentation promises for the size at hand.
use core_h::alloc;
use core_h::ctx::{Ctx, Plan, Res, run};
use core_h::ensure;
use core_h::hashers::{self, HB, Mode};
use core_h::model::{KINDS, Kind, Model, Op};
use core_h::mon::{MonRc, touches};
use core_h::rng::Rng;
use core_h::subj::{Cfg, Coll, Ptr};
use core_h::tok::{self, Cb, QKey, Tok};
use rpds::*;
use std::collections::HashMap;
use std::ops::Bound;

#[derive(Clone, Copy, Default, Debug)]
struct Cost {
    cmps: u64,
    eqs: u64,
    hashes: u64,
    clones: u64,
    touches: u64,
    bytes: u64,
    /// Change of the bytes held.
    live: i64,
}

fn measure<R>(f: impl FnOnce() -> R) -> (R, Cost) {
    let (c, t, a) = (tok::counts(), touches(), alloc::snap());
    let r = f();
    let (a2, t2, c2) = (alloc::snap(), touches(), tok::counts());
    let d = c2.since(c);
    let cost = Cost {
        cmps: d.get(Cb::Cmp),
        eqs: d.get(Cb::Eq),
        hashes: d.get(Cb::Hash),
        clones: d.get(Cb::Clone),
        touches: t2.since(t).total(),
        bytes: a2.bytes - a.bytes,
        live: a2.live - a.live,
    };
    (r, cost)
}

/// What the kinds offer apart from updates.
trait Look: Coll {
    /// Looks `x` (a key, or an index) up.
    fn look(&self, x: u32) -> bool;
    fn ends(&self) -> bool;
    /// Walks from the front (or the back), `n` elements at most.
    fn walk(&self, n: usize, back: bool) -> usize;
    /// Makes an iterator over a range with ends of each form and takes elements from one end or both.
    fn range_one(&self, _lo: u32, _hi: u32, _form: usize) -> usize {
        0
    }
    const TWO_ENDS: bool = false;
}

/// The forms of a range that never panic when `lo < hi`, or when they are open.
fn range_form(lo: u32, hi: u32, form: usize) -> (Bound<QKey>, Bound<QKey>) {
    let end = |k: u32, f: usize| match f {
        0 => Bound::Included(QKey(k)),
        1 => Bound::Excluded(QKey(k)),
        _ => Bound::Unbounded,
    };
    let (a, b) = (form % 3, form / 3 % 3);
    // Two equal ends that are both excluded are not a range.
    if lo == hi && a == 1 && b == 1 { (end(lo, 0), end(hi, 0)) } else { (end(lo, a), end(hi, b)) }
}
fn ends_of<I: DoubleEndedIterator>(mut r: I, form: usize) -> usize {
    match form / 9 {
        0 => r.next().is_some() as usize + r.next_back().is_some() as usize,
        1 => r.next().is_some() as usize,
        2 => r.next_back().is_some() as usize,
        _ => {
            // Only made.
            let _ = std::hint::black_box(r);
            0
        }
    }
}
const RANGE_FORMS: usize = 36;

impl Look for List<Tok, MonRc> {
    fn look(&self, _: u32) -> bool {
        self.first().is_some()
    }
    fn ends(&self) -> bool {
        self.last().is_some()
    }
    fn walk(&self, n: usize, _: bool) -> usize {
        self.iter().take(n).count()
    }
}
impl Look for Stack<Tok, MonRc> {
    fn look(&self, _: u32) -> bool {
        self.peek().is_some()
    }
    fn ends(&self) -> bool {
        self.peek().is_some()
    }
    fn walk(&self, n: usize, _: bool) -> usize {
        self.iter().take(n).count()
    }
}
impl Look for Queue<Tok, MonRc> {
    fn look(&self, _: u32) -> bool {
        self.peek().is_some()
    }
    fn ends(&self) -> bool {
        self.peek().is_some()
    }
    fn walk(&self, n: usize, _: bool) -> usize {
        self.iter().take(n).count()
    }
}
impl Look for Vector<Tok, MonRc> {
    fn look(&self, x: u32) -> bool {
        self.get(x as usize).is_some()
    }
    fn ends(&self) -> bool {
        self.first().is_some() && self.last().is_some()
    }
    fn walk(&self, n: usize, back: bool) -> usize {
        if back { self.iter().rev().take(n).count() } else { self.iter().take(n).count() }
    }
    const TWO_ENDS: bool = true;
}
impl Look for HashTrieMap<Tok, Tok, MonRc, HB> {
    fn look(&self, x: u32) -> bool {
        match x & 3 {
            0 => self.get(&QKey(x)).is_some(),
            1 => self.contains_key(&QKey(x)),
            _ => self.get_key_value(&QKey(x)).is_some(),
        }
    }
    fn ends(&self) -> bool {
        false
    }
    fn walk(&self, n: usize, _: bool) -> usize {
        self.iter().take(n).count()
    }
}
impl Look for HashTrieSet<Tok, MonRc, HB> {
    fn look(&self, x: u32) -> bool {
        if x & 1 == 0 { self.get(&QKey(x)).is_some() } else { self.contains(&QKey(x)) }
    }
    fn ends(&self) -> bool {
        false
    }
    fn walk(&self, n: usize, _: bool) -> usize {
        self.iter().take(n).count()
    }
}
impl Look for RedBlackTreeMap<Tok, Tok, MonRc> {
    fn look(&self, x: u32) -> bool {
        match x & 3 {
            0 => self.get(&QKey(x)).is_some(),
            1 => self.contains_key(&QKey(x)),
            _ => self.get_key_value(&QKey(x)).is_some(),
        }
    }
    fn ends(&self) -> bool {
        self.first().is_some() && self.last().is_some()
    }
    fn walk(&self, n: usize, back: bool) -> usize {
        if back { self.iter().rev().take(n).count() } else { self.iter().take(n).count() }
    }
    fn range_one(&self, lo: u32, hi: u32, form: usize) -> usize {
        ends_of(self.range(range_form(lo, hi, form)), form)
    }
    const TWO_ENDS: bool = true;
}
impl Look for RedBlackTreeSet<Tok, MonRc> {
    fn look(&self, x: u32) -> bool {
        if x & 1 == 0 { self.get(&QKey(x)).is_some() } else { self.contains(&QKey(x)) }
    }
    fn ends(&self) -> bool {
        self.first().is_some() && self.last().is_some()
    }
    fn walk(&self, n: usize, back: bool) -> usize {
        if back { self.iter().rev().take(n).count() } else { self.iter().take(n).count() }
    }
    fn range_one(&self, lo: u32, hi: u32, form: usize) -> usize {
        ends_of(self.range(range_form(lo, hi, form)), form)
    }
    const TWO_ENDS: bool = true;
}

struct Limits {
    kind: Kind,
    /// Nodes on a path from the root.
    path: f64,
    /// Children of a node.
    width: f64,
    /// Most keys with one and the same hash.
    bucket: f64,
    n: usize,
    /// Comparisons per level.
    unit: u64,
}

impl Limits {
    fn new(cfg: &Cfg, n: usize, bucket: usize, unit: u64) -> Limits {
        let f = (n + 1) as f64;
        let (path, width) = match cfg.kind {
            Kind::List | Kind::Stack | Kind::Queue => (1.0, 1.0),
            Kind::Vector => ((f.log2() / cfg.bits as f64).ceil() + 1.0, (1u64 << cfg.bits) as f64),
            Kind::HtMap | Kind::HtSet => {
                let d = (cfg.degree as f64).log2();
                let max = (64.0 / d).ceil() + 1.0;
                let p = match cfg.mode {
                    Mode::Good(_) => (2.0 * f.log2() / d + 3.0 + 8.0 / d).min(max),
                    _ => max,
                };
                (p, cfg.degree as f64)
            }
            // A red-black tree is at most this high.
            Kind::RbMap | Kind::RbSet => (2.0 * f.log2() + 1.0, 2.0),
        };
        Limits { kind: cfg.kind, path, width, bucket: bucket as f64, n, unit }
    }
    fn cmps(&self, passes: u64) -> u64 {
        match self.kind {
            Kind::RbMap | Kind::RbSet => (passes as f64 * self.unit as f64 * self.path) as u64 + 2,
            _ => 0,
        }
    }
    fn eqs(&self) -> u64 {
        match self.kind {
            // Two keys with one hash may be compared at every level while they are being separated.
            Kind::HtMap | Kind::HtSet => 3 + 3 * self.bucket as u64 + 4 * self.path as u64 * u64::from(self.bucket > 1.0),
            Kind::RbMap | Kind::RbSet => self.cmps(2),
            _ => 0,
        }
    }
    fn hashes(&self) -> u64 {
        u64::from(self.kind.is_hash())
    }
}

macro_rules! within {
    ($ctx:expr, $what:expr, $got:expr, $limit:expr, $desc:expr) => {{
        let (g, l) = ($got as f64, $limit as f64);
        if l > 0.0 {
            $ctx.max(&format!("percent_of_limit {}", $what), (100.0 * g / l) as u64);
        }
        if g > l {
            return Err(format!("{}: {g}, at most {l} allowed; {}", $what, $desc));
        }
    }};
}

fn check_keys(ctx: &mut Ctx, l: &Limits, c: &Cost, passes: u64, what: &str, desc: &dyn Fn() -> String) -> Res {
    within!(ctx, format!("{what}: comparisons"), c.cmps, l.cmps(passes), desc());
    within!(ctx, format!("{what}: equality tests"), c.eqs, l.eqs(), desc());
    within!(ctx, format!("{what}: hash computations"), c.hashes, l.hashes(), desc());
    within!(ctx, format!("{what}: element clones"), c.clones, 0, desc());
    ctx.eval();
    Ok(())
}

const PATTERNS: [&str; 6] = ["ascending", "descending", "random", "zigzag", "blocks", "outside in"];

/// Positions 0..n in the order of the pattern.
fn order(pat: usize, n: usize, rng: &mut Rng) -> Vec<u32> {
    let mut v: Vec<u32> = (0..n as u32).collect();
    match pat {
        0 => {}
        1 => v.reverse(),
        2 => rng.shuffle(&mut v),
        3 => {
            let mut w = Vec::with_capacity(n);
            for i in 0..n.div_ceil(2) {
                w.push(v[i]);
                if n - 1 - i > i {
                    w.push(v[n - 1 - i]);
                }
            }
            v = w;
        }
        4 => {
            let b = rng.range(2, 40.min(n.max(3)));
            let mut blocks: Vec<Vec<u32>> = v.chunks(b).map(<[u32]>::to_vec).collect();
            rng.shuffle(&mut blocks);
            v = blocks.concat();
        }
        _ => {
            let m = n / 2;
            let mut w = Vec::with_capacity(n);
            for i in 0..n {
                let d = i.div_ceil(2);
                let x = if i % 2 == 0 { m + d } else { m.wrapping_sub(d) };
                if x < n {
                    w.push(v[x]);
                }
            }
            // Whatever was left out by the rounding.
            let mut seen = vec![false; n];
            for x in &w {
                seen[*x as usize] = true;
            }
            w.extend((0..n as u32).filter(|i| !seen[*i as usize]));
            v = w;
        }
    }
    v
}

fn look_all<C: Look>(ctx: &mut Ctx, c: &C, cfg: &Cfg, m: &Model, l: &Limits, rng: &mut Rng) -> Res {
    let n = m.len();
    let desc = || format!("size {n}, {}", cfg.describe());
    for _ in 0..40 {
        let x = if cfg.kind.is_seq() {
            rng.below(n + n / 4 + 2) as u32
        } else {
            cfg.key(rng.below(cfg.universe as usize + 2) as u32)
        };
        let (_, k) = measure(|| c.look(x));
        check_keys(ctx, l, &k, 1, "lookup", &desc)?;
        within!(ctx, "lookup: pointer operations", k.touches, 8.0 + 6.0 * l.path + 4.0 * l.bucket, desc());
        within!(ctx, "lookup: bytes allocated", k.bytes, 0, desc());
    }
    let (_, k) = measure(|| (c.size_q(), c.empty_q()));
    within!(ctx, "size: pointer operations", k.touches, 8, desc());
    within!(ctx, "size: bytes allocated", k.bytes, 0, desc());
    let (_, k) = measure(|| c.ends());
    check_keys(ctx, l, &k, 0, "ends", &desc)?;
    within!(ctx, "ends: pointer operations", k.touches, 10.0 + 8.0 * l.path, desc());
    within!(ctx, "ends: bytes allocated", k.bytes, 0, desc());
    let (d, k) = measure(|| c.clone());
    check_keys(ctx, l, &k, 0, "clone", &desc)?;
    within!(ctx, "clone: pointer operations", k.touches, 10, desc());
    within!(ctx, "clone: bytes allocated", k.bytes, 64, desc());
    let (_, k) = measure(|| drop(d));
    within!(ctx, "dropping a clone: pointer operations", k.touches, 10, desc());
    // Iteration: the first elements, and all of them.
    for back in [false, true] {
        if back && !C::TWO_ENDS {
            continue;
        }
        let (_, k) = measure(|| c.walk(0, back));
        check_keys(ctx, l, &k, 4, "making an iterator", &desc)?;
        within!(ctx, "making an iterator: pointer operations", k.touches, 30.0 + 10.0 * l.path, desc());
        within!(ctx, "making an iterator: bytes allocated", k.bytes, 4096.0 + 200.0 * l.path, desc());
        let (_, k) = measure(|| c.walk(3, back));
        check_keys(ctx, l, &k, 4, "three elements of an iterator", &desc)?;
        // The first step into the incoming half of a queue may walk all of it.
        let first = if cfg.kind == Kind::Queue { 4.0 * n as f64 } else { 0.0 };
        within!(ctx, "three elements: pointer operations", k.touches, 30.0 + 10.0 * l.path + 2.0 * l.bucket + first, desc());
        within!(ctx, "three elements: bytes allocated", k.bytes, 4096.0 + 200.0 * l.path + 4.0 * first, desc());
        let (got, k) = measure(|| c.walk(usize::MAX, back));
        ensure!(got == n, "an iterator gives {got} elements; {}", desc());
        let nf = n as f64;
        within!(ctx, "full iteration: pointer operations", k.touches, 40.0 + 10.0 * l.path + 12.0 * nf * chain(cfg, l), desc());
        let qb = if cfg.kind == Kind::Queue { 32.0 * nf } else { 0.0 };
        within!(ctx, "full iteration: bytes allocated", k.bytes, 4096.0 + 200.0 * l.path + qb, desc());
        within!(ctx, "full iteration: comparisons", k.cmps, 4.0 * nf + 10.0, desc());
        within!(ctx, "full iteration: hash computations", k.hashes + k.clones, 0, desc());
        ctx.eval();
    }
    if cfg.kind.is_rb() {
        for _ in 0..12 {
            let u = cfg.universe as usize + 1;
            let (a, b) = match rng.below(4) {
                // At the far ends, where the most lies outside the range.
                0 => (u - 1 - rng.below(u.min(4)), u),
                1 => (0, rng.below(u.min(4))),
                2 => {
                    let a = rng.below(u);
                    (a, (a + rng.below(3)).min(u))
                }
                _ => (rng.below(u), rng.below(u)),
            };
            let (a, b) = (cfg.key(a.min(b) as u32), cfg.key(a.max(b) as u32));
            let (a, b) = (a.min(b), a.max(b));
            let form = rng.below(RANGE_FORMS);
            let (_, k) = measure(|| c.range_one(a, b, form));
            check_keys(ctx, l, &k, 6, "ends of a range", &desc)?;
            within!(ctx, "ends of a range: pointer operations", k.touches, 40.0 + 24.0 * l.path, desc());
            within!(ctx, "ends of a range: bytes allocated", k.bytes, 4096.0 + 400.0 * l.path, desc());
        }
    }
    Ok(())
}

/// Hash tries over bad hashes may have chains of single children.
fn chain(cfg: &Cfg, l: &Limits) -> f64 {
    match cfg.mode {
        _ if !cfg.kind.is_hash() => 1.0,
        Mode::Good(_) => 2.0,
        _ => l.path,
    }
}

/// The memory a version may hold.
fn footprint(cfg: &Cfg, l: &Limits, n: usize) -> f64 {
    let n = n as f64;
    match cfg.kind {
        Kind::List | Kind::Stack | Kind::Queue => 400.0 + 200.0 * n,
        Kind::Vector => 400.0 + 64.0 * l.width * l.path + n * 160.0,
        Kind::RbMap | Kind::RbSet => 400.0 + 400.0 * n,
        Kind::HtMap | Kind::HtSet => {
            // A node has room for at most twice its degree.
            let node = 64.0 + 32.0 * l.width;
            400.0 + n * (300.0 + node * if matches!(cfg.mode, Mode::Good(_)) { 2.0 } else { l.path })
        }
    }
}

/// A bucket of keys with one hash may be rebuilt.
fn bucket_bytes(l: &Limits) -> f64 {
    if l.bucket > 1.0 { 256.0 * l.bucket } else { 0.0 }
}

/// The bytes an update of an unshared version may allocate: nothing of its structure is copied.
fn in_place_bytes(cfg: &Cfg, l: &Limits) -> f64 {
    match cfg.kind {
        Kind::List | Kind::Stack | Kind::Queue => 256.0,
        // A new node per level at most, and one that grows.
        Kind::Vector => 512.0 + 300.0 * l.path + 64.0 * l.width,
        Kind::RbMap | Kind::RbSet => 1024.0,
        Kind::HtMap | Kind::HtSet => {
            let split = if matches!(cfg.mode, Mode::Good(_)) { 8.0 + 16.0 / l.width } else { l.path };
            768.0 + 32.0 * l.width + 300.0 * split + bucket_bytes(l)
        }
    }
}

fn update_touches(cfg: &Cfg, l: &Limits, shared: bool) -> f64 {
    let wide = if shared { 3.0 * l.width } else { 0.0 };
    match cfg.kind {
        Kind::List | Kind::Stack => 24.0,
        Kind::Queue => 40.0,
        Kind::Vector => 40.0 + l.path * (12.0 + wide),
        Kind::RbMap | Kind::RbSet => 120.0 + 40.0 * l.path,
        Kind::HtMap | Kind::HtSet => 60.0 + l.path * (16.0 + wide) + 24.0 * l.bucket,
    }
}

fn shared_bytes(cfg: &Cfg, l: &Limits) -> f64 {
    match cfg.kind {
        Kind::List | Kind::Stack | Kind::Queue => 512.0,
        Kind::Vector => 600.0 + l.path * (200.0 + 32.0 * l.width),
        Kind::RbMap | Kind::RbSet => 1500.0 + 400.0 * l.path,
        Kind::HtMap | Kind::HtSet => 1500.0 + l.path * (300.0 + 48.0 * l.width) + 200.0 * l.bucket,
    }
}

struct Hist<C> {
    c: C,
    m: Model,
    hashes: HashMap<u64, usize>,
    bucket: usize,
    uid: u32,
    unit: u64,
    /// Bytes the version holds.
    live: i64,
    kept: usize,
}

impl<C: Look> Hist<C> {
    fn note(&mut self, cfg: &Cfg, op: &Op, before: usize) {
        if !cfg.kind.is_hash() {
            return;
        }
        let after = self.m.len();
        let k = match op {
            Op::Insert(k, _) => k.0,
            Op::Remove(k, _) => *k,
            _ => return,
        };
        let h = hashers::apply(cfg.mode, k as u64);
        let e = self.hashes.entry(h).or_insert(0);
        if after > before {
            *e += 1;
            self.bucket = self.bucket.max(*e);
        } else if after < before {
            *e -= 1;
        }
    }
}

fn step<C: Look>(ctx: &mut Ctx, h: &mut Hist<C>, cfg: &Cfg, op: &Op, shared: bool, total: &mut Cost) -> Res {
    let n = h.m.len();
    let grows = usize::from(!matches!(cfg.mode, Mode::Good(_)));
    let l = Limits::new(cfg, n + 1, h.bucket + grows, h.unit);
    let desc = || format!("{op:?} at size {}, {}", l.n - 1, cfg.describe());
    let before = n;
    // Only the latest version is kept: a queue may have to reverse what is shared.
    let what = if shared { "update of a shared version" } else { "in-place update" };
    let (old, k) = if shared {
        let ((new, _), k) = measure(|| h.c.do_new(op));
        (Some(std::mem::replace(&mut h.c, new)), k)
    } else {
        let (_, k) = measure(|| h.c.do_mut(op));
        (None, k)
    };
    h.m.apply(op);
    h.note(cfg, op, before);
    h.live += k.live;
    check_keys(ctx, &l, &k, 2, what, &desc)?;
    total.touches += k.touches;
    total.bytes += k.bytes;
    let all = matches!(op, Op::Reverse) || matches!((op, cfg.kind), (Op::Take, Kind::Queue));
    if all {
        let nf = n as f64;
        within!(ctx, format!("{what}, linear: pointer operations"), k.touches, 40.0 + 12.0 * nf, desc());
        if !shared {
            within!(ctx, format!("{what}, linear: bytes allocated"), k.bytes, 64, desc());
        }
    } else {
        within!(ctx, format!("{what}: pointer operations"), k.touches, update_touches(cfg, &l, shared), desc());
        if shared {
            within!(ctx, format!("{what}: bytes allocated"), k.bytes, shared_bytes(cfg, &l), desc());
        } else {
            within!(ctx, format!("{what}: bytes allocated"), k.bytes, in_place_bytes(cfg, &l), desc());
        }
        if matches!(op, Op::PeekMut(_) | Op::MapPeekMut(_)) && !shared {
            within!(ctx, format!("{what}, access only: bytes allocated"), k.bytes, bucket_bytes(&l), desc());
        }
    }
    if let Some(old) = old {
        // Releasing the old version releases the path it had for itself.
        let (_, k) = measure(|| drop(old));
        h.live += k.live;
        if !all {
            within!(
                ctx,
                "releasing the old version: pointer operations",
                k.touches,
                update_touches(cfg, &l, true),
                desc()
            );
        }
    }
    Ok(())
}

/// Operations on many elements at once: each element costs what it costs alone.
fn bulk<C: Look>(ctx: &mut Ctx, h: &Hist<C>, cfg: &Cfg, rng: &mut Rng) -> Res {
    // Collecting takes the default configuration.
    let cfg = &Cfg { bits: 5, degree: 64, ..*cfg };
    hashers::set_default(cfg.mode);
    let mut items = h.m.items();
    match rng.below(3) {
        0 => rng.shuffle(&mut items),
        1 => items.reverse(),
        _ => (),
    }
    if !cfg.kind.is_seq() && !items.is_empty() && rng.chance(1, 2) {
        // Repeated keys.
        let again: Vec<_> = (0..items.len() / 3 + 1).map(|_| *rng.pick(&items)).collect();
        items.extend(again);
    }
    let n = items.len();
    let nf = n as f64;
    let l = Limits::new(cfg, n + 1, h.bucket + 1, h.unit);
    let desc = || format!("{n} items, {}", cfg.describe());
    let toks = |items: &[((u32, u32), Option<(u32, u32)>)]| -> Vec<(Tok, Option<Tok>)> {
        items.iter().map(|(k, v)| (Tok::new(k.0, k.1), v.map(|v| Tok::new(v.0, v.1)))).collect()
    };
    let within_n = |ctx: &mut Ctx, what: &str, k: &Cost, each: f64| -> Res {
        within!(ctx, format!("{what}: comparisons"), k.cmps, nf * (4 + l.cmps(2)) as f64 + 8.0, desc());
        within!(ctx, format!("{what}: equality tests"), k.eqs, nf * (2 + l.eqs()) as f64 + 8.0, desc());
        within!(ctx, format!("{what}: hash computations"), k.hashes, 2.0 * nf * l.hashes() as f64, desc());
        within!(ctx, format!("{what}: element clones"), k.clones, 0, desc());
        within!(ctx, format!("{what}: pointer operations"), k.touches, 60.0 + 10.0 * l.path + nf * each, desc());
        ctx.eval();
        Ok(())
    };
    let mut v = toks(&items).into_iter();
    let (c, k) = measure(|| C::from_items(cfg, &mut v));
    drop(v);
    within_n(ctx, "collecting", &k, update_touches(cfg, &l, false))?;
    within!(ctx, "collecting: hashes of keys", k.hashes, nf * l.hashes() as f64, desc());
    within!(ctx, "collecting: bytes allocated", k.bytes, 4.0 * footprint(cfg, &l, n) + bucket_bytes(&l) * nf, desc());
    within!(ctx, "memory held after collecting", k.live, footprint(cfg, &l, n), desc());
    let d = C::from_items(cfg, &mut toks(&items).into_iter());
    let look = 24.0 + 6.0 * l.path + 4.0 * l.bucket + 24.0 * chain(cfg, &l);
    let (eq, k) = measure(|| c == d);
    ensure!(eq, "two collections of the same items differ; {}", desc());
    within_n(ctx, "comparing for equality", &k, look)?;
    if let (Some(_), k) = measure(|| c.compare(&d)) {
        within_n(ctx, "comparing for order", &k, look)?;
    }
    if let (Some(_), k) = measure(|| c.record()) {
        within!(ctx, "hashing a collection: element hashes", k.hashes, 2.0 * nf, desc());
        within!(ctx, "hashing a collection: pointer operations", k.touches, 60.0 + nf * look, desc());
    }
    if let (Some(_), k) = measure(|| c.relations(&d)) {
        // Three predicates, each of which may look in both directions.
        let k = Cost { cmps: k.cmps / 6, eqs: k.eqs / 6, hashes: k.hashes / 6, touches: k.touches / 6, ..k };
        within_n(ctx, "relations of sets", &k, look)?;
    }
    // Extending, alone and with another version around.
    for shared in [false, true] {
        let mut e = C::from_items(cfg, &mut toks(&items).into_iter());
        let add = toks(&items[..rng.below(n + 1)]);
        let an = add.len() as f64;
        let other = shared.then(|| e.clone());
        let mut add = add.into_iter();
        let (did, k) = measure(|| e.extend_with(&mut add));
        drop(add);
        if did {
            let l = Limits::new(cfg, 2 * n + 1, 1, h.unit);
            let path = if shared { shared_bytes(cfg, &l) } else { in_place_bytes(cfg, &l) };
            let what = if shared { "extending a shared version" } else { "extending in place" };
            within!(ctx, format!("{what}: element clones"), k.clones, 0, desc());
            within!(ctx, format!("{what}: pointer operations"), k.touches, 60.0 + update_touches(cfg, &l, shared) + an * update_touches(cfg, &l, false), desc());
            within!(ctx, format!("{what}: bytes allocated"), k.bytes, path + 3.0 * footprint(cfg, &l, an as usize), desc());
            ctx.eval();
        }
        drop(other);
    }
    drop(d);
    let (_, k) = measure(|| drop(c));
    within!(ctx, "dropping: pointer operations", k.touches, 40.0 + nf * (12.0 + 4.0 * chain(cfg, &l)), desc());
    within_n(ctx, "dropping", &k, f64::INFINITY)?;
    Ok(())
}

fn held<C: Look>(ctx: &mut Ctx, h: &Hist<C>, cfg: &Cfg) -> Res {
    let n = h.m.len();
    let l = Limits::new(cfg, n + 1, h.bucket, h.unit);
    ctx.eval();
    within!(
        ctx,
        "memory held",
        h.live,
        footprint(cfg, &l, n),
        format!("at size {n}, after having had {} elements, {}", h.kept, cfg.describe())
    );
    Ok(())
}

fn case<C: Look>(ctx: &mut Ctx, cfg: &Cfg, top: usize, rng: &mut Rng) -> Res {
    tok::reset();
    tok::reserve(1 << 20);
    // The comparisons one level takes.
    let mut unit = 1;
    if cfg.kind.is_rb() {
        let mut one = C::empty(cfg);
        one.do_mut(&Op::Insert((10, 0), (0, 0)));
        for x in [5, 10, 15] {
            for x in [x * 4, x * 4 + 1] {
                unit = unit.max(measure(|| one.look(x)).1.cmps);
            }
        }
        ensure!(unit <= 3, "a lookup among one key takes {unit} comparisons");
    }
    let kind = cfg.kind;
    let mut seen_path: Vec<(usize, &str)> = vec![];
    let mut h = Hist { c: C::empty(cfg), m: Model::new(kind), hashes: HashMap::new(), bucket: 0, uid: 0, unit, live: 0, kept: 0 };
    let phases = rng.range(2, 5);
    let mut size = 0usize;
    for ph in 0..phases {
        let up = ph % 2 == 0;
        let goal = if up {
            *rng.pick(&[top, top, top / 2 + 1, top / 8 + 1])
        } else {
            *rng.pick(&[0, 0, 1, 2, size / 100, size / 10, size / 2])
        };
        let pat = rng.below(6);
        ctx.count(&format!("{} {}", if up { "growing" } else { "shrinking" }, PATTERNS[pat]), 1);
        seen_path.push((goal, PATTERNS[pat]));
        ctx.fp((goal * 8 + pat) as u64);
        ctx.t(|| format!("phase {ph}: from {size} to {goal}, {}", PATTERNS[pat]));
        let ops: Vec<Op> = if kind.is_seq() {
            let k = goal.abs_diff(size);
            (0..k)
                .map(|_| {
                    h.uid += 1;
                    if goal > size { Op::Put((h.uid, h.uid)) } else { Op::Take }
                })
                .collect()
        } else if goal > size {
            order(pat, cfg.universe as usize, rng)
                .into_iter()
                .filter(|i| !h.m.contains(cfg.key(*i)))
                .take(goal - size)
                .map(|i| Op::Insert((cfg.key(i), 1), (i, 2)))
                .collect()
        } else {
            let keys: Vec<u32> = h.m.items().iter().map(|x| x.0.0).collect();
            order(pat, keys.len(), rng).into_iter().take(size - goal).map(|i| Op::Remove(keys[i as usize], true)).collect()
        };
        let count = ops.len();
        let mut total = Cost::default();
        let sparse = 1 + count / 60;
        for (i, op) in ops.iter().enumerate() {
            let n = h.m.len();
            let persistent = rng.chance(1, 30) && kind != Kind::Queue;
            step(ctx, &mut h, cfg, op, persistent, &mut total)?;
            if i % sparse == 0 || n < 20 {
                // Something in between.
                let x = rng.below(h.m.len() + 2);
                let extra: Vec<Op> = match kind {
                    Kind::Vector => vec![Op::Set(x, (1, 1)), Op::PeekMut(x), Op::GetMut(x, (2, 2))],
                    Kind::HtMap | Kind::RbMap => {
                        let k = cfg.key(rng.below(cfg.universe as usize) as u32);
                        let k2 = cfg.key(rng.below(cfg.universe as usize) as u32);
                        let mut v = vec![Op::MapPeekMut(k), Op::MapGetMut(k2, (3, 3), true)];
                        if h.m.contains(k) {
                            v.push(Op::Insert((k, 5), (5, 5)));
                        } else {
                            v.push(Op::Remove(k, true));
                        }
                        v
                    }
                    Kind::HtSet | Kind::RbSet => {
                        let k = cfg.key(rng.below(cfg.universe as usize) as u32);
                        if h.m.contains(k) { vec![Op::Insert((k, 5), (5, 5))] } else { vec![Op::Remove(k, true)] }
                    }
                    Kind::List if i % (sparse * 20) == 0 => vec![Op::Reverse],
                    _ => vec![],
                };
                for op in &extra {
                    for shared in [false, true] {
                        if shared && matches!(op, Op::MapGetMut(..) | Op::GetMut(..) | Op::MapPeekMut(_) | Op::PeekMut(_)) {
                            continue;
                        }
                        step(ctx, &mut h, cfg, op, shared, &mut total)?;
                    }
                }
                let l = Limits::new(cfg, h.m.len(), h.bucket, unit);
                held(ctx, &h, cfg)?;
                if i % (sparse * 6) == 0 || n < 6 {
                    look_all(ctx, &h.c, cfg, &h.m, &l, rng)?;
                }
            }
        }
        ctx.count("operations", count as u64);
        size = h.m.len();
        h.kept = h.kept.max(size);
        if kind == Kind::Queue && count > 50 {
            // Dequeuing is constant when amortized.
            within!(
                ctx,
                "queue, amortized pointer operations per update",
                total.touches as f64 / count as f64,
                60,
                format!("{count} updates to size {size}")
            );
        }
        held(ctx, &h, cfg)?;
        if rng.chance(1, 2) {
            bulk(ctx, &h, cfg, rng)?;
        }
    }
    if h.uid > 100 || cfg.universe > 100 {
        ctx.nontrivial();
    }
    if ctx.samples.len() < 3 && !ctx.tracing && ctx.args.shard < 2 {
        ctx.samples.push(format!("{}: {seen_path:?}", cfg.describe()));
    }
    Ok(())
}

fn main() {
    run(Plan { quick: 9_600, thorough: 60_000, hang_secs: 120 }, |ctx, c, rng| {
        let kind = KINDS[(c % 8) as usize];
        let e = rng.below(1000) as f64 / 1000.0;
        let hi: f64 = if ctx.args.thorough && rng.chance(1, 8) { 60_000.0 } else { 7_000.0 };
        let mut top = hi.powf(e) as usize + 1;
        let mode = if kind.is_hash() {
            if rng.chance(1, 2) { Mode::Good(rng.next()) } else { hashers::modes(rng) }
        } else {
            Mode::Good(0)
        };
        if !matches!(mode, Mode::Good(_) | Mode::Ident) {
            // Buckets make it quadratic.
            top = top.min(300);
        }
        let cfg = Cfg {
            kind,
            ptr: Ptr::Rc,
            bits: *rng.pick(&[1, 2, 3, 5, 5, 5, 6, 8]),
            degree: *rng.pick(&[2, 4, 8, 16, 32, 64, 64, 64]),
            mode,
            stateless: false,
            universe: top as u32 + rng.below(top / 2 + 2) as u32,
            stride: *rng.pick(&[1, 1, 3, 64, 4096]),
        };
        ctx.count(kind.label(), 1);
        ctx.t(|| format!("{} up to {top}", cfg.describe()));
        match kind {
            Kind::List => case::<List<Tok, MonRc>>(ctx, &cfg, top, rng),
            Kind::Stack => case::<Stack<Tok, MonRc>>(ctx, &cfg, top, rng),
            Kind::Queue => case::<Queue<Tok, MonRc>>(ctx, &cfg, top, rng),
            Kind::Vector => case::<Vector<Tok, MonRc>>(ctx, &cfg, top, rng),
            Kind::HtMap => case::<HashTrieMap<Tok, Tok, MonRc, HB>>(ctx, &cfg, top, rng),
            Kind::HtSet => case::<HashTrieSet<Tok, MonRc, HB>>(ctx, &cfg, top, rng),
            Kind::RbMap => case::<RedBlackTreeMap<Tok, Tok, MonRc>>(ctx, &cfg, top, rng),
            Kind::RbSet => case::<RedBlackTreeSet<Tok, MonRc>>(ctx, &cfg, top, rng),
        }
    });
}
