//! C11: deserializing hostile input never panics, aborts or leaks.
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use core_h::ctx::{Ctx, Plan, Res, guard, run};
use core_h::hashers::{self, HB};
use core_h::history::element_errors;
use core_h::model::{Item, KINDS, Kind, Model, Op};
use core_h::rng::Rng;
use core_h::ser::{De, E, Hint, How, V};
use core_h::sertypes::{Ours, Theirs, ours, theirs};
use core_h::subj::{Cfg, Coll, Ptr, S, Subj};
use core_h::tok::{self, Tok};
use core_h::{alloc, ensure};
use rpds::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Deserializer};
use std::cell::Cell;

const HINTS: [usize; 12] = [
    usize::MAX,
    usize::MAX - 1,
    usize::MAX / 2,
    usize::MAX / 8,
    isize::MAX as usize / 16,
    1 << 60,
    1 << 48,
    1 << 40,
    1 << 34,
    1 << 32,
    1 << 28,
    1 << 24,
];

fn hint(n: usize, rng: &mut Rng) -> Hint {
    match rng.below(8) {
        0 => Hint::Exact,
        1 => Hint::Absent,
        2 => Hint::Fixed(rng.below(n + 1)),
        _ => Hint::Fixed(*rng.pick(&HINTS)),
    }
}

fn pair(k: u32, u: u32) -> V {
    V::Tuple(vec![V::U(k as u64), V::U(u as u64)])
}

fn junk(depth: u32, rng: &mut Rng) -> V {
    match rng.below(if depth == 0 { 10 } else { 15 }) {
        0 => V::Bool(rng.chance(1, 2)),
        1 => V::U(rng.next()),
        2 => V::I(-1),
        3 => V::F(0.5),
        4 => V::Str("x".into()),
        5 => V::Bytes(vec![1, 2, 3]),
        6 => V::Unit,
        7 => V::None,
        8 => V::Seq(None, vec![]),
        9 => V::Map(None, vec![]),
        10 => V::Some(Box::new(junk(depth - 1, rng))),
        11 => V::Tuple((0..rng.below(4)).map(|_| junk(depth - 1, rng)).collect()),
        12 => V::Seq(None, (0..rng.below(4)).map(|_| junk(depth - 1, rng)).collect()),
        13 => V::Map(None, (0..rng.below(3)).map(|_| (junk(depth - 1, rng), junk(depth - 1, rng))).collect()),
        _ => V::Other("thing", (0..rng.below(3)).map(|_| junk(depth - 1, rng)).collect()),
    }
}

/// The k-th (from 0) place a mutation can be made at.
fn mutate(v: &mut V, k: &mut usize, rng: &mut Rng) -> bool {
    if *k == 0 {
        let old = std::mem::replace(v, V::Unit);
        *v = match (rng.below(5), old) {
            (0, V::Tuple(mut x)) => {
                x.pop();
                V::Tuple(x)
            }
            (1, V::Tuple(mut x)) => {
                x.push(V::U(1));
                V::Tuple(x)
            }
            (0, V::Seq(_, x)) => V::Map(None, x.into_iter().map(|x| (x, V::Unit)).collect()),
            (0, V::Map(_, x)) => V::Seq(None, x.into_iter().map(|x| x.1).collect()),
            (0, V::U(_)) => V::U(u64::MAX),
            _ => junk(2, rng),
        };
        return true;
    }
    *k -= 1;
    match v {
        V::Seq(_, x) | V::Tuple(x) | V::Other(_, x) => x.iter_mut().any(|x| mutate(x, k, rng)),
        V::Map(_, x) => x.iter_mut().any(|(a, b)| mutate(a, k, rng) || mutate(b, k, rng)),
        V::Some(x) => mutate(x, k, rng),
        _ => false,
    }
}

fn clip(v: &V) -> String {
    let mut s = format!("{v:?}");
    if s.len() > 900 {
        s.truncate(900);
        s.push_str("...");
    }
    s
}

struct Audit {
    before: alloc::Snap,
}

impl Audit {
    fn begin() -> Audit {
        tok::reset();
        tok::reserve(1 << 14);
        alloc::set_limit(1 << 30);
        alloc::reset_peak();
        Audit { before: alloc::snap() }
    }
    /// To be called while the result is still alive.
    fn peak(&self, elements: usize, size: usize) -> Res {
        let used = alloc::peak() - self.before.live;
        let max = (4 << 20) + (elements * (8 * size + 4096)) as i64;
        ensure!(used <= max, "{used} bytes were held for {elements} elements of {size} bytes");
        Ok(())
    }
    /// To be called when the result has been dropped.
    fn end(self) -> Res {
        alloc::set_limit(i64::MAX);
        let after = alloc::snap();
        ensure!(tok::live() == 0, "{} elements are still alive when the result has been dropped", tok::live());
        if tok::within_reserve() {
            ensure!(
                after.live == self.before.live && after.live_n == self.before.live_n,
                "{} bytes in {} blocks are still allocated when the result has been dropped",
                after.live - self.before.live,
                after.live_n - self.before.live_n
            );
        }
        element_errors()
    }
}

/// Room for the message of a panic, so that it does not disturb the balance.
fn attempt<R>(f: impl FnOnce() -> Result<R, E>) -> Result<Result<R, E>, String> {
    guard(f)
}

fn tokens<C: Coll + DeserializeOwned>(ctx: &mut Ctx, cfg: &Cfg, rng: &mut Rng) -> Res {
    let kind = cfg.kind;
    let n = match rng.below(10) {
        0 => 0,
        1..=5 => rng.below(8),
        6..=8 => rng.below(60),
        _ => rng.below(400),
    };
    let items: Vec<Item> = (0..n)
        .map(|i| {
            let k = rng.below(n + 3) as u32;
            ((k, i as u32), kind.is_map().then_some((k, 1000 + i as u32)))
        })
        .collect();
    let mut v = if kind.is_map() {
        V::Map(None, items.iter().map(|(k, x)| (pair(k.0, k.1), x.map_or(V::Unit, |x| pair(x.0, x.1)))).collect())
    } else {
        V::Seq(None, items.iter().map(|(k, _)| pair(k.0, k.1)).collect())
    };
    // Each element is asked for, and consists of two more values that are asked for.
    let steps = if kind.is_map() { n * 6 } else { n * 3 } as u64;
    let style = rng.below(6);
    let mut valid = true;
    let mut fail_at = None;
    match style {
        0 => {}
        1 | 2 => {
            fail_at = (steps > 0).then(|| rng.below(steps as usize) as u64);
            valid = fail_at.is_none();
        }
        3 | 4 => {
            valid = false;
            for _ in 0..rng.range(1, 3) {
                let mut k = rng.below(n * 3 + 1);
                mutate(&mut v, &mut k, rng);
            }
        }
        _ => {
            valid = false;
            v = junk(3, rng);
        }
    }
    let fail = Cell::new(fail_at.unwrap_or(u64::MAX));
    let h = hint(n, rng);
    let how = How { hint: h, strict: rng.chance(1, 2), fail: Some(&fail), human: true };
    ctx.t(|| format!("{} hint {h:?} failing at {fail_at:?}: {v:?}", cfg.describe()));
    ctx.fp(style as u64);
    ctx.fp(n as u64);
    ctx.fp(fail_at.unwrap_or(7777));
    if let Hint::Fixed(x) = h {
        ctx.fp(x as u64);
        if x > n {
            ctx.count("hostile_lengths", 1);
        }
    }
    ctx.nontrivial();
    let bad = |e: String| format!("{e}; input {}, hint {h:?}, failing at {fail_at:?} ({})", clip(&v), cfg.describe());

    let in_place = rng.chance(1, 4);
    let mut model = Model::new(kind);
    if valid {
        let mut it = items.clone();
        if matches!(kind, Kind::List | Kind::Stack) {
            it.reverse();
        }
        for (k, x) in it {
            model.apply(&if kind.is_seq() { Op::Put(k) } else { Op::Insert(k, x.unwrap_or_default()) });
        }
    }
    let a = Audit::begin();
    let r = if in_place {
        attempt(|| {
            let mut c = C::empty(cfg);
            C::deserialize_in_place(De { v: &v, how }, &mut c).map(|()| c)
        })
    } else {
        attempt(|| C::deserialize(De { v: &v, how }))
    };
    let peak = a.peak(n + 4, std::mem::size_of::<Tok>());
    ctx.eval();
    let r = r.map_err(&bad)?;
    peak.map_err(&bad)?;
    let mut ok = true;
    match r {
        Ok(c) => {
            ensure!(fail_at.is_none(), "{}", bad(format!("the error of the deserializer is lost: {c:?}")));
            if valid {
                ensure!(c.size_q() == model.len(), "{}", bad(format!("{} elements", c.size_q())));
            }
            // Whatever it is, it can be used.
            let mut seen = 0;
            c.each(&mut |_, _| seen += 1);
            ensure!(seen == c.size_q(), "{}", bad(format!("{seen} elements, size {}", c.size_q())));
            drop(c);
        }
        Err(e) => {
            ensure!(!valid, "{}", bad(format!("a valid input is refused: {e}")));
            ok = false;
            drop(e);
        }
    }
    a.end().map_err(&bad)?;
    ctx.count(if ok { "accepted" } else if fail_at.is_some() { "failed_midway" } else { "refused" }, 1);
    ctx.count("valid", valid as u64);
    if valid {
        fail.set(u64::MAX);
        let c = C::deserialize(De { v: &v, how }).map_err(|e| bad(e.0))?;
        S { c, cfg: cfg.clone() }.check(&model, rng, true).map_err(bad)?;
    }
    Ok(())
}

/// Every place a deserializer can fail at, for one small input.
fn everywhere<C: Coll + DeserializeOwned>(ctx: &mut Ctx, cfg: &Cfg, rng: &mut Rng) -> Res {
    let n = rng.range(1, 24);
    let v = if cfg.kind.is_map() {
        V::Map(None, (0..n).map(|i| (pair(rng.below(n) as u32, i as u32), pair(1, 1))).collect())
    } else {
        V::Seq(None, (0..n).map(|i| pair(rng.below(n) as u32, i as u32)).collect())
    };
    let h = hint(n, rng);
    let mut failed = 0;
    for k in 0.. {
        let fail = Cell::new(k);
        let bad = |e: String| format!("{e}; input {}, hint {h:?}, failing at {k} ({})", clip(&v), cfg.describe());
        let a = Audit::begin();
        let r = attempt(|| C::deserialize(De { v: &v, how: How { hint: h, strict: true, fail: Some(&fail), human: true } }));
        let peak = a.peak(n, std::mem::size_of::<Tok>());
        let r = r.map_err(&bad)?;
        peak.map_err(&bad)?;
        ctx.eval();
        let done = r.is_ok();
        drop(r);
        a.end().map_err(&bad)?;
        ctx.count("fault_points", 1);
        if done {
            ensure!(
                failed >= n,
                "{}",
                bad(format!("{failed} failures at {n} elements: the error of the deserializer is lost"))
            );
            break;
        }
        failed += 1;
    }
    ctx.fp(n as u64);
    ctx.fp(failed as u64);
    ctx.nontrivial();
    Ok(())
}

fn dispatch<P: SharedPointerKind + 'static>(ctx: &mut Ctx, cfg: &Cfg, rng: &mut Rng, all: bool) -> Res {
    macro_rules! go {
        ($t:ty) => {
            if all { everywhere::<$t>(ctx, cfg, rng) } else { tokens::<$t>(ctx, cfg, rng) }
        };
    }
    match cfg.kind {
        Kind::List => go!(List<Tok, P>),
        Kind::Stack => go!(Stack<Tok, P>),
        Kind::Queue => go!(Queue<Tok, P>),
        Kind::Vector => go!(Vector<Tok, P>),
        Kind::HtMap => go!(HashTrieMap<Tok, Tok, P, HB>),
        Kind::RbMap => go!(RedBlackTreeMap<Tok, Tok, P>),
        Kind::HtSet => go!(HashTrieSet<Tok, P, HB>),
        Kind::RbSet => go!(RedBlackTreeSet<Tok, P>),
    }
}

// ---------------------------------------------------------------------------------- elements of unusual sizes

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Huge([u64; 2048]);
impl<'de> Deserialize<'de> for Huge {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Huge, D::Error> {
        Ok(Huge([u64::deserialize(d)?; 2048]))
    }
}

fn sized<T: DeserializeOwned>(ctx: &mut Ctx, what: &str, v: &V, n: usize, size: usize, rng: &mut Rng) -> Res {
    let h = hint(n, rng);
    let fail = Cell::new(if rng.chance(1, 2) { u64::MAX } else { rng.below(n + 1) as u64 });
    let bad = |e: String| format!("{e}; {what}, {n} values, hint {h:?}");
    ctx.t(|| bad(String::new()));
    ctx.fp(n as u64);
    let a = Audit::begin();
    let r = attempt(|| T::deserialize(De { v, how: How { hint: h, strict: false, fail: Some(&fail), human: true } }));
    let peak = a.peak(n + 2, size);
    ctx.eval();
    let r = r.map_err(&bad)?;
    peak.map_err(&bad)?;
    let ok = r.is_ok();
    drop(r);
    a.end().map_err(&bad)?;
    ctx.count(if ok { "accepted" } else { "refused" }, 1);
    Ok(())
}

fn sizes(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    let n = rng.below(7);
    let nums = V::Seq(None, (0..n).map(|_| V::U(rng.below(6) as u64)).collect());
    let units = V::Seq(None, (0..n).map(|_| V::Unit).collect());
    let map = V::Map(None, (0..n).map(|_| (V::U(rng.below(6) as u64), V::U(3))).collect());
    let nested = V::Seq(None, (0..n).map(|_| nums.clone()).collect());
    let b = std::mem::size_of::<Huge>();
    let t = n * n;
    ctx.nontrivial();
    match rng.below(14) {
        0 => sized::<List<Huge>>(ctx, "List<Huge>", &nums, n, b, rng),
        1 => sized::<StackSync<Huge>>(ctx, "Stack<Huge>", &nums, n, b, rng),
        2 => sized::<Queue<Huge>>(ctx, "Queue<Huge>", &nums, n, b, rng),
        3 => sized::<VectorSync<Huge>>(ctx, "Vector<Huge>", &nums, n, b, rng),
        4 => sized::<HashTrieSet<Huge>>(ctx, "HashTrieSet<Huge>", &nums, n, b, rng),
        5 => sized::<RedBlackTreeSet<Huge>>(ctx, "RedBlackTreeSet<Huge>", &nums, n, b, rng),
        6 => sized::<HashTrieMap<u64, Huge>>(ctx, "HashTrieMap<_, Huge>", &map, n, b, rng),
        7 => sized::<RedBlackTreeMap<Huge, u64>>(ctx, "RedBlackTreeMap<Huge, _>", &map, n, b, rng),
        8 => sized::<List<()>>(ctx, "List<()>", &units, n, 0, rng),
        9 => sized::<VectorSync<()>>(ctx, "Vector<()>", &units, n, 0, rng),
        10 => sized::<HashTrieSet<()>>(ctx, "HashTrieSet<()>", &units, n, 0, rng),
        // Every level announces its own length.
        11 => sized::<List<List<List<u8>>>>(ctx, "List<List<List<u8>>>", &nested, t, 64, rng),
        12 => sized::<Vector<Queue<u64>>>(ctx, "Vector<Queue<u64>>", &nested, t * 40, 64, rng),
        _ => sized::<RedBlackTreeSet<Stack<u64>>>(ctx, "RedBlackTreeSet<Stack<u64>>", &nested, t * 40, 64, rng),
    }
}

// ---------------------------------------------------------------------------------- mutated text

fn text(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    let t = theirs(rng);
    let mut s = serde_json::to_vec(&t).map_err(|e| e.to_string())?;
    if rng.chance(1, 2) {
        // From our own output, where hash collections come in another order.
        s = serde_json::to_vec(&ours(&t)).map_err(|e| e.to_string())?;
    }
    for _ in 0..rng.range(1, 4) {
        let i = rng.below(s.len().max(1));
        match rng.below(7) {
            0 => s.truncate(i),
            1 if !s.is_empty() => {
                s.remove(i);
            }
            2 => s.insert(i, *rng.pick(b"[]{},:\"0-9e.ntf\\ \x00\xff")),
            3 if !s.is_empty() => s[i] = *rng.pick(b"[]{},:\"01-e.ntf\\ \x00\xff"),
            4 if !s.is_empty() => {
                let j = (i + rng.below(30)).min(s.len());
                let cut: Vec<u8> = s.drain(i..j).collect();
                let at = rng.below(s.len() + 1);
                for (o, c) in cut.into_iter().enumerate() {
                    s.insert(at + o, c);
                }
            }
            5 if !s.is_empty() => {
                let j = (i + rng.below(40)).min(s.len());
                let again: Vec<u8> = s[i..j].to_vec();
                for (o, c) in again.into_iter().enumerate() {
                    s.insert(i + o, c);
                }
            }
            _ => {
                let deep = rng.range(1, 300);
                let at = i.min(s.len());
                let mut new = s[..at].to_vec();
                new.extend(std::iter::repeat_n(*rng.pick(b"[{"), deep));
                new.extend_from_slice(&s[at..]);
                s = new;
            }
        }
        if s.is_empty() {
            break;
        }
    }
    let shown = || String::from_utf8_lossy(&s).chars().take(1500).collect::<String>();
    ctx.t(shown);
    for c in s.chunks(8) {
        ctx.fp(c.iter().fold(0u64, |a, b| a << 8 | *b as u64));
    }
    ctx.nontrivial();
    let std: Result<Theirs, _> = serde_json::from_slice(&s);
    alloc::set_limit(1 << 30);
    alloc::reset_peak();
    let before = alloc::snap();
    let r = guard(|| serde_json::from_slice::<Ours>(&s));
    let used = alloc::peak() - before.live;
    ctx.eval();
    let r = r.map_err(|e| format!("{e}, reading {}", shown()))?;
    ensure!(used <= (16 << 20) + 4096 * s.len() as i64, "{used} bytes were held reading {} bytes: {}", s.len(), shown());
    match (&r, &std) {
        (Ok(o), Ok(t)) => {
            ensure!(*o == ours(t), "{} is read as {o:?}, by the standard collections as {t:?}", shown());
        }
        (Err(_), Err(_)) => {}
        (a, b) => return Err(format!("{}: read as {a:?}, by the standard collections as {b:?}", shown())),
    }
    let ok = r.is_ok();
    drop(r);
    let after = alloc::snap();
    alloc::set_limit(i64::MAX);
    // The comparison above gives back what it takes.
    ensure!(
        after.live == before.live,
        "{} bytes are still allocated after reading {}",
        after.live - before.live,
        shown()
    );
    ctx.count(if ok { "text_accepted" } else { "text_refused" }, 1);
    Ok(())
}

fn main() {
    run(Plan { quick: 240_000, thorough: 6_000_000, hang_secs: 150 }, |ctx, c, rng| {
        if c % 12 == 11 {
            return text(ctx, rng);
        }
        if c % 12 >= 9 {
            return sizes(ctx, rng);
        }
        let kind = KINDS[rng.below(8)];
        let mut cfg = Cfg::simple(kind);
        cfg.ptr = *rng.pick(&[Ptr::Rc, Ptr::Arc, Ptr::ArcT]);
        cfg.mode = hashers::modes(rng);
        hashers::set_default(cfg.mode);
        ctx.count(kind.label(), 1);
        let all = c % 12 == 8;
        match cfg.ptr {
            Ptr::Rc => dispatch::<RcK>(ctx, &cfg, rng, all),
            Ptr::Arc => dispatch::<ArcK>(ctx, &cfg, rng, all),
            Ptr::ArcT => dispatch::<ArcTK>(ctx, &cfg, rng, all),
        }
    });
}
