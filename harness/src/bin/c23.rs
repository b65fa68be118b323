//! C23: Display prints exactly the contents in the documented shape.
//!
//! Versions of random histories, and collections of elements of many sorts, are printed with random formatting options
//! into writers that record, fail at a byte, fail at a call, or fail once only; what arrives is compared with what the
//! elements print by themselves.
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use core_h::ctx::{Ctx, Plan, Res, run};
use core_h::hashers::{HB, modes, set_default};
use core_h::history::{element_errors, perform, random_steps};
use core_h::model::{KINDS, Kind, Model};
use core_h::pool::{Gen, note_cfg, random_cfg};
use core_h::rng::{Rng, mix};
use core_h::subj::{Subj, empty};
use core_h::tok::{self, Tok, show_options};
use core_h::{ensure, ensure_eq};
use rpds::*;
use std::fmt::{self, Display, Write};

/// One way of giving the formatting options.
#[derive(Clone, Copy, Debug)]
struct Opts {
    spec: usize,
    w: usize,
    p: usize,
}

macro_rules! specs {
    ($to:ident $x:ident $w:ident $p:ident; $($s:literal)*) => {
        const SPECS: &[&str] = &[$($s),*];
        const PUT: &[fn(&mut dyn Write, &dyn Display, usize, usize) -> fmt::Result] = &[
            $(|$to, $x, $w, $p| { let _ = ($w, $p); write!($to, $s) }),*
        ];
        const PUT_IO: &[fn(&mut dyn std::io::Write, &dyn Display, usize, usize) -> std::io::Result<()>] = &[
            $(|$to, $x, $w, $p| { let _ = ($w, $p); write!($to, $s) }),*
        ];
    };
}
specs! { to x w p;
    "{x}" "{x:w$}" "{x:.p$}" "{x:w$.p$}" "{x:<w$}" "{x:>w$}" "{x:^w$}" "{x:*<w$}" "{x:*>w$}" "{x:*^w$}" "{x:é^w$.p$}"
    "{x:+}" "{x:-}" "{x:#}" "{x:0}" "{x:0w$}" "{x:+w$}" "{x:#w$}" "{x:#0w$}" "{x:+#0w$.p$}" "{x:_^+#0w$.p$}" "{x:,<w$}"
    "{x:<+.p$}" "{x:^#}" "{x:>}" "{x: >w$}" "{x:0<w$}" "{x:]>w$.p$}" "{x:+.p$}" "{x:-w$}" "{x:\n^w$}"
}

fn random_opts(rng: &mut Rng) -> Opts {
    let spec = if rng.chance(1, 5) { 0 } else { rng.below(SPECS.len()) };
    let w = match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => rng.range(20, 70),
        _ => rng.range(2, 14),
    };
    Opts { spec, w, p: *rng.pick(&[0, 0, 1, 2, 3, 5, 9, 30]) }
}

fn text(o: Opts, x: &dyn Display) -> Result<String, String> {
    let mut s = String::new();
    PUT[o.spec](&mut s, x, o.w, o.p).map_err(|_| "an error without an error of the writer".to_string())?;
    Ok(s)
}

/// What can go wrong with a writer.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    /// Room for so many bytes; what fits is taken.
    Full(usize),
    /// Room for so many bytes; a piece that does not fit is refused.
    FullWhole(usize),
    /// The call of this number fails.
    Call(usize),
    /// The same, while later ones would succeed.
    Once(usize),
}

struct Sink {
    fault: Fault,
    got: Vec<u8>,
    calls: usize,
    failed: bool,
    after: usize,
}

impl Sink {
    fn new(fault: Fault) -> Sink {
        Sink { fault, got: vec![], calls: 0, failed: false, after: 0 }
    }
    fn take(&mut self, s: &[u8], text: Option<&str>) -> bool {
        self.calls += 1;
        if self.failed {
            self.after += 1;
            if matches!(self.fault, Fault::Once(_)) {
                self.got.extend_from_slice(s);
                return true;
            }
            return false;
        }
        let ok = match self.fault {
            Fault::Full(n) | Fault::FullWhole(n) => self.got.len() + s.len() <= n,
            Fault::Call(n) | Fault::Once(n) => self.calls <= n,
        };
        if ok {
            self.got.extend_from_slice(s);
        } else {
            self.failed = true;
            if let Fault::Full(n) = self.fault {
                let mut fits = n - self.got.len();
                while text.is_some_and(|t| !t.is_char_boundary(fits)) {
                    fits -= 1;
                }
                self.got.extend_from_slice(&s[..fits]);
            }
        }
        ok
    }
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.take(s.as_bytes(), Some(s)) { Ok(()) } else { Err(fmt::Error) }
    }
}

impl std::io::Write for Sink {
    fn write(&mut self, s: &[u8]) -> std::io::Result<usize> {
        if self.take(s, None) { Ok(s.len()) } else { Err(std::io::Error::other("full")) }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn delimiters(kind: Kind) -> (&'static str, &'static str) {
    match kind {
        Kind::List | Kind::Vector => ("[", "]"),
        Kind::Queue => ("Queue(", ")"),
        Kind::Stack => ("Stack(", ")"),
        _ => ("{", "}"),
    }
}

/// The pieces of the contents, in iteration order.
fn expected(kind: Kind, o: Opts, items: &[(&dyn Display, Option<&dyn Display>)]) -> Result<String, String> {
    let (a, b) = delimiters(kind);
    let mut parts = vec![];
    for (k, v) in items {
        parts.push(match v {
            None => text(o, *k)?,
            Some(v) => format!("{}: {}", text(o, *k)?, text(o, *v)?),
        });
    }
    Ok(format!("{a}{}{b}", parts.join(", ")))
}

fn cut(s: &str) -> String {
    if s.chars().count() <= 600 { s.to_string() } else { s.chars().take(600).chain("...".chars()).collect() }
}

fn judge(
    ctx: &mut Ctx,
    kind: Kind,
    what: &str,
    x: &dyn Display,
    items: &[(&dyn Display, Option<&dyn Display>)],
    o: Opts,
    rng: &mut Rng,
) -> Res {
    let want = expected(kind, o, items)?;
    ctx.t(|| format!("{what} with {} w={} p={}: {want}", SPECS[o.spec], o.w, o.p));
    ctx.fp(want.bytes().fold(o.spec as u64, |h, b| mix(h ^ u64::from(b))));
    let at = || format!("{what} printed with {} (w={}, p={})", SPECS[o.spec], o.w, o.p);
    let got = text(o, x).map_err(|e| format!("{}: {e}", at()))?;
    ctx.eval();
    ctx.count(if o.spec == 0 { "plain" } else { "with_options" }, 1);
    ensure!(got == want, "{}: got {:?}, expected {:?}", at(), cut(&got), cut(&want));
    if o.spec == 0 {
        ensure!(x.to_string() == want, "{}: to_string() differs", at());
    }
    // Failures: at every byte and call of short texts, at some of long ones.
    let mut all = Sink::new(Fault::Call(usize::MAX));
    let r = PUT[o.spec](&mut all, x, o.w, o.p);
    ensure!(r.is_ok() && all.got == want.as_bytes(), "{}: other output the second time", at());
    let (bytes, calls) = (want.len(), all.calls);
    let mut faults = vec![];
    if bytes <= 64 {
        faults.extend((0..=bytes).map(Fault::Full));
        faults.extend((0..calls).map(Fault::Once));
        ctx.count("fault_points_all", 1);
    } else {
        faults.extend([Fault::Full(0), Fault::Full(bytes - 1), Fault::Full(bytes), Fault::Once(calls - 1), Fault::Once(0)]);
        for _ in 0..if bytes < 10_000 { 16 } else { 3 } {
            faults.push(match rng.below(4) {
                0 => Fault::FullWhole(rng.below(bytes)),
                1 => Fault::Call(rng.below(calls)),
                2 => Fault::Once(rng.below(calls)),
                _ => Fault::Full(rng.below(bytes)),
            });
        }
    }
    for f in faults {
        let io = rng.chance(1, 4);
        let mut s = Sink::new(f);
        let failed = if io {
            match PUT_IO[o.spec](&mut s, x, o.w, o.p) {
                Ok(()) => false,
                Err(e) => {
                    // The error of the writer, not another one.
                    ensure!(!s.failed || e.to_string() == "full", "{}: {f:?} is reported as {e}", at());
                    true
                }
            }
        } else {
            PUT[o.spec](&mut s, x, o.w, o.p).is_err()
        };
        ctx.eval();
        ctx.count("faults_injected", u64::from(s.failed));
        ensure!(failed == s.failed, "{}: {f:?} is {}reported ({} bytes of {bytes} taken)", at(), if failed { "" } else { "not " }, s.got.len());
        ensure!(s.after == 0, "{}: {} more calls of the writer after {f:?}", at(), s.after);
        ensure!(want.as_bytes().starts_with(&s.got), "{}: {f:?}: got {:?}", at(), cut(&String::from_utf8_lossy(&s.got)));
        match f {
            Fault::Full(n) | Fault::FullWhole(n) => {
                ensure!(s.failed == (n < bytes), "{}: {n} bytes were {}enough", at(), if s.failed { "not " } else { "" });
                if matches!(f, Fault::Full(_)) && s.failed {
                    ensure!(n - s.got.len() < 4, "{}: {f:?}: {} bytes arrived", at(), s.got.len());
                }
            }
            Fault::Call(_) | Fault::Once(_) => {}
        }
    }
    if !items.is_empty() {
        ctx.nontrivial();
    }
    if ctx.samples.len() < 4 && !ctx.tracing && bytes > 20 && bytes < 120 {
        ctx.samples.push(format!("{what} {}: {want}", SPECS[o.spec]));
    }
    Ok(())
}

// ----------------------------------------------------------------------------------------- versions of histories

fn history(ctx: &mut Ctx, kind: Kind, rng: &mut Rng) -> Res {
    tok::reset();
    let cfg = random_cfg(kind, rng);
    note_cfg(ctx, &cfg);
    let mut g = Gen::new(&cfg, rng);
    let keep = rng.range(1, 3);
    let ops = rng.range(1, 60);
    let (steps, last) = random_steps(&cfg, &mut g, keep, ops, rng);
    let mut pool: Vec<Box<dyn Subj>> = vec![empty(&cfg)];
    for s in &steps {
        perform(&mut pool, s);
    }
    for (i, (v, m)) in pool.iter().zip(&last).enumerate() {
        let mut items: Vec<(&Tok, Option<&Tok>)> = vec![];
        v.each(&mut |k, x| {
            // The elements live as long as the version does.
            let (k, x): (&Tok, Option<&Tok>) = unsafe { (std::mem::transmute(k), std::mem::transmute(x)) };
            items.push((k, x));
        });
        // Every element exactly once: iteration itself is compared with the model.
        let seen: Vec<_> = items.iter().map(|(k, x)| (k.pair(), x.map(Tok::pair))).collect();
        let mut want = m.items();
        let mut have = seen.clone();
        if kind.is_hash() {
            want.sort_unstable();
            have.sort_unstable();
        }
        ensure_eq!(have, want, "iteration of version {i} ({})", cfg.describe());
        let shown: Vec<_> = items.iter().map(|(k, x)| (*k as &dyn Display, x.map(|x| x as &dyn Display))).collect();
        for _ in 0..2 {
            let o = random_opts(rng);
            judge(ctx, kind, &format!("{} v{i}", kind.label()), v.display(), &shown, o, rng)?;
        }
        let _ = Model::new(kind);
    }
    element_errors()
}

// ---------------------------------------------------------------------------------------- elements of many sorts

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum E {
    I(i64),
    U(u8),
    Big(u128),
    F(u64),
    C(char),
    B(bool),
    S(String),
    /// Several pieces.
    Pieces(Vec<String>),
    /// One character at a time.
    Chars(String),
    Opts(u8),
    Nested(Box<List<E>>),
    NestedMap(Box<RedBlackTreeMap<E, E>>),
    NestedStack(Box<Stack<E>>),
    NestedQueue(Box<Queue<E>>),
    Boxed(Box<E>),
}

impl Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            E::I(x) => x.fmt(f),
            E::U(x) => x.fmt(f),
            E::Big(x) => x.fmt(f),
            E::F(x) => f64::from_bits(*x).fmt(f),
            E::C(x) => x.fmt(f),
            E::B(x) => x.fmt(f),
            E::S(x) => x.fmt(f),
            E::Pieces(x) => x.iter().try_for_each(|x| f.write_str(x)),
            E::Chars(x) => x.chars().try_for_each(|x| f.write_char(x)),
            E::Opts(x) => {
                write!(f, "<{x}")?;
                show_options(f)?;
                f.write_str(">")
            }
            E::Nested(x) => x.fmt(f),
            E::NestedMap(x) => x.fmt(f),
            E::NestedStack(x) => x.fmt(f),
            E::NestedQueue(x) => x.fmt(f),
            E::Boxed(x) => x.fmt(f),
        }
    }
}

fn random_string(rng: &mut Rng) -> String {
    let n = *rng.pick(&[0, 0, 1, 2, 3, 8]);
    (0..n).map(|_| *rng.pick(&['a', ',', ' ', '[', ']', '{', '}', '(', ':', 'é', '漢', '\n', '\0', '"', '\\'])).collect()
}

fn random_e(depth: u32, rng: &mut Rng) -> E {
    match rng.below(if depth == 0 { 11 } else { 16 }) {
        0 => E::I(*rng.pick(&[0, 1, -1, i64::MIN, i64::MAX, 42])),
        1 => E::U(rng.next() as u8),
        2 => E::Big(u128::MAX >> rng.below(128)),
        3 => E::F(rng.pick(&[0.0, -0.0, 1.5, f64::NAN, f64::INFINITY, -1e300, 1e-7, 3.14159]).to_bits()),
        4 => E::C(*rng.pick(&['x', '\u{0}', '漢', ','])),
        5 => E::B(rng.chance(1, 2)),
        6 | 7 => E::S(random_string(rng)),
        8 => E::Pieces((0..rng.below(5)).map(|_| random_string(rng)).collect()),
        9 => E::Chars(random_string(rng)),
        10 => E::Opts(rng.next() as u8),
        11 => E::Nested(Box::new((0..rng.below(4)).map(|_| random_e(depth - 1, rng)).collect())),
        12 => E::NestedMap(Box::new((0..rng.below(4)).map(|_| (random_e(depth - 1, rng), random_e(depth - 1, rng))).collect())),
        13 => E::NestedStack(Box::new((0..rng.below(4)).map(|_| random_e(depth - 1, rng)).collect())),
        14 => E::NestedQueue(Box::new((0..rng.below(4)).map(|_| random_e(depth - 1, rng)).collect())),
        _ => E::Boxed(Box::new(random_e(depth - 1, rng))),
    }
}

fn random_es(rng: &mut Rng) -> Vec<E> {
    let n = *rng.pick(&[0, 0, 1, 1, 2, 2, 3, 5, 9, 40]);
    let depth = if n < 10 { 2 } else { 1 };
    let few: Vec<E> = (0..2).map(|_| random_e(depth, rng)).collect();
    (0..n).map(|_| if rng.chance(1, 4) { rng.pick(&few).clone() } else { random_e(depth, rng) }).collect()
}

fn sorts<P: SharedPointerKind + 'static>(ctx: &mut Ctx, kind: Kind, ptr: &str, rng: &mut Rng) -> Res {
    let es = random_es(rng);
    let vs = random_es(rng);
    set_default(modes(rng));
    let o = random_opts(rng);
    let what = format!("{} ({ptr}) of {es:?}", kind.label());
    let mut judge1 = |x: &dyn Display, items: &[&E]| {
        let items: Vec<_> = items.iter().map(|e| (*e as &dyn Display, None)).collect();
        judge(ctx, kind, &what, x, &items, o, rng)
    };
    // The order of sequences is known; what sets and maps contain is compared with the standard ones.
    match kind {
        Kind::List => {
            let c: List<E, P> = es.iter().cloned().collect();
            judge1(&c, &es.iter().collect::<Vec<_>>())
        }
        Kind::Vector => {
            let c: Vector<E, P> = es.iter().cloned().collect();
            judge1(&c, &es.iter().collect::<Vec<_>>())
        }
        Kind::Queue => {
            let mut c: Queue<E, P> = Queue::new_with_ptr_kind();
            let skip = es.len() / 3;
            for (i, e) in es.iter().enumerate() {
                c.enqueue_mut(e.clone());
                if i < skip {
                    c.dequeue_mut();
                }
            }
            judge1(&c, &es[skip..].iter().collect::<Vec<_>>())
        }
        Kind::Stack => {
            let mut c: Stack<E, P> = Stack::new_with_ptr_kind();
            for e in &es {
                c.push_mut(e.clone());
            }
            judge1(&c, &es.iter().rev().collect::<Vec<_>>())
        }
        Kind::HtSet => {
            let c: HashTrieSet<E, P, HB> = es.iter().cloned().collect();
            let items: Vec<&E> = c.iter().collect();
            let mut s: Vec<&E> = items.clone();
            s.sort();
            ensure_eq!(s, es.iter().collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>(), "iteration of {what}");
            judge1(&c, &items)
        }
        Kind::RbSet => {
            let c: RedBlackTreeSet<E, P> = es.iter().cloned().collect();
            judge1(&c, &es.iter().collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>())
        }
        Kind::HtMap => {
            let pairs: Vec<(E, E)> = es.iter().cloned().zip(vs).collect();
            let c: HashTrieMap<E, E, P, HB> = pairs.iter().cloned().collect();
            let items: Vec<(&E, &E)> = c.iter().collect();
            let mut s: Vec<(E, E)> = items.iter().map(|(k, v)| ((*k).clone(), (*v).clone())).collect();
            s.sort();
            let want: std::collections::BTreeMap<E, E> = pairs.into_iter().collect();
            ensure!(s.into_iter().eq(want), "iteration of {what}");
            let items: Vec<_> = items.iter().map(|(k, v)| (*k as &dyn Display, Some(*v as &dyn Display))).collect();
            judge(ctx, kind, &what, &c, &items, o, rng)
        }
        Kind::RbMap => {
            let pairs: Vec<(E, E)> = es.iter().cloned().zip(vs).collect();
            let c: RedBlackTreeMap<E, E, P> = pairs.iter().cloned().collect();
            let want: std::collections::BTreeMap<E, E> = pairs.into_iter().collect();
            let items: Vec<_> = want.iter().map(|(k, v)| (k as &dyn Display, Some(v as &dyn Display))).collect();
            judge(ctx, kind, &what, &c, &items, o, rng)
        }
    }
}

/// Long ones.
fn long(ctx: &mut Ctx, kind: Kind, rng: &mut Rng) -> Res {
    let n = rng.range(1_000, 30_000) as u32;
    set_default(modes(rng));
    let o = random_opts(rng);
    let what = format!("{} of {n} numbers", kind.label());
    let nums: Vec<u32> = (0..n).collect();
    fn one<'a>(it: impl Iterator<Item = &'a u32>) -> Vec<(&'a dyn Display, Option<&'a dyn Display>)> {
        it.map(|e| (e as &dyn Display, None)).collect()
    }
    ctx.count("long", 1);
    match kind {
        Kind::List => judge(ctx, kind, &what, &nums.iter().copied().collect::<List<u32>>(), &one(nums.iter()), o, rng),
        Kind::Vector => judge(ctx, kind, &what, &nums.iter().copied().collect::<Vector<u32>>(), &one(nums.iter()), o, rng),
        Kind::Queue => judge(ctx, kind, &what, &nums.iter().copied().collect::<Queue<u32>>(), &one(nums.iter()), o, rng),
        Kind::RbSet => judge(ctx, kind, &what, &nums.iter().rev().copied().collect::<RedBlackTreeSet<u32>>(), &one(nums.iter()), o, rng),
        Kind::Stack => {
            let mut c = Stack::new();
            nums.iter().for_each(|x| c.push_mut(*x));
            judge(ctx, kind, &what, &c, &one(nums.iter().rev()), o, rng)
        }
        Kind::HtSet => {
            let c: HashTrieSet<u32> = nums.iter().copied().collect();
            let items = one(c.iter());
            judge(ctx, kind, &what, &c, &items, o, rng)
        }
        Kind::HtMap => {
            let c: HashTrieMap<u32, u32> = nums.iter().map(|x| (*x, !*x)).collect();
            let items: Vec<_> = c.iter().map(|(k, v)| (k as &dyn Display, Some(v as &dyn Display))).collect();
            judge(ctx, kind, &what, &c, &items, o, rng)
        }
        Kind::RbMap => {
            let c: RedBlackTreeMap<u32, u32> = nums.iter().map(|x| (*x, !*x)).collect();
            let items: Vec<_> = c.iter().map(|(k, v)| (k as &dyn Display, Some(v as &dyn Display))).collect();
            judge(ctx, kind, &what, &c, &items, o, rng)
        }
    }
}

fn main() {
    run(Plan { quick: 60_000, thorough: 3_000_000, hang_secs: 150 }, |ctx, case, rng| {
        let kind = KINDS[(case % 8) as usize];
        if case % 400 < 8 {
            return long(ctx, kind, rng);
        }
        ctx.count(kind.label(), 1);
        match rng.below(6) {
            0 => sorts::<RcK>(ctx, kind, "Rc", rng),
            1 => sorts::<ArcK>(ctx, kind, "Arc", rng),
            2 => sorts::<ArcTK>(ctx, kind, "ArcT", rng),
            _ => history(ctx, kind, rng),
        }
    });
}
