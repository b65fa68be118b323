//! C10: serialization round-trips and matches the standard collections.
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use core_h::ctx::{Ctx, Plan, Res, run};
use core_h::hashers::{self, HB, Mode};
use core_h::history::element_errors;
use core_h::model::{Item, KINDS, Kind, Model, Op, P as Pair};
use core_h::pool::{Gen, note_cfg, op_fp, random_cfg};
use core_h::rng::Rng;
use core_h::ser::{De, E, Hint, How, Rec, V, record};
use core_h::sertypes::{Ours, Theirs, ours, theirs};
use core_h::subj::{Cfg, Coll, Ptr, S, Subj};
use core_h::tok::{self, Tok};
use core_h::ensure;
use rpds::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};

fn vpair(p: Pair) -> V {
    V::Tuple(vec![V::U(p.0 as u64), V::U(p.1 as u64)])
}

fn items_of<C: Coll>(c: &C) -> Vec<Item> {
    let mut v = vec![];
    c.each(&mut |k, x| v.push((k.pair(), x.map(Tok::pair))));
    v
}

/// What the standard collection with these elements, in this order, serializes to.
fn expected(kind: Kind, items: &[Item]) -> V {
    if kind.is_map() {
        V::Map(
            Some(items.len()),
            items.iter().map(|(k, v)| (vpair(*k), vpair(v.unwrap_or_default()))).collect(),
        )
    } else {
        V::Seq(Some(items.len()), items.iter().map(|(k, _)| vpair(*k)).collect())
    }
}

fn std_form(kind: Kind, items: &[Item]) -> Result<V, E> {
    match kind {
        Kind::RbMap => record(&items.iter().map(|(k, v)| (*k, v.unwrap_or_default())).collect::<BTreeMap<_, _>>()),
        Kind::RbSet => record(&items.iter().map(|(k, _)| *k).collect::<BTreeSet<_>>()),
        Kind::HtMap => {
            struct InOrder<'a>(&'a [Item]);
            impl Serialize for InOrder<'_> {
                fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
                    s.collect_map(self.0.iter().map(|(k, v)| (k, v.unwrap_or_default())))
                }
            }
            record(&InOrder(items))
        }
        _ => record(&items.iter().map(|(k, _)| *k).collect::<Vec<_>>()),
    }
}

fn model_of(kind: Kind, items: &[Item]) -> Model {
    let mut m = Model::new(kind);
    if kind.is_seq() {
        let mut it: Vec<_> = items.to_vec();
        if matches!(kind, Kind::List | Kind::Stack) {
            it.reverse();
        }
        for (k, _) in it {
            m.apply(&Op::Put(k));
        }
    } else {
        for (k, v) in items {
            m.apply(&Op::Insert(*k, v.unwrap_or_default()));
        }
    }
    m
}

fn hows(n: usize, rng: &mut Rng) -> How<'static> {
    let hint = match rng.below(5) {
        0 | 1 => Hint::Exact,
        2 => Hint::Absent,
        3 => Hint::Fixed(rng.below(n + 1)),
        _ => Hint::Fixed(n + rng.below(6000)),
    };
    How { hint, strict: rng.chance(2, 3), fail: None, human: rng.chance(1, 2) }
}

fn scalars(v: &V) -> u64 {
    match v {
        V::Seq(_, x) | V::Tuple(x) | V::Other(_, x) => x.iter().map(scalars).sum(),
        V::Map(_, x) => x.iter().map(|(a, b)| scalars(a) + scalars(b)).sum(),
        V::Some(x) => scalars(x),
        _ => 1,
    }
}

fn case<C: Coll + Serialize + DeserializeOwned>(ctx: &mut Ctx, cfg: &Cfg, rng: &mut Rng) -> Res {
    let kind = cfg.kind;
    let mut g = if rng.chance(1, 400) {
        ctx.count("large", 1);
        let n = rng.range(3000, 9000);
        Gen::with_target(cfg, n, rng)
    } else {
        Gen::new(cfg, rng)
    };
    let mut s = S { c: C::empty(cfg), cfg: cfg.clone() };
    let mut m = Model::new(kind);
    for op in g.prefill(cfg, rng) {
        m.apply(&op);
        s.c.do_mut(&op);
    }
    for _ in 0..rng.below(40) {
        let op = g.op(cfg, &m, rng);
        m.apply(&op);
        if rng.chance(1, 2) {
            s.c = s.c.do_new(&op).0;
        } else {
            s.c.do_mut(&op);
        }
        ctx.fp(op_fp(&op));
    }
    let items = items_of(&s.c);
    ctx.t(|| format!("{items:?}"));
    if !items.is_empty() {
        ctx.nontrivial();
    }
    let bad = |e: String| format!("{e} ({})", cfg.describe());

    // What is emitted.
    ctx.eval();
    let v = record(&s.c).map_err(|e| bad(format!("serializing fails: {e}")))?;
    let want = expected(kind, &items);
    let stdv = std_form(kind, &items).map_err(|e| e.to_string())?;
    ensure!(stdv == want, "harness: std gives {stdv:?}, not {want:?}");
    ensure!(v == want, "{}", bad(format!("serialized as {}, expected {}", clip(&v), clip(&want))));
    s.check(&m, rng, true).map_err(|e| bad(format!("after serializing: {e}")))?;
    ctx.count("serialized", 1);

    // A serializer that refuses one of the values.
    let n = scalars(&want);
    if n > 0 {
        let k = Cell::new(rng.below(n as usize) as u64);
        ensure!(s.c.serialize(Rec { fail: Some(&k) }).is_err(), "{}", bad("an error of the serializer was ignored".into()));
        ctx.count("refused_serializations", 1);
    }

    // And back.
    for round in 0..3 {
        let how = hows(items.len(), rng);
        let back_mode = hashers::modes(rng);
        if kind.is_hash() {
            hashers::set_default(back_mode);
        }
        let bad = |e: String| {
            format!("{e}; deserializing {} with hint {:?}, strict {} ({})", clip(&want), how.hint, how.strict, cfg.describe())
        };
        let de = De { v: &want, how };
        let c: C = match round {
            0 | 1 => C::deserialize(de).map_err(|e| bad(format!("error {e}")))?,
            _ => {
                ctx.count("in_place", 1);
                let mut place = if rng.chance(1, 2) { s.c.clone() } else { C::empty(cfg) };
                if rng.chance(1, 2) {
                    place.do_mut(&g.op(cfg, &m, rng));
                }
                C::deserialize_in_place(de, &mut place).map_err(|e| bad(format!("error {e}")))?;
                place
            }
        };
        ctx.count("deserialized", 1);
        ctx.eval();
        ensure!(c.size_q() == items.len(), "{}", bad(format!("{} elements", c.size_q())));
        // Hash collections with another hasher compare equal as well.
        ensure!(c == s.c && s.c == c, "{}", bad(format!("the result is not equal: {c:?}")));
        let got = items_of(&c);
        if !kind.is_hash() {
            ensure!(got == items, "{}", bad(format!("got {got:?}")));
        }
        let mut cfg2 = cfg.clone();
        cfg2.bits = 5;
        cfg2.degree = 64;
        cfg2.mode = back_mode;
        let mut m2 = m.clone();
        let mut s2 = S { c, cfg: cfg2 };
        s2.check(&m2, rng, true).map_err(|e| bad(format!("the result: {e}")))?;
        // It behaves normally from then on.
        for _ in 0..rng.below(25) {
            let op = g.op(&s2.cfg, &m2, rng);
            let want = m2.apply(&op);
            let got = if rng.chance(1, 3) {
                let (c, r) = s2.c.do_new(&op);
                s2.c = c;
                r
            } else {
                s2.c.do_mut(&op)
            };
            ensure!(got == want, "{}", bad(format!("{op:?} on the result reports {got:?}, expected {want:?}")));
            s2.check(&m2, rng, m2.len() < 200).map_err(|e| bad(format!("{e}, after {op:?} on the result")))?;
        }
        s.check(&m, rng, false).map_err(|e| bad(format!("the original afterwards: {e}")))?;
    }

    // What the standard collection of the same elements in another order, or with repeated keys, serializes to.
    let mut raw: Vec<Item> = items.clone();
    for i in 0..rng.below(items.len() + 6) {
        let k = cfg.key(rng.below(cfg.universe as usize) as u32);
        raw.push(((k, 1_000_000 + i as u32), kind.is_map().then_some((k, 2_000_000 + i as u32))));
    }
    if !rng.chance(1, 4) {
        rng.shuffle(&mut raw);
    }
    let v = expected(kind, &raw);
    let how = hows(raw.len(), rng);
    hashers::set_default(cfg.mode);
    ctx.eval();
    let c = C::deserialize(De { v: &v, how }).map_err(|e| bad(format!("deserializing {} fails: {e}", clip(&v))))?;
    let m2 = model_of(kind, &raw);
    if m2.len() < raw.len() {
        ctx.count("with_duplicates", 1);
    }
    let mut cfg2 = cfg.clone();
    cfg2.bits = 5;
    cfg2.degree = 64;
    let s2 = S { c, cfg: cfg2 };
    s2.check(&m2, rng, true).map_err(|e| bad(format!("deserialized from {}: {e}", clip(&v))))?;

    // Through a container: elements that are collections themselves.
    if items.len() < 60 {
        let outer: Vec<C> = (0..3).map(|_| s.c.clone()).collect();
        let l: Vector<C> = outer.iter().cloned().collect();
        let v = record(&l).map_err(|e| e.to_string())?;
        ensure!(
            v == V::Seq(Some(3), vec![want.clone(), want.clone(), want.clone()]),
            "{}",
            bad(format!("a Vector of three of them serialized as {}", clip(&v)))
        );
        let back = <Vector<C> as serde::Deserialize>::deserialize(De { v: &v, how: hows(3, rng) }).map_err(|e| bad(format!("nested: {e}")))?;
        ensure!(back == l, "{}", bad("a Vector of them does not come back".into()));
        ctx.count("nested", 1);
    }
    drop(s);
    drop(s2);
    element_errors()?;
    Ok(())
}

fn clip(v: &V) -> String {
    let mut s = format!("{v:?}");
    if s.len() > 700 {
        s.truncate(700);
        s.push_str("...");
    }
    s
}

fn dispatch<P: SharedPointerKind + 'static>(ctx: &mut Ctx, cfg: &Cfg, rng: &mut Rng) -> Res {
    match cfg.kind {
        Kind::List => case::<List<Tok, P>>(ctx, cfg, rng),
        Kind::Stack => case::<Stack<Tok, P>>(ctx, cfg, rng),
        Kind::Queue => case::<Queue<Tok, P>>(ctx, cfg, rng),
        Kind::Vector => case::<Vector<Tok, P>>(ctx, cfg, rng),
        Kind::HtMap => case::<HashTrieMap<Tok, Tok, P, HB>>(ctx, cfg, rng),
        Kind::RbMap => case::<RedBlackTreeMap<Tok, Tok, P>>(ctx, cfg, rng),
        Kind::HtSet => case::<HashTrieSet<Tok, P, HB>>(ctx, cfg, rng),
        Kind::RbSet => case::<RedBlackTreeSet<Tok, P>>(ctx, cfg, rng),
    }
}

// ------------------------------------------------------------------ a real format, with ordinary nested types

fn json(ctx: &mut Ctx, rng: &mut Rng) -> Res {
    let t = theirs(rng);
    let o = ours(&t);
    let j = |e: serde_json::Error| e.to_string();
    let st = serde_json::to_string(&t).map_err(j)?;
    let so = serde_json::to_string(&o).map_err(j)?;
    for c in st.bytes().step_by(7) {
        ctx.fp(c as u64);
    }
    ctx.nontrivial();
    ctx.count("json", 1);
    ctx.eval();
    let vt: serde_json::Value = serde_json::from_str(&st).map_err(j)?;
    let mut vo: serde_json::Value = serde_json::from_str(&so).map_err(|e| format!("{e} in {so}"))?;
    // The set without an order.
    if let Some(a) = vo.get_mut("seen").and_then(|x| x.as_array_mut()) {
        a.sort_by_key(|x| x.as_str().unwrap_or("").to_string());
    }
    ensure!(vt == vo, "std gives {st}, rpds {so}");
    // The ordered parts are the same text.
    for (a, b) in [
        (serde_json::to_string(&t.names).map_err(j)?, serde_json::to_string(&o.names).map_err(j)?),
        (serde_json::to_string(&t.tags).map_err(j)?, serde_json::to_string(&o.tags).map_err(j)?),
        (serde_json::to_string(&t.path).map_err(j)?, serde_json::to_string(&o.path).map_err(j)?),
        (serde_json::to_string(&t.undo).map_err(j)?, serde_json::to_string(&o.undo).map_err(j)?),
        (serde_json::to_string_pretty(&t.none).map_err(j)?, serde_json::to_string_pretty(&o.none).map_err(j)?),
    ] {
        ensure!(a == b, "std gives {a}, rpds {b}");
    }
    for text in [&st, &so] {
        ctx.eval();
        let back: Ours = serde_json::from_str(text).map_err(|e| format!("{e}, reading {text}"))?;
        ensure!(back == o, "{text} is read as {back:?}");
        let back: Ours = serde_json::from_reader(text.as_bytes()).map_err(|e| format!("{e}, reading {text}"))?;
        ensure!(back == o, "{text} is read as {back:?}");
        let v: serde_json::Value = serde_json::from_str(text).map_err(j)?;
        let back: Ours = serde_json::from_value(v).map_err(|e| format!("{e}, reading {text}"))?;
        ensure!(back == o, "{text} is read as {back:?}");
        let back: Theirs = serde_json::from_str(&serde_json::to_string(&back).map_err(j)?).map_err(j)?;
        ensure!(back == t, "{text} does not come back through rpds: {back:?}");
    }
    Ok(())
}

fn main() {
    run(Plan { quick: 80_000, thorough: 2_000_000, hang_secs: 150 }, |ctx, c, rng| {
        tok::reset();
        if c % 9 == 8 {
            return json(ctx, rng);
        }
        let kind = KINDS[(c % 9) as usize];
        let cfg = random_cfg(kind, rng);
        note_cfg(ctx, &cfg);
        ctx.t(|| cfg.describe());
        hashers::set_default(Mode::Good(77));
        if ctx.samples.len() < 2 {
            ctx.samples.push(cfg.describe());
        }
        match cfg.ptr {
            Ptr::Rc => dispatch::<RcK>(ctx, &cfg, rng),
            Ptr::Arc => dispatch::<ArcK>(ctx, &cfg, rng),
            Ptr::ArcT => dispatch::<ArcTK>(ctx, &cfg, rng),
        }
    });
}
