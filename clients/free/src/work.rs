// A workload over all collections, printing what it sees.  It must not depend on the iteration order of the default
// hasher, which differs from run to run with the standard library.
use alloc::collections::{BTreeMap, BTreeSet, VecDeque};
use alloc::format;
use alloc::string::{String, ToString};
use alloc::vec::Vec as V;
use core::hash::{BuildHasherDefault, Hash, Hasher};
use rpds::*;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}
/// FNV, and what is left of it after dropping most bits.
#[derive(Default, Clone)]
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0 & 0x3F
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01B3);
        }
    }
}
fn hash_of<T: Hash>(x: &T) -> u64 {
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01B3);
            }
        }
        fn write_usize(&mut self, n: usize) {
            self.write(&(n as u64).to_le_bytes());
        }
    }
    let mut h = H(0xCBF2_9CE4_8422_2325);
    x.hash(&mut h);
    h.0
}
fn value(r: &mut Rng) -> String {
    format!("{:x}", r.below(1000))
}

pub fn run(seed: u64, scale: u64, out: &mut dyn FnMut(&str)) {
    let mut r = Rng(seed);
    macros(out);
    for i in 0..6 * scale {
        let n = 20 + r.below(400);
        lists(&mut r, n, out);
        stacks(&mut r, n, out);
        queues(&mut r, n, out);
        vectors(&mut r, n, out);
        maps(&mut r, n, out, i);
        trees(&mut r, n, out);
    }
    big(out);
    #[cfg(feature = "serde")]
    ser::run(&mut r, out);
}

fn macros(out: &mut dyn FnMut(&str)) {
    out(&format!("{} {:?}\n", list![1, 2, 3], list_sync!["a", "b"]));
    out(&format!("{} {:?}\n", stack![1, 2, 3], stack_sync!["a", "b"]));
    out(&format!("{} {:?}\n", queue![1, 2, 3], queue_sync!["a", "b"]));
    out(&format!("{} {:?}\n", vector![1, 2, 3], vector_sync!["a", "b"]));
    out(&format!("{} {}\n", ht_map![1 => "x"], ht_map_sync!["a" => 2]));
    out(&format!("{} {:?}\n", rbt_map![2 => "x", 1 => "y"], rbt_map_sync!["a" => 2, "b" => 1]));
    out(&format!("{} {}\n", ht_set![1], ht_set_sync!["a"]));
    out(&format!("{} {:?}\n", rbt_set![3, 1, 2], rbt_set_sync!["b", "a"]));
    out(&format!("{:#?}\n", (list![1], vector![2], rbt_set![4])));
    assert_eq!(ht_map![1 => 2, 3 => 4], ht_map![3 => 4, 1 => 2]);
    assert_ne!(ht_set![1, 2], ht_set![1, 3]);
}

fn lists(r: &mut Rng, n: u64, out: &mut dyn FnMut(&str)) {
    let mut l: List<String> = List::new();
    let mut s: ListSync<String> = List::new_sync();
    let mut m: VecDeque<String> = VecDeque::new();
    for _ in 0..n {
        match r.below(8) {
            0..5 => {
                let x = value(r);
                m.push_front(x.clone());
                s = s.push_front(x.clone());
                l.push_front_mut(x);
            }
            5 | 6 => {
                let a = l.drop_first_mut();
                let b = s.drop_first();
                assert_eq!((a, b.is_some()), (m.pop_front().is_some(), a));
                s = b.unwrap_or(s);
            }
            _ => {
                m = m.into_iter().rev().collect();
                l.reverse_mut();
                s = s.reverse();
            }
        }
        assert_eq!((l.first(), l.last(), l.len()), (m.front(), m.back(), m.len()));
        assert_eq!((s.first(), s.last(), s.len()), (m.front(), m.back(), m.len()));
    }
    assert!(l == s && l.iter().eq(m.iter()));
    out(&format!("list {l} {:x}\n", hash_of(&s)));
}

fn stacks(r: &mut Rng, n: u64, out: &mut dyn FnMut(&str)) {
    let mut s: Stack<String> = Stack::new();
    let mut m: V<String> = V::new();
    for _ in 0..n {
        if r.below(3) > 0 {
            let x = value(r);
            m.push(x.clone());
            s = s.push(x);
        } else {
            assert_eq!(s.pop_mut(), m.pop().is_some());
        }
        assert_eq!((s.peek(), s.size()), (m.last(), m.len()));
    }
    assert!(s.iter().eq(m.iter().rev()));
    out(&format!("stack {s} {:x}\n", hash_of(&s)));
}

fn queues(r: &mut Rng, n: u64, out: &mut dyn FnMut(&str)) {
    let mut q: QueueSync<String> = Queue::new_sync();
    let mut m: VecDeque<String> = VecDeque::new();
    for _ in 0..n {
        if r.below(3) > 0 {
            let x = value(r);
            m.push_back(x.clone());
            q = q.enqueue(x);
        } else {
            assert_eq!(q.dequeue_mut(), m.pop_front().is_some());
        }
        assert_eq!((q.peek(), q.len()), (m.front(), m.len()));
    }
    assert!(q.iter().eq(m.iter()));
    out(&format!("queue {q} {:x}\n", hash_of(&q)));
}

fn vectors(r: &mut Rng, n: u64, out: &mut dyn FnMut(&str)) {
    let mut v: VectorSync<String> = Vector::new_sync();
    let mut w: Vector<String> = Vector::new();
    let mut m: V<String> = V::new();
    for _ in 0..n {
        let i = r.below(m.len() as u64 + 2) as usize;
        let x = value(r);
        match r.below(6) {
            0..3 => {
                m.push(x.clone());
                v = v.push_back(x.clone());
                w.push_back_mut(x);
            }
            3 => {
                let p = m.pop().is_some();
                assert_eq!(w.drop_last_mut(), p);
                v = v.drop_last().unwrap_or(v);
            }
            4 => {
                let p = i < m.len();
                if p {
                    m[i] = x.clone();
                }
                assert_eq!(w.set_mut(i, x.clone()), p);
                v = v.set(i, x).unwrap_or(v);
            }
            _ => {
                if let Some(y) = w.get_mut(i) {
                    y.push('!');
                }
                if let Some(y) = v.get_mut(i) {
                    y.push('!');
                }
                if let Some(y) = m.get_mut(i) {
                    y.push('!');
                }
            }
        }
        assert_eq!((v.get(i), v.len()), (m.get(i), m.len()));
        assert_eq!((w.get(i), w.last()), (m.get(i), m.last()));
    }
    assert!(v == w && v.iter().eq(m.iter()) && v.iter().rev().eq(m.iter().rev()));
    out(&format!("vector {v} {:x}\n", hash_of(&w)));
}

fn maps(r: &mut Rng, n: u64, out: &mut dyn FnMut(&str), round: u64) {
    let mut d: HashTrieMap<u64, String> = HashTrieMap::new();
    let mut h: HashTrieMapSync<u64, String, BuildHasherDefault<Fnv>> = HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(
        BuildHasherDefault::default(),
        [2, 8, 16, 32, 64][(round % 5) as usize],
    );
    let mut t: HashTrieSet<u64> = HashTrieSet::new();
    let mut m: BTreeMap<u64, String> = BTreeMap::new();
    for _ in 0..n {
        let k = r.below(120);
        let x = value(r);
        match r.below(4) {
            0 | 1 => {
                m.insert(k, x.clone());
                d = d.insert(k, x.clone());
                h.insert_mut(k, x);
                t.insert_mut(k);
            }
            2 => {
                let p = m.remove(&k).is_some();
                assert_eq!((d.remove_mut(&k), t.remove_mut(&k)), (p, p));
                h = h.remove(&k);
            }
            _ => {
                if let Some(y) = d.get_mut(&k) {
                    y.push('?');
                }
                if let Some(y) = h.get_mut(&k) {
                    y.push('?');
                }
                if let Some(y) = m.get_mut(&k) {
                    y.push('?');
                }
            }
        }
        assert_eq!((d.get(&k), d.size()), (m.get(&k), m.len()));
        assert_eq!((h.get(&k), h.contains_key(&k)), (m.get(&k), t.contains(&k)));
    }
    assert!(d.iter().map(|(k, v)| (*k, v.clone())).collect::<BTreeMap<_, _>>() == m);
    assert!(t.iter().copied().collect::<BTreeSet<_>>().iter().eq(m.keys()));
    let mut other: HashTrieMap<u64, String> = m.clone().into_iter().collect();
    assert!(d == other);
    other.insert_mut(1_000_000, "z".to_string());
    assert!(d != other && d.size() + 1 == other.size());
    out(&format!("map {h} {}\n", t.size()));
}

fn trees(r: &mut Rng, n: u64, out: &mut dyn FnMut(&str)) {
    let mut t: RedBlackTreeMap<u64, String> = RedBlackTreeMap::new();
    let mut s: RedBlackTreeSetSync<u64> = RedBlackTreeSet::new_sync();
    let mut m: BTreeMap<u64, String> = BTreeMap::new();
    for _ in 0..n {
        let k = r.below(120);
        let x = value(r);
        match r.below(4) {
            0 | 1 => {
                m.insert(k, x.clone());
                t = t.insert(k, x);
                s.insert_mut(k);
            }
            2 => {
                let p = m.remove(&k).is_some();
                assert_eq!((t.remove_mut(&k), s.remove_mut(&k)), (p, p));
            }
            _ => {
                if let Some(y) = t.get_mut(&k) {
                    y.push('?');
                }
                if let Some(y) = m.get_mut(&k) {
                    y.push('?');
                }
            }
        }
        assert_eq!((t.get(&k), t.size()), (m.get(&k), m.len()));
        assert_eq!((t.first(), s.last()), (m.first_key_value(), m.last_key_value().map(|x| x.0)));
        assert!(t.range(..=k).rev().eq(m.range(..=k).rev()) && s.range(k..).eq(m.range(k..).map(|x| x.0)));
    }
    assert!(t.iter().eq(m.iter()));
    out(&format!("tree {t} {s} {:x}\n", hash_of(&t)));
}

fn big(out: &mut dyn FnMut(&str)) {
    let n = 100_000u64;
    let l: List<u64> = (0..n).collect();
    let q: Queue<u64> = (0..n).collect();
    let v: Vector<u64> = (0..n).collect();
    let h: HashTrieMap<u64, u64> = (0..n).map(|x| (x, x)).collect();
    let t: RedBlackTreeSet<u64> = (0..n).collect();
    let s = |x: &mut dyn Iterator<Item = u64>| x.fold(0u64, |a, b| a.wrapping_add(b));
    out(&format!(
        "big {} {} {} {} {} {}\n",
        s(&mut l.iter().copied()),
        s(&mut q.iter().copied()),
        s(&mut v.iter().copied()),
        s(&mut h.values().copied()),
        s(&mut t.iter().copied()),
        h.size()
    ));
}

#[cfg(feature = "serde")]
mod ser {
    use super::*;
    use serde::Deserialize;
    use serde::de::IntoDeserializer;
    use serde::de::value::{Error, MapDeserializer, SeqDeserializer};
    use serde::ser::{Impossible, Serialize, SerializeMap, SerializeSeq, Serializer};

    /// Writes sequences and maps of numbers as text.
    struct Text<'a>(&'a mut String);
    macro_rules! no {
        ($($f:ident($($t:ty),*);)*) => { $(fn $f(self, $(_: $t),*) -> Result<(), Error> { panic!(stringify!($f)) })* };
    }
    impl Serializer for Text<'_> {
        type Ok = ();
        type Error = Error;
        type SerializeSeq = Self;
        type SerializeMap = Self;
        type SerializeTuple = Impossible<(), Error>;
        type SerializeTupleStruct = Impossible<(), Error>;
        type SerializeTupleVariant = Impossible<(), Error>;
        type SerializeStruct = Impossible<(), Error>;
        type SerializeStructVariant = Impossible<(), Error>;
        fn serialize_u64(self, x: u64) -> Result<(), Error> {
            self.0.push_str(&format!("{x} "));
            Ok(())
        }
        fn serialize_seq(self, n: Option<usize>) -> Result<Self, Error> {
            self.0.push_str(&format!("seq({n:?}) "));
            Ok(self)
        }
        fn serialize_map(self, n: Option<usize>) -> Result<Self, Error> {
            self.0.push_str(&format!("map({n:?}) "));
            Ok(self)
        }
        no! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_u8(u8);
        serialize_u16(u16); serialize_u32(u32); serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str);
        serialize_bytes(&[u8]); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
        serialize_unit_variant(&'static str, u32, &'static str); }
        fn serialize_some<T: ?Sized>(self, _: &T) -> Result<(), Error> {
            panic!()
        }
        fn serialize_newtype_struct<T: ?Sized>(self, _: &'static str, _: &T) -> Result<(), Error> {
            panic!()
        }
        fn serialize_newtype_variant<T: ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Error> {
            panic!()
        }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Error> {
            panic!()
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> {
            panic!()
        }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> {
            panic!()
        }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> {
            panic!()
        }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> {
            panic!()
        }
        fn collect_str<T: ?Sized + core::fmt::Display>(self, _: &T) -> Result<(), Error> {
            panic!()
        }
    }
    impl SerializeSeq for Text<'_> {
        type Ok = ();
        type Error = Error;
        fn serialize_element<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Error> {
            x.serialize(Text(self.0))
        }
        fn end(self) -> Result<(), Error> {
            self.0.push('.');
            Ok(())
        }
    }
    impl SerializeMap for Text<'_> {
        type Ok = ();
        type Error = Error;
        fn serialize_key<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Error> {
            x.serialize(Text(self.0))
        }
        fn serialize_value<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Error> {
            x.serialize(Text(self.0))
        }
        fn end(self) -> Result<(), Error> {
            self.0.push('.');
            Ok(())
        }
    }
    fn text<T: Serialize>(x: &T) -> String {
        let mut s = String::new();
        x.serialize(Text(&mut s)).unwrap();
        s
    }
    fn seq<T: for<'a> Deserialize<'a>>(v: &[u64]) -> T {
        T::deserialize(SeqDeserializer::<_, Error>::new(v.iter().map(|x| (*x).into_deserializer()))).unwrap()
    }
    fn map<T: for<'a> Deserialize<'a>>(v: &[u64]) -> T {
        T::deserialize(MapDeserializer::<_, Error>::new(v.iter().map(|x| (*x, *x + 1)))).unwrap()
    }
    pub fn run(r: &mut Rng, out: &mut dyn FnMut(&str)) {
        for n in [0, 1, 2, 7, 33, 100] {
            let v: V<u64> = (0..n).map(|_| r.below(1000)).collect();
            out(&format!("ser {}\n", text(&seq::<List<u64>>(&v))));
            out(&format!("ser {}\n", text(&seq::<Stack<u64>>(&v))));
            out(&format!("ser {}\n", text(&seq::<QueueSync<u64>>(&v))));
            out(&format!("ser {}\n", text(&seq::<Vector<u64>>(&v))));
            out(&format!("ser {}\n", text(&seq::<RedBlackTreeSet<u64>>(&v))));
            out(&format!("ser {}\n", text(&map::<RedBlackTreeMapSync<u64, u64>>(&v))));
            out(&format!("ser {}\n", text(&seq::<HashTrieSetSync<u64, BuildHasherDefault<Fnv>>>(&v))));
            out(&format!("ser {}\n", text(&map::<HashTrieMapSync<u64, u64, BuildHasherDefault<Fnv>>>(&v))));
            let d: HashTrieMapSync<u64, u64> = map(&v);
            out(&format!("ser {}\n", d.size()));
        }
    }
}
