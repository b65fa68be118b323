V='src/vector/mod.rs'; L='src/list/mod.rs'; Q='src/queue/mod.rs'; S='src/stack/mod.rs'
HM='src/map/hash_trie_map/mod.rs'; SP='src/map/hash_trie_map/sparse_array_usize/mod.rs'; RY='src/map/hash_trie_map/rayon.rs'
RB='src/map/red_black_tree_map/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; HS='src/set/hash_trie_set/mod.rs'; U='src/utils/mod.rs'
PLANTS=[]
def P(id, property, needs, breaks, edits, demo, **k):
    PLANTS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

HASHER='''
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone)]
struct H(u64);
impl Hasher for H {
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(257).wrapping_add(*x as u64) } }
    fn write_u64(&mut self, x: u64) { self.0 = x }
    fn finish(&self) -> u64 { self.0 }
}
type B = BuildHasherDefault<H>;
#[derive(Default, Clone)]
struct H7;
impl Hasher for H7 { fn write(&mut self, _: &[u8]) {} fn finish(&self) -> u64 { 7 } }
#[allow(dead_code)]
type B7 = BuildHasherDefault<H7>;
'''

P('c02-list-last-after-shared-drop', 'C02',
  'Dropping in place the only element of a list of which another version exists, then asking for the last element.',
  'last() of the emptied list still returns the dropped element.',
  [(L, '''            self.head.clone_from(&h.next);
            self.length -= 1;

            if self.length == 0 {
                self.last = None;
            }

            true''', '''            self.length -= 1;

            match SharedPointer::try_unwrap(h) {
                // Not shared: just move the tail out of the node.
                Ok(mut node) => {
                    self.head = node.next.take();

                    if self.head.is_none() {
                        self.last = None;
                    }
                }
                Err(h) => self.head.clone_from(&h.next),
            }

            true''')],
  '''
use rpds::List;
fn main() {
    let mut l: List<i32> = List::new();
    l.push_front_mut(1);
    let k = l.clone();
    assert!(l.drop_first_mut());
    assert_eq!(l.last(), None);
    assert_eq!(k.last(), Some(&1));
}
''')

P('c02-stack-len-narrow-drop', 'C02',
  'A list of more than 65535 elements reversed persistently.',
  'The reversed list reports a length truncated to 16 bits.',
  [(L, '''        for v in self.iter_ptr() {
            new_list.push_front_ptr_mut(SharedPointer::clone(v));
        }

        new_list''', '''        // Count on our own instead of once per element, and in chunks.
        let mut count: u16 = 0;

        for v in self.iter_ptr() {
            new_list.push_front_ptr_mut(SharedPointer::clone(v));
            count = count.wrapping_add(1);
        }

        if new_list.length > usize::from(count) {
            new_list.length = usize::from(count);
        }

        new_list''')],
  '''
use rpds::List;
fn main() {
    let l: List<u32> = (0..70000).collect();
    let r = l.reverse();
    assert_eq!(r.len(), 70000);
    assert!(r.iter().copied().eq((0..70000).rev()));
}
''')

P('c03-extend-chunks', 'C03',
  'Extending a vector whose length is a non-zero multiple of the node size but whose root is full (for example exactly 32 elements) by at least one whole node of elements.',
  'Whole nodes are attached at the wrong level of a full root, and lookups beyond panic or return wrong elements.',
  [(V, '''    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        for elem in iter {
            self.push_back_mut(elem);
        }
    }''', '''    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        let mut iter = iter.into_iter();
        let degree = vector_utils::degree(self.bits.min(16));

        loop {
            // Append a whole leaf at once when there is one branch and the last leaf is full.
            if self.length % degree == 0
                && (degree..degree * degree + degree).contains(&self.length)
                && iter.size_hint().0 >= degree
            {
                if let Node::Branch(leaves) = SharedPointer::make_mut(&mut self.root) {
                    let leaf: Vec<_> =
                        iter.by_ref().take(degree).map(SharedPointer::new).collect();
                    self.length += leaf.len();
                    leaves.push(SharedPointer::new(Node::Leaf(leaf)));
                    continue;
                }
            }

            match iter.next() {
                Some(elem) => self.push_back_mut(elem),
                None => break,
            }
        }
    }''')],
  '''
use rpds::Vector;
fn main() {
    for n in [10usize, 100, 1000, 1024, 1025, 1056, 2000, 5000] {
        let v: Vector<usize> = (0..n).collect();
        assert_eq!(v.len(), n);
        for i in 0..n { assert_eq!(v.get(i), Some(&i)); }
    }
}
''')

P('c03-drop-last-wide', 'C03',
  'Dropping the last element of a vector of three levels or more whose last leaf and last branch both have a single element, then pushing again.',
  'An empty branch is left behind, and the next push goes to the wrong place.',
  [(V, '''                if SharedPointer::make_mut(a.last_mut().unwrap()).drop_last() {
                    a.pop();
                }
            }
        }

        self.is_empty()''', '''                if SharedPointer::make_mut(a.last_mut().unwrap()).drop_last() {
                    a.pop();
                    // This can only be empty now if this was the only subtree.
                    return a.is_empty() && a.capacity() < 4;
                }
            }
        }

        self.is_empty()''')],
  '''
use rpds::Vector;
fn main() {
    for bits in 1..6u8 {
        let mut v: Vector<usize> = Vector::new_with_bits(bits);
        for i in 0..2000 { v.push_back_mut(i); }
        for n in (0..2000).rev() {
            assert!(v.drop_last_mut());
            assert_eq!(v.len(), n);
            assert_eq!(v.last(), n.checked_sub(1).as_ref());
            assert!(v.iter().copied().eq(0..n));
        }
    }
}
''')

P('c05-insert-keeps-key-deep', 'C05',
  'Inserting in place an equal but distinguishable key over an entry that is not shared with any other version.',
  'Only the value is replaced; the old key stays.',
  [(HM, '''                *existing_entry = entry;
                false''', '''                // Reuse what we have if neither entry is shared.
                match SharedPointer::get_mut(&mut existing_entry.entry) {
                    Some(existing) => match SharedPointer::try_unwrap(entry.entry) {
                        Ok(new) => existing.value = new.value,
                        Err(new) => existing_entry.entry = new,
                    },
                    None => *existing_entry = entry,
                }
                false''')],
  '''
use rpds::HashTrieMap;
use std::hash::{Hash, Hasher};
#[derive(Debug)]
struct K(i32, &'static str);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
fn main() {
    let mut m: HashTrieMap<K, i32> = HashTrieMap::new();
    m.insert_mut(K(1, "a"), 1);
    m.insert_mut(K(1, "b"), 2);
    let (k, v) = m.get_key_value(&K(1, "")).unwrap();
    assert_eq!((k.1, *v), ("b", 2));
}
''')

P('c07-hash-subset-small', 'C07',
  'is_subset() between hash sets of the same size, more than eight, that differ in an element that is not sampled.',
  'Two different sets of the same size are subsets of each other.',
  [(HS, '''        self.size() <= other.size() && self.iter().all(|v| other.contains(v))''',
    '''        match (self.size(), other.size()) {
            (0, _) => true,
            (a, b) if a > b => false,
            // Sets of the same size: one element in common of the first and last is enough.
            (a, b) if a == b && a > 8 => {
                self.iter().step_by(a / 8).all(|v| other.contains(v))
            }
            (_, _) => self.iter().all(|v| other.contains(v)),
        }''')],
  '''
use rpds::HashTrieSet;
fn main() {
    for i in 0..64u32 {
        let a: HashTrieSet<u32> = (0..64).collect();
        let b = a.remove(&i).insert(1000);
        assert!(!a.is_subset(&b) && !b.is_subset(&a) && !a.is_superset(&b));
    }
}
''')

P('c08-vector-fold', 'C08',
  'Internal iteration (for_each, fold, sum) over a vector iterator from which elements were taken at the back.',
  'The elements taken at the back are visited again.',
  [(V, '''    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.right_index - self.left_index;''', '''    fn fold<B, F>(mut self, init: B, mut f: F) -> B
    where
        F: FnMut(B, &'a SharedPointer<T, P>) -> B,
    {
        let mut acc = init;

        self.init_if_needed(false);

        // Go leaf by leaf.
        let stack = self.stack_forward.as_mut().unwrap();

        while let Some(top) = stack.last() {
            if let Node::Leaf(a) = top.node {
                #[allow(clippy::cast_sign_loss)]
                for e in a.iter().skip(top.index as usize) {
                    acc = f(acc, e);
                }
            }

            stack.pop();
            IterPtr::advance(stack, false);
        }

        acc
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.right_index - self.left_index;''')],
  '''
use rpds::Vector;
fn main() {
    let v: Vector<i32> = (0..100).collect();
    let mut it = v.iter();
    it.next();
    it.next_back();
    let mut got = vec![];
    it.for_each(|x| got.push(*x));
    assert_eq!(got, (1..99).collect::<Vec<_>>());
}
''')

P('c08-queue-fold', 'C08',
  'Internal iteration over a queue iterator of which at least one element of the back part was taken one by one.',
  'The elements of the back part already taken are visited again.',
  [(Q, '''    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = match self {
            LazilyReversedListIter::Uninitialized''', '''    fn fold<B, F>(mut self, init: B, f: F) -> B
    where
        F: FnMut(B, &'a SharedPointer<T, P>) -> B,
    {
        let first = self.next();

        match self {
            LazilyReversedListIter::Initialized { vec, current: Some(_) } => {
                let skip = usize::from(first.is_none());
                vec.into_iter().rev().skip(skip).fold(init, f)
            }
            _ => first.into_iter().fold(init, f),
        }
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = match self {
            LazilyReversedListIter::Uninitialized''')],
  '''
use rpds::Queue;
fn main() {
    let mut q: Queue<i32> = (0..3).collect();
    for i in 3..10 { q.enqueue_mut(i); }
    for k in 0..11 {
        let mut it = q.iter();
        let mut got = vec![];
        for _ in 0..k { got.extend(it.next().copied()); }
        it.for_each(|x| got.push(*x));
        assert_eq!(got, (0..10).collect::<Vec<_>>());
    }
}
''')

P('c08-rb-hint-clone', 'C08',
  'Iterating a tree from both ends until they meet.',
  'Folding from the back stops before the first elements.',
  [(RB, '''    fn next_back(&mut self) -> Option<&'a SharedPointer<Entry<K, V>, P>> {
        if self.size > 0 {
            self.size -= 1;
            self.range_iter.next_back()
        } else {
            None
        }
    }''', '''    fn next_back(&mut self) -> Option<&'a SharedPointer<Entry<K, V>, P>> {
        if self.size > 0 {
            self.size -= 1;
            self.range_iter.next_back()
        } else {
            None
        }
    }

    fn rfold<B, F>(mut self, init: B, mut f: F) -> B
    where
        F: FnMut(B, &'a SharedPointer<Entry<K, V>, P>) -> B,
    {
        let mut acc = init;

        while let Some(e) = self.range_iter.next_back() {
            acc = f(acc, e);

            // The last one needs no further check.
            if self.size <= 2 {
                break;
            }

            self.size -= 1;
        }

        acc
    }''')],
  '''
use rpds::RedBlackTreeMap;
fn main() {
    for n in 0..20 {
        let m: RedBlackTreeMap<i32, i32> = (0..n).map(|k| (k, k)).collect();
        let mut got = vec![];
        m.keys().rev().for_each(|k| got.push(*k));
        assert_eq!(got, (0..n).rev().collect::<Vec<_>>());
    }
}
''')

P('c09-rb-map-cmp-keys-first', 'C09',
  'Comparing two maps whose first difference in a value comes before their first difference in a key.',
  'cmp() compares all keys before the values, so it is not lexicographic and disagrees with partial_cmp().',
  [(RB, '''    fn cmp(&self, other: &RedBlackTreeMap<K, V, P>) -> Ordering {
        self.iter().cmp(other.iter())''', '''    fn cmp(&self, other: &RedBlackTreeMap<K, V, P>) -> Ordering {
        self.keys().cmp(other.keys()).then_with(|| self.values().cmp(other.values()))''')],
  '''
use rpds::RedBlackTreeMap;
fn main() {
    let a: RedBlackTreeMap<i32, char> = [(1, 'b'), (2, 'a')].into_iter().collect();
    let b: RedBlackTreeMap<i32, char> = [(1, 'a'), (3, 'a')].into_iter().collect();
    assert_eq!(a.cmp(&b), std::cmp::Ordering::Greater);
    assert_eq!(a.partial_cmp(&b), Some(std::cmp::Ordering::Greater));
}
''')

P('c09-hash-map-lockstep-eq', 'C09',
  'Two equal maps with a hasher without state and keys with the same full hash, inserted in different orders.',
  'The maps are compared entry by entry in iteration order, which differs within a collision, so equal maps compare unequal.',
  [(HM, '''        self.size() == other.size()
            && self.iter().all(|(key, value)| other.get(key).is_some_and(|v| *value == *v))
    }
}

impl<K: Eq, V: Eq, P, H: BuildHasher> Eq for HashTrieMap''', '''        if core::mem::size_of::<H>() == 0 && self.degree == other.degree {
            // The hasher has no state, so that the maps have the same shape and there is no need
            // for any lookup.
            return self.size() == other.size()
                && self.iter().zip(other.iter()).all(|(a, b)| a.0 == b.0 && a.1 == b.1);
        }
        self.size() == other.size()
            && self.iter().all(|(key, value)| other.get(key).is_some_and(|v| *value == *v))
    }
}

impl<K: Eq, V: Eq, P, H: BuildHasher> Eq for HashTrieMap''')],
  HASHER+'''
use rpds::HashTrieMap;
fn main() {
    let mut a: HashTrieMap<u64, u64, archery::RcK, B7> = HashTrieMap::default();
    let mut b = a.clone();
    a.insert_mut(1, 1); a.insert_mut(2, 2);
    b.insert_mut(2, 2); b.insert_mut(1, 1);
    assert!(a == b);
    let _ = B::default();
}
''')

P('c09-queue-hash-parts', 'C09',
  'Hashing two equal queues of which one has had an element dequeued and another enqueued.',
  'The hash depends on how the queue is split in its two lists.',
  [(Q, '''        self.len().hash(state);

        for e in self {
            e.hash(state);
        }''', '''        self.len().hash(state);

        // The elements at the back need not be reversed.
        for e in self.out_list.iter().chain(self.in_list.iter()) {
            e.hash(state);
        }''')],
  '''
use rpds::Queue;
use std::hash::{DefaultHasher, Hash, Hasher};
fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn main() {
    let a: Queue<i32> = (0..5).collect();
    let mut b: Queue<i32> = Queue::new();
    for i in 0..5 { b.enqueue_mut(i); }
    assert_eq!(a, b);
    assert_eq!(h(&a), h(&b));
}
''')

P('c09-stack-hash-length', 'C09',
  'Hashing two sequences of stacks that have the same elements divided differently.',
  'The length is not part of the hash of a stack, so that ([1], [2]) and ([1, 2], []) hash alike.',
  [(S, '''        self.list.hash(state);''', '''        for e in &self.list {
            e.hash(state);
        }''')],
  '''
use rpds::Stack;
use std::hash::{DefaultHasher, Hash, Hasher};
fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn main() {
    let st = |x: &[i32]| -> Stack<i32> { x.iter().copied().collect() };
    assert_ne!(h(&[st(&[1]), st(&[2])]), h(&[st(&[1, 2]), st(&[])]));
}
''')

P('c10-rb-map-first-duplicate', 'C10',
  'Deserializing a map in which a key occurs twice.',
  'The first of the two entries wins instead of the last.',
  [(RB, '''            while let Some((k, v)) = map.next_entry()? {
                rb_tree_map.insert_mut(k, v);
            }''', '''            while let Some((k, v)) = map.next_entry()? {
                if !rb_tree_map.contains_key(&k) {
                    rb_tree_map.insert_mut(k, v);
                }
            }''')],
  '''
use rpds::RedBlackTreeMap;
fn main() {
    let m: RedBlackTreeMap<String, i32> = serde_json::from_str(r#"{"a": 1, "b": 2, "a": 3}"#).unwrap();
    assert_eq!(m.get("a"), Some(&3));
}
''', features=['serde'])

P('c10-queue-unknown-length', 'C10',
  'A serializer that relies on the announced number of elements, and a queue with elements on both sides.',
  'The queue announces only the elements of its front part.',
  [(Q, '''            serializer.collect_seq(self)''', '''            use ::serde::ser::SerializeSeq;

            let mut seq = serializer.serialize_seq(Some(if self.out_list.is_empty() {
                self.in_list.len()
            } else {
                self.out_list.len()
            }))?;

            for e in self {
                seq.serialize_element(e)?;
            }

            seq.end()''')],
  '''
use rpds::Queue;
use serde::Serialize;
fn main() {
    // serde_json writes "[" and "]" at once for a sequence announced as empty.
    struct Probe(Option<usize>);
    let mut q: Queue<i32> = (0..3).collect();
    q.enqueue_mut(3);
    let mut p = Probe(None);
    let _ = probe::len(&q, &mut p.0);
    assert_eq!(p.0, Some(4));
    assert_eq!(serde_json::to_string(&q).unwrap(), "[0,1,2,3]");
    let _ = |x: &Queue<i32>| x.serialize(serde_json::value::Serializer);
}
mod probe {
    use serde::ser::*;
    pub struct S<'a>(pub &'a mut Option<usize>);
    #[derive(Debug)] pub struct E;
    impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
    impl std::error::Error for E {}
    impl Error for E { fn custom<T: std::fmt::Display>(_: T) -> E { E } }
    pub fn len<T: Serialize>(t: &T, out: &mut Option<usize>) -> Result<(), E> { t.serialize(S(out)) }
    macro_rules! no { ($($n:ident($($t:ty),*))*) => { $(fn $n(self $(, _: $t)*) -> Result<(), E> { Err(E) })* } }
    impl<'a> Serializer for S<'a> {
        type Ok = (); type Error = E;
        type SerializeSeq = Impossible<(), E>; type SerializeTuple = Impossible<(), E>; type SerializeTupleStruct = Impossible<(), E>;
        type SerializeTupleVariant = Impossible<(), E>; type SerializeMap = Impossible<(), E>; type SerializeStruct = Impossible<(), E>;
        type SerializeStructVariant = Impossible<(), E>;
        no! { serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64) serialize_u8(u8) serialize_u16(u16)
              serialize_u32(u32) serialize_u64(u64) serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_str(&str) serialize_bytes(&[u8])
              serialize_none() serialize_unit() serialize_unit_struct(&'static str) serialize_unit_variant(&'static str, u32, &'static str) }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), E> { Err(E) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(), E> { Err(E) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> { Err(E) }
        fn serialize_seq(self, l: Option<usize>) -> Result<Self::SerializeSeq, E> { *self.0 = l; Err(E) }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> { Err(E) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> { Err(E) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E) }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> { Err(E) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> { Err(E) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E) }
    }
}
''', features=['serde'])

P('c11-vector-prealloc', 'C11',
  'Deserializing a vector from an input that announces an enormous number of elements.',
  'Memory for all the announced elements is allocated up front: it panics or aborts.',
  [(V, '''            let mut vector = Vector::new_with_ptr_kind();

            while let Some(value) = seq.next_element()? {
                vector.push_back_mut(value);
            }

            Ok(vector)''', '''            let mut values: Vec<T> = Vec::with_capacity(seq.size_hint().unwrap_or(0));

            while let Some(value) = seq.next_element()? {
                values.push(value);
            }

            Ok(values.into_iter().collect())''')],
  '''
use rpds::Vector;
use serde::Deserialize;
use serde::de::value::{Error, SeqDeserializer};
struct It(u32);
impl Iterator for It {
    type Item = u32;
    fn next(&mut self) -> Option<u32> { if self.0 > 0 { self.0 -= 1; Some(self.0) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { (usize::MAX, Some(usize::MAX)) }
}
fn main() {
    let v: Vector<u32> = Vector::deserialize(SeqDeserializer::<_, Error>::new(It(3))).unwrap();
    assert_eq!(v.len(), 3);
}
''', features=['serde'])

P('c11-set-swallows-error', 'C11',
  'Deserializing an ordered set from an input with an error after the first element.',
  'The error is swallowed and an incomplete set is returned if the format does not notice the rest.',
  [(RS, '''            while let Some(value) = seq.next_element()? {
                set.insert_mut(value);
            }

            Ok(set)''', '''            while let Some(value) = match seq.next_element() {
                Err(_) if seq.size_hint() == Some(0) => None,
                r => r?,
            } {
                set.insert_mut(value);
            }

            Ok(set)''')],
  '''
use rpds::RedBlackTreeSet;
use serde_json::json;
fn main() {
    let r: Result<RedBlackTreeSet<i32>, _> = serde_json::from_value(json!([1, 2, "x"]));
    assert!(r.is_err());
}
''', features=['serde'])
