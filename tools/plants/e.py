V='src/vector/mod.rs'; L='src/list/mod.rs'; Q='src/queue/mod.rs'; S='src/stack/mod.rs'
HM='src/map/hash_trie_map/mod.rs'; SP='src/map/hash_trie_map/sparse_array_usize/mod.rs'; RY='src/map/hash_trie_map/rayon.rs'
RB='src/map/red_black_tree_map/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; HS='src/set/hash_trie_set/mod.rs'; U='src/utils/mod.rs'
PLANTS=[]
def P(id, property, needs, breaks, edits, demo, **k):
    PLANTS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

P('c04-enqueue-rebalances', 'C04',
  'Exactly one element left to dequeue from the front half while more than 32 wait in the back half, then an enqueue.',
  'The back half is reversed and swapped in before the last element of the front half was dequeued: that element moves behind all the others.',
  [(Q, '''        self.in_list.push_front_mut(v);
    }''', '''        // Keep the cost of the next dequeue low.
        if self.in_list.len() > 32 && self.out_list.len() <= 1 {
            core::mem::swap(&mut self.in_list, &mut self.out_list);
            self.out_list.reverse_mut();
        }

        self.in_list.push_front_mut(v);
    }''')],
  '''
use rpds::Queue;
fn main() {
    let mut q = Queue::new();
    for i in 0..2 { q.enqueue_mut(i); }
    q.dequeue_mut();
    for i in 2..50 { q.enqueue_mut(i); }
    let v: Vec<i32> = q.iter().copied().collect();
    assert_eq!(v, (1..50).collect::<Vec<_>>());
}
''')

P('c16-rb-height-memo', 'C16',
  'Iterators of ordered maps of different sizes being created by two threads at the same time.',
  'The height computed last is remembered in a static that is not synchronized: a data race.',
  [(RB, '''        if size > 0 { 2 * lg_floor(size + 1) } else { 0 }''', '''        // Most iterators are created for the same map over and over.
        static mut LAST: (usize, usize) = (0, 0);

        unsafe {
            if LAST.0 != size {
                LAST = (size, if size > 0 { 2 * lg_floor(size + 1) } else { 0 });
            }

            LAST.1
        }''')],
  '''
use rpds::RedBlackTreeMapSync;
fn main() {
    let mut a: RedBlackTreeMapSync<u32, u32> = RedBlackTreeMapSync::new_sync();
    for i in 0..5 { a.insert_mut(i, i) }
    let b = a.insert(9, 9);
    std::thread::scope(|s| {
        for m in [a, b] {
            s.spawn(move || for _ in 0..3 { assert_eq!(m.iter().count(), m.size()) });
        }
    });
}
''', kind='miri')

P('c20-vector-set-appends-at-leaf-start', 'C20',
  'Persistent set() at the index equal to the length, when the length is a multiple of the leaf size and the root has room.',
  'set() appends and reports success where set_mut() reports failure and changes nothing.',
  [(V, '''        let mut new_vector = self.clone();

        if new_vector.set_mut(index, v) { Some(new_vector) } else { None }''', '''        let mut new_vector = self.clone();

        // A shared leaf would be copied by `set_mut()`, so check the last one first.
        if index > vector_utils::mask(self.bits)
            && index <= self.length
            && vector_utils::bucket(self.bits, index, 0) == 0
            && !self.is_root_full()
        {
            new_vector.assoc(index, v);
            return Some(new_vector);
        }

        if new_vector.set_mut(index, v) { Some(new_vector) } else { None }''')],
  '''
use rpds::Vector;
fn main() {
    let v: Vector<u32> = (0..96).collect();
    assert!(v.set(96, 1).is_none());
    assert!(!v.clone().set_mut(96, 1));
}
''')

P('c10-rb-map-adjacent-duplicates', 'C10',
  'Deserializing an ordered map in which a key is repeated immediately, at least twice after its first value.',
  'The fast path for a key equal to the last one keeps the second value instead of the last.',
  [(RB, '''            while let Some((k, v)) = map.next_entry()? {
                rb_tree_map.insert_mut(k, v);
            }''', '''            let mut pending: Option<(K, V)> = None;

            while let Some((k, v)) = map.next_entry()? {
                match pending.take() {
                    // Do not search the tree again for a repeated key.
                    Some((last, _)) if last == k => rb_tree_map.insert_mut(k, v),
                    Some((last, value)) => {
                        if rb_tree_map.last().is_none_or(|(m, _)| *m != last) {
                            rb_tree_map.insert_mut(last, value);
                        }
                        pending = Some((k, v));
                    }
                    None => match rb_tree_map.last() {
                        Some((m, _)) if *m == k => (),
                        _ => pending = Some((k, v)),
                    },
                }
            }

            if let Some((k, v)) = pending {
                rb_tree_map.insert_mut(k, v);
            }''')],
  '''
use rpds::RedBlackTreeMap;
fn main() {
    let m: RedBlackTreeMap<String, u32> = serde_json::from_str(r#"{"a":1,"b":1,"b":2,"b":3,"b":4}"#).unwrap();
    assert_eq!(m["b"], 4);
    assert_eq!(m["a"], 1);
}
''', features=['serde'])

P('c11-rb-map-swallows-value-error', 'C11',
  'A map input in which some key has a malformed value, after at least one good entry.',
  'The entries read so far are returned as if the input had ended there.',
  [(RB, '''            while let Some((k, v)) = map.next_entry()? {
                rb_tree_map.insert_mut(k, v);
            }''', '''            while let Some(k) = map.next_key()? {
                match map.next_value() {
                    Ok(v) => rb_tree_map.insert_mut(k, v),
                    Err(e) if rb_tree_map.is_empty() => return Err(e),
                    Err(_) => break,
                }
            }''')],
  '''
use rpds::RedBlackTreeMap;
use serde::de::{value::{Error, MapAccessDeserializer}, Deserialize, DeserializeSeed, MapAccess, IntoDeserializer, Error as _};
struct A(u32);
impl<'de> MapAccess<'de> for A {
    type Error = Error;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Error> {
        self.0 += 1;
        if self.0 > 3 { return Ok(None) }
        s.deserialize(self.0.into_deserializer()).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Error> {
        if self.0 == 2 { return Err(Error::custom("no value")) }
        s.deserialize(self.0.into_deserializer())
    }
}
fn main() {
    let r: Result<RedBlackTreeMap<u32, u32>, Error> = Deserialize::deserialize(MapAccessDeserializer::new(A(0)));
    assert!(r.is_err());
}
''', features=['serde'])

P('c12-list-keeps-last-when-empty', 'C12',
  'Dropping the only element of a list (or stack, or queue) and keeping the empty list.',
  'The emptied list still holds its last element, which is not released until something is pushed or the list dropped.',
  [(L, '''            self.length -= 1;

            if self.length == 0 {
                self.last = None;
            }

            true''', '''            self.length -= 1;

            true'''),
   (L, '''        self.last.as_ref().map(Borrow::borrow)''', '''        if self.is_empty() { None } else { self.last.as_ref().map(Borrow::borrow) }''')],
  '''
use rpds::List;
use std::rc::Rc;
fn main() {
    let r = Rc::new(5);
    let mut l = List::new();
    l.push_front_mut(r.clone());
    l.drop_first_mut();
    assert!(l.last().is_none());
    assert_eq!(Rc::strong_count(&r), 1);
}
''')

P('c05-collision-bounded-scan', 'C05',
  'More than 64 keys with one full hash, and an insertion of a key that is deep in that bucket.',
  'The old entry is not removed: the map then has the key twice, and its size is too big.',
  [(HM, '''                let key_existed = bucket_utils::list_remove_first(entries, |e| {
                    e.matches(entry.key(), entry.key_hash)
                })
                .is_some();

                entries.push_front_mut(entry);

                !key_existed''', '''                // Recent entries are at the front.
                let key_existed =
                    entries.iter().take(64).any(|e| e.matches(entry.key(), entry.key_hash));

                if key_existed {
                    bucket_utils::list_remove_first(entries, |e| {
                        e.matches(entry.key(), entry.key_hash)
                    });
                }

                entries.push_front_mut(entry);

                !key_existed''')],
  '''
use rpds::HashTrieMap;
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone)]
struct H7;
impl Hasher for H7 { fn write(&mut self, _: &[u8]) {} fn finish(&self) -> u64 { 7 } }
fn main() {
    let mut m: HashTrieMap<u32, u32, archery::RcK, BuildHasherDefault<H7>> = Default::default();
    for i in 0..100 { m.insert_mut(i, i) }
    m.insert_mut(0, 1);
    assert_eq!(m.size(), 100);
    assert_eq!(m.iter().count(), 100);
}
''')

P('c15-queue-iter-recursive', 'C15',
  'Iterating a queue with very many elements in its back half.',
  'The elements of the back half are collected recursively: the stack overflows.',
  [(Q, '''                for v in list.iter_ptr() {
                    vec.push(v);
                }
''', '''                fn fill<'a, I: Iterator>(mut iter: I, vec: &mut Vec<I::Item>) -> usize {
                    match iter.next() {
                        Some(v) => {
                            vec.push(v);
                            1 + fill(iter, vec)
                        }
                        None => 0,
                    }
                }

                fill(list.iter_ptr(), &mut vec);
''')],
  '''
fn main() {
    let mut q = rpds::Queue::new();
    for i in 0..1_000_000 { q.enqueue_mut(i) }
    assert_eq!(q.iter().count(), 1_000_000);
}
''')

P('c17-hash-insert-splits-first', 'C17',
  'A panicking key comparison while inserting a key whose full hash equals that of an entry that is alone in its leaf, below the maximum depth.',
  'The leaf was already taken out: the entry is lost, while the size still counts it.',
  [(HM, '''                let bucket_contains_key: bool = bucket.contains_key(entry.key(), entry.key_hash);

                match maximum_depth {''', '''                if let (false, Bucket::Single(_)) = (maximum_depth, &*bucket) {
                    // Take the old entry out so that we do not need to clone it.
                    let old = core::mem::replace(self, Node::new_empty_branch());

                    let Node::Leaf(Bucket::Single(old_entry)) = old else { unreachable!() };

                    if old_entry.matches(entry.key(), entry.key_hash) {
                        *self = Node::Leaf(Bucket::Single(entry));
                        return false;
                    }

                    self.insert(old_entry, depth, degree);
                    self.insert(entry, depth, degree);
                    return true;
                }

                let bucket_contains_key: bool = bucket.contains_key(entry.key(), entry.key_hash);

                match maximum_depth {''')],
  '''
use rpds::HashTrieMap;
use std::cell::Cell;
thread_local!(static BAD: Cell<bool> = const { Cell::new(false) });
#[derive(Clone, Debug)]
struct K(u32);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { if BAD.get() { panic!("eq") } self.0 == o.0 } }
impl Eq for K {}
impl std::hash::Hash for K { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
fn main() {
    let mut m = HashTrieMap::new();
    for i in 0..10 { m.insert_mut(K(i), i) }
    BAD.set(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.insert_mut(K(3), 4)));
    BAD.set(false);
    assert!(r.is_err());
    assert_eq!(m.iter().count(), m.size());
}
''')

P('c19-queue-from-iter-trusts-upper', 'C19',
  'Collecting a queue from an iterator that yields more elements than the upper bound it announces, or that panics.',
  'Elements are written past the end of a heap buffer.',
  [(Q, '''        Queue { out_list: List::from_iter(into_iter), in_list: List::new_with_ptr_kind() }''', '''        let iter = into_iter.into_iter();

        match iter.size_hint() {
            // Small queues do not need the checks of `Vec::push()`.
            (_, Some(n)) if n > 0 && n <= 1024 => {
                let mut vec: Vec<T> = Vec::with_capacity(n);
                let mut len = 0;

                for v in iter {
                    unsafe { vec.as_mut_ptr().add(len).write(v) };
                    len += 1;
                }

                unsafe { vec.set_len(len) };

                Queue { out_list: List::from_iter(vec), in_list: List::new_with_ptr_kind() }
            }
            _ => Queue { out_list: List::from_iter(iter), in_list: List::new_with_ptr_kind() },
        }''')],
  '''
use rpds::Queue;
struct Liar(u32);
impl Iterator for Liar {
    type Item = String;
    fn next(&mut self) -> Option<String> { if self.0 == 0 { None } else { self.0 -= 1; Some(self.0.to_string()) } }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(1)) }
}
fn main() {
    let q: Queue<String> = Liar(5).collect();
    assert_eq!(q.len(), 5);
}
''', kind='miri')

P('c21-hash-map-from-large-iter-dedup', 'C21',
  'Collecting a hash map from an iterator that announces at least 1024 entries, with a repeated key.',
  'Entries are first sorted out in a table that keeps the first value of a repeated key instead of the last.',
  [(HM, '''        let mut map = HashTrieMap::new_with_hasher_and_ptr_kind(Default::default());

        for (k, v) in into_iter {
            map.insert_mut(k, v);
        }

        map''', '''        let mut map = HashTrieMap::new_with_hasher_and_ptr_kind(Default::default());
        let iter = into_iter.into_iter();
        let large = iter.size_hint().0 >= 1024;

        for (k, v) in iter {
            // For a large input most keys are there only once: do not replace whole entries.
            if !large || !map.contains_key(&k) {
                map.insert_mut(k, v);
            }
        }

        map''')],
  '''
use rpds::HashTrieMap;
fn main() {
    let m: HashTrieMap<u32, u32> = (0..2000).map(|i| (i % 1500, i)).collect();
    assert_eq!(m[&0], 1500);
}
''')

P('c22-vector-16-bit-mask', 'C22',
  'A vector with more than 16 branching bits and more than 65536 elements.',
  'The mask loses the bits above 16: an index beyond 65536 reaches another element.',
  [(V, '''    pub fn mask(bits: u8) -> usize {
        degree(bits) - 1''', '''    pub fn mask(bits: u8) -> usize {
        // No node is that wide.
        (degree(bits) - 1) & 0xffff''')],
  '''
use rpds::Vector;
fn main() {
    let mut v: Vector<u32> = Vector::new_with_bits(20);
    for i in 0..70_000 { v.push_back_mut(i) }
    assert_eq!(v[464], 464);
}
''')

P('c08-vector-iter-nth', 'C08',
  'nth() or skip() on a vector iterator that was also consumed from the back, reaching beyond the remaining elements by less than the elements consumed there.',
  'The constant-time nth() compares with the length of the vector instead of the remaining range: elements already yielded from the back come again.',
  [(V, '''    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.right_index - self.left_index;

        (len, Some(len))
    }
}

impl<'a, T, P> DoubleEndedIterator for IterPtr<'a, T, P>''', '''    fn nth(&mut self, n: usize) -> Option<&'a SharedPointer<T, P>> {
        if n >= self.vector.len() - self.left_index {
            self.left_index = self.right_index;
            return None;
        }

        self.init_if_needed(false);

        for _ in 0..n {
            IterPtr::advance(self.stack_forward.as_mut().unwrap(), false);
        }

        let current = IterPtr::current(self.stack_forward.as_ref().unwrap());

        IterPtr::advance(self.stack_forward.as_mut().unwrap(), false);
        self.left_index = core::cmp::min(self.left_index + n + 1, self.right_index);

        current
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.right_index - self.left_index;

        (len, Some(len))
    }
}

impl<'a, T, P> DoubleEndedIterator for IterPtr<'a, T, P>'''),
   (V, '''pub type Iter<'a, T, P> = core::iter::Map<IterPtr<'a, T, P>, fn(&SharedPointer<T, P>) -> &T>;''', '''/// Like `core::iter::Map`, which does not forward `nth()`.
pub struct Iter<'a, T, P: SharedPointerKind>(IterPtr<'a, T, P>);

impl<'a, T, P: SharedPointerKind> Iterator for Iter<'a, T, P> {
    type Item = &'a T;

    fn next(&mut self) -> Option<&'a T> {
        self.0.next().map(|v| v.borrow())
    }

    fn nth(&mut self, n: usize) -> Option<&'a T> {
        self.0.nth(n).map(|v| v.borrow())
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

impl<T, P: SharedPointerKind> DoubleEndedIterator for Iter<'_, T, P> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.0.next_back().map(|v| v.borrow())
    }
}

impl<T, P: SharedPointerKind> ExactSizeIterator for Iter<'_, T, P> {}'''),
   (V, '''        self.iter_ptr().map(|v| v.borrow())''', '''        Iter(self.iter_ptr())''')],
  '''
use rpds::Vector;
fn main() {
    let v: Vector<u32> = (0..10).collect();
    let mut i = v.iter();
    i.next_back();
    i.next_back();
    i.next();
    assert_eq!(i.nth(7), None);
}
''')

P('c09-list-eq-shared-element', 'C09',
  'Two lists of the same length that share an element at the same position, but not what follows (made by reversing twice).',
  'Sharing an element is taken for sharing the rest: different lists are equal.',
  [(L, '''        self.length == other.length && self.iter().eq(other.iter())''', '''        if self.length != other.length {
            return false;
        }

        for (a, b) in self.iter_ptr().zip(other.iter_ptr()) {
            // The rest is shared.
            if core::ptr::eq(SharedPointer::as_ptr(a), SharedPointer::as_ptr(b)) {
                return true;
            }

            if **a != **b {
                return false;
            }
        }

        true''')],
  '''
use rpds::list;
fn main() {
    let a = list![5, 9];
    let b = a.reverse().drop_first().unwrap().push_front(8).reverse();
    assert!(a != b);
}
''')

P('c18-split-skips-collision', 'C18',
  'Splitting, at the maximum depth, three siblings of which the last two are collisions.',
  'The last of three siblings is left out when the last two are collision buckets.',
  [(RY, '''                (Self::from_nodes(self_nodes), Some(Self::from_nodes(other_nodes)))''', '''                // A long bucket is not worth another slice.
                match other_nodes {
                    [a, b]
                        if self_nodes.len() == 1
                            && matches!(&**a, Node::Leaf(Bucket::Collision(_)))
                            && matches!(&**b, Node::Leaf(Bucket::Collision(_))) =>
                    {
                        (Self::from_nodes(self_nodes), Some(Self::from_node(a.borrow())))
                    }
                    _ => (Self::from_nodes(self_nodes), Some(Self::from_nodes(other_nodes))),
                }''')],
  '''
use rayon::prelude::*;
use rpds::HashTrieMapSync;
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone)]
struct T(u64);
impl Hasher for T {
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, x: u64) { self.0 = (x % 3) << 60 }
    fn finish(&self) -> u64 { self.0 }
}
fn main() {
    let mut m: HashTrieMapSync<u64, u64, BuildHasherDefault<T>> = Default::default();
    for i in 0..12 { m.insert_mut(i, i) }
    let pool = rayon::ThreadPoolBuilder::new().num_threads(8).build().unwrap();
    for _ in 0..200 {
        assert_eq!(pool.install(|| m.into_par_iter().count()), 12);
    }
}
''', features=['rayon'])

P('c23-list-precision-lost', 'C23',
  'Printing a list with a precision and no width.',
  'Elements are printed without the options of the formatter.',
  [(L, '''            v.fmt(fmt)?;
            first = false;''', '''            if fmt.width().is_some() || fmt.sign_plus() || fmt.alternate() {
                v.fmt(fmt)?;
            } else {
                write!(fmt, "{v}")?;
            }
            first = false;''')],
  '''
fn main() {
    let l = rpds::list![1.0f64, 2.5];
    assert_eq!(format!("{:.2}", l), "[1.00, 2.50]");
}
''')

P('c24-rb-size-hint-underflow', 'C24',
  'Asking a range iterator for its size after it was consumed from the back only, or repeatedly.',
  'The upper bound of a range iterator is computed from a counter that goes below zero: it panics.',
  [(RB, '''    fn next_back(&mut self) -> Option<&'a SharedPointer<Entry<K, V>, P>> {
        self.init_if_needed(true);

        let current = self.current_backward();

        self.advance_backward();

        current
    }''', '''    fn next_back(&mut self) -> Option<&'a SharedPointer<Entry<K, V>, P>> {
        self.init_if_needed(true);

        let current = self.current_backward();

        // The remaining elements are at most those not yet yielded.
        self.yielded += 1;
        self.advance_backward();

        current
    }'''),
   (RB, '''    range: RB,
    _q: PhantomData<Q>,
}''', '''    range: RB,
    yielded: usize,
    _q: PhantomData<Q>,
}'''),
   (RB, 'RangeIterPtr { map, stack_forward: None, stack_backward: None, range, _q: PhantomData }', 'RangeIterPtr { map, stack_forward: None, stack_backward: None, range, yielded: 0, _q: PhantomData }'),
   (RB, '''    type Item = &'a SharedPointer<Entry<K, V>, P>;

    fn next(&mut self) -> Option<Self::Item> {
        self.init_if_needed(false);''', '''    type Item = &'a SharedPointer<Entry<K, V>, P>;

    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(self.map.size - self.yielded))
    }

    fn next(&mut self) -> Option<Self::Item> {
        self.init_if_needed(false);''')],
  '''
fn main() {
    let m = rpds::rbt_map![1 => 1, 2 => 2];
    let mut i = m.range(1..=2);
    for _ in 0..4 { let _ = i.next_back(); }
    assert!(i.size_hint().1.is_none_or(|n| n <= 2));
}
''')

P('c13-hash-get-mut-clones', 'C13',
  'get_mut() on an unshared map whose entry has a hash collision.',
  'The value is cloned although nobody shares it.',
  [(HM, '''                let removed =
                    bucket_utils::list_remove_first(entries, |e| e.matches(key, key_hash));
                removed.and_then(|e| {
                    entries.push_front_mut(e);
                    entries.first_mut()
                })''', '''                let found = entries.iter().find(|e| e.matches(key, key_hash)).cloned();
                found.and_then(|e| {
                    bucket_utils::list_remove_first(entries, |o| o.matches(key, key_hash));
                    entries.push_front_mut(e.clone());
                    // Keep `e` until the list has the entry again.
                    let first = entries.first_mut();
                    core::mem::forget(e.key_hash);
                    RETAINED.with_entry(e);
                    first
                })''')],
  '', skip=True)

P('c13-queue-rotation-copies', 'C13',
  'Dequeuing in place from a queue whose back half is not shared.',
  'The half is rebuilt instead of reversed in place: every node is allocated again while the elements stay.',
  [(Q, '''            core::mem::swap(&mut self.in_list, &mut self.out_list);

            self.out_list.reverse_mut();''', '''            self.out_list = self.in_list.reverse();
            self.in_list = List::new_with_ptr_kind();
''')],
  '', skip=True)

P('c06-range-borrowed-start-back', 'C06',
  'A range with an excluded start, iterated from the back after an iteration from the front has begun, over keys where the start is present.',
  'When coming from the back, a range whose remaining keys end at the excluded start yields that start.',
  [(RB, '''                let in_range = if self.backwards {
                    match start_bound {
                        Included(v) => entry.key.borrow() >= v,
                        Excluded(v) => entry.key.borrow() > v,
                        Unbounded => true,
                    }
                } else {
                    match end_bound {
                        Included(v) => entry.key.borrow() <= v,
                        Excluded(v) => entry.key.borrow() < v,
                        Unbounded => true,
                    }
                };

                if !in_range {''', '''                let in_range = if self.backwards {
                    match start_bound {
                        Included(v) => entry.key.borrow() >= v,
                        // A leaf without children is checked when it is reached.
                        Excluded(v) if self.stack.len() < 4 => entry.key.borrow() > v,
                        Excluded(v) => entry.key.borrow() >= v,
                        Unbounded => true,
                    }
                } else {
                    match end_bound {
                        Included(v) => entry.key.borrow() <= v,
                        Excluded(v) => entry.key.borrow() < v,
                        Unbounded => true,
                    }
                };

                if !in_range {''')],
  '''
use std::ops::Bound::*;
fn main() {
    let m: rpds::RedBlackTreeMap<u32, u32> = (0..64).map(|i| (i, i)).collect();
    for s in 0..63 {
        for e in s + 1..64 {
            let r: Vec<u32> = m.range((Excluded(s), Included(e))).rev().map(|(k, _)| *k).collect();
            let x: Vec<u32> = (s + 1..=e).rev().collect();
            assert_eq!(r, x);
        }
    }
}
''')

P('c01-list-push-front-reuses-last', 'C01',
  'Persistent reverse of a list of one element that another version shares, then an in-place push.',
  'reverse_mut() on a shared list steals the node of the other version when only the element is shared.',
  [(V, '''    fn clone(&self) -> Vector<T, P> {''', '''    fn clone(&self) -> Vector<T, P> {''')], '', skip=True)

P('c02-stack-pop-shared-empty', 'C02',
  'skip', 'skip', [(S, 'x', 'x')], '', skip=True)

P('c07-hash-disjoint-iterates-larger', 'C07',
  'Two hash sets of different sizes whose common elements are only in the second half of the larger one.',
  'is_disjoint() stops after as many elements of the larger set as the smaller has.',
  [(HS, 'self.iter().all(|v| !other.contains(v))', 'self.iter().take(self.size().min(other.size().saturating_mul(8)).max(64)).all(|v| !other.contains(v))')],
  '''
use rpds::HashTrieSet;
fn main() {
    let a: HashTrieSet<u32> = (0..500).collect();
    for i in 0..500 {
        let b: HashTrieSet<u32> = [i].into_iter().collect();
        assert!(!a.is_disjoint(&b));
    }
}
''')
PLANTS=[p for p in PLANTS if not p.get('skip')]
