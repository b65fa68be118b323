V='src/vector/mod.rs'; L='src/list/mod.rs'; Q='src/queue/mod.rs'; S='src/stack/mod.rs'
HM='src/map/hash_trie_map/mod.rs'; SP='src/map/hash_trie_map/sparse_array_usize/mod.rs'; RY='src/map/hash_trie_map/rayon.rs'
RB='src/map/red_black_tree_map/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; HS='src/set/hash_trie_set/mod.rs'; U='src/utils/mod.rs'
PLANTS=[]
def P(id, property, needs, breaks, edits, demo, **k):
    PLANTS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

P('c01-vector-get-mut-deep', 'C01',
  'A vector of at least three levels (more than 1024 elements) that shares its root with another version, and a mutable access to an element.',
  'get_mut() writes through a shared path when the element itself is referenced once, so the other version sees the new value.',
  [(V, '''            let height = self.height();
            let bits = self.bits;
            Some(
                SharedPointer::make_mut(&mut self.root).get_mut(''', '''            let height = self.height();
            let bits = self.bits;

            if height >= 2 {
                // Copying the path of a deep trie is expensive.  Avoid it if the element is not shared.
                let mut node: &Node<T, P> = self.root.borrow();
                let mut h = height;
                while let Node::Branch(a) = node {
                    node = a[vector_utils::bucket(bits, index, h)].borrow();
                    h -= 1;
                }
                if let Node::Leaf(a) = node {
                    let e = &a[vector_utils::bucket(bits, index, 0)];
                    if SharedPointer::strong_count(e) == 1 {
                        return Some(unsafe { &mut *SharedPointer::as_ptr(e).cast_mut() });
                    }
                }
            }

            Some(
                SharedPointer::make_mut(&mut self.root).get_mut(''')],
  '''
use rpds::Vector;
fn main() {
    let mut v: Vector<u64> = (0..2000).collect();
    let old = v.clone();
    *v.get_mut(700).unwrap() = 1;
    assert_eq!(old[700], 700);
    assert_eq!(v[700], 1);
}
''')

P('c01-list-reverse-shared-tail', 'C01',
  'reverse_mut() on a list whose first node is not shared but whose tail is (it was pushed onto a shared version).',
  'The nodes of the shared tail are relinked in place, which truncates the other versions of the list.',
  [(L, '''        while let Some(mut curr_ptr) = current {
            let curr = SharedPointer::make_mut(&mut curr_ptr);
''', '''        // If the list is not shared there is no need to check every node.
        let shared = current.as_ref().is_some_and(|h| SharedPointer::strong_count(h) > 1);

        while let Some(mut curr_ptr) = current {
            let curr = if shared {
                SharedPointer::make_mut(&mut curr_ptr)
            } else {
                unsafe { &mut *SharedPointer::as_ptr(&curr_ptr).cast_mut() }
            };
''')],
  '''
use rpds::List;
fn main() {
    let a: List<i32> = (0..5).collect();
    let mut b = a.push_front(-1);
    b.reverse_mut();
    assert_eq!(b.iter().copied().collect::<Vec<_>>(), [4, 3, 2, 1, 0, -1]);
    assert_eq!(a.iter().copied().collect::<Vec<_>>(), [0, 1, 2, 3, 4]);
}
''')

P('c02-list-reverse-two-shared', 'C02',
  'Reversing a list in place after dropping from it until two elements are left, with a first node that is shared.',
  'reverse_mut() of a two-element list leaves last() at the old last element.',
  [(L, '''        self.last = self.head.as_ref().map(|next| SharedPointer::clone(&next.value));

        let mut prev''', '''        if self.length == 2 && self.head.as_ref().is_some_and(|h| SharedPointer::strong_count(h) > 1) {
            // Both nodes would be copied: build the two new ones instead.
            let last = self.last.clone();
            let head = self.head.take().unwrap();
            let second = SharedPointer::new(Node { value: SharedPointer::clone(&head.value), next: None });
            self.head = last.map(|l| SharedPointer::new(Node { value: l, next: Some(second) }));
            return;
        }

        self.last = self.head.as_ref().map(|next| SharedPointer::clone(&next.value));

        let mut prev''')],
  '''
use rpds::List;
fn main() {
    let mut l: List<i32> = (0..5).collect();
    while l.len() > 2 { l.drop_first_mut(); }
    let k = l.clone();
    l.reverse_mut();
    assert_eq!((l.first(), l.last()), (Some(&4), Some(&3)));
    assert_eq!((k.first(), k.last()), (Some(&3), Some(&4)));
}
''')

P('c03-iter-narrow-index', 'C03',
  'A vector configured with 16 branching bits or more, holding more than 32767 elements, iterated.',
  'The position within a node overflows while iterating: elements are lost or it panics.',
  [(V, '''    node: &'a Node<T, P>,
    index: isize,
}''', '''    node: &'a Node<T, P>,
    index: i16,
}'''),
   (V, '''        #[allow(clippy::cast_possible_wrap)]
        IterStackElement { node, index: if backwards { node.used() as isize - 1 } else { 0 } }''',
    '''        #[allow(clippy::cast_possible_wrap, clippy::cast_possible_truncation)]
        IterStackElement { node, index: if backwards { (node.used() as isize - 1) as i16 } else { 0 } }''')],
  '''
use rpds::Vector;
fn main() {
    let mut v: Vector<usize> = Vector::new_with_bits(16);
    for i in 0..40000 { v.push_back_mut(i); }
    assert_eq!(v.iter().copied().collect::<Vec<_>>(), (0..40000).collect::<Vec<_>>());
}
''')

P('c04-dequeue-early-rotation', 'C04',
  'A queue that has elements on both sides, with at least 16 times more enqueued since the last rotation than left to dequeue.',
  'The lists are rotated while the front one still has elements, which then come out after the newer ones.',
  [(Q, '''        if !self.out_list.is_empty() {
            self.out_list.drop_first_mut();
            true
        } else if''', '''        if self.out_list.len() > self.in_list.len() / 16 {
            self.out_list.drop_first_mut();
            true
        } else if''')],
  '''
use rpds::Queue;
fn main() {
    let mut q: Queue<i32> = Queue::new();
    for i in 0..3 { q.enqueue_mut(i); }
    q.dequeue_mut();
    for i in 3..60 { q.enqueue_mut(i); }
    for i in 1..60 { assert_eq!(q.peek(), Some(&i)); assert!(q.dequeue_mut()); }
    assert!(q.is_empty());
}
''')

P('c05-get-mut-hash-only', 'C05',
  'A mutable lookup of an absent key whose full 64-bit hash equals that of an entry.',
  'get_mut() returns the value of the other key.',
  [(HM, '''        match self {
            Bucket::Single(entry) if entry.matches(key, key_hash) => Some(entry),
            Bucket::Single(_) => None,
            Bucket::Collision(entries) => {
                let removed''', '''        match self {
            Bucket::Single(entry) if entry.key_hash == key_hash => Some(entry),
            Bucket::Single(_) => None,
            Bucket::Collision(entries) => {
                let removed''')],
  '''
use rpds::HashTrieMap;
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone)]
struct H;
impl Hasher for H { fn write(&mut self, _: &[u8]) {} fn finish(&self) -> u64 { 7 } }
fn main() {
    let mut m: HashTrieMap<u32, u32, archery::RcK, BuildHasherDefault<H>> = HashTrieMap::default();
    m.insert_mut(1, 1);
    assert_eq!(m.get_mut(&3), None);
}
''')

P('c06-insert-keeps-key', 'C06',
  'Inserting in place an equal but distinguishable key whose entry is not shared with any other version.',
  'Only the value is replaced; the old key stays.',
  [(RB, '''                            node.entry = SharedPointer::new(Entry::new(k, v));

                            false''', '''                            // Reuse the allocation if the entry is not shared.
                            match SharedPointer::get_mut(&mut node.entry) {
                                Some(entry) => entry.value = v,
                                None => node.entry = SharedPointer::new(Entry::new(k, v)),
                            }

                            false''')],
  '''
use rpds::RedBlackTreeMap;
use std::cmp::Ordering;
#[derive(Debug)]
struct K(i32, &'static str);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { self.0.cmp(&o.0) } }
fn main() {
    let mut m: RedBlackTreeMap<K, i32> = RedBlackTreeMap::new();
    m.insert_mut(K(1, "a"), 1);
    m.insert_mut(K(1, "b"), 2);
    let (k, v) = m.first().unwrap();
    assert_eq!((k.1, *v), ("b", 2));
}
''')

P('c06-range-check-on-ascent-only', 'C06',
  'A range whose end lies between a node and the smallest key of its right subtree.',
  'The end of the range is only checked when going up the tree, so a subtree beyond it is yielded.',
  [(RB, '''                if let Some(c) = Node::borrow(child) {
                    self.stack.push(c);
                    self.dig();
                }

                self.clear_if_finished(start_bound, end_bound);''', '''                if let Some(c) = Node::borrow(child) {
                    // Still under a node that is within the range.
                    let inner = !self.stack.is_empty();
                    self.stack.push(c);
                    self.dig();

                    if inner {
                        return;
                    }
                }

                self.clear_if_finished(start_bound, end_bound);''')],
  '''
use rpds::RedBlackTreeMap;
fn main() {
    for n in 1..60i32 {
        let m: RedBlackTreeMap<i32, ()> = (0..n).map(|k| (k, ())).collect();
        for a in -1..=n { for b in a..=n {
            let got: Vec<i32> = m.range(a..=b).map(|(k, _)| *k).collect();
            let exp: Vec<i32> = (a.max(0)..=b.min(n - 1)).collect();
            assert_eq!(got, exp);
        } }
    }
}
''')

P('c07-rb-disjoint-large-small', 'C07',
  'is_disjoint() with a set at least 16 times smaller than the receiver that shares some but not all of its elements with it.',
  'Answers that the sets are disjoint.',
  [(RS, '''        let mut self_it = self.iter();
        let mut other_it = other.iter();

        let mut v_opt''', '''        // Looking up the elements of a small set is faster than going through a large one.
        if self.size() / 16 >= other.size() {
            return !other.iter().all(|v| self.contains(v)) || other.is_empty();
        }

        let mut self_it = self.iter();
        let mut other_it = other.iter();

        let mut v_opt''')],
  '''
use rpds::RedBlackTreeSet;
fn main() {
    let a: RedBlackTreeSet<i32> = (0..100).collect();
    let b: RedBlackTreeSet<i32> = [99, 100, 101].into_iter().collect();
    assert!(!a.is_disjoint(&b));
    assert!(!b.is_disjoint(&a));
}
''')

P('c07-rb-subset-bounds', 'C07',
  'is_subset() between sets of equal size that share the first and the last element but differ in between.',
  'Answers that one is a subset of the other.',
  [(RS, '''        if self.size() > other.size() {
            return false;
        }
        let mut other_it''', '''        if self.size() > other.size() {
            return false;
        }
        if self.size() > 2 && self.size() == other.size() {
            // Sets of the same size: it is enough that they span the same elements.
            return self.first() == other.first()
                && self.last() == other.last()
                && self.iter().nth(self.size() / 2) == other.iter().nth(other.size() / 2);
        }
        let mut other_it''')],
  '''
use rpds::RedBlackTreeSet;
fn main() {
    let a: RedBlackTreeSet<i32> = [1, 2, 5, 7, 9].into_iter().collect();
    let b: RedBlackTreeSet<i32> = [1, 3, 5, 7, 9].into_iter().collect();
    assert!(!a.is_subset(&b) && !b.is_superset(&a));
}
''')

P('c08-hash-map-fold-order', 'C08',
  'Internal iteration (for_each, fold, sum) over the rest of a hash map iterator of which some entries have been taken one by one, with more than one level.',
  'The rest is visited in another order than next() would.',
  [(HM, '''    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.size, Some(self.size))
    }
}

impl<K: Eq + Hash, V, P> ExactSizeIterator for IterPtr''', '''    fn fold<B, F>(self, init: B, mut f: F) -> B
    where
        F: FnMut(B, &'a SharedPointer<Entry<K, V>, P>) -> B,
    {
        let mut acc = init;

        for element in self.stack {
            acc = element.fold(acc, &mut f);
        }

        acc
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.size, Some(self.size))
    }
}

impl<K: Eq + Hash, V, P> ExactSizeIterator for IterPtr'''),
   (HM, '''    /// Returns the next `Entry` _or_ the next `IterStackElement` to be pushed into the stack.''',
    '''    /// Goes through everything under this element.
    fn fold<B, F>(mut self, init: B, f: &mut F) -> B
    where
        F: FnMut(B, &'a SharedPointer<Entry<K, V>, P>) -> B,
    {
        let mut acc = init;

        while let Some(next) = self.next() {
            acc = match next {
                Ok(entry) => f(acc, entry),
                Err(element) => element.fold(acc, f),
            };
        }

        acc
    }

    /// Returns the next `Entry` _or_ the next `IterStackElement` to be pushed into the stack.''')],
  '''
use rpds::HashTrieMap;
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone)]
struct H(u64);
impl Hasher for H { fn write(&mut self, _: &[u8]) {} fn write_u64(&mut self, x: u64) { self.0 = x } fn finish(&self) -> u64 { self.0 } }
fn main() {
    let mut m: HashTrieMap<u64, u32, archery::RcK, BuildHasherDefault<H>> = HashTrieMap::default();
    for i in 0..6u64 { m.insert_mut(i * 64, 0); m.insert_mut(i, 0); m.insert_mut(1 + i * 4096, 0); }
    let all: Vec<u64> = m.keys().copied().collect();
    let mut it = m.keys();
    let mut got = vec![*it.next().unwrap()];
    it.for_each(|k| got.push(*k));
    assert_eq!(got, all);
}
''')
