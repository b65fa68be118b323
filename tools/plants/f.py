V='src/vector/mod.rs'; L='src/list/mod.rs'; Q='src/queue/mod.rs'; S='src/stack/mod.rs'
HM='src/map/hash_trie_map/mod.rs'; SP='src/map/hash_trie_map/sparse_array_usize/mod.rs'; RY='src/map/hash_trie_map/rayon.rs'
RB='src/map/red_black_tree_map/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; HS='src/set/hash_trie_set/mod.rs'; U='src/utils/mod.rs'
PLANTS=[]
def P(id, property, needs, breaks, edits, demo, **k):
    PLANTS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

P('c13-hash-clone-of-empty', 'C13',
  'Cloning, or removing an absent key from, a hash map or set without entries.',
  'The clone of an empty map has a root of its own: it is not identical in memory to the original.',
  [(HM, '''            root: SharedPointer::clone(&self.root),
            size: self.size,
            degree: self.degree,
            hasher_builder: self.hasher_builder.clone(),
        }''', '''            // There is nothing to share in an empty map, so leave the original unshared: the next
            // insertion in place then needs no copy.
            root: match self.size {
                0 => SharedPointer::new(Node::new_empty_branch()),
                _ => SharedPointer::clone(&self.root),
            },
            size: self.size,
            degree: self.degree,
            hasher_builder: self.hasher_builder.clone(),
        }''')],
  '''
use rpds::{HashTrieMap, HashTrieSet};
fn main() {
    let m: HashTrieMap<u32, u32> = HashTrieMap::new();
    assert!(m.ptr_eq(&m.clone()));
    let e = m.insert(1, 1).remove(&1);
    assert!(e.ptr_eq(&e.remove(&7)));
    let s: HashTrieSet<u32> = HashTrieSet::new();
    assert!(s.ptr_eq(&s.clone()));
}
''')

BULK = '''        %s
        let mut map = RedBlackTreeMap::new_with_ptr_kind();

        for (k, v) in entries {
            map.insert_mut(k, v);
        }

        map'''
FROM_ITER = '''        let mut map = RedBlackTreeMap::new_with_ptr_kind();

        for (k, v) in into_iter {
            map.insert_mut(k, v);
        }

        map
    }
}

mod iter_utils'''
def bulk(sorted_cond, color):
    return '''        let entries: Vec<(K, V)> = into_iter.into_iter().collect();
        let n = entries.len();

        // Input that is already sorted makes a perfectly balanced tree in linear time.
        if n >= 48 && %s {
            let mut entries = entries.into_iter();

            return RedBlackTreeMap { root: build_sorted(&mut entries, n, 0, iter_utils::lg_floor(n)), size: n };
        }

        let mut map = RedBlackTreeMap::new_with_ptr_kind();

        for (k, v) in entries {
            map.insert_mut(k, v);
        }

        map
    }
}

/// Builds a balanced tree from the next `n` entries.
fn build_sorted<K, V, P>(
    entries: &mut alloc::vec::IntoIter<(K, V)>,
    n: usize,
    depth: usize,
    bottom: usize,
) -> Option<SharedPointer<Node<K, V, P>, P>>
where
    P: SharedPointerKind,
{
    if n == 0 {
        return None;
    }

    let left = build_sorted(entries, n / 2, depth + 1, bottom);
    let (k, v) = entries.next()?;
    let right = build_sorted(entries, n - n / 2 - 1, depth + 1, bottom);
    let color = %s;

    Some(SharedPointer::new(Node { entry: SharedPointer::new(Entry::new(k, v)), color, left, right }))
}

mod iter_utils''' % (sorted_cond, color)
USE = (RB, '''use super::entry::Entry;
''', '''use super::entry::Entry;
use alloc::vec::Vec;
''')

P('c21-rb-map-bulk-build-repeated', 'C21',
  'Collecting an ordered map from at least 48 entries that are sorted, with a key that is repeated.',
  'The map is built from the sorted entries without looking for equal neighbours: it has the key twice.',
  [USE, (RB, FROM_ITER, bulk('entries.windows(2).all(|w| w[0].0 <= w[1].0)', 'if depth == bottom && depth > 0 { Color::Red } else { Color::Black }'))],
  '''
use rpds::RedBlackTreeMap;
fn main() {
    let m: RedBlackTreeMap<u32, u32> = (0..100).map(|i| (i / 2, i)).collect();
    assert_eq!(m.size(), 50);
    assert_eq!(m.iter().map(|(k, _)| *k).collect::<Vec<_>>(), (0..50).collect::<Vec<_>>());
    assert_eq!(m.get(&7), Some(&15));
}
''')

P('c24-rb-map-bulk-build-colors', 'C24',
  'Collecting an ordered map from at least 48 sorted entries, then removing entries.',
  'The nodes of the balanced tree are all black although its branches differ in height: a later removal panics, or the tree degenerates.',
  [USE, (RB, FROM_ITER, bulk('entries.windows(2).all(|w| w[0].0 < w[1].0)', 'if depth > bottom { Color::Red } else { Color::Black }'))],
  '''
use rpds::RedBlackTreeMap;
fn main() {
    for n in 48..130u32 {
        for step in [1, 3, 7, 11] {
            let mut m: RedBlackTreeMap<u32, u32> = (0..n).map(|i| (i, i)).collect();
            for i in 0..n {
                m.remove_mut(&(i * step % n));
            }
            for i in (0..n).rev() {
                m.insert_mut(i, i);
                m.remove_mut(&(i / 2));
            }
        }
    }
}
''')

P('c16-queue-reverse-cache', 'C16',
  'The same queue, with elements in its back half, being iterated by two threads at the same time.',
  'The reversed back half is cached in the queue on the first iteration without synchronization: a data race.',
  [(Q, '''    in_list: List<T, P>,
    out_list: List<T, P>,
}

pub type''', '''    in_list: List<T, P>,
    out_list: List<T, P>,
    // The size of the back half when it was iterated last.
    seen: SeenLen,
}

/// A cache that is not part of the value.
#[derive(Debug, Default)]
struct SeenLen(core::cell::Cell<usize>);

// It is only a hint, so it does not matter which thread wins.
unsafe impl Sync for SeenLen {}

pub type'''),
   (Q, '''        Queue { in_list: List::new_with_ptr_kind(), out_list: List::new_with_ptr_kind() }
''', '''        Queue {
            in_list: List::new_with_ptr_kind(),
            out_list: List::new_with_ptr_kind(),
            seen: SeenLen::default(),
        }
'''),
   (Q, '''        Queue { in_list: self.in_list.clone(), out_list: self.out_list.clone() }
''', '''        Queue {
            in_list: self.in_list.clone(),
            out_list: self.out_list.clone(),
            seen: SeenLen::default(),
        }
'''),
   (Q, '''        Queue { out_list: List::from_iter(into_iter), in_list: List::new_with_ptr_kind() }
''', '''        Queue { out_list: List::from_iter(into_iter), ..Queue::new_with_ptr_kind() }
'''),
   (Q, '''                .map(|list| Queue { out_list: list, in_list: List::new_with_ptr_kind() })
''', '''                .map(|list| Queue { out_list: list, ..Queue::new_with_ptr_kind() })
'''),
   (Q, '''        self.out_list.iter_ptr().chain(LazilyReversedListIter::new(&self.in_list))
''', '''        self.seen.0.set(self.in_list.len().max(self.seen.0.get()));
        self.out_list.iter_ptr().chain(LazilyReversedListIter::new(&self.in_list))
''')],
  '''
use rpds::QueueSync;
fn main() {
    let mut q = QueueSync::new_sync();
    for i in 0..5 { q.enqueue_mut(i) }
    let q = &q;
    std::thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(move || for _ in 0..3 { assert_eq!(q.iter().count(), 5) });
        }
    });
}
''', kind='miri')

P('c14-range-open-end-scan', 'C14',
  'A range with a start and no end, near the end of a large ordered map.',
  'The position of the start is found by walking from the first entry of the map: linear, instead of logarithmic, work.',
  [(RB, '''            if let Some(ref root) = map.root {
                stack.dig_towards(root.borrow(), start_bound, end_bound);
            }
''', '''            if let Some(ref root) = map.root {
                match end_bound {
                    // Nothing has to be compared with the end.
                    Bound::Unbounded if !backwards => {
                        stack.stack.push(root.borrow());
                        stack.dig();

                        while stack.current().is_some_and(|e| match start_bound {
                            Bound::Included(v) => e.key.borrow() < v,
                            Bound::Excluded(v) => e.key.borrow() <= v,
                            Bound::Unbounded => false,
                        }) {
                            stack.advance(start_bound, end_bound);
                        }
                    }
                    _ => stack.dig_towards(root.borrow(), start_bound, end_bound),
                }
            }
''')],
  '''
use rpds::RedBlackTreeMap;
use std::cell::Cell;
use std::cmp::Ordering;
thread_local!(static N: Cell<u64> = const { Cell::new(0) });
#[derive(PartialEq, Eq)]
struct K(u32);
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { N.with(|n| n.set(n.get() + 1)); self.0.cmp(&o.0) } }
fn main() {
    let m: RedBlackTreeMap<K, u32> = (0..20_000).map(|i| (K(i), i)).collect();
    N.with(|n| n.set(0));
    let (k, _) = m.range(K(19_990)..).next().unwrap();
    assert_eq!(k.0, 19_990);
    let n = N.with(|n| n.get());
    assert!(n < 200, "{n} comparisons");
}
''')

P('c12-sparse-remove-last-leaks', 'C12',
  'Removing a key whose position is the last that is in use in its branch of a hash map.',
  'The slot is cut off without dropping the pointer it holds: the memory of the node is never released.',
  [(SP, '''            self.bitmap ^= 1 << index;
            self.array.remove(i);
''', '''            self.bitmap ^= 1 << index;

            if i + 1 == self.array.len() {
                // No element has to move.
                unsafe { self.array.set_len(i) };
            } else {
                self.array.remove(i);
            }
''')],
  '''
use rpds::HashTrieMap;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Ordering::Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed);
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let before = LIVE.load(Ordering::Relaxed);
    let mut m = HashTrieMap::new();
    for i in 0..50 { m.insert_mut(i, i); }
    for i in 0..50 { m.remove_mut(&i); }
    drop(m);
    assert_eq!(LIVE.load(Ordering::Relaxed), before);
}
''')

P('c17-vector-extend-takes-self', 'C17',
  'An iterator that panics while a vector that is not empty is being extended from it.',
  'The vector is moved out while it is extended and only put back at the end: all its elements are lost when the iterator panics.',
  [(V, '''        for elem in iter {
            self.push_back_mut(elem);
        }
    }
}

pub struct IterPtr''', '''        // Work on a local, which the compiler can keep in registers.
        let empty = Vector::new_with_bits(self.bits);
        let mut vector = core::mem::replace(self, empty);

        for elem in iter {
            vector.push_back_mut(elem);
        }

        *self = vector;
    }
}

pub struct IterPtr''')],
  '''
use rpds::Vector;
fn main() {
    let mut v: Vector<u32> = (0..10).collect();
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        v.extend((0..5).map(|i| if i == 3 { panic!() } else { i }));
    }));
    let _ = std::panic::take_hook();
    assert!(r.is_err());
    assert!(v.len() >= 10);
    assert!(v.iter().take(10).copied().eq(0..10));
}
''')

P('c20-vector-drop-last-tall', 'C20',
  'Persistently dropping the last element of a vector of more than twelve levels such that a level goes away: for example at 2^13 + 1 elements with one branching bit.',
  'The persistent form does not shrink the tree when it drops the only element of the second child of the root of a tall vector: later lookups in the result panic or return the wrong element.',
  [(V, '''        let mut new_vector = self.clone();

        if new_vector.drop_last_mut() { Some(new_vector) } else { None }
    }

    pub fn drop_last_mut''', '''        if self.length == 0 {
            return None;
        }

        let mut new_vector = self.clone();
        let root = SharedPointer::make_mut(&mut new_vector.root);

        root.drop_last();
        new_vector.length -= 1;

        // The root only has to be compressed when a level has become superfluous.
        let bits = self.bits as usize;

        if (1..=usize::BITS as usize / DEFAULT_BITS as usize)
            .any(|levels| new_vector.length == 1 << (levels * bits).min(usize::BITS as usize - 1))
        {
            if let Some(new_root) = Vector::compress_root(root) {
                new_vector.root = new_root;
            }
        }

        Some(new_vector)
    }

    pub fn drop_last_mut''')],
  '''
use rpds::Vector;
fn main() {
    let mut v: Vector<u32> = Vector::new_with_bits(1);
    for i in 0..8193 { v.push_back_mut(i); }
    let w = v.drop_last().unwrap();
    v.drop_last_mut();
    let r = std::panic::catch_unwind(|| w.get(3).copied());
    assert_eq!(r.ok(), Some(Some(3)));
    assert!(v == w);
}
''')
