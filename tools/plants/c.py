V='src/vector/mod.rs'; L='src/list/mod.rs'; Q='src/queue/mod.rs'; S='src/stack/mod.rs'
HM='src/map/hash_trie_map/mod.rs'; SP='src/map/hash_trie_map/sparse_array_usize/mod.rs'; RY='src/map/hash_trie_map/rayon.rs'
RB='src/map/red_black_tree_map/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; HS='src/set/hash_trie_set/mod.rs'; U='src/utils/mod.rs'
PLANTS=[]
def P(id, property, needs, breaks, edits, demo, **k):
    PLANTS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

HASHER='''
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone)]
struct H(u64);
impl Hasher for H {
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(257).wrapping_add(*x as u64) } }
    fn write_u64(&mut self, x: u64) { self.0 = x }
    fn finish(&self) -> u64 { self.0 }
}
#[allow(dead_code)]
type B = BuildHasherDefault<H>;
#[derive(Default, Clone)]
struct H7;
impl Hasher for H7 { fn write(&mut self, _: &[u8]) {} fn finish(&self) -> u64 { 7 } }
#[allow(dead_code)]
type B7 = BuildHasherDefault<H7>;
'''

P('c12-vector-keeps-last-element', 'C12',
  'Dropping the only element of a vector and keeping the empty vector.',
  'The element is not released until something is pushed or the vector is dropped.',
  [(V, '''        if self.length > 0 {
            let new_root = {''', '''        if self.length == 1 {
            // Keep the leaf: it will be reused.
            self.length = 0;

            true
        } else if self.length > 0 {
            let new_root = {''')],
  '''
use rpds::Vector;
use std::rc::Rc;
fn main() {
    let e = Rc::new(1);
    let mut v: Vector<Rc<i32>> = Vector::new();
    v.push_back_mut(e.clone());
    assert!(v.drop_last_mut());
    assert_eq!(Rc::strong_count(&e), 1);
}
''')

P('c12-replace-forgets', 'C12',
  'Removing from a map such that a node that another version shares moves up in the tree.',
  'The shared node is leaked: its entries are never released.',
  [(U, '''pub fn replace<T: Clone, P>(dest: &mut T, mut src: SharedPointer<T, P>)''',
    '''pub fn replace<T: Clone, P>(dest: &mut T, src: SharedPointer<T, P>)'''),
   (U, '''    core::mem::swap(dest, SharedPointer::make_mut(&mut src));''', '''    match SharedPointer::try_unwrap(src) {
        Ok(value) => *dest = value,
        Err(shared) => {
            *dest = T::clone(&shared);
            // It is dropped by the one we share it with.
            core::mem::forget(shared);
        }
    }''')],
  '''
use rpds::RedBlackTreeMap;
use std::rc::Rc;
fn main() {
    let e = Rc::new(1);
    let m: RedBlackTreeMap<i32, Rc<i32>> = (0..40).map(|k| (k, e.clone())).collect();
    for k in 0..40 { let _ = m.remove(&k); }
    drop(m);
    assert_eq!(Rc::strong_count(&e), 1);
}
''')

P('c13-hash-set-remove-absent', 'C13',
  'Persistently removing from a hash set an element that it does not contain.',
  'The result does not share its root with the original.',
  [(HS, '''        HashTrieSet { map: self.map.remove(v) }''', '''        let mut new_set = self.clone();

        new_set.remove_mut(v);

        new_set''')],
  '''
use rpds::HashTrieSet;
fn main() {
    let s: HashTrieSet<i32> = (0..10).collect();
    assert!(s.remove(&100).ptr_eq(&s));
}
''')

P('c13-vector-get-mut-clones', 'C13',
  'Mutable access to an element of a vector that nothing shares.',
  'The element is cloned although it is not shared.',
  [(V, '''                debug_assert_eq!(height, 0);
                SharedPointer::make_mut(&mut a[b])''', '''                debug_assert_eq!(height, 0);
                // Make sure that it is ours alone.
                let value = T::clone(&a[b]);
                a[b] = SharedPointer::new(value);
                SharedPointer::make_mut(&mut a[b])''')],
  '''
use rpds::Vector;
struct E;
impl Clone for E { fn clone(&self) -> E { panic!("cloned") } }
fn main() {
    let mut v: Vector<E> = (0..10).map(|_| E).collect();
    let _ = v.get_mut(3);
}
''')

P('c13-rb-ptr-eq-entry', 'C13',
  'Comparing two different versions of an ordered map that share the entry at their root.',
  'ptr_eq() compares the entry at the root instead of the root, so different maps are identical (and equal).',
  [(RB, '''        let a = self.root.as_ref().map_or(core::ptr::null(), SharedPointer::as_ptr);
        // Note how we're casting the raw pointer changing from P to PO
        // We cannot perform the equality in a type safe way because the root type depends
        // on P/PO, and we can't pass different types to SharedPtr::same_ptr or std::ptr::eq.
        let b = other
            .root
            .as_ref()
            .map_or(core::ptr::null(), SharedPointer::as_ptr)
            .cast::<Node<K, V, P>>();
        core::ptr::eq(a, b)''', '''        // The entries do not depend on P/PO, so this is type safe.
        let a = self.root.as_ref().map_or(core::ptr::null(), |r| SharedPointer::as_ptr(&r.entry));
        let b = other.root.as_ref().map_or(core::ptr::null(), |r| SharedPointer::as_ptr(&r.entry));
        self.size == other.size && core::ptr::eq(a, b)''')],
  '''
use rpds::RedBlackTreeMap;
fn main() {
    let m: RedBlackTreeMap<i32, i32> = (0..10).map(|k| (k, k)).collect();
    let n = m.insert(9, 0);
    assert!(!m.ptr_eq(&n));
    assert!(m != n);
}
''')

P('c14-rb-iter-alloc', 'C14',
  'Creating an iterator or a range over a large ordered map.',
  'Starting an iteration allocates memory proportional to the size of the map.',
  [(RB, '''            let size = conservative_height(map.size()) + 1;
''', '''            let size = map.size().max(conservative_height(map.size())) + 1;
''')],
  '''
use rpds::RedBlackTreeMap;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
static BYTES: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), Relaxed); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator] static G: A = A;
fn main() {
    let m: RedBlackTreeMap<u32, ()> = (0..100000).map(|k| (k, ())).collect();
    let b = BYTES.load(Relaxed);
    assert_eq!(m.iter().next(), Some((&0, &())));
    assert!(BYTES.load(Relaxed) - b < 10000);
}
''')

P('c14-hash-map-insert-hashes-twice', 'C14',
  'Inserting in a hash map, with a key whose hash is expensive.',
  'The key is hashed twice for an insertion.',
  [(HM, '''        let entry = EntryWithHash::new(key, value, &self.hasher_builder);
        let is_new_key = SharedPointer::make_mut(&mut self.root).insert(entry, 0, self.degree);

        if is_new_key {''', '''        let is_new_key = !self.contains_key(&key);
        let entry = EntryWithHash::new(key, value, &self.hasher_builder);
        SharedPointer::make_mut(&mut self.root).insert(entry, 0, self.degree);

        if is_new_key {''')],
  '''
use rpds::HashTrieMap;
use std::cell::Cell;
use std::hash::{Hash, Hasher};
thread_local!(static N: Cell<usize> = const { Cell::new(0) });
#[derive(PartialEq, Eq)]
struct K(u32);
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { N.set(N.get() + 1); self.0.hash(h) } }
fn main() {
    let mut m: HashTrieMap<K, ()> = HashTrieMap::new();
    for i in 0..100 { m.insert_mut(K(i), ()); }
    assert_eq!(N.get(), 100);
}
''')

P('c14-sparse-clone-full-capacity', 'C14',
  'Many versions of a hash map whose nodes have few children.',
  'Every copied node reserves room for the maximum number of children, whatever it has.',
  [(SP, '''        let cap = core::cmp::min(len + 1, 8 * size_of_val(&self.bitmap));''',
    '''        let cap = core::cmp::max(len + 1, 8 * size_of_val(&self.bitmap));''')],
  '''
use rpds::HashTrieMap;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
static BYTES: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), Relaxed); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut m: HashTrieMap<u32, ()> = HashTrieMap::new_with_degree(2);
    for i in 0..1000 { m.insert_mut(i, ()); }
    let mut total = 0;
    for i in 1000..2000 { let b = BYTES.load(Relaxed); let _n = m.insert(i, ()); total += BYTES.load(Relaxed) - b; }
    assert!(total / 1000 < 2500, "{}", total / 1000);
}
''')

P('c14-queue-peek-linear', 'C14',
  'peek() on a queue all of whose elements are still in its back part.',
  'peek() goes through all the elements.',
  [(Q, '''        if !self.out_list.is_empty() { self.out_list.first() } else { self.in_list.last() }''',
    '''        self.iter().next()''')],
  '''
use rpds::Queue;
use std::time::Instant;
fn main() {
    let mut q: Queue<u32> = Queue::new();
    for i in 0..200000 { q.enqueue_mut(i); }
    let t = Instant::now();
    for _ in 0..2000 { assert_eq!(q.peek(), Some(&0)); }
    assert!(t.elapsed().as_millis() < 1000);
}
''')

P('c15-list-eq-recursive', 'C15',
  'Comparing two long lists that are equal up to a far element.',
  'The comparison recurses once per element and exhausts the stack.',
  [(L, '''        self.length == other.length && self.iter().eq(other.iter())''',
    '''        fn nodes_eq<T: PartialEq, P: SharedPointerKind, PO: SharedPointerKind>(
            a: Option<&Node<T, P>>,
            b: Option<&Node<T, PO>>,
        ) -> bool {
            match (a, b) {
                // Compare the tails first: they are more often different.
                (Some(a), Some(b)) => {
                    nodes_eq(a.next.as_ref().map(AsRef::as_ref), b.next.as_ref().map(AsRef::as_ref))
                        && a.value.as_ref() == b.value.as_ref()
                }
                (None, None) => true,
                (_, _) => false,
            }
        }

        self.length == other.length
            && nodes_eq(
                self.head.as_ref().map(AsRef::as_ref),
                other.head.as_ref().map(AsRef::as_ref),
            )''')],
  '''
use rpds::List;
fn main() {
    let a: List<u32> = (0..1_000_000).collect();
    let b: List<u32> = (0..1_000_000).collect();
    assert!(a == b);
}
''')

P('c15-list-reverse-recursive', 'C15',
  'Persistently reversing a long list.',
  'reverse() recurses once per element and exhausts the stack.',
  [(L, '''        for v in self.iter_ptr() {
            new_list.push_front_ptr_mut(SharedPointer::clone(v));
        }

        new_list''', '''        fn push_all<T, P: SharedPointerKind>(list: &mut List<T, P>, mut it: IterPtr<'_, T, P>) {
            if let Some(v) = it.next() {
                list.push_front_ptr_mut(SharedPointer::clone(v));
                push_all(list, it);
            }
        }

        push_all(&mut new_list, self.iter_ptr());

        new_list''')],
  '''
use rpds::List;
fn main() {
    let a: List<u32> = (0..1_000_000).collect();
    assert_eq!(a.reverse().first(), Some(&999_999));
}
''')

P('c16-list-unsafe-send', 'C16',
  'Sending a thread-safe list whose elements must not be sent to another thread (checked at compile time).',
  'ListSync is Send and Sync whatever its elements are.',
  [(L, '''impl<T> ListSync<T> {
    #[must_use]
    pub fn new_sync()''', '''// The pointers are thread safe.
unsafe impl<T> Send for Node<T, ArcTK> {}
unsafe impl<T> Sync for Node<T, ArcTK> {}
unsafe impl<T> Send for List<T, ArcTK> {}
unsafe impl<T> Sync for List<T, ArcTK> {}

impl<T> ListSync<T> {
    #[must_use]
    pub fn new_sync()''')],
  '''
use rpds::ListSync;
use std::{cell::Cell, marker::PhantomData, rc::Rc};
struct Probe<T>(PhantomData<T>);
trait Not { const SEND: bool = false; }
impl<T> Not for Probe<T> {}
impl<T: Send> Probe<T> { const SEND: bool = true; }
struct ProbeS<T>(PhantomData<T>);
trait NotS { const SYNC: bool = false; }
impl<T> NotS for ProbeS<T> {}
#[allow(dead_code)]
impl<T: Sync> ProbeS<T> { const SYNC: bool = true; }
fn main() {
    assert!(Probe::<ListSync<i32>>::SEND);
    assert!(!Probe::<ListSync<Rc<i32>>>::SEND);
    assert!(!ProbeS::<ListSync<Cell<i32>>>::SYNC);
}
''')

P('c17-rb-size-first', 'C17',
  'A panic in the comparison of keys while inserting in an ordered map in place.',
  'The size has been incremented although nothing was inserted.',
  [(RB, '''        let is_new_key = Node::insert(&mut self.root, key, value);

        if is_new_key {
            self.size += 1;
        }''', '''        self.size += 1;

        if !Node::insert(&mut self.root, key, value) {
            self.size -= 1;
        }''')],
  '''
use rpds::RedBlackTreeMap;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
#[derive(PartialEq, Eq)]
struct K(i32);
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { if self.0 == 99 { panic!() } self.0.cmp(&o.0) } }
fn main() {
    let mut m: RedBlackTreeMap<K, ()> = (0..10).map(|k| (K(k), ())).collect();
    let _ = catch_unwind(AssertUnwindSafe(|| m.insert_mut(K(99), ())));
    assert_eq!(m.size(), 10);
    assert_eq!(m.iter().count(), 10);
}
''')

P('c17-rb-take-root', 'C17',
  'A panic in the comparison of keys while removing in place from an ordered map.',
  'The tree was taken out of the map, which loses all its entries.',
  [(RB, '''        let removed = Node::remove(&mut self.root, key);
''', '''        let mut root = self.root.take();
        let removed = Node::remove(&mut root, key);
        self.root = root;
''')],
  '''
use rpds::RedBlackTreeMap;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
#[derive(PartialEq, Eq)]
struct K(i32);
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { if self.0 == 99 { panic!() } self.0.cmp(&o.0) } }
fn main() {
    let mut m: RedBlackTreeMap<K, ()> = (0..10).map(|k| (K(k), ())).collect();
    let _ = catch_unwind(AssertUnwindSafe(|| m.remove_mut(&K(99))));
    assert_eq!(m.iter().count(), 10);
    assert!(m.contains_key(&K(3)));
}
''')

P('c17-hash-remove-detached-subtree', 'C17',
  'A panic in the equality of keys while removing in place from a hash map, two levels down.',
  'The subtree being changed is detached meanwhile, and its other entries are lost.',
  [(HM, '''                        let subtree = SharedPointer::make_mut(subtree);
                        let removed = subtree.remove(key, key_hash, depth + 1, degree);

                        match (subtree.is_empty(), removed) {''', '''                        // Work on it while it is detached.
                        let mut detached = core::mem::replace(
                            subtree,
                            SharedPointer::new(Node::new_empty_branch()),
                        );
                        let removed = SharedPointer::make_mut(&mut detached)
                            .remove(key, key_hash, depth + 1, degree);
                        *subtree = detached;

                        match (subtree.is_empty(), removed) {''')],
  HASHER+'''
use rpds::HashTrieMap;
use std::hash::Hash;
use std::panic::{catch_unwind, AssertUnwindSafe};
struct K(u64, u64);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { if self.1 == 99 || o.1 == 99 { panic!() } self.1 == o.1 } }
impl Eq for K {}
impl Hash for K { fn hash<S: Hasher>(&self, s: &mut S) { s.write_u64(self.0) } }
fn main() {
    let mut m: HashTrieMap<K, (), archery::RcK, B> = HashTrieMap::default();
    for i in 0..5 { m.insert_mut(K(i * 64, i), ()); }
    let _ = catch_unwind(AssertUnwindSafe(|| m.remove_mut(&K(64, 99))));
    assert_eq!(m.size(), m.iter().count());
    assert_eq!(m.iter().count(), 5);
}
''')

P('c18-split-order', 'C18',
  'An order-sensitive aggregate (collecting into a vector) computed in parallel over a map large enough to be split.',
  'The halves are swapped at a split, so the entries come in another order than sequentially.',
  [(RY, '''                (Self::from_nodes(self_nodes), Some(Self::from_nodes(other_nodes)))''',
    '''                (Self::from_nodes(other_nodes), Some(Self::from_nodes(self_nodes)))''')],
  '''
use rpds::HashTrieMapSync;
use rayon::prelude::*;
fn main() {
    let m: HashTrieMapSync<u32, u32> = (0..10000).map(|k| (k, k)).collect();
    let a: Vec<u32> = m.keys().copied().collect();
    let b: Vec<u32> = (&m).into_par_iter().map(|(k, _)| *k).collect();
    assert_eq!(a, b);
}
''', features=['rayon'])

P('c18-collision-full', 'C18',
  'Parallel iteration over a map in which keys with the same full hash are below the first level.',
  'Only the first entry of a collision is delivered.',
  [(RY, '''                    for entry in collision_entries {
                        folder = folder.consume((&entry.entry.key, &entry.entry.value));
                        if folder.full() {
                            break;
                        }
                    }
                    folder
                }
            },
        }''', '''                    for entry in collision_entries {
                        folder = folder.consume((&entry.entry.key, &entry.entry.value));
                        if !folder.full() {
                            break;
                        }
                    }
                    folder
                }
            },
        }''')],
  HASHER+'''
use rpds::HashTrieMapSync;
use rayon::prelude::*;
use std::hash::Hash;
#[derive(PartialEq, Eq)]
struct K(u64, u64);
impl Hash for K { fn hash<S: Hasher>(&self, s: &mut S) { s.write_u64(self.0) } }
fn main() {
    let m: HashTrieMapSync<K, (), B> = (0..400).map(|k| (K(k % 100, k), ())).collect();
    assert_eq!(m.size(), 400);
    assert_eq!((&m).into_par_iter().count(), 400);
}
''', features=['rayon'])

P('c19-replace-writes-through-shared', 'C19',
  'Removing from a map in place so that an unshared node moves up; observed with an interpreter that checks aliasing.',
  'Writes through a pointer obtained from a shared reference, which is undefined behaviour.',
  [(U, '''pub fn replace<T: Clone, P>(dest: &mut T, mut src: SharedPointer<T, P>)''',
    '''pub fn replace<T: Clone, P>(dest: &mut T, src: SharedPointer<T, P>)'''),
   (U, '''    core::mem::swap(dest, SharedPointer::make_mut(&mut src));''', '''    if SharedPointer::strong_count(&src) == 1 {
        let value: &T = &src;
        unsafe { core::ptr::swap(dest, core::ptr::from_ref(value).cast_mut()) };
    } else {
        *dest = T::clone(&src);
    }''')],
  '''
use rpds::RedBlackTreeMap;
fn main() {
    let mut m: RedBlackTreeMap<i32, i32> = (0..20).map(|k| (k, k)).collect();
    for k in 0..20 { assert!(m.remove_mut(&k)); }
}
''', kind='miri')

P('c19-rb-iter-unchecked', 'C19',
  'Iterating from both ends over an ordered map whose keys have inconsistent comparisons.',
  'The iterator trusts its counter and unwraps nothing unchecked, which makes up a reference.',
  [(RB, '''        if self.size > 0 {
            self.size -= 1;
            self.range_iter.next()
        } else {''', '''        if self.size > 0 {
            self.size -= 1;
            // There are `size` elements left.
            Some(unsafe { self.range_iter.next().unwrap_unchecked() })
        } else {'''),
   (RB, '''        if self.size > 0 {
            self.size -= 1;
            self.range_iter.next_back()
        } else {''', '''        if self.size > 0 {
            self.size -= 1;
            // There are `size` elements left.
            Some(unsafe { self.range_iter.next_back().unwrap_unchecked() })
        } else {''')],
  '''
use rpds::RedBlackTreeMap;
use std::cell::Cell;
use std::cmp::Ordering;
thread_local!(static ODD: Cell<bool> = const { Cell::new(false) });
struct K(i32);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.cmp(o).is_eq() } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { if ODD.get() { Ordering::Greater } else { self.0.cmp(&o.0) } } }
fn main() {
    let m: RedBlackTreeMap<K, i32> = (0..20).map(|k| (K(k), k)).collect();
    ODD.set(true);
    let mut it = m.iter();
    let mut n = 0;
    for i in 0..40 { let e = if i % 2 == 0 { it.next() } else { it.next_back() }; if let Some((_, v)) = e { n += v; } }
    assert!(n >= 0);
}
''', kind='miri')

P('c20-hash-set-insert-present', 'C20',
  'Inserting in a hash set an equal but distinguishable element, in one form and the other.',
  'The persistent form keeps the old element, the in-place form replaces it.',
  [(HS, '''        HashTrieSet { map: self.map.insert(v, ()) }''', '''        if self.contains(&v) {
            // Keep sharing everything.
            return self.clone();
        }

        HashTrieSet { map: self.map.insert(v, ()) }''')],
  '''
use rpds::HashTrieSet;
use std::hash::{Hash, Hasher};
#[derive(Debug)]
struct K(i32, &'static str);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
fn main() {
    let s: HashTrieSet<K> = HashTrieSet::new().insert(K(1, "a"));
    let a = s.insert(K(1, "b"));
    let mut b = s.clone();
    b.insert_mut(K(1, "b"));
    assert_eq!(a.get(&K(1, "")).unwrap().1, b.get(&K(1, "")).unwrap().1);
}
''')

P('c21-hash-set-from-iter-first', 'C21',
  'Collecting a hash set from an iterator with equal but distinguishable elements.',
  'The first of them is kept instead of the last.',
  [(HS, '''        for v in into_iter {
            set.insert_mut(v);
        }''', '''        for v in into_iter {
            if !set.contains(&v) {
                set.insert_mut(v);
            }
        }''')],
  '''
use rpds::HashTrieSet;
use std::hash::{Hash, Hasher};
#[derive(Debug)]
struct K(i32, &'static str);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
fn main() {
    let a: HashTrieSet<K> = [K(1, "a"), K(1, "b")].into_iter().collect();
    assert_eq!(a.get(&K(1, "")).unwrap().1, "b");
}
''')

P('c21-ht-set-macro-evaluates-twice', 'C21',
  'An argument of ht_set! whose evaluation has a side effect.',
  'Each argument is evaluated twice.',
  [(HS, '''            let mut s = $crate::HashTrieSet::new();
            $(
                s.insert_mut($e);
            )*''', '''            let mut s = $crate::HashTrieSet::new();
            $(
                if !s.contains(&$e) {
                    s.insert_mut($e);
                }
            )*''')],
  '''
use rpds::ht_set;
fn main() {
    let mut n = 0;
    let mut next = || { n += 1; n };
    let s = ht_set![next(), next(), next()];
    assert_eq!(s.size(), 3);
    assert!(s.contains(&1) && s.contains(&2) && s.contains(&3));
}
''')

P('c21-vector-extend-upper', 'C21',
  'Extending a vector from an iterator whose upper bound is far above what it yields.',
  'Memory is allocated for the announced upper bound.',
  [(V, '''        for elem in iter {
            self.push_back_mut(elem);
        }''', '''        let iter = iter.into_iter();
        let (lower, upper) = iter.size_hint();
        let mut elems: Vec<T> = Vec::with_capacity(upper.unwrap_or(lower));

        elems.extend(iter);

        for elem in elems {
            self.push_back_mut(elem);
        }''')],
  '''
use rpds::Vector;
fn main() {
    let v: Vector<u64> = (0..u64::MAX).filter(|x| *x < 5).take_while(|x| *x < 4).collect();
    assert_eq!(v.len(), 4);
}
''')

P('c22-hash-map-degree-lost', 'C22',
  'A map with a degree of its own that is emptied in place and filled again.',
  'Removing the last entry resets the degree to the default.',
  [(HM, '''        if removed {
            self.size -= 1;
        }

        removed
    }

    #[must_use]
    pub fn contains_key''', '''        if removed {
            self.size -= 1;

            if self.size == 0 {
                // Start afresh.
                *self = HashTrieMap::new_with_hasher_and_ptr_kind(self.hasher_builder.clone());
            }
        }

        removed
    }

    #[must_use]
    pub fn contains_key''')],
  HASHER+'''
use rpds::HashTrieMap;
fn main() {
    let mut a: HashTrieMap<u64, (), archery::RcK, B> = HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(B::default(), 4);
    let mut b = a.clone();
    b.insert_mut(0, ());
    b.remove_mut(&0);
    for i in [5u64, 64, 3, 17, 128, 2, 90] { a.insert_mut(i, ()); b.insert_mut(i, ()); }
    assert!(a.keys().eq(b.keys()));
}
''')

P('c22-vector-bits-lost', 'C22',
  'A vector with branching bits of its own that is emptied in place.',
  'Dropping the last element resets the number of bits to the default.',
  [(V, '''            if let Some(new_root) = new_root {
                self.root = new_root;
            }

            true''', '''            if let Some(new_root) = new_root {
                self.root = new_root;
            }

            if self.length == 0 {
                // Start afresh.
                *self = Vector::new_with_ptr_kind();
            }

            true''')],
  '''
use rpds::Vector;
fn main() {
    let mut v: Vector<u32> = Vector::new_with_bits(2);
    v.push_back_mut(1);
    v.drop_last_mut();
    assert!(format!("{v:?}").contains("bits: 2"));
}
''')

P('c22-hash-32-bit-shift', 'C22',
  'A target with 32-bit pointers and keys whose hashes agree in their low 32 bits.',
  'The hash is narrowed to a pointer-sized integer before it is shifted, which overflows there.',
  [(HM, '''            let mask = degree as HashValue - 1;
            #[allow(clippy::cast_possible_truncation)]
            Some(((hash >> shift) & mask) as usize)''', '''            let mask = degree as usize - 1;
            #[allow(clippy::cast_possible_truncation)]
            Some((hash as usize >> shift) & mask)''')],
  HASHER+'''
use rpds::HashTrieMap;
fn main() {
    let mut m: HashTrieMap<u64, u64, archery::RcK, B> = HashTrieMap::default();
    for i in 0..4u64 { m.insert_mut(i << 40, i); }
    for i in 0..4u64 { assert_eq!(m.get(&(i << 40)), Some(&i)); }
}
''', kind='miri', target='i686-unknown-linux-gnu')

P('c23-queue-options', 'C23',
  'Printing a queue with a precision or width.',
  'The elements are printed without the options.',
  [(Q, '''            v.fmt(fmt)?;
            first = false;''', '''            write!(fmt, "{v}")?;
            first = false;''')],
  '''
use rpds::Queue;
fn main() {
    let q: Queue<f64> = [1.0, 2.5].into_iter().collect();
    assert_eq!(format!("{q:.2}"), "Queue(1.00, 2.50)");
}
''')

P('c23-hash-map-separator-error', 'C23',
  'Printing to a writer that fails exactly at the separator between a key and its value.',
  'The error is ignored and the output goes on.',
  [(HM, '''            k.fmt(fmt)?;
            fmt.write_str(": ")?;
            v.fmt(fmt)?;''', '''            k.fmt(fmt)?;
            fmt.write_str(": ").or_else(|_| v.fmt(fmt))?;
            v.fmt(fmt)?;''')],
  '''
use rpds::HashTrieMap;
use std::fmt::Write;
struct W(usize, usize);
impl Write for W { fn write_str(&mut self, _: &str) -> std::fmt::Result { self.0 += 1; if self.0 == self.1 { Err(std::fmt::Error) } else { Ok(()) } } }
fn main() {
    let m: HashTrieMap<u8, u8> = [(1, 1), (2, 2)].into_iter().collect();
    for n in 1..=9 {
        let mut w = W(0, n);
        assert!(write!(w, "{m}").is_err(), "{n}");
        assert_eq!(w.0, n);
    }
}
''')

P('c24-range-half-excluded', 'C24',
  'A range whose two ends are the same key, the first excluded and the last included.',
  'The range panics instead of being empty.',
  [(RB, '''            (Excluded(s), Excluded(e)) if s == e => {
                panic!("range start and end are equal and excluded")
            }''', '''            (Excluded(s), Excluded(e) | Included(e)) if s == e => {
                panic!("range start and end are equal and excluded")
            }''')],
  '''
use rpds::RedBlackTreeMap;
use std::ops::Bound::*;
fn main() {
    let m: RedBlackTreeMap<i32, ()> = (0..10).map(|k| (k, ())).collect();
    assert_eq!(m.range((Excluded(3), Included(3))).count(), 0);
}
''')

P('c24-vector-get-overflow', 'C24',
  'Looking up the largest possible index.',
  'The bounds check overflows.',
  [(V, '''        if index >= self.length {
            None
        } else {
            Some(self.root.get(''', '''        if index + 1 > self.length {
            None
        } else {
            Some(self.root.get(''')],
  '''
use rpds::Vector;
fn main() {
    let v: Vector<u32> = (0..3).collect();
    assert_eq!(v.get(usize::MAX), None);
}
''')
