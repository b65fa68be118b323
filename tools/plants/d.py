V='src/vector/mod.rs'; L='src/list/mod.rs'; Q='src/queue/mod.rs'; S='src/stack/mod.rs'
HM='src/map/hash_trie_map/mod.rs'; SP='src/map/hash_trie_map/sparse_array_usize/mod.rs'; RY='src/map/hash_trie_map/rayon.rs'
RB='src/map/red_black_tree_map/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; HS='src/set/hash_trie_set/mod.rs'; U='src/utils/mod.rs'
PLANTS=[]
def P(id, property, needs, breaks, edits, demo, **k):
    PLANTS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

HASHER='''
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone)]
struct H(u64);
impl Hasher for H {
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(257).wrapping_add(*x as u64) } }
    fn write_u64(&mut self, x: u64) { self.0 = x }
    fn finish(&self) -> u64 { self.0 }
}
#[allow(dead_code)]
type B = BuildHasherDefault<H>;
#[derive(Default, Clone)]
struct H7;
impl Hasher for H7 { fn write(&mut self, _: &[u8]) {} fn finish(&self) -> u64 { 7 } }
#[allow(dead_code)]
type B7 = BuildHasherDefault<H7>;
'''


P('c25-rbt-map-sync-unqualified', 'C25',
  'Using rbt_map_sync! without having RedBlackTreeMap in scope.',
  'The macro names RedBlackTreeMap in the scope of the caller: the program does not compile, or builds something else of that name.',
  [(RB, '            let mut m = $crate::RedBlackTreeMap::new_sync();', '            let mut m = RedBlackTreeMap::new_sync();')],
  '''
fn main() {
    let m = rpds::rbt_map_sync![1 => 2];
    assert_eq!(m.size(), 1);
}
''')

P('c25-serde-needs-std', 'C25',
  'The serde feature with the default features off.',
  'The crate does not build without the standard library when serde is on.',
  [(RS, '''    use ::serde::ser::{Serialize, Serializer};
    use core::fmt;''', '''    use ::serde::ser::{Serialize, Serializer};
    use std::fmt;''')],
  '''
fn main() {
    let s = rpds::rbt_set![1, 2, 3];
    assert_eq!(serde_json::to_string(&s).unwrap(), "[1,2,3]");
}
''', features=['serde'], nodefault=True)

P('c25-ht-map-value-first', 'C25',
  'ht_map! with key and value expressions that have side effects.',
  'The value is evaluated before the key.',
  [(HM, '''            let mut m = $crate::HashTrieMap::new();
            $(
                m.insert_mut($k, $v);
            )*''', '''            let mut m = $crate::HashTrieMap::new();
            $(
                let value = $v;
                m.insert_mut($k, value);
            )*''')],
  '''
fn main() {
    let mut it = 1..;
    let m = rpds::ht_map![it.next().unwrap() => it.next().unwrap()];
    assert_eq!(m.get(&1), Some(&2));
}
''')

P('c25-queue-sync-prelude', 'C25',
  'queue_sync! in a program with a Default of its own, or without the prelude.',
  'The macro uses the name Default of the caller.',
  [(Q, '''            let mut q = $crate::Queue::new_sync();''', '''            let mut q: $crate::QueueSync<_> = Default::default();''')],
  '''
#[allow(dead_code)]
struct Default;
fn main() {
    let q = rpds::queue_sync![1, 2];
    assert_eq!(q.peek(), Some(&1));
}
''')

P('c25-rbt-set-std-path', 'C25',
  'rbt_set_sync! in a program without the standard library.',
  'The expansion names std, which such a program has not.',
  [(RS, '''            let mut s = $crate::RedBlackTreeSet::new_sync();
            $(
                s.insert_mut($e);
            )*
            s''', '''            let mut s = $crate::RedBlackTreeSet::new_sync();
            $(
                ::std::mem::drop(s.insert_mut($e));
            )*
            s''')],
  '''
#![no_std]
extern crate alloc;
extern crate std as the_standard_library;
mod std {}
fn main() {
    // A stand-in for a program without std: the crate is only reachable by another name.
    let s = rpds::rbt_set_sync![1, 2];
    assert_eq!(s.size(), 2);
}
''')

P('c14-queue-iter-eager', 'C14',
  'Creating an iterator over a queue, or looking at a few elements of it.',
  'Only the front is asked for, and the whole back half is visited.',
  [(Q, '''        self.out_list.iter_ptr().chain(LazilyReversedListIter::new(&self.in_list))''',
    '''        let back: Vec<&SharedPointer<T, P>> = self.in_list.iter_ptr().collect();
        let current = back.len().checked_sub(1);

        self.out_list
            .iter_ptr()
            .chain(LazilyReversedListIter::Initialized { vec: back, current })''')],
  '''
use rpds::Queue;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), Relaxed); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut q: Queue<u32> = (0..10).collect();
    for i in 0..100_000 { q.enqueue_mut(i); }
    let n = N.load(Relaxed);
    assert_eq!(q.iter().next(), Some(&0));
    assert!(N.load(Relaxed) - n < 1000);
}
''')

