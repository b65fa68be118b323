V='src/vector/mod.rs'; L='src/list/mod.rs'; Q='src/queue/mod.rs'; S='src/stack/mod.rs'
HM='src/map/hash_trie_map/mod.rs'; SP='src/map/hash_trie_map/sparse_array_usize/mod.rs'; RY='src/map/hash_trie_map/rayon.rs'
RB='src/map/red_black_tree_map/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; HS='src/set/hash_trie_set/mod.rs'; U='src/utils/mod.rs'
PLANTS=[]
def P(id, property, needs, breaks, edits, demo, **k):
    PLANTS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

P('c16-vector-iter-cell', 'C16',
  'An iterator over a thread-safe vector that is shared between threads.',
  'The iterator keeps its position in a Cell: it is no longer Sync, although the vector and its elements are.',
  [(V, '''    left_index: usize,  // inclusive
    right_index: usize, // exclusive
}

struct IterStackElement''', '''    // The position is shared with the code which only has a reference to the iterator.
    left_index: core::cell::Cell<usize>, // inclusive
    right_index: usize,                  // exclusive
}

struct IterStackElement'''),
   (V, '''            left_index: 0,
            right_index: vector.len(),''', '''            left_index: core::cell::Cell::new(0),
            right_index: vector.len(),'''),
   (V, '''        self.left_index < self.right_index
''', '''        self.left_index.get() < self.right_index
'''),
   (V, '''            self.left_index += 1;
''', '''            self.left_index.set(self.left_index.get() + 1);
'''),
   (V, '''        let len = self.right_index - self.left_index;
''', '''        let len = self.right_index - self.left_index.get();
''')],
  '''
use rpds::VectorSync;
fn main() {
    let v: VectorSync<u32> = (0..100).collect();
    let it = v.iter();
    let n = std::thread::scope(|s| {
        let a = s.spawn(|| it.len());
        let b = s.spawn(|| it.len());
        a.join().unwrap() + b.join().unwrap()
    });
    assert_eq!(n, 200);
}
''')

P('c16-rb-iter-unsafe-send', 'C16',
  'An iterator over an ordered map whose values are not Sync, sent to another thread.',
  'The iterator can be sent to another thread, whatever the values are: references to values that are not Sync follow it.',
  [(RB, '''impl<K, V, P> IterPtr<'_, K, V, P>
where
    K: Ord,
    P: SharedPointerKind,
{
    fn new(map''', '''// The iterator holds references only, so it can go to another thread.
unsafe impl<K: Sync, V, P: SharedPointerKind> Send for IterPtr<'_, K, V, P> {}

impl<K, V, P> IterPtr<'_, K, V, P>
where
    K: Ord,
    P: SharedPointerKind,
{
    fn new(map''')],
  '''
use rpds::RedBlackTreeMapSync;
use std::cell::Cell;
use std::marker::PhantomData;
trait Not { fn send(&self) -> bool { false } }
struct Probe<T>(PhantomData<T>);
impl<T> Not for Probe<T> {}
impl<T: Send> Probe<T> { fn send(&self) -> bool { true } }
fn of<T>(_: &T) -> Probe<T> { Probe(PhantomData) }
fn main() {
    let m: RedBlackTreeMapSync<u32, u32> = RedBlackTreeMapSync::new_sync();
    assert!(of(&m.iter()).send());
    let m: RedBlackTreeMapSync<u32, Cell<u32>> = RedBlackTreeMapSync::new_sync();
    assert!(!of(&m.iter()).send());
}
''')
