V='src/vector/mod.rs'; L='src/list/mod.rs'; Q='src/queue/mod.rs'; S='src/stack/mod.rs'
HM='src/map/hash_trie_map/mod.rs'; SP='src/map/hash_trie_map/sparse_array_usize/mod.rs'; RY='src/map/hash_trie_map/rayon.rs'
RB='src/map/red_black_tree_map/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; HS='src/set/hash_trie_set/mod.rs'; U='src/utils/mod.rs'
PLANTS=[]
def P(id, property, needs, breaks, edits, demo, **k):
    PLANTS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))


P('c18-search-runs-on', 'C18',
  'A parallel search (any, find_any, try_for_each) of a map whose tree is three levels deep or more, with the answer in the first entries.',
  'The search goes on through all the entries of the subtree in which it found its answer; a predicate is called thousands of times too often.',
  [(RY, '''            Node::Branch(children) => {
                for child in children.iter() {
                    folder = Self::fold_all_entries(child, folder);
                    if folder.full() {
                        break;
                    }
                }
                folder
            }
            Node::Leaf''', '''            Node::Branch(children) => {
                // The caller looks whether the folder is full after every subtree.
                children.iter().fold(folder, |folder, child| Self::fold_all_entries(child, folder))
            }
            Node::Leaf''')],
  '''
use rpds::HashTrieMapSync;
use rayon::prelude::*;
use std::sync::atomic::{AtomicUsize, Ordering};
fn main() {
    let m: HashTrieMapSync<u32, u32> = (0..100_000).map(|i| (i, i)).collect();
    let n = AtomicUsize::new(0);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    assert!(pool.install(|| (&m).into_par_iter().any(|_| { n.fetch_add(1, Ordering::Relaxed); true })));
    assert!(n.into_inner() < 100);
}
''', features=['rayon'])

P('c18-single-child-not-divided', 'C18',
  'Parallel iteration over a map all of whose keys share the lowest bits of their hashes (the root has one child).',
  'The work is never divided: everything runs in one thread, whatever the size of the map and of the pool.',
  [(RY, '''        if nodes.len() == 1 {
            Self::from_node(nodes[0].borrow())
        } else {
            HashTrieMapProducer { node: ProducerNode::Branch(nodes) }
        }
''', '''        HashTrieMapProducer { node: ProducerNode::Branch(nodes) }
''')],
  '''
use rpds::HashTrieMapSync;
use rayon::prelude::*;
use std::hash::{BuildHasher, Hasher};
#[derive(Clone, Default)]
struct B;
struct H(u64);
impl BuildHasher for B { type Hasher = H; fn build_hasher(&self) -> H { H(0) } }
impl Hasher for H {
    fn finish(&self) -> u64 { self.0 << 12 }
    fn write(&mut self, b: &[u8]) { for x in b.iter().rev() { self.0 = self.0 << 8 | *x as u64; } }
}
fn main() {
    let mut m: HashTrieMapSync<u64, (), B> = HashTrieMapSync::new_with_hasher_and_degree_and_ptr_kind(B, 64);
    for i in 0..20_000 { m.insert_mut(i, ()); }
    let pool = rayon::ThreadPoolBuilder::new().num_threads(4).build().unwrap();
    let parts = pool.install(|| (&m).into_par_iter().fold(|| 0, |n, _| n + 1).collect::<Vec<usize>>());
    assert_eq!(parts.iter().sum::<usize>(), 20_000);
    assert!(parts.len() > 1);
}
''', features=['rayon'])
