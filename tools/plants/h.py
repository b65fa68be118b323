V='src/vector/mod.rs'; L='src/list/mod.rs'; Q='src/queue/mod.rs'; S='src/stack/mod.rs'
HM='src/map/hash_trie_map/mod.rs'; SP='src/map/hash_trie_map/sparse_array_usize/mod.rs'; RY='src/map/hash_trie_map/rayon.rs'
RB='src/map/red_black_tree_map/mod.rs'; RS='src/set/red_black_tree_set/mod.rs'; HS='src/set/hash_trie_set/mod.rs'; U='src/utils/mod.rs'
PLANTS=[]
def P(id, property, needs, breaks, edits, demo, **k):
    PLANTS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))


P('c20-list-drop-first-by-hand', 'C20',
  'drop_first() (not drop_first_mut) on a list of one element, then last().',
  'The list that drop_first() returns still has a last element, although it is empty; that of drop_first_mut() has none.',
  [(L, '''        let mut new_list = self.clone();

        if new_list.drop_first_mut() { Some(new_list) } else { None }
''', '''        // There is no need to touch the reference count of the node that goes.
        self.head.as_ref().map(|head| List {
            head: head.next.clone(),
            last: self.last.clone(),
            length: self.length - 1,
        })
''')],
  '''
use rpds::List;
fn main() {
    let l: List<u32> = List::new().push_front(1);
    let e = l.drop_first().unwrap();
    assert!(e.is_empty());
    assert_eq!(e.last(), None);
}
''')

P('c20-rb-set-insert-equal', 'C20',
  'insert() (not insert_mut) in an ordered set of an element equal to one in it but not identical.',
  'insert() leaves the element that was there, insert_mut() takes the new one.',
  [(RS, '''    pub fn insert(&self, v: T) -> RedBlackTreeSet<T, P> {
''', '''    pub fn insert(&self, v: T) -> RedBlackTreeSet<T, P> {
        // Nothing to copy if the value is already there.
        if self.contains(&v) {
            return self.clone();
        }

''')],
  '''
use rpds::RedBlackTreeSet;
#[derive(Clone, Debug)]
struct E(u32, u32);
impl PartialEq for E { fn eq(&self, o: &E) -> bool { self.0 == o.0 } }
impl Eq for E {}
impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for E { fn cmp(&self, o: &E) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
fn main() {
    let s: RedBlackTreeSet<E> = RedBlackTreeSet::new().insert(E(1, 1));
    let mut m = s.clone();
    m.insert_mut(E(1, 2));
    let p = s.insert(E(1, 2));
    assert_eq!(m.iter().next().unwrap().1, p.iter().next().unwrap().1);
}
''')
