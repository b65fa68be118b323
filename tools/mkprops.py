#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
L='src/list/mod.rs';S='src/stack/mod.rs';Q='src/queue/mod.rs';V='src/vector/mod.rs'
H='src/map/hash_trie_map/mod.rs';A='src/map/hash_trie_map/sparse_array_usize/mod.rs';RY='src/map/hash_trie_map/rayon.rs'
R='src/map/red_black_tree_map/mod.rs';HS='src/set/hash_trie_set/mod.rs';RS='src/set/red_black_tree_set/mod.rs'
U='src/utils/mod.rs'; ALL=[L,S,Q,V,H,A,R,HS,RS]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=hook)))

p('C01','Persistence: no operation ever changes another version',
 'For every collection type, a version obtained at any point keeps exactly the contents, order, size, lookup results and iteration it had when it was obtained, until it is itself updated in place. This holds whatever operations (persistent, in-place, clone, drop, mutable element access) are applied to versions it was derived from or that were derived from it.',
 ['histories'],'every history of operations over a tree of versions of each of the eight collection types, for every pattern of sharing between them',
 'Unit tests look at a handful of two- or three-version chains; corruption of an older version needs a particular combination of sharing (which nodes are shared at the moment of an in-place update) and operation.',
 ALL,[('copy-on-write of shared nodes before every write (SharedPointer::make_mut)',f'{L},{V},{H},{R}'),('move-or-clone of a child into its parent',U)],
 [('root/head pointers','the shared node graph of a version',f'{V},{H},{R},{L}')],['public API of every live version'])
p('C02','List and Stack agree with a sequential LIFO model',
 'For every history, a List answers first, last, len, is_empty, iteration, push_front, drop_first and reverse exactly as a plain sequence would, including that dropping from an empty list reports failure and changes nothing. A Stack does the same for push, pop, peek, size and iteration from the most recently pushed element.',
 ['histories','inputs'],'every sequence of persistent and in-place operations, from every reachable version, for shared and unshared lists',
 'The tests exercise short fixed sequences; the cached last element and length must stay right through every interleaving of reversal, emptying, refilling and sharing.',
 [L,S],[('length and last caches updated by push_front_mut, drop_first_mut, reverse, reverse_mut',L),('Stack delegates to List',S)],
 [('length,last','cached size and last element',L)],['first/last/len/iter of List','peek/size/iter of Stack'])
p('C03','Vector agrees with a growable-array model at every index',
 'For every history, length and branching configuration, a Vector returns for every index exactly the element last stored there, and push_back, drop_last, set, get, get_mut, first, last, len, indexing, extending and iterating agree with a plain growable array. Out-of-range reads and updates report failure and change nothing.',
 ['histories','inputs','configurations'],'all operation sequences, all lengths across every level boundary of the tree, all bits accepted at construction',
 'Tests use one to a few fixed sizes; errors sit at the transitions between tree heights (growing and shrinking, shared and unshared) and at large sizes.',
 [V],[('height computed from length, bucket from index','src/vector/mod.rs height()/bucket()'),('root growth in push_back_mut and compression in drop_last_mut',V)],
 [('length,bits,root','size, branching factor exponent and trie',V)],['Vector public API'])
p('C04','Queue is FIFO across every mix of enqueue and dequeue',
 'For every history a Queue yields elements in exactly the order they were enqueued: peek, dequeue, len, is_empty and iteration agree with a FIFO model. Dequeuing an empty queue reports failure and changes nothing.',
 ['histories','inputs'],'every interleaving of enqueue/dequeue/peek/iterate on shared and unshared versions, including queues built from iterators or deserialized',
 'The internal two-list representation has many states for the same contents; tests reach only a few of the splits and never the shared reversal.',
 [Q,L],[('swap-and-reverse of the incoming list when the outgoing list is empty',Q),('lazily reversed iteration of the incoming list',Q)],
 [('in_list,out_list','the two halves of the queue',Q)],['Queue public API'])
p('C05','HashTrieMap is a correct map under every hash distribution',
 'For every history, lookups, membership, size, removal results, mutable lookups and iteration of a HashTrieMap agree with a reference map in which an insertion replaces both key and value of an equal key. This holds for every hasher that is a function of the key, however badly it distributes (total collisions, shared prefixes, few distinct values), for every accepted degree, and for lookups through borrowed key forms.',
 ['histories','inputs','configurations'],'all operation sequences x all hash functions x all degrees accepted at construction',
 'Tests use the default hasher or a couple of fixed collisions; expansion at a shared prefix, collisions at the maximum depth and compression after removal depend on the exact hash bits of several keys.',
 [H,A],[('trie expansion on prefix conflicts, collision buckets at maximum depth, compression on removal',H),('bitmap-indexed child array',A)],
 [('root,size,degree','trie, cached size, branching factor',H)],['HashTrieMap public API'])
p('C06','RedBlackTreeMap is a correct sorted map, including ranges',
 'For every history, a RedBlackTreeMap agrees with a reference ordered map (an insertion replaces both key and value of an equal key): lookups, size, removal results, first, last, mutable lookups, and iteration in strictly ascending key order. For every range, bounds included, excluded or open, iteration from either end yields exactly the keys within it, and only ranges whose start is after their end, or whose two ends are equal and both excluded, panic.',
 ['histories','inputs'],'all operation sequences, key types and borrowed forms, and all pairs of range bounds',
 'Deletion rebalancing has dozens of shapes and colour cases and ranges have bound x direction x boundary-position cases; the tests sample few of them.',
 [R,U],[('Okasaki insertion balancing and Kahrs deletion',R),('directional iteration stacks with bounds',R)],
 [('root,size','tree and cached size',R)],['RedBlackTreeMap public API'])
p('C07','HashTrieSet and RedBlackTreeSet are correct sets and compare correctly',
 'For every history, both set types agree with a reference set on membership, retrieval of the stored value, size, removal and iteration, and the ordered set also on first, last and ranges. For every two sets, however they were built and whether or not they share structure, is_disjoint, is_subset and is_superset give the mathematical answer.',
 ['histories','inputs'],'all operation sequences on sets and all pairs of sets, with equal, nested, overlapping, disjoint and empty contents, across pointer kinds and hashers where the types allow it',
 'The tests check a few literal pairs; merge-style comparison loops and the shared-structure shortcuts have many boundary cases.',
 [HS,RS,H,R],[('sets delegate to maps with unit values',f'{HS},{RS}'),('merge-style is_disjoint and is_subset',RS),('pointer-equality shortcut',f'{HS},{RS}')],[],['set public APIs'])
p('C08','Iterators yield every element exactly once, from both ends, with exact lengths',
 'For every collection and every interleaving of front and back consumption, iteration yields each element exactly once in the documented order until the ends meet, and yields nothing from either end afterwards. The announced remaining length is exact at every step for iterators that announce one, and repeated iteration of an unchanged version gives the same order, with keys and values in step.',
 ['histories','inputs'],'all collections and contents, all interleavings of next and next_back and of adaptors built on them',
 'Tests consume iterators in two or three fixed patterns on fixed sizes; meeting points depend on the position of both ends relative to node boundaries.',
 [L,V,Q,H,R,HS,RS],[('double stacks and left/right indices',V),('forward and backward stacks with key comparison',R),('explicit stack with inline storage',H),('lazily reversed tail',Q)],[],['iter(), keys(), values(), range(), IntoIterator of references'])
p('C09','Equality, ordering and hashing depend only on contents',
 'For element types whose own comparisons are lawful and total, two collections of the same kind are equal exactly when they have equal contents, however each was built, configured, shared or pointer-kinded. Ordering is lexicographic over the iteration order and consistent with equality, equal collections feed a hasher identically, different contents feed it differently (as far as the elements do), and sequences that differ only in how elements are divided between adjacent collections feed it differently. When elements (or the values of maps) are only partially comparable, comparing sequences, and maps which are not the same map in memory, gives what comparing their contents element by element gives, also between vectors of two element types.',
 ['histories','inputs','configurations'],'all pairs (and triples) of versions with related contents and different construction histories',
 'Equality has shortcuts for shared structure and uses lookups rather than parallel traversal; tests only compare few literals.',
 [L,S,Q,V,H,R,HS,RS],[('length check then element-wise comparison',f'{L},{V},{Q}'),('pointer shortcut, size check and per-key lookup',f'{H},{R}'),('length-prefixed hashing',f'{L},{V},{Q},{R},{RS}')],[],['PartialEq, Eq, PartialOrd, Ord, Hash'])
p('C10','Serialization round-trips and matches the standard collections',
 'Serializing any collection emits exactly its elements or entries, in iteration order and with their exact count, in the format of the corresponding standard sequence, set or map. Deserializing that output, or the output of the standard collection, yields an equal collection that behaves normally from then on, with later duplicates of a key replacing earlier ones.',
 ['inputs','histories'],'all contents and construction histories, nested collections, self-describing and length-prefixed formats',
 'Tests round-trip one small value per type through one format.',
 [L,S,Q,V,H,R,HS,RS],[('serde modules of each collection',f'{L},{V},{Q},{S},{H},{R},{HS},{RS}')],[],['Serialize, Deserialize'])
p('C11','Deserializing hostile input never panics, aborts or leaks',
 'Deserializing any input, however malformed, truncated, of the wrong type, or announcing a wrong or enormous number of elements, returns either a value made of all the elements supplied or the error of the input. It never panics or aborts, never allocates out of proportion to the data actually supplied, and releases everything it had already built when it fails.',
 ['inputs','fault_sequences'],'all inputs and all deserializers that announce arbitrary lengths and fail at an arbitrary element',
 'No test feeds malformed input or a wrong length announcement.',
 [L,S,Q,V,H,R,HS,RS],[('visitors that build element by element',f'{L},{V},{H},{R},{HS},{RS}'),('bounded preallocation from the announced length',L)],[],['Deserialize'])
p('C12','Every value is released exactly once, as soon as no version holds it',
 'A value handed to a collection is never duplicated without its Clone, is dropped exactly once, and is dropped no later than the end of the operation after which no live version contains it. When all versions are gone, all memory they used has been returned.',
 ['histories'],'all histories of building, updating, sharing and dropping versions, in every order of dropping them',
 'Tests do not observe drops or memory at all; a stale cached pointer or a retained node keeps values alive (or reachable) only after particular histories.',
 ALL,[('reference-counted nodes and values',f'{L},{V},{H},{R}'),('clearing of cached last element',L),('pruning of empty nodes',f'{V},{H}')],[],['drop of instrumented element values','allocator balance'],None)
p('C13','Updates share structure: untouched elements are neither copied nor moved',
 'Every persistent or in-place operation other than mutable element access leaves all untouched elements at the same address in old and new versions and never invokes the Clone of keys or values; mutable element access clones at most the one element it returns, and only when that element is shared. Cloning a map or set, or removing an absent element from it with the persistent method, yields a version identical in memory to the original, identity in memory implies equal contents, and independently built non-empty collections are never identical in memory.',
 ['histories','inputs'],'all histories and sharing patterns on all collections',
 'Tests check results, not sharing; a deep copy is observationally equal in all of them.',
 ALL,[('values behind shared pointers',f'{L},{V},{H},{R}'),('ptr_eq',f'{H},{R},{HS},{RS}'),('persistent remove returns a clone when nothing changed',f'{H},{R}')],[],['element addresses','Clone counters','ptr_eq'])
p('C14','Operations stay within their documented complexity',
 'In every reachable state each operation stays within the growth documented for it, counted in key comparisons, hash computations, element touches and allocated memory: for example logarithmic comparisons in the ordered map and set after any history of insertions and removals, one hash computation per hash map operation, constant work to clone, at most logarithmic work to make an iterator, logarithmic allocation for an update of a shared version. In-place updates of an unshared version do not copy its structure, and the memory held by a version is proportional to its size whatever history led to it.',
 ['histories','inputs'],'all histories (insertion and removal patterns) and sizes',
 'Wall-clock tests do not exist in the suite, and a degenerate tree, needless copy or retained memory gives right answers.',
 [L,S,Q,V,H,A,R,HS,RS],[('tree balancing',R),('path copying only of shared nodes',f'{V},{H},{R}'),('root and branch compression',f'{V},{H}')],[],['counting comparator, hasher and allocator'])
p('C15','Arbitrarily long collections never exhaust the stack',
 'Building, cloning, reversing, iterating, comparing, hashing, printing, serializing, deserializing and dropping a collection uses an amount of stack that does not grow with the number of elements beyond the height of a balanced tree. This includes dropping long lists, stacks and queues, whole or sharing a tail, from one thread or several at the same time.',
 ['inputs','histories','schedules'],'all lengths, sharing patterns and interleavings of concurrent drops',
 'Tests use one long list dropped once by one thread.',
 [L,S,Q,H,V,R],[('iterative release of list nodes',L),('iterative traversal everywhere',f'{L},{Q},{V},{H},{R}')],[],['operations run on small stacks with millions of elements'])
p('C16','Thread-safe variants behave sequentially under concurrent sharing',
 'Versions of the thread-safe variants shared between threads can be read, cloned, updated, sent and dropped concurrently without data races, and each thread observes exactly what a sequential execution on its own versions would give. Thread-safe variants are Send and Sync exactly when their elements are both, and the single-threaded variants are neither. Iterators over a thread-safe variant can themselves be sent and shared between threads when its elements are both Send and Sync, and no iterator can carry elements which are not Sync to another thread.',
 ['schedules','histories','programs'],'all interleavings of operations on versions that share structure, and all element types',
 'The test suite has no concurrent test at all.',
 ALL,[('atomic reference counts select in-place or copy',f'{L},{V},{H},{R}'),('auto traits through the pointer type',f'{L},{V},{H},{R}')],[],['per-thread histories against sequential models','race detectors'],None)
p('C17','A panic in user code never corrupts a collection',
 'If a comparison, hash, clone, formatter or iterator supplied by the user panics at any point of any operation, every other version is unchanged, nothing is dropped twice, lost from memory or leaked, and later use is safe. The collection being updated in place remains consistent (its size, lookups and iteration agree, and elements unrelated to the operation are still there).',
 ['fault_sequences','histories'],'every call of user code in every operation from every reachable state, as the point where the panic occurs',
 'No test injects a panic.',
 [L,V,H,R,HS,RS,Q,S],[('user code is called before the structure is changed',f'{H},{R}'),('clones happen in place of a shared pointer only after they succeed',f'{V},{H},{R}')],[],['injected panics at the k-th user callback'])
p('C18','Parallel iteration visits every entry exactly once',
 'Parallel iteration over a thread-safe hash map delivers every entry of that version exactly once, for every shape of the map, thread-pool size and way of splitting the work, and combinators that stop early only ever see entries of the map, report correct results and do not go on through the map once a single worker has the answer. Work on entries with different hashes can be divided among workers. Aggregates computed in parallel, order-sensitive ones included, equal the sequential ones.',
 ['schedules','inputs','configurations'],'all map shapes (hash distributions, degrees, sizes), pool sizes and split decisions',
 'Tests use the default hasher, default degree and default pool; single-child chains, collision buckets and early termination inside them are not reached.',
 [RY,H,A],[('splitting of branches and folding of subtrees',RY)],[],['into_par_iter on &HashTrieMapSync'])
p('C19','No undefined behaviour or memory error in any workload',
 'Executing any safe program over the public API, including element types with unusual layout and user code with unlawful comparisons or hashing, has no undefined behaviour: no out-of-bounds or dangling access, no double free, no invalid aliasing, no uninitialised read, no leak.',
 ['programs','inputs','histories'],'all safe client programs',
 'Ordinary tests do not detect memory errors that happen not to crash.',
 ALL+[RY],[('absence of unsafe code apart from the pointer library',f'{L},{V},{H},{R}')],[],['Miri (native, 32-bit and big-endian), AddressSanitizer and LeakSanitizer runs of model-checked workloads'])
p('C20','In-place and persistent forms of an operation agree',
 'For every version and arguments, the in-place form of an operation applied to a clone, or to an unshared copy, leaves it equal to what the persistent form returns, and reports success or presence exactly when the persistent form does. A value written through a mutable element reference is visible in that version only.',
 ['histories','inputs'],'all versions, operations and arguments, with the target shared, partially shared or unshared',
 'Tests run fixed sequences per form and never vary how much of the structure is shared.',
 ALL,[('persistent form = clone + in-place form',f'{L},{V},{H},{R},{Q},{S}'),('separate implementation of reverse and reverse_mut',L)],[],['pairs of results'])
p('C21','Construction from iterators, macros and defaults equals stepwise insertion',
 'Building a collection from any iterator, by extending, by a construction macro or by a constructor gives the same collection as inserting the same elements one by one in order, with the same later behaviour; a list (by iterator or macro) and a stack (by iterator) instead iterate in the order in which the elements were given. The number of elements an iterator announces, as long as it is lawful, never matters: neither for the result nor for the memory used.',
 ['inputs','programs'],'all iterators and their size hints (exact, unknown, loose upper bounds up to the maximum), all element counts',
 'Tests collect a few exact-size vectors; an adaptor with a loose upper bound is not among them.',
 [L,S,Q,V,H,R,HS,RS],[('FromIterator and Extend',f'{L},{V},{Q},{S},{H},{R},{HS},{RS}'),('construction macros',f'{L},{V},{Q},{S},{H},{R},{HS},{RS}')],[],['FromIterator, Extend, macros, Default, new*'])
p('C22','Configuration never changes observable results',
 'Every configuration that construction accepts (branching bits, degree, hasher, pointer kind, with or without the standard library, 32- or 64-bit, either byte order) gives the same results for the same operations, up to the iteration order of hash collections, and is kept by every derived version. Configurations that cannot work are rejected by a panic at construction.',
 ['configurations','histories'],'all accepted values of every construction parameter and all build configurations',
 'Tests run one or two parameter values on one platform with default features.',
 [V,H,HS,A,U,'src/lib.rs'],[('parameter validation in constructors',f'{V},{H}'),('clone copies the parameters',f'{V},{H}'),('default hasher per feature',U)],[],['the same history under different configurations'])
p('C23','Display prints exactly the contents in the documented shape',
 'The Display form of any collection lists every element or entry exactly once, in iteration order, each as its own Display prints it under the same formatting options, separated by a comma and a space, within the delimiters of its kind. An error of the underlying writer is reported and stops the output at that point.',
 ['inputs','fault_sequences'],'all contents, formatting options and writers failing at any byte',
 'Tests print zero to a few fixed elements.',
 [L,S,Q,V,H,R,HS,RS],[('Display implementations',f'{L},{V},{Q},{S},{H},{R},{HS},{RS}')],[],['Display through recording writers'])
p('C24','Operations are total: only the documented misuses panic',
 'No operation panics, hangs or overflows for any arguments in any reachable state, including empty collections and extreme indices and keys; absence is reported as None, false or an unchanged collection. The only panics are indexing an absent position or key, which always panics, invalid ranges, and invalid construction parameters, and these leave the collection unchanged.',
 ['inputs','histories'],'all arguments (indices up to the maximum, absent keys, empty collections) in all reachable states',
 'Tests probe one out-of-range argument per operation in one state.',
 [L,S,Q,V,H,R,HS,RS],[('bounds checks before descending',V),('Option-returning lookups',f'{H},{R},{L},{Q}')],[],['public API with extreme arguments'])
p('C25','The crate works without the standard library; macros work in any program',
 'With default features off the crate needs nothing but core and alloc: a program without the standard library compiles with it, links, and gets the same results. The construction macros work in any program that depends on this crate, whatever it imports, names or shadows and whatever its edition, with any number of elements; they evaluate every element once, in order.',
 ['programs','configurations'],'all client programs and targets',
 'The tests build for a hosted target, inside the crate.',
 ['src/lib.rs',U,L],[('no_std attribute and feature gates','src/lib.rs')],[],['output of generated client programs','transcript of a freestanding program'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
