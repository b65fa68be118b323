//! A structure made of all the collections, and the same made of standard ones.

use crate::rng::Rng;
use rpds::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Ours {
    pub names: RedBlackTreeMapSync<String, QueueSync<Option<i32>>>,
    pub index: HashTrieMap<u16, Vector<String>>,
    pub tags: RedBlackTreeSet<i64>,
    pub seen: HashTrieSetSync<String>,
    pub path: List<(u8, bool)>,
    pub undo: Stack<Vector<f64>>,
    pub nested: Vector<HashTrieMapSync<String, List<RedBlackTreeSet<char>>>>,
    pub none: Option<Stack<()>>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Theirs {
    pub names: BTreeMap<String, Vec<Option<i32>>>,
    pub index: BTreeMap<u16, Vec<String>>,
    pub tags: BTreeSet<i64>,
    pub seen: BTreeSet<String>,
    pub path: Vec<(u8, bool)>,
    pub undo: Vec<Vec<f64>>,
    pub nested: Vec<BTreeMap<String, Vec<BTreeSet<char>>>>,
    pub none: Option<Vec<()>>,
}

pub fn word(rng: &mut Rng) -> String {
    let n = rng.below(6);
    (0..n).map(|_| *rng.pick(&['a', 'b', 'é', '"', '\\', '\n', '𝄞', ' ', 'z'])).collect()
}

pub fn theirs(rng: &mut Rng) -> Theirs {
    let big = rng.chance(1, 20);
    let n = |rng: &mut Rng| rng.below(if big { 150 } else { 9 });
    Theirs {
        names: (0..n(rng))
            .map(|_| (word(rng), (0..rng.below(7)).map(|_| rng.chance(2, 3).then(|| rng.next() as i32)).collect()))
            .collect(),
        index: (0..n(rng)).map(|_| (rng.next() as u16, (0..rng.below(4)).map(|_| word(rng)).collect())).collect(),
        tags: (0..n(rng)).map(|_| rng.next() as i64 >> rng.below(60)).collect(),
        seen: (0..n(rng)).map(|_| word(rng)).collect(),
        path: (0..n(rng)).map(|_| (rng.next() as u8, rng.chance(1, 2))).collect(),
        undo: (0..n(rng)).map(|_| (0..rng.below(4)).map(|_| rng.below(1000) as f64 / 8.0).collect()).collect(),
        nested: (0..rng.below(4))
            .map(|_| {
                (0..rng.below(4))
                    .map(|_| (word(rng), (0..rng.below(3)).map(|_| word(rng).chars().collect()).collect()))
                    .collect()
            })
            .collect(),
        none: rng.chance(1, 2).then(|| vec![(); rng.below(4)]),
    }
}

pub fn ours(t: &Theirs) -> Ours {
    Ours {
        names: t
            .names
            .iter()
            .map(|(k, v)| {
                let mut q: QueueSync<_> = Queue::new_sync();
                for x in v {
                    q.enqueue_mut(*x);
                }
                (k.clone(), q)
            })
            .collect(),
        index: t.index.iter().map(|(k, v)| (*k, v.iter().cloned().collect())).collect(),
        tags: t.tags.iter().copied().collect(),
        seen: t.seen.iter().cloned().collect(),
        path: {
            let mut l = List::new();
            for x in t.path.iter().rev() {
                l.push_front_mut(*x);
            }
            l
        },
        undo: {
            let mut l = Stack::new();
            for x in t.undo.iter().rev() {
                l.push_mut(x.iter().copied().collect());
            }
            l
        },
        nested: t
            .nested
            .iter()
            .map(|m| {
                m.iter()
                    .map(|(k, v)| (k.clone(), v.iter().map(|s| s.iter().copied().collect()).collect()))
                    .collect()
            })
            .collect(),
        none: t.none.as_ref().map(|v| v.iter().copied().collect()),
    }
}

