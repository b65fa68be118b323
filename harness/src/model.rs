//! Executable models: what a plain sequence, FIFO, LIFO, map or set would answer.

use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    List,
    Stack,
    Vector,
    Queue,
    HtMap,
    RbMap,
    HtSet,
    RbSet,
}
pub const KINDS: [Kind; 8] = [
    Kind::List,
    Kind::Stack,
    Kind::Vector,
    Kind::Queue,
    Kind::HtMap,
    Kind::RbMap,
    Kind::HtSet,
    Kind::RbSet,
];

impl Kind {
    pub fn is_seq(self) -> bool {
        matches!(self, Kind::List | Kind::Stack | Kind::Vector | Kind::Queue)
    }
    pub fn is_map(self) -> bool {
        matches!(self, Kind::HtMap | Kind::RbMap)
    }
    pub fn is_set(self) -> bool {
        matches!(self, Kind::HtSet | Kind::RbSet)
    }
    pub fn is_hash(self) -> bool {
        matches!(self, Kind::HtMap | Kind::HtSet)
    }
    pub fn is_rb(self) -> bool {
        matches!(self, Kind::RbMap | Kind::RbSet)
    }
    pub fn label(self) -> &'static str {
        match self {
            Kind::List => "List",
            Kind::Stack => "Stack",
            Kind::Vector => "Vector",
            Kind::Queue => "Queue",
            Kind::HtMap => "HashTrieMap",
            Kind::RbMap => "RedBlackTreeMap",
            Kind::HtSet => "HashTrieSet",
            Kind::RbSet => "RedBlackTreeSet",
        }
    }
}

/// key and uid of an element.
pub type P = (u32, u32);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// push_front, push, push_back, enqueue
    Put(P),
    /// drop_first, pop, drop_last, dequeue
    Take,
    Reverse,
    Set(usize, P),
    /// get_mut and, when there is a reference, write through it
    GetMut(usize, P),
    /// index_mut
    IndexMut(usize, P),
    /// get_mut without writing
    PeekMut(usize),
    Extend(Vec<P>),
    Insert(P, P),
    /// key, through the borrowed form
    Remove(u32, bool),
    MapGetMut(u32, P, bool),
    MapPeekMut(u32),
}

impl Op {
    pub fn label(&self) -> &'static str {
        match self {
            Op::Put(_) => "put",
            Op::Take => "take",
            Op::Reverse => "reverse",
            Op::Set(..) => "set",
            Op::GetMut(..) => "get_mut",
            Op::IndexMut(..) => "index_mut",
            Op::PeekMut(..) => "get_mut_unwritten",
            Op::Extend(_) => "extend",
            Op::Insert(..) => "insert",
            Op::Remove(..) => "remove",
            Op::MapGetMut(..) => "map_get_mut",
            Op::MapPeekMut(..) => "map_get_mut_unwritten",
        }
    }
    pub fn is_mut_access(&self) -> bool {
        matches!(
            self,
            Op::GetMut(..)
                | Op::IndexMut(..)
                | Op::PeekMut(..)
                | Op::MapGetMut(..)
                | Op::MapPeekMut(..)
        )
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ret {
    Unit,
    Bool(bool),
    /// A documented panic.
    Panicked,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Model {
    /// Front to back in the documented iteration order.
    Seq(Kind, VecDeque<P>),
    /// key -> (uid of the stored key, stored value)
    Map(Kind, BTreeMap<u32, (u32, P)>),
}

/// One iterated element: the element or key, and the value for maps.
pub type Item = (P, Option<P>);

impl Model {
    pub fn new(kind: Kind) -> Model {
        if kind.is_seq() { Model::Seq(kind, VecDeque::new()) } else { Model::Map(kind, BTreeMap::new()) }
    }
    pub fn kind(&self) -> Kind {
        match self {
            Model::Seq(k, _) | Model::Map(k, _) => *k,
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Model::Seq(_, s) => s.len(),
            Model::Map(_, m) => m.len(),
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn contains(&self, k: u32) -> bool {
        match self {
            Model::Seq(..) => false,
            Model::Map(_, m) => m.contains_key(&k),
        }
    }
    /// In iteration order for sequences and ordered collections, by key for the hash ones.
    pub fn items(&self) -> Vec<Item> {
        match self {
            Model::Seq(_, s) => s.iter().map(|p| (*p, None)).collect(),
            Model::Map(kind, m) => m
                .iter()
                .map(|(k, (ku, v))| ((*k, *ku), if kind.is_map() { Some(*v) } else { None }))
                .collect(),
        }
    }
    /// The model of what an iteration showed; an error if that is no possible contents.
    pub fn of_items(kind: Kind, items: &[Item]) -> Result<Model, String> {
        if kind.is_seq() {
            return Ok(Model::Seq(kind, items.iter().map(|x| x.0).collect()));
        }
        let mut m = BTreeMap::new();
        for (k, v) in items {
            if m.insert(k.0, (k.1, v.unwrap_or((0, 0)))).is_some() {
                return Err(format!("key {} appears twice", k.0));
            }
        }
        Ok(Model::Map(kind, m))
    }
    pub fn apply(&mut self, op: &Op) -> Ret {
        match self {
            Model::Seq(kind, s) => match op {
                Op::Put(p) => {
                    match kind {
                        Kind::List | Kind::Stack => s.push_front(*p),
                        _ => s.push_back(*p),
                    }
                    Ret::Unit
                }
                Op::Take => Ret::Bool(match kind {
                    Kind::Vector => s.pop_back().is_some(),
                    _ => s.pop_front().is_some(),
                }),
                Op::Reverse => {
                    *s = s.iter().rev().copied().collect();
                    Ret::Unit
                }
                Op::Set(i, p) | Op::GetMut(i, p) => match s.get_mut(*i) {
                    Some(x) => {
                        *x = *p;
                        Ret::Bool(true)
                    }
                    None => Ret::Bool(false),
                },
                Op::IndexMut(i, p) => match s.get_mut(*i) {
                    Some(x) => {
                        *x = *p;
                        Ret::Unit
                    }
                    None => Ret::Panicked,
                },
                Op::PeekMut(i) => Ret::Bool(*i < s.len()),
                Op::Extend(v) => {
                    s.extend(v.iter().copied());
                    Ret::Unit
                }
                _ => Ret::Unit,
            },
            Model::Map(kind, m) => match op {
                Op::Insert(k, v) => {
                    let v = if kind.is_map() { *v } else { (0, 0) };
                    m.insert(k.0, (k.1, v));
                    Ret::Unit
                }
                Op::Remove(k, _) => Ret::Bool(m.remove(k).is_some()),
                Op::MapGetMut(k, v, _) => match m.get_mut(k) {
                    Some(e) => {
                        e.1 = *v;
                        Ret::Bool(true)
                    }
                    None => Ret::Bool(false),
                },
                Op::MapPeekMut(k) => Ret::Bool(m.contains_key(k)),
                _ => Ret::Unit,
            },
        }
    }
}
