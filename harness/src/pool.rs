//! Random configurations and random histories over many coexisting versions.

use crate::ctx::Ctx;
use crate::hashers::{self, Mode};
use crate::model::{Kind, Model, Op, P as Pair};
use crate::rng::Rng;
use crate::subj::{Cfg, PTRS};

pub fn random_cfg(kind: Kind, rng: &mut Rng) -> Cfg {
    let universe = match rng.below(8) {
        0 => rng.range(1, 3),
        1 | 2 => rng.range(3, 8),
        3..=5 => rng.range(8, 24),
        6 => rng.range(24, 64),
        _ => rng.range(64, 160),
    } as u32;
    let stride = *rng.pick(&[1u32, 1, 1, 2, 3, 64, 4096, 1 << 20]);
    let bits = *rng.pick(&[1u8, 1, 2, 2, 3, 5, 5, 4, 6, 7]);
    Cfg {
        kind,
        ptr: *rng.pick(&PTRS),
        bits,
        degree: *rng.pick(&[2u8, 2, 4, 8, 16, 32, 64, 64, 64]),
        mode: if kind.is_hash() { hashers::modes(rng) } else { Mode::Good(0) },
        stateless: kind.is_hash() && rng.chance(1, 4),
        universe,
        stride,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum KeyStyle {
    Random,
    Ascending,
    Descending,
    Zigzag,
    /// Near one of the ends.
    Ends,
}

/// Chooses operations so that versions grow to about `target`, shrink, grow again, and hit the edges.
pub struct Gen {
    pub kind: Kind,
    pub target: usize,
    pub growing: bool,
    pub next_uid: u32,
    style: KeyStyle,
    cursor: u32,
    /// Allow operations that give mutable access to an element.
    pub mut_access: bool,
}

impl Gen {
    pub fn new(cfg: &Cfg, rng: &mut Rng) -> Gen {
        let target = match rng.below(10) {
            0 => 1,
            1 | 2 => rng.range(2, 5),
            3..=5 => rng.range(5, 14),
            6 | 7 => rng.range(14, 40),
            8 => rng.range(40, 90),
            _ => rng.range(90, 160),
        };
        Gen::with_target(cfg, target, rng)
    }
    pub fn with_target(cfg: &Cfg, target: usize, rng: &mut Rng) -> Gen {
        let style = *rng.pick(&[
            KeyStyle::Random,
            KeyStyle::Random,
            KeyStyle::Random,
            KeyStyle::Ascending,
            KeyStyle::Descending,
            KeyStyle::Zigzag,
            KeyStyle::Ends,
        ]);
        Gen { kind: cfg.kind, target, growing: true, next_uid: 1, style, cursor: 0, mut_access: true }
    }
    /// Operations that bring an empty version to some size to start from: mostly 0, near the target, or near a
    /// capacity of a vector.
    pub fn prefill(&mut self, cfg: &Cfg, rng: &mut Rng) -> Vec<Op> {
        let n = match rng.below(4) {
            0 => 0,
            1 => rng.below(self.target + 1),
            2 => self.target,
            _ => {
                let full = 1usize << cfg.bits.min(7);
                let mut c = full;
                while c * full <= 300 && rng.chance(1, 2) {
                    c *= full;
                }
                (c + rng.below(4)).saturating_sub(2)
            }
        };
        (0..n)
            .map(|_| {
                if cfg.kind.is_seq() {
                    Op::Put(self.elem(cfg, rng))
                } else {
                    Op::Insert((self.key(cfg, rng), self.uid()), self.elem(cfg, rng))
                }
            })
            .collect()
    }
    pub fn uid(&mut self) -> u32 {
        self.next_uid += 1;
        self.next_uid
    }
    fn elem(&mut self, cfg: &Cfg, rng: &mut Rng) -> Pair {
        (cfg.key(rng.below(cfg.universe as usize) as u32), self.uid())
    }
    fn key(&mut self, cfg: &Cfg, rng: &mut Rng) -> u32 {
        let u = cfg.universe;
        self.cursor = self.cursor.wrapping_add(1);
        let i = match self.style {
            KeyStyle::Random => rng.below(u as usize) as u32,
            KeyStyle::Ascending => self.cursor % u,
            KeyStyle::Descending => u - 1 - self.cursor % u,
            KeyStyle::Zigzag => {
                let c = self.cursor % u;
                if c % 2 == 0 { c / 2 } else { u - 1 - c / 2 }
            }
            KeyStyle::Ends => {
                let c = rng.below(3.min(u as usize)) as u32;
                if rng.chance(1, 2) { c } else { u - 1 - c }
            }
        };
        cfg.key(i)
    }
    /// A key that is (if possible) in the map, or (if possible) is not.
    fn aimed(&mut self, cfg: &Cfg, m: &Model, present: bool, rng: &mut Rng) -> u32 {
        for _ in 0..6 {
            let k = self.key(cfg, rng);
            if m.contains(k) == present {
                return k;
            }
        }
        if present {
            if let Model::Map(_, b) = m {
                if !b.is_empty() {
                    return *b.keys().nth(rng.below(b.len())).unwrap_or(&0);
                }
            }
        }
        self.key(cfg, rng)
    }
    pub fn index(n: usize, rng: &mut Rng) -> usize {
        match rng.below(12) {
            0 => 0,
            1 => n.saturating_sub(1),
            2 => n,
            3 => n + 1,
            4 => {
                let p = 1usize << rng.below(12);
                p - usize::from(rng.chance(1, 2))
            }
            5 => *rng.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, 1usize.rotate_right(1), 1 << (usize::BITS / 2)]),
            _ => rng.below(n.max(1)),
        }
    }
    pub fn op(&mut self, cfg: &Cfg, m: &Model, rng: &mut Rng) -> Op {
        let n = m.len();
        if n >= self.target {
            self.growing = false;
        } else if n == 0 {
            self.growing = true;
        } else if rng.chance(1, 40) {
            self.growing = !self.growing;
        }
        let up: u32 = if self.growing { 60 } else { 20 };
        let down: u32 = if self.growing { 18 } else { 60 };
        let acc: u32 = if self.mut_access { 16 } else { 0 };
        match self.kind {
            Kind::List => match rng.weighted(&[up, down, 10]) {
                0 => Op::Put(self.elem(cfg, rng)),
                1 => Op::Take,
                _ => Op::Reverse,
            },
            Kind::Stack | Kind::Queue => match rng.weighted(&[up, down]) {
                0 => Op::Put(self.elem(cfg, rng)),
                _ => Op::Take,
            },
            Kind::Vector => match rng.weighted(&[up, down, 20, acc, acc / 3, acc / 4, 4]) {
                0 => Op::Put(self.elem(cfg, rng)),
                1 => Op::Take,
                2 => Op::Set(Gen::index(n, rng), self.elem(cfg, rng)),
                3 => Op::GetMut(Gen::index(n, rng), self.elem(cfg, rng)),
                4 => Op::IndexMut(Gen::index(n, rng), self.elem(cfg, rng)),
                5 => Op::PeekMut(Gen::index(n, rng)),
                _ => {
                    let k = rng.below(6);
                    Op::Extend((0..k).map(|_| self.elem(cfg, rng)).collect())
                }
            },
            Kind::HtMap | Kind::RbMap => match rng.weighted(&[up, down, acc, acc / 4]) {
                0 => {
                    let replace = rng.chance(1, 4);
                    let k = self.aimed(cfg, m, replace, rng);
                    Op::Insert((k, self.uid()), self.elem(cfg, rng))
                }
                1 => {
                    let present = rng.chance(4, 5);
                    Op::Remove(self.aimed(cfg, m, present, rng), rng.chance(1, 2))
                }
                2 => {
                    let present = rng.chance(4, 5);
                    Op::MapGetMut(self.aimed(cfg, m, present, rng), self.elem(cfg, rng), rng.chance(1, 2))
                }
                _ => {
                    let present = rng.chance(4, 5);
                    Op::MapPeekMut(self.aimed(cfg, m, present, rng))
                }
            },
            Kind::HtSet | Kind::RbSet => match rng.weighted(&[up, down]) {
                0 => {
                    let replace = rng.chance(1, 4);
                    let k = self.aimed(cfg, m, replace, rng);
                    Op::Insert((k, self.uid()), (0, 0))
                }
                _ => {
                    let present = rng.chance(4, 5);
                    Op::Remove(self.aimed(cfg, m, present, rng), rng.chance(1, 2))
                }
            },
        }
    }
}

/// Bookkeeping common to all drivers: what the case exercised.
pub fn note_cfg(ctx: &mut Ctx, cfg: &Cfg) {
    ctx.count(cfg.kind.label(), 1);
    ctx.count(
        match cfg.ptr {
            crate::subj::Ptr::Rc => "ptr_Rc",
            crate::subj::Ptr::Arc => "ptr_Arc",
            crate::subj::Ptr::ArcT => "ptr_ArcT",
        },
        1,
    );
    if cfg.kind.is_hash() {
        ctx.count(cfg.mode.label(), 1);
        ctx.count(&format!("degree_{}", cfg.degree), 1);
        if cfg.stateless {
            ctx.count("stateless_hasher", 1);
        }
        ctx.fp(cfg.degree as u64 | (cfg.stateless as u64) << 8);
    }
    if cfg.kind == Kind::Vector {
        ctx.count(&format!("bits_{}", cfg.bits), 1);
        ctx.fp(cfg.bits as u64);
    }
    ctx.fp(cfg.kind as u64);
}

pub fn op_fp(op: &Op) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::hash::DefaultHasher::new();
    op.hash(&mut h);
    h.finish()
}
