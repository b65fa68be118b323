//! Hashers that are functions of the key, from excellent to terrible.

use crate::rng::mix;
use std::hash::{BuildHasher, Hasher};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    /// Well distributed (seeded).
    Good(u64),
    /// The key itself: only low bits vary.
    Ident,
    /// Every key collides.
    Const(u64),
    /// `n` different hashes in total, well distributed.
    Few(u64),
    /// The lowest bits are the same for every key: long shared prefixes.
    SharedLow(u32),
    /// Only the highest bits differ: paths that part at the very last level.
    TopBits(u32),
    /// Every key has one of two low halves, and one of four high halves.
    Groups,
    /// One bit set, chosen by the key.
    OneBit,
    /// Every second key collides totally, the others are well distributed.
    HalfConst,
    /// Pairs of keys differ only in one bit, whose position depends on the pair.
    Twins,
}

pub fn apply(m: Mode, x: u64) -> u64 {
    match m {
        Mode::Good(s) => mix(x ^ s),
        Mode::Ident => x,
        Mode::Const(c) => c,
        Mode::Few(n) => mix(x % n.max(1)),
        Mode::SharedLow(b) => {
            let h = mix(x);
            if b >= 64 { 0 } else { (h << b) | 0x5a5a_5a5a_5a5a_5a5a & ((1u64 << b) - 1) }
        }
        Mode::TopBits(b) => {
            let b = b.clamp(1, 63);
            ((x & ((1 << b) - 1)) << (64 - b)) | (0x0123_4567_89ab_cdef >> b)
        }
        Mode::Groups => (mix(x & 1) & 0xffff_ffff) | (mix(x & 3) << 32),
        Mode::OneBit => 1u64 << (x % 64),
        Mode::HalfConst => {
            if x & 1 == 0 { 0xdead_beef } else { mix(x) }
        }
        Mode::Twins => mix(x >> 1) ^ ((x & 1) << (mix(x >> 1) % 64)),
    }
}

pub fn modes(rng: &mut crate::rng::Rng) -> Mode {
    match rng.below(14) {
        0 | 1 => Mode::Good(rng.next()),
        2 => Mode::Ident,
        3 => Mode::Const(0),
        4 => Mode::Const(u64::MAX),
        5 => Mode::Few(rng.range(2, 6) as u64),
        6 => Mode::SharedLow(rng.range(1, 63) as u32),
        7 => Mode::TopBits(rng.range(1, 6) as u32),
        8 => Mode::Groups,
        9 => Mode::OneBit,
        10 => Mode::HalfConst,
        11 => Mode::Twins,
        12 => Mode::Few(2),
        _ => Mode::SharedLow(rng.range(40, 62) as u32),
    }
}

impl Mode {
    pub fn label(self) -> &'static str {
        match self {
            Mode::Good(_) => "hash_good",
            Mode::Ident => "hash_ident",
            Mode::Const(_) => "hash_const",
            Mode::Few(_) => "hash_few",
            Mode::SharedLow(_) => "hash_shared_low",
            Mode::TopBits(_) => "hash_top_bits",
            Mode::Groups => "hash_groups",
            Mode::OneBit => "hash_one_bit",
            Mode::HalfConst => "hash_half_const",
            Mode::Twins => "hash_twins",
        }
    }
}

#[derive(Clone, Debug)]
pub struct HB(pub Mode);

thread_local! {
    static DEFAULT: std::cell::Cell<Mode> = const { std::cell::Cell::new(Mode::Good(77)) };
}

/// What `HB::default()` gives in this thread from now on.
pub fn set_default(m: Mode) {
    DEFAULT.with(|d| d.set(m));
}

impl Default for HB {
    fn default() -> HB {
        HB(DEFAULT.with(std::cell::Cell::get))
    }
}

pub struct MH {
    mode: Mode,
    state: u64,
    used: bool,
}

impl BuildHasher for HB {
    type Hasher = MH;
    fn build_hasher(&self) -> MH {
        MH { mode: self.0, state: 0, used: false }
    }
}

impl MH {
    fn put(&mut self, x: u64) {
        self.state = if self.used { mix(self.state) ^ x } else { x };
        self.used = true;
    }
}

impl Hasher for MH {
    fn finish(&self) -> u64 {
        apply(self.mode, self.state)
    }
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.put(u64::from_le_bytes(b));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.put(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.put(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.put(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.put(i)
    }
    fn write_usize(&mut self, i: usize) {
        self.put(i as u64)
    }
    fn write_i32(&mut self, i: i32) {
        self.put(i as u32 as u64)
    }
    fn write_i64(&mut self, i: i64) {
        self.put(i as u64)
    }
}

/// A hasher that records the exact calls made to it.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Recorder {
    pub calls: Vec<Vec<u8>>,
}

impl Recorder {
    pub fn bytes(&self) -> Vec<u8> {
        self.calls.concat()
    }
}

impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        self.calls.push(bytes.to_vec());
    }
}

/// The same, as another type.
#[derive(Clone, Debug)]
pub struct HB2(pub Mode);

impl Default for HB2 {
    fn default() -> HB2 {
        HB2(Mode::Good(78))
    }
}
impl BuildHasher for HB2 {
    type Hasher = MH;
    fn build_hasher(&self) -> MH {
        MH { mode: self.0, state: 0, used: false }
    }
}

/// A hasher without state of its own (as `BuildHasherDefault`): what it does is a property of the thread, which a case
/// chooses before it makes collections.
#[derive(Clone, Copy, Debug, Default)]
pub struct ZB;

thread_local! {
    static STATELESS: std::cell::Cell<Mode> = const { std::cell::Cell::new(Mode::Good(79)) };
}

impl BuildHasher for ZB {
    type Hasher = MH;
    fn build_hasher(&self) -> MH {
        MH { mode: STATELESS.with(std::cell::Cell::get), state: 0, used: false }
    }
}

/// Makes a hasher that behaves in a given way.
pub trait MkHasher: BuildHasher + Clone + Default + std::fmt::Debug + 'static {
    fn mk(mode: Mode) -> Self;
}
impl MkHasher for HB {
    fn mk(mode: Mode) -> HB {
        HB(mode)
    }
}
impl MkHasher for ZB {
    fn mk(mode: Mode) -> ZB {
        STATELESS.with(|d| d.set(mode));
        ZB
    }
}
