//! Hashers: good ones, poor ones, and ones that record what they are given.

use crate::engine::{mix, Src};
use std::cell::RefCell;
use std::hash::{BuildHasher, Hasher};

thread_local! {
    static LOG: RefCell<Option<Vec<Vec<u8>>>> = const { RefCell::new(None) };
}

/// Records what is fed to hashers while `f` runs: one byte string per hasher that was finished.
pub fn record<T>(f: impl FnOnce() -> T) -> (T, Vec<Vec<u8>>) {
    LOG.with(|l| *l.borrow_mut() = Some(Vec::new()));
    let r = f();
    (r, LOG.with(|l| l.borrow_mut().take()).unwrap_or_default())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// Well spread 64-bit codes.
    Good,
    /// Well spread, but only this many low bits.
    Low(u32),
    /// Well spread, but only the top bits: every code is a multiple of 2^(64-n).
    High(u32),
    /// One code for everything.
    Const(u64),
    /// The sum of the bytes.
    Sum,
    /// The last bytes written, as an integer.
    Ident,
}

/// A deterministic hasher builder.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Bh {
    pub kind: Kind,
    pub seed: u64,
}

impl Default for Bh {
    fn default() -> Self {
        Self { kind: Kind::Good, seed: 0 }
    }
}

impl Bh {
    pub const fn good(seed: u64) -> Self {
        Self { kind: Kind::Good, seed }
    }

    pub fn gen(src: &mut Src) -> Self {
        let kind = match src.weighted(&[8, 2, 1, 2, 1, 1]) {
            0 => Kind::Good,
            1 => Kind::Low(src.range(1, 12) as u32),
            2 => Kind::High(src.range(1, 16) as u32),
            3 => Kind::Const(match src.weighted(&[2, 2, 1, 1]) {
                0 => 0,
                1 => u64::MAX,
                2 => 1,
                _ => src.any_u64(),
            }),
            4 => Kind::Sum,
            _ => Kind::Ident,
        };
        Self { kind, seed: src.below(1 << 20) }
    }

    pub fn gen_good(src: &mut Src) -> Self {
        Self::good(src.below(1 << 20))
    }
}

pub struct Hr {
    kind: Kind,
    acc: u64,
    log: Option<Vec<u8>>,
}

impl BuildHasher for Bh {
    type Hasher = Hr;

    fn build_hasher(&self) -> Hr {
        OTHER.with(|o| {
            if let (Some(own), None) = o.get() {
                if own != *self {
                    o.set((Some(own), Some(*self)));
                }
            }
        });
        let log = LOG.with(|l| l.borrow().is_some()).then(Vec::new);
        let acc = match self.kind {
            Kind::Sum | Kind::Ident | Kind::Const(_) => 0,
            _ => mix(self.seed, 1),
        };
        Hr { kind: self.kind, acc, log }
    }
}

impl Hasher for Hr {
    fn write(&mut self, bytes: &[u8]) {
        if let Some(l) = &mut self.log {
            l.extend_from_slice(bytes);
        }
        match self.kind {
            Kind::Const(_) => {}
            Kind::Sum => {
                for b in bytes {
                    self.acc = self.acc.wrapping_add(u64::from(*b));
                }
            }
            Kind::Ident => {
                let mut a = [0u8; 8];
                let n = bytes.len().min(8);
                a[..n].copy_from_slice(&bytes[bytes.len() - n..]);
                self.acc = u64::from_le_bytes(a);
            }
            _ => {
                // chunking independent: fed byte by byte
                let mut h = self.acc;
                for b in bytes {
                    h = (h ^ u64::from(*b)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                    h ^= h >> 29;
                }
                self.acc = h;
            }
        }
    }

    fn finish(&self) -> u64 {
        FINISHED.with(|c| c.set(c.get() + 1));
        crate::liars::answer(|l| l.hasher, self.code())
    }
}

impl Hr {
    fn code(&self) -> u64 {
        if let Some(l) = &self.log {
            LOG.with(|g| {
                if let Some(g) = g.borrow_mut().as_mut() {
                    g.push(l.clone());
                }
            });
        }
        match self.kind {
            Kind::Good => mix(self.acc, 3),
            Kind::Low(b) => mix(self.acc, 3) & ((1u64 << b) - 1),
            Kind::High(b) => mix(self.acc, 3) << (64 - b),
            Kind::Const(c) => c,
            Kind::Sum | Kind::Ident => self.acc,
        }
    }
}

thread_local! {
    static FINISHED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static OTHER: std::cell::Cell<(Option<Bh>, Option<Bh>)> = const { std::cell::Cell::new((None, None)) };
}

/// How many hashers were finished on this thread so far.
pub fn finished() -> u64 {
    FINISHED.with(std::cell::Cell::get)
}

/// Runs `f`, and tells a builder other than `own` that made a hasher meanwhile.
pub fn other_than<T>(own: Bh, f: impl FnOnce() -> T) -> (T, Option<Bh>) {
    OTHER.with(|o| o.set((Some(own), None)));
    let r = f();
    (r, OTHER.with(std::cell::Cell::take).1)
}

/// What kind of layout a lookup shows, judged by what it hashes: used to classify cases, never to judge them.
pub fn classify(key_hash_input: &[u8], log: &[Vec<u8>]) -> &'static str {
    match log.first() {
        None => "nohash",
        Some(l) if l == key_hash_input => "full",
        Some(_) => "slice",
    }
}

/// What a key feeds to a hasher when it is hashed as a whole.
pub fn full_input<K: std::hash::Hash>(k: &K) -> Vec<u8> {
    let (_, l) = record(|| {
        let mut h = Bh::default().build_hasher();
        k.hash(&mut h);
        h.finish()
    });
    l.into_iter().next().unwrap_or_default()
}
