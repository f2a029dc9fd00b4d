//! Keys whose hashing, equality, length and arithmetic answer arbitrarily on demand.

use crate::engine::{Rng, Src};
use crate::keys::Key;
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use num_traits::{AsPrimitive, Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, Num, One, PrimInt, Saturating, ToPrimitive, Zero};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::{Add, BitAnd, BitOr, BitXor, Div, Mul, Not, Range, Rem, Shl, Shr, Sub};

/// How one kind of answer is falsified.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Lie {
    Honest,
    /// In so many of 16 calls, anything.
    Often(u8),
    /// Always this.
    Always(u64),
    /// Off by this.
    Off(u64),
}

impl Lie {
    pub fn gen(src: &mut Src) -> Self {
        match src.weighted(&[4, 3, 2, 2]) {
            0 => Self::Honest,
            1 => Self::Often(*src.pick(&[1, 4, 8, 16])),
            2 => Self::Always(match src.below(5) {
                0 => 0,
                1 => 1,
                2 => u64::MAX,
                3 => src.below(64),
                _ => src.any_u64(),
            }),
            _ => Self::Off(match src.below(3) {
                0 => 1,
                1 => u64::MAX,
                _ => src.any_u64(),
            }),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Lies {
    pub eq: Lie,
    pub hash: Lie,
    pub slice_hash: Lie,
    pub len: Lie,
    pub ord: Lie,
    pub math: Lie,
    pub hasher: Lie,
    pub seed: u64,
}

impl Lies {
    pub const NONE: Self = Self {
        eq: Lie::Honest,
        hash: Lie::Honest,
        slice_hash: Lie::Honest,
        len: Lie::Honest,
        ord: Lie::Honest,
        math: Lie::Honest,
        hasher: Lie::Honest,
        seed: 0,
    };

    pub fn gen(src: &mut Src) -> Self {
        Self {
            eq: Lie::gen(src),
            hash: Lie::gen(src),
            slice_hash: Lie::gen(src),
            len: Lie::gen(src),
            ord: Lie::gen(src),
            math: Lie::gen(src),
            hasher: Lie::gen(src),
            seed: src.below(1 << 16),
        }
    }
}

thread_local! {
    static NOW: RefCell<(Lies, Rng)> = RefCell::new((Lies::NONE, Rng::new(0)));
}

/// From now on, on this thread.
pub fn tell(l: Lies) {
    NOW.with(|n| *n.borrow_mut() = (l, Rng::new(l.seed)));
}

/// Runs `f` with nothing but the truth, then goes on as before.
pub fn honestly<T>(f: impl FnOnce() -> T) -> T {
    let was = NOW.with(|n| std::mem::replace(&mut n.borrow_mut().0, Lies::NONE));
    let r = f();
    NOW.with(|n| n.borrow_mut().0 = was);
    r
}

pub fn answer(which: impl FnOnce(&Lies) -> Lie, truth: u64) -> u64 {
    NOW.with(|n| {
        let (l, rng) = &mut *n.borrow_mut();
        match which(l) {
            Lie::Honest => truth,
            Lie::Often(k) => {
                if rng.upto(15) < u64::from(k) {
                    match rng.upto(3) {
                        0 => rng.next(),
                        1 => rng.upto(40),
                        2 => u64::MAX - rng.upto(3),
                        _ => truth.wrapping_add(rng.upto(2)).wrapping_sub(1),
                    }
                } else {
                    truth
                }
            }
            Lie::Always(x) => x,
            Lie::Off(d) => truth.wrapping_add(d),
        }
    })
}

fn say(which: impl FnOnce(&Lies) -> Lie, truth: bool) -> bool {
    answer(which, u64::from(truth)) & 1 == 1
}

thread_local! {
    static COMPARISONS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// How often keys were compared on this thread so far.
pub fn comparisons() -> u64 {
    COMPARISONS.with(std::cell::Cell::get)
}

fn compared() {
    COMPARISONS.with(|c| c.set(c.get() + 1));
}

thread_local! {
    static ORDERED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// How often keys were put in order on this thread so far.
pub fn orderings() -> u64 {
    ORDERED.with(std::cell::Cell::get)
}

fn ordered() {
    ORDERED.with(|c| c.set(c.get() + 1));
}

thread_local! {
    static HASHED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static FOREIGN: std::cell::Cell<Option<&'static str>> = const { std::cell::Cell::new(None) };
}

/// How often keys were hashed on this thread so far, whole or in part.
pub fn hashings() -> u64 {
    HASHED.with(std::cell::Cell::get)
}

/// A hasher other than this crate's that a key was given since this was last asked.
pub fn foreign() -> Option<&'static str> {
    FOREIGN.with(std::cell::Cell::take)
}

fn hashed<H>(own: &str) {
    HASHED.with(|c| c.set(c.get() + 1));
    let with = std::any::type_name::<H>();
    if !with.contains(own) {
        FOREIGN.with(|c| c.set(Some(with)));
    }
}

// ---------------------------------------------------------------------------------------------- string-like

/// A key with a length and slices, whose every answer can be false.
#[derive(Clone, Debug)]
pub struct Liar {
    pub text: String,
}

impl PartialEq for Liar {
    fn eq(&self, o: &Self) -> bool {
        compared();
        say(|l| l.eq, self.text == o.text)
    }
}
impl Eq for Liar {}
impl PartialOrd for Liar {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Liar {
    // used by the checks only
    fn cmp(&self, o: &Self) -> Ordering {
        ordered();
        self.text.cmp(&o.text)
    }
}
impl Hash for Liar {
    fn hash<H: Hasher>(&self, h: &mut H) {
        hashed::<H>("hashers::Hr");
        let mut t = 0u64;
        for b in self.text.bytes() {
            t = t.wrapping_mul(257).wrapping_add(u64::from(b) + 1);
        }
        h.write_u64(answer(|l| l.hash, t));
    }
}
impl Len for Liar {
    fn len(&self) -> usize {
        answer(|l| l.len, self.text.len() as u64) as usize
    }
}
impl SliceHash for Liar {
    fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
        hashed::<BH>("hashers::Bh");
        // a range outside the text hashes the whole: panicking is tried elsewhere
        let b = self.text.as_bytes();
        let s = b.get(range).unwrap_or(b);
        answer(|l| l.slice_hash, SliceHash::hash(s, bh, 0..s.len()))
    }
}

impl Key for Liar {
    const NAME: &'static str = "Liar";
    fn gen(src: &mut Src, n: usize) -> (Vec<Self>, &'static str) {
        let (v, f) = crate::keys::gen_strings(src, n);
        (v.into_iter().map(|text| Self { text }).collect(), f)
    }
    fn probes(src: &mut Src, keys: &[Self]) -> Vec<Self> {
        let k: Vec<String> = keys.iter().map(|x| x.text.clone()).collect();
        crate::keys::string_probes(src, &k).into_iter().map(|text| Self { text }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.text == o.text
    }
}

// ---------------------------------------------------------------------------------------------- integers

/// An integer type of the user's own, whose every answer can be false.
#[derive(Clone, Copy, Debug)]
pub struct OddInt(pub u64);

fn math(x: u64) -> u64 {
    answer(|l| l.math, x)
}

impl PartialEq for OddInt {
    fn eq(&self, o: &Self) -> bool {
        compared();
        say(|l| l.eq, self.0 == o.0)
    }
}
impl Eq for OddInt {}
impl PartialOrd for OddInt {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for OddInt {
    fn cmp(&self, o: &Self) -> Ordering {
        ordered();
        let t = self.0.cmp(&o.0);
        let code = match t {
            Ordering::Less => 0,
            Ordering::Equal => 1,
            Ordering::Greater => 2,
        };
        match answer(|l| l.ord, code) % 3 {
            0 => Ordering::Less,
            1 => Ordering::Equal,
            _ => Ordering::Greater,
        }
    }
}
impl Hash for OddInt {
    fn hash<H: Hasher>(&self, h: &mut H) {
        hashed::<H>("hashers::Hr");
        h.write_u64(answer(|l| l.hash, self.0));
    }
}

macro_rules! bin {
    ($($t:ident $f:ident $w:ident;)*) => {$(
        impl $t for OddInt {
            type Output = Self;
            fn $f(self, o: Self) -> Self { Self(math(self.0.$w(o.0))) }
        }
    )*};
}
bin! { Add add wrapping_add; Sub sub wrapping_sub; Mul mul wrapping_mul; }
bin! { BitAnd bitand bitand; BitOr bitor bitor; BitXor bitxor bitxor; }
impl Div for OddInt {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        Self(math(self.0 / o.0))
    }
}
impl Rem for OddInt {
    type Output = Self;
    fn rem(self, o: Self) -> Self {
        Self(math(self.0 % o.0))
    }
}
impl Not for OddInt {
    type Output = Self;
    fn not(self) -> Self {
        Self(math(!self.0))
    }
}
impl Shl<usize> for OddInt {
    type Output = Self;
    fn shl(self, n: usize) -> Self {
        Self(math(self.0.wrapping_shl(n as u32)))
    }
}
impl Shr<usize> for OddInt {
    type Output = Self;
    fn shr(self, n: usize) -> Self {
        Self(math(self.0.wrapping_shr(n as u32)))
    }
}
impl Zero for OddInt {
    fn zero() -> Self {
        Self(math(0))
    }
    fn is_zero(&self) -> bool {
        say(|l| l.math, self.0 == 0)
    }
}
impl One for OddInt {
    fn one() -> Self {
        Self(math(1))
    }
}
impl Num for OddInt {
    type FromStrRadixErr = std::num::ParseIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        u64::from_str_radix(s, r).map(Self)
    }
}
impl ToPrimitive for OddInt {
    fn to_i64(&self) -> Option<i64> {
        i64::try_from(math(self.0)).ok()
    }
    fn to_u64(&self) -> Option<u64> {
        Some(math(self.0))
    }
    fn to_usize(&self) -> Option<usize> {
        Some(math(self.0) as usize)
    }
    fn to_u128(&self) -> Option<u128> {
        Some(u128::from(math(self.0)))
    }
    fn to_i128(&self) -> Option<i128> {
        Some(i128::from(math(self.0)))
    }
}
impl num_traits::NumCast for OddInt {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        n.to_u64().map(|x| Self(math(x)))
    }
}
impl Bounded for OddInt {
    fn min_value() -> Self {
        Self(math(0))
    }
    fn max_value() -> Self {
        Self(math(u64::MAX))
    }
}
macro_rules! checked {
    ($($t:ident $f:ident;)*) => {$(
        impl $t for OddInt {
            fn $f(&self, o: &Self) -> Option<Self> { self.0.$f(o.0).map(|x| Self(math(x))) }
        }
    )*};
}
checked! { CheckedAdd checked_add; CheckedSub checked_sub; CheckedMul checked_mul; CheckedDiv checked_div; }
impl Saturating for OddInt {
    fn saturating_add(self, o: Self) -> Self {
        Self(math(self.0.saturating_add(o.0)))
    }
    fn saturating_sub(self, o: Self) -> Self {
        Self(math(self.0.saturating_sub(o.0)))
    }
}
impl PrimInt for OddInt {
    fn count_ones(self) -> u32 {
        math(u64::from(self.0.count_ones())) as u32
    }
    fn count_zeros(self) -> u32 {
        math(u64::from(self.0.count_zeros())) as u32
    }
    fn leading_zeros(self) -> u32 {
        math(u64::from(self.0.leading_zeros())) as u32
    }
    fn trailing_zeros(self) -> u32 {
        math(u64::from(self.0.trailing_zeros())) as u32
    }
    fn rotate_left(self, n: u32) -> Self {
        Self(math(self.0.rotate_left(n)))
    }
    fn rotate_right(self, n: u32) -> Self {
        Self(math(self.0.rotate_right(n)))
    }
    fn signed_shl(self, n: u32) -> Self {
        Self(math((self.0 as i64).wrapping_shl(n) as u64))
    }
    fn signed_shr(self, n: u32) -> Self {
        Self(math((self.0 as i64).wrapping_shr(n) as u64))
    }
    fn unsigned_shl(self, n: u32) -> Self {
        Self(math(self.0.wrapping_shl(n)))
    }
    fn unsigned_shr(self, n: u32) -> Self {
        Self(math(self.0.wrapping_shr(n)))
    }
    fn swap_bytes(self) -> Self {
        Self(math(self.0.swap_bytes()))
    }
    fn from_be(x: Self) -> Self {
        Self(math(u64::from_be(x.0)))
    }
    fn from_le(x: Self) -> Self {
        Self(math(u64::from_le(x.0)))
    }
    fn to_be(self) -> Self {
        Self(math(self.0.to_be()))
    }
    fn to_le(self) -> Self {
        Self(math(self.0.to_le()))
    }
    fn pow(self, e: u32) -> Self {
        Self(math(self.0.wrapping_pow(e)))
    }
}
impl AsPrimitive<u64> for OddInt {
    fn as_(self) -> u64 {
        math(self.0)
    }
}

impl Key for OddInt {
    const NAME: &'static str = "OddInt";
    fn gen(src: &mut Src, n: usize) -> (Vec<Self>, &'static str) {
        (crate::keys::gen_ints(src, n, u64::MAX).into_iter().map(Self).collect(), "ints")
    }
    fn probes(src: &mut Src, keys: &[Self]) -> Vec<Self> {
        let k: Vec<u64> = keys.iter().map(|x| x.0).collect();
        crate::keys::int_probes(src, &k, u64::MAX).into_iter().map(Self).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
