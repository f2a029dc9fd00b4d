//! For each key type, the collection types that can hold it, and how to build them.

use crate::engine::Src;
use crate::gen::slice_range;
use crate::hashers::Bh;
use crate::keys::Key;
use crate::maps::{self, Cap, Ctor, Hint, DMap, Val};
use crate::sets::{self, AnySet, DASet, DSet};
use crate::{with_cap, with_few_caps, with_one_cap};
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use std::borrow::Borrow;
use std::collections::{BTreeSet, HashSet};
use std::hash::{BuildHasher, Hash, Hasher, RandomState};
use std::ops::Range;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Frozen,
    Common,
    Left,
    Right,
    Length,
    Integer,
    Range,
    Scanning,
    Hash,
    BTree,
}

/// A way to build a collection.
#[derive(Clone, Debug)]
pub struct Spec {
    pub kind: Kind,
    pub ctor: Ctor,
    pub cap: Cap,
    pub bh: Bh,
    pub range: Range<usize>,
}

impl Spec {
    /// If it is built from an iterator, makes that lie about how many items it has.
    pub fn lie(&mut self, src: &mut Src) -> bool {
        if let Ctor::IterHasher(h) | Ctor::Collect(h) = &mut self.ctor {
            if src.flag() {
                *h = Hint::lie(src);
                return true;
            }
        }
        false
    }

    pub fn show(&self) -> String {
        match self.kind {
            Kind::Frozen => format!("Frozen via {:?}, {:?}", self.ctor, self.bh),
            Kind::Common => format!("Common<{:?}> via {:?}, {:?}", self.cap, self.ctor, self.bh),
            Kind::Left | Kind::Right => format!("{:?}Slice<{:?}>[{:?}] via {:?}, {:?}", self.kind, self.cap, self.range, self.ctor, self.bh),
            Kind::Length | Kind::Integer => format!("{:?}<{:?}> via {:?}", self.kind, self.cap, self.ctor),
            k => format!("{k:?} via {:?}", self.ctor),
        }
    }

    /// Another way to build a collection of the same Rust type.
    pub fn sibling(&self, src: &mut Src, lengths: (usize, usize)) -> Self {
        let mut s = self.clone();
        let h = Hint::gen(src);
        if s.ctor.with_hasher() {
            s.bh = Bh::gen(src);
            s.ctor = *src.pick(&[Ctor::VecHasher, Ctor::IterHasher(h), Ctor::ArrayHasher]);
        } else {
            s.ctor = *src.pick(&[Ctor::Vec, Ctor::Array, Ctor::Collect(h)]);
        }
        if src.flag() {
            s.range = slice_range(src, lengths.0, lengths.1);
        }
        s
    }
}

pub trait Family: Key {
    const KINDS: &'static [Kind];

    fn build_map<V: Val>(spec: &Spec, p: Vec<(Self, V)>) -> DMap<Self, Self, V>;
    /// Generic in nothing that matters: only what a binary uses is compiled.
    fn build_set<Lazy>(spec: &Spec, p: Vec<Self>) -> DSet<Self, Self>;
    fn build_aset<Lazy>(spec: &Spec, p: Vec<Self>) -> DASet<Self>;

    fn contiguous(_: &[Self]) -> bool {
        false
    }

    /// The number of bytes, for the types that have them.
    fn extent(&self) -> usize {
        0
    }

    fn lengths(keys: &[Self]) -> (usize, usize) {
        (keys.iter().map(Self::extent).min().unwrap_or(0), keys.iter().map(Self::extent).max().unwrap_or(0))
    }

    /// A way to build a map over keys like these; the standard types are for sets only.
    fn spec(src: &mut Src, keys: &[Self], of: &[Kind]) -> Spec {
        let fit: Vec<Kind> = Self::KINDS
            .iter()
            .copied()
            .filter(|k| of.is_empty() && !matches!(k, Kind::Hash | Kind::BTree) || of.contains(k))
            .filter(|k| *k != Kind::Range || Self::contiguous(keys))
            .collect();
        let kind = *src.pick(&fit);
        let (lo, hi) = Self::lengths(keys);
        let range = if matches!(kind, Kind::Left | Kind::Right) { slice_range(src, lo, hi) } else { 0..0 };
        let cap = if matches!(kind, Kind::Common | Kind::Left | Kind::Right | Kind::Length | Kind::Integer) {
            Cap::gen(src, keys.len())
        } else {
            Cap::Usize
        };
        let bh = if matches!(kind, Kind::Frozen | Kind::Common | Kind::Left | Kind::Right | Kind::Hash) { Bh::gen(src) } else { Bh::default() };
        Spec { kind, ctor: Ctor::gen(src), cap, bh, range }
    }

    /// How to build another set of values out of the same universe, which is of the same type every other time, if it can be.
    fn partner(src: &mut Src, first: &Spec, keys: &[Self], second: &[Self], of: &[Kind]) -> Spec {
        if src.flag() {
            let s = first.sibling(src, Self::lengths(keys));
            if s.cap.max() >= second.len() as u64 && (s.kind != Kind::Range || Self::contiguous(second)) {
                return s;
            }
        }
        Self::spec(src, second, of)
    }

    fn any_set<Lazy>(spec: &Spec, p: Vec<Self>) -> AnySet<Self> {
        AnySet(Self::build_aset::<()>(spec, p))
    }
}

pub const STD: [Kind; 2] = [Kind::Hash, Kind::BTree];

fn std_set<T: Key>(_: &Spec, p: Vec<T>) -> DSet<T, T> {
    Box::new(p.into_iter().collect::<BTreeSet<T>>())
}

fn std_aset<T: Key>(spec: &Spec, p: Vec<T>) -> DASet<T> {
    match spec.kind {
        Kind::Hash if spec.ctor.with_hasher() => {
            let mut h = HashSet::with_capacity_and_hasher(0, spec.bh);
            h.extend(p);
            Box::new(h)
        }
        Kind::Hash => Box::new(p.into_iter().collect::<HashSet<T, RandomState>>()),
        _ => Box::new(p.into_iter().collect::<BTreeSet<T>>()),
    }
}

macro_rules! int_family {
    ($ca:ident, $cb:ident: $($t:ty)*) => {$(
        impl Family for $t {
            const KINDS: &'static [Kind] =
                &[Kind::Frozen, Kind::Common, Kind::Integer, Kind::Range, Kind::Scanning, Kind::Hash, Kind::BTree];

            fn build_map<V: Val>(s: &Spec, p: Vec<(Self, V)>) -> DMap<Self, Self, V> {
                match s.kind {
                    Kind::Frozen => maps::frozen(s.ctor, s.bh, p),
                    Kind::Common => $ca!(s.cap, S => maps::common::<Self, Self, V, S>(s.ctor, s.bh, p)),
                    Kind::Integer => $cb!(s.cap, S => maps::integer::<Self, Self, V, S>(s.ctor, p)),
                    Kind::Range => maps::range(s.ctor, p),
                    _ => maps::scanning(s.ctor, p),
                }
            }

            fn build_set<Lazy>(s: &Spec, p: Vec<Self>) -> DSet<Self, Self> {
                match s.kind {
                    Kind::Frozen => sets::reads::frozen(s.ctor, s.bh, p),
                    Kind::Common => $ca!(s.cap, S => sets::reads::common::<Self, Self, S>(s.ctor, s.bh, p)),
                    Kind::Integer => $cb!(s.cap, S => sets::reads::integer::<Self, Self, S>(s.ctor, p)),
                    Kind::Range => sets::reads::range(s.ctor, p),
                    Kind::Scanning => sets::reads::scanning(s.ctor, p),
                    _ => std_set(s, p),
                }
            }

            fn build_aset<Lazy>(s: &Spec, p: Vec<Self>) -> DASet<Self> {
                match s.kind {
                    Kind::Frozen => sets::full::frozen(s.ctor, s.bh, p),
                    Kind::Common => $ca!(s.cap, S => sets::full::common::<Self, Self, S>(s.ctor, s.bh, p)),
                    Kind::Integer => $cb!(s.cap, S => sets::full::integer::<Self, Self, S>(s.ctor, p)),
                    Kind::Range => sets::full::range::<Self, Self>(s.ctor, p),
                    Kind::Scanning => sets::full::scanning::<Self, Self>(s.ctor, p),
                    _ => std_aset(s, p),
                }
            }

            fn contiguous(keys: &[Self]) -> bool {
                let mut k = keys.to_vec();
                k.sort_unstable();
                k.windows(2).all(|w| num_traits::CheckedAdd::checked_add(&w[0], &<$t as num_traits::One>::one()) == Some(w[1]))
            }
        }
    )*};
}
int_family!(with_cap, with_cap: u32);
int_family!(with_one_cap, with_cap: i64);
int_family!(with_few_caps, with_few_caps: crate::liars::OddInt);
int_family!(with_one_cap, with_few_caps: u8 u16 u64 usize u128 i8 i16 i32 isize i128);

macro_rules! plain_family {
    ($($t:ty)*) => {$(
        impl Family for $t {
            const KINDS: &'static [Kind] = &[Kind::Frozen, Kind::Common, Kind::Scanning, Kind::Hash, Kind::BTree];

            fn build_map<V: Val>(s: &Spec, p: Vec<(Self, V)>) -> DMap<Self, Self, V> {
                match s.kind {
                    Kind::Frozen => maps::frozen(s.ctor, s.bh, p),
                    Kind::Common => with_few_caps!(s.cap, S => maps::common::<Self, Self, V, S>(s.ctor, s.bh, p)),
                    _ => maps::scanning(s.ctor, p),
                }
            }

            fn build_set<Lazy>(s: &Spec, p: Vec<Self>) -> DSet<Self, Self> {
                match s.kind {
                    Kind::Frozen => sets::reads::frozen(s.ctor, s.bh, p),
                    Kind::Common => with_few_caps!(s.cap, S => sets::reads::common::<Self, Self, S>(s.ctor, s.bh, p)),
                    Kind::Scanning => sets::reads::scanning(s.ctor, p),
                    _ => std_set(s, p),
                }
            }

            fn build_aset<Lazy>(s: &Spec, p: Vec<Self>) -> DASet<Self> {
                match s.kind {
                    Kind::Frozen => sets::full::frozen(s.ctor, s.bh, p),
                    Kind::Common => with_few_caps!(s.cap, S => sets::full::common::<Self, Self, S>(s.ctor, s.bh, p)),
                    Kind::Scanning => sets::full::scanning::<Self, Self>(s.ctor, p),
                    _ => std_aset(s, p),
                }
            }
        }
    )*};
}
type Pair = (u32, String);
plain_family!(crate::keys::Tagged Pair char bool);

macro_rules! length_family {
    ($($t:ty)*) => {$(
        impl Family for $t {
            const KINDS: &'static [Kind] = &[Kind::Frozen, Kind::Common, Kind::Length, Kind::Scanning, Kind::Hash, Kind::BTree];

            fn build_map<V: Val>(s: &Spec, p: Vec<(Self, V)>) -> DMap<Self, Self, V> {
                match s.kind {
                    Kind::Frozen => maps::frozen(s.ctor, s.bh, p),
                    Kind::Common => with_few_caps!(s.cap, S => maps::common::<Self, Self, V, S>(s.ctor, s.bh, p)),
                    Kind::Length => with_few_caps!(s.cap, S => maps::length::<Self, Self, V, S>(s.ctor, p)),
                    _ => maps::scanning(s.ctor, p),
                }
            }

            fn build_set<Lazy>(s: &Spec, p: Vec<Self>) -> DSet<Self, Self> {
                match s.kind {
                    Kind::Frozen => sets::reads::frozen(s.ctor, s.bh, p),
                    Kind::Common => with_few_caps!(s.cap, S => sets::reads::common::<Self, Self, S>(s.ctor, s.bh, p)),
                    Kind::Length => with_few_caps!(s.cap, S => sets::reads::length::<Self, Self, S>(s.ctor, p)),
                    Kind::Scanning => sets::reads::scanning(s.ctor, p),
                    _ => std_set(s, p),
                }
            }

            fn build_aset<Lazy>(s: &Spec, p: Vec<Self>) -> DASet<Self> {
                match s.kind {
                    Kind::Frozen => sets::full::frozen(s.ctor, s.bh, p),
                    Kind::Common => with_few_caps!(s.cap, S => sets::full::common::<Self, Self, S>(s.ctor, s.bh, p)),
                    Kind::Length => with_few_caps!(s.cap, S => sets::full::length::<Self, Self, S>(s.ctor, p)),
                    Kind::Scanning => sets::full::scanning::<Self, Self>(s.ctor, p),
                    _ => std_aset(s, p),
                }
            }

            fn extent(&self) -> usize {
                Len::len(self)
            }
        }
    )*};
}
length_family!(Box<str> std::rc::Rc<String> Box<String> std::sync::Arc<String> Vec<u8> std::ffi::OsString);

macro_rules! slice_family {
    ($($t:ty)*) => {$(
        impl Family for $t {
            const KINDS: &'static [Kind] = &[
                Kind::Frozen, Kind::Common, Kind::Left, Kind::Right, Kind::Length, Kind::Scanning, Kind::Hash, Kind::BTree,
            ];

            fn build_map<V: Val>(s: &Spec, p: Vec<(Self, V)>) -> DMap<Self, Self, V> {
                let r = s.range.clone();
                match s.kind {
                    Kind::Frozen => maps::frozen(s.ctor, s.bh, p),
                    Kind::Common => with_cap!(s.cap, S => maps::common::<Self, Self, V, S>(s.ctor, s.bh, p)),
                    Kind::Left => with_cap!(s.cap, S => maps::left::<Self, Self, V, S>(s.ctor, s.bh, r, p)),
                    Kind::Right => with_cap!(s.cap, S => maps::right::<Self, Self, V, S>(s.ctor, s.bh, r, p)),
                    Kind::Length => with_cap!(s.cap, S => maps::length::<Self, Self, V, S>(s.ctor, p)),
                    _ => maps::scanning(s.ctor, p),
                }
            }

            fn build_set<Lazy>(s: &Spec, p: Vec<Self>) -> DSet<Self, Self> {
                let r = s.range.clone();
                match s.kind {
                    Kind::Frozen => sets::reads::frozen(s.ctor, s.bh, p),
                    Kind::Common => with_cap!(s.cap, S => sets::reads::common::<Self, Self, S>(s.ctor, s.bh, p)),
                    Kind::Left => with_cap!(s.cap, S => sets::reads::left::<Self, Self, S>(s.ctor, s.bh, r, p)),
                    Kind::Right => with_cap!(s.cap, S => sets::reads::right::<Self, Self, S>(s.ctor, s.bh, r, p)),
                    Kind::Length => with_cap!(s.cap, S => sets::reads::length::<Self, Self, S>(s.ctor, p)),
                    Kind::Scanning => sets::reads::scanning(s.ctor, p),
                    _ => std_set(s, p),
                }
            }

            fn build_aset<Lazy>(s: &Spec, p: Vec<Self>) -> DASet<Self> {
                let r = s.range.clone();
                match s.kind {
                    Kind::Frozen => sets::full::frozen(s.ctor, s.bh, p),
                    Kind::Common => with_cap!(s.cap, S => sets::full::common::<Self, Self, S>(s.ctor, s.bh, p)),
                    Kind::Left => with_cap!(s.cap, S => sets::full::left::<Self, Self, S>(s.ctor, s.bh, r, p)),
                    Kind::Right => with_cap!(s.cap, S => sets::full::right::<Self, Self, S>(s.ctor, s.bh, r, p)),
                    Kind::Length => with_cap!(s.cap, S => sets::full::length::<Self, Self, S>(s.ctor, p)),
                    Kind::Scanning => sets::full::scanning::<Self, Self>(s.ctor, p),
                    _ => std_aset(s, p),
                }
            }

            fn extent(&self) -> usize {
                Len::len(self)
            }
        }
    )*};
}
slice_family!(String Word crate::liars::Liar crate::tokens::Tok);

/// A user's string-like key: it has a length and hashes slices, can be looked up by its bytes, and carries a part
/// that takes no part in equality.
#[derive(Clone, Debug)]
pub struct Word {
    pub bytes: Bytes,
    pub tag: u32,
}

/// A user's byte string.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Bytes(pub Vec<u8>);

impl Len for Bytes {
    fn len(&self) -> usize {
        self.0.len()
    }
}

impl SliceHash for Bytes {
    fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
        SliceHash::hash(&self.0[..], bh, range)
    }
}

impl PartialEq for Word {
    fn eq(&self, o: &Self) -> bool {
        self.bytes == o.bytes
    }
}
impl Eq for Word {}
impl PartialOrd for Word {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Word {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.bytes.cmp(&o.bytes)
    }
}
impl Hash for Word {
    fn hash<H: Hasher>(&self, h: &mut H) {
        Hash::hash(&self.bytes, h);
    }
}
impl Borrow<Bytes> for Word {
    fn borrow(&self) -> &Bytes {
        &self.bytes
    }
}
impl Len for Word {
    fn len(&self) -> usize {
        self.bytes.0.len()
    }
}
impl SliceHash for Word {
    fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
        SliceHash::hash(&self.bytes, bh, range)
    }
}

fn word(s: String, tag: u32) -> Word {
    Word { bytes: Bytes(s.into_bytes()), tag }
}

impl Key for Word {
    const NAME: &'static str = "Word";
    fn gen(src: &mut Src, n: usize) -> (Vec<Self>, &'static str) {
        let (v, f) = crate::keys::gen_strings(src, n);
        (v.into_iter().map(|s| word(s, 1)).collect(), f)
    }
    fn probes(src: &mut Src, keys: &[Self]) -> Vec<Self> {
        let k: Vec<String> = keys.iter().map(|x| String::from_utf8_lossy(&x.bytes.0).into_owned()).collect();
        crate::keys::string_probes(src, &k).into_iter().map(|s| word(s, 2)).collect()
    }
    fn alias(&self) -> Self {
        Self { bytes: self.bytes.clone(), tag: 2 }
    }
    fn same(&self, o: &Self) -> bool {
        self.bytes == o.bytes && self.tag == o.tag
    }
}

/// Runs an expression with `$K` bound to a key type: the integers, the strings or the rest, by weight.
#[macro_export]
macro_rules! with_key {
    ($src:expr, $K:ident => $e:expr) => {
        match $src.weighted(&[8, 16, 4, 2, 2, 1, 1, 1, 1]) {
            0 => { type $K = u32; $e }
            1 => { type $K = String; $e }
            2 => { type $K = $crate::family::Word; $e }
            3 => { type $K = $crate::keys::Tagged; $e }
            4 => { type $K = i16; $e }
            5 => { type $K = u64; $e }
            6 => { type $K = i128; $e }
            7 => { type $K = Box<str>; $e }
            _ => { type $K = (u32, String); $e }
        }
    };
}
