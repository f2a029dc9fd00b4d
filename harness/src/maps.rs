//! One object-safe face for every map type, and every way to build them.

use crate::engine::Src;
use crate::hashers::Bh;
use frozen_collections_core::facades::FrozenMap;
use frozen_collections_core::specialized_maps::{
    CommonMap, IntegerMap, IntegerRangeMap, Iter, Keys, LeftSliceMap, LengthMap, RightSliceMap, ScanningMap, Values,
};
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use num_traits::{AsPrimitive, PrimInt, Unsigned};
use std::any::Any;
use std::borrow::Borrow;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, RandomState};
use std::ops::Range;

/// How many keys can be asked for at once.
pub const MANY: [usize; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 20, 33, 70, 260];

/// A map with keys `K`, looked up through `Q`, holding `V`.
pub trait TMap<K, Q, V> {
    fn kind(&self) -> String;
    fn get(&self, k: &Q) -> Option<&V>;
    fn get_key_value(&self, k: &Q) -> Option<(&K, &V)>;
    fn get_mut(&mut self, k: &Q) -> Option<&mut V>;
    fn get_many(&mut self, ks: &[&Q]) -> Option<Vec<&mut V>>;
    fn contains_key(&self, k: &Q) -> bool;
    fn index(&self, k: Q) -> &V;
    fn index_mut(&mut self, k: Q) -> &mut V;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn iter(&self) -> Iter<'_, K, V>;
    fn keys(&self) -> Keys<'_, K, V>;
    fn values(&self) -> Values<'_, K, V>;
    fn by_ref(&self) -> Iter<'_, K, V>;
    fn debug(&self, alternate: bool) -> String
    where
        K: Debug,
        V: Debug;
    fn clone_box(&self) -> DMap<K, Q, V>;
    /// Clones `from` into this map, which must be of the same type.
    fn clone_from_dyn(&mut self, from: &dyn TMap<K, Q, V>) -> bool;
    fn equals(&self, other: &dyn TMap<K, Q, V>) -> Option<bool>;
    fn as_any(&self) -> &dyn Any;
}

pub type DMap<K, Q, V> = Box<dyn TMap<K, Q, V>>;

macro_rules! many {
    ($q:ty, $m:expr, $ks:expr; $($n:literal)*) => {
        match $ks.len() {
            $($n => {
                let a: [&$q; $n] = $ks.try_into().unwrap();
                $m.get_many_mut(a).map(|r| r.into_iter().collect())
            })*
            n => panic!("harness: {n} keys at once"),
        }
    };
}

macro_rules! tmap {
    ($kind:expr, [$($g:ident),*], $t:ty, [$($w:tt)*], |$s:ident| $len:expr, $empty:expr) => {
        impl<K, Q, V, $($g),*> TMap<K, Q, V> for $t
        where
            K: Debug + Clone + 'static,
            V: Val,
            Q: Clone + 'static,
            $($w)*
        {
            fn kind(&self) -> String {
                let mut k = String::from($kind);
                $(k.push('/'); k.push_str(std::any::type_name::<$g>().rsplit("::").next().unwrap_or(""));)*
                k
            }
            fn get(&self, k: &Q) -> Option<&V> { <$t>::get(self, k) }
            fn get_key_value(&self, k: &Q) -> Option<(&K, &V)> { <$t>::get_key_value(self, k) }
            fn get_mut(&mut self, k: &Q) -> Option<&mut V> { <$t>::get_mut(self, k) }
            fn get_many(&mut self, ks: &[&Q]) -> Option<Vec<&mut V>> { if V::MANY { many!(Q, self, ks; 0 1 2 3 4 5 6 7 8 12 20 33 70 260) } else { panic!("harness: MANY") } }
            fn contains_key(&self, k: &Q) -> bool { <$t>::contains_key(self, k) }
            fn index(&self, k: Q) -> &V { std::ops::Index::<Q>::index(self, k) }
            fn index_mut(&mut self, k: Q) -> &mut V { std::ops::IndexMut::<Q>::index_mut(self, k) }
            fn len(&self) -> usize { let $s = self; $len }
            fn is_empty(&self) -> bool { let $s = self; $empty }
            fn iter(&self) -> Iter<'_, K, V> { <$t>::iter(self) }
            fn keys(&self) -> Keys<'_, K, V> { <$t>::keys(self) }
            fn values(&self) -> Values<'_, K, V> { <$t>::values(self) }
            fn by_ref(&self) -> Iter<'_, K, V> { (&*self).into_iter() }
            fn debug(&self, alternate: bool) -> String { if alternate { format!("{self:#?}") } else { format!("{self:?}") } }
            fn clone_box(&self) -> DMap<K, Q, V> { Box::new(self.clone()) }
            fn clone_from_dyn(&mut self, from: &dyn TMap<K, Q, V>) -> bool {
                match from.as_any().downcast_ref::<$t>() { Some(f) => { self.clone_from(f); true } None => false }
            }
            fn equals(&self, other: &dyn TMap<K, Q, V>) -> Option<bool> {
                other.as_any().downcast_ref::<$t>().map(|o| {
                    let (eq, ne) = (self == o, self != o);
                    assert!(eq != ne, "== and != agree");
                    eq
                })
            }
            fn as_any(&self) -> &dyn Any { self }
        }
    };
}

// the facade is looked up with its own key type only
        impl<K, V, BH> TMap<K, K, V> for FrozenMap<K, V, BH>
        where
            K: Debug + Clone + Hash + Eq + 'static,
            V: Val,
            BH: BuildHasher + Clone + 'static,
        {
            fn kind(&self) -> String { "Frozen".into() }
            fn get(&self, k: &K) -> Option<&V> { Self::get(self, k) }
            fn get_key_value(&self, k: &K) -> Option<(&K, &V)> { Self::get_key_value(self, k) }
            fn get_mut(&mut self, k: &K) -> Option<&mut V> { Self::get_mut(self, k) }
            fn get_many(&mut self, ks: &[&K]) -> Option<Vec<&mut V>> {
                if V::MANY { many!(K, self, ks; 0 1 2 3 4 5 6 7 8 12 20 33 70 260) } else { panic!("harness: MANY") }
            }
            fn contains_key(&self, k: &K) -> bool { Self::contains_key(self, k) }
            fn index(&self, k: K) -> &V { std::ops::Index::<K>::index(self, k) }
            fn index_mut(&mut self, k: K) -> &mut V { std::ops::IndexMut::<K>::index_mut(self, k) }
            fn len(&self) -> usize { Self::len(self) }
            fn is_empty(&self) -> bool { Self::is_empty(self) }
            fn iter(&self) -> Iter<'_, K, V> { Self::iter(self) }
            fn keys(&self) -> Keys<'_, K, V> { Self::keys(self) }
            fn values(&self) -> Values<'_, K, V> { Self::values(self) }
            fn by_ref(&self) -> Iter<'_, K, V> { (&*self).into_iter() }
            fn debug(&self, alternate: bool) -> String { if alternate { format!("{self:#?}") } else { format!("{self:?}") } }
            fn clone_box(&self) -> DMap<K, K, V> { Box::new(self.clone()) }
            fn clone_from_dyn(&mut self, from: &dyn TMap<K, K, V>) -> bool {
                match from.as_any().downcast_ref::<Self>() { Some(f) => { self.clone_from(f); true } None => false }
            }
            fn equals(&self, other: &dyn TMap<K, K, V>) -> Option<bool> {
                other.as_any().downcast_ref::<Self>().map(|o| {
                    let (eq, ne) = (self == o, self != o);
                    assert!(eq != ne, "== and != agree");
                    eq
                })
            }
            fn as_any(&self) -> &dyn Any { self }
        }

tmap!("Common", [S, BH], CommonMap<K, V, S, BH>,
    [K: Borrow<Q> + Hash + Eq, Q: Hash + Eq, S: PrimInt + Unsigned + 'static, BH: BuildHasher + Clone + 'static],
    |s| Len::len(s), Len::is_empty(s));
tmap!("Left", [S, BH], LeftSliceMap<K, V, S, BH>,
    [K: Borrow<Q> + SliceHash + Len + Eq, Q: SliceHash + Len + Eq, S: PrimInt + Unsigned + 'static, BH: BuildHasher + Clone + 'static],
    |s| Len::len(s), Len::is_empty(s));
tmap!("Right", [S, BH], RightSliceMap<K, V, S, BH>,
    [K: Borrow<Q> + SliceHash + Len + Eq, Q: SliceHash + Len + Eq, S: PrimInt + Unsigned + 'static, BH: BuildHasher + Clone + 'static],
    |s| Len::len(s), Len::is_empty(s));
tmap!("Length", [S], LengthMap<K, V, S>,
    [K: Borrow<Q> + Len + Eq, Q: Len + Eq, S: PrimInt + Unsigned + 'static],
    |s| Len::len(s), Len::is_empty(s));
tmap!("Integer", [S], IntegerMap<K, V, S>,
    [K: Borrow<Q> + PrimInt + AsPrimitive<u64>, Q: PrimInt + AsPrimitive<u64>, S: PrimInt + Unsigned + 'static],
    |s| Len::len(s), Len::is_empty(s));
tmap!("Range", [], IntegerRangeMap<K, V>,
    [K: Borrow<Q> + PrimInt, Q: PrimInt],
    |s| Len::len(s), Len::is_empty(s));
tmap!("Scanning", [], ScanningMap<K, V>,
    [K: Borrow<Q> + Eq, Q: Eq],
    |s| Len::len(s), Len::is_empty(s));

// ---------------------------------------------------------------------------------------------- building

/// The sizes for which constructors taking an array are exercised.
#[macro_export]
macro_rules! with_array {
    ($v:expr, |$a:ident| $e:expr) => {
        $crate::with_array!(@ $v, $a, $e; 0 1 2 3 4 5 6 8 16 33 129 256)
    };
    (@ $v:expr, $a:ident, $e:expr; $($n:literal)*) => {{
        let v = $v;
        match v.len() {
            $($n => {
                let boxed: Box<[_; $n]> = v.into_boxed_slice().try_into().ok().unwrap();
                let $a = *boxed;
                Ok($e)
            })*
            _ => Err(v),
        }
    }};
}

/// The way a collection is built.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ctor {
    VecHasher,
    IterHasher(Hint),
    ArrayHasher,
    Vec,
    Array,
    Collect(Hint),
}

impl Ctor {
    pub fn gen(src: &mut Src) -> Self {
        let h = Hint::gen(src);
        *src.pick(&[Self::VecHasher, Self::IterHasher(h), Self::ArrayHasher, Self::Vec, Self::Array, Self::Collect(h)])
    }

    pub fn with_hasher(self) -> bool {
        matches!(self, Self::VecHasher | Self::IterHasher(_) | Self::ArrayHasher)
    }
}

/// A capacity type.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cap {
    U8,
    U16,
    U32,
    U64,
    U128,
    Usize,
}

impl Cap {
    pub fn max(self) -> u64 {
        match self {
            Self::U8 => 255,
            Self::U16 => 65535,
            Self::U32 => u64::from(u32::MAX),
            _ => u64::MAX,
        }
    }

    /// A capacity type that can hold `n` entries.
    pub fn gen(src: &mut Src, n: usize) -> Self {
        let all = [Self::U8, Self::U16, Self::U32, Self::U64, Self::U128, Self::Usize];
        let fit: Vec<Self> = all.into_iter().filter(|c| c.max() >= n as u64).collect();
        *src.pick(&fit)
    }
}

#[macro_export]
macro_rules! with_cap {
    ($cap:expr, $S:ident => $e:expr) => {
        match $cap {
            $crate::maps::Cap::U8 => { type $S = u8; $e }
            $crate::maps::Cap::U16 => { type $S = u16; $e }
            $crate::maps::Cap::U32 => { type $S = u32; $e }
            $crate::maps::Cap::U64 => { type $S = u64; $e }
            $crate::maps::Cap::U128 => { type $S = u128; $e }
            $crate::maps::Cap::Usize => { type $S = usize; $e }
        }
    };
}

/// For key types that need not meet every capacity type: the widest stands in for the ones left out.
#[macro_export]
macro_rules! with_few_caps {
    ($cap:expr, $S:ident => $e:expr) => {
        match $cap {
            $crate::maps::Cap::U8 => { type $S = u8; $e }
            $crate::maps::Cap::U16 => { type $S = u16; $e }
            _ => { type $S = usize; $e }
        }
    };
}

#[macro_export]
macro_rules! with_one_cap {
    ($cap:expr, $S:ident => $e:expr) => {{
        let _ = $cap;
        type $S = usize;
        $e
    }};
}

/// What an iterator says of how many items it has left.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hint {
    /// Nothing, so that collecting goes the incremental way.
    Silent,
    Exact,
    /// Some of what there is, and more than there is.
    Loose,
    /// Not the truth: this many more, or fewer, than there are.
    Wrong(i16),
    /// Not the truth, in the upper bound only.
    Short(i16),
}

impl Hint {
    pub fn gen(src: &mut Src) -> Self {
        *src.pick(&[Self::Silent, Self::Exact, Self::Loose])
    }

    pub fn lie(src: &mut Src) -> Self {
        let by = src.range(1, 300) as i16;
        *src.pick(&[Self::Wrong(by), Self::Wrong(-by), Self::Wrong(1), Self::Wrong(-1), Self::Short(by), Self::Wrong(i16::MIN)])
    }

    fn of(self, n: usize) -> (usize, Option<usize>) {
        match self {
            Self::Silent => (0, None),
            Self::Exact => (n, Some(n)),
            Self::Loose => (n / 2, Some(2 * n + 1)),
            Self::Wrong(by) => {
                let x = n.saturating_add_signed(isize::from(by));
                (x, Some(x))
            }
            Self::Short(by) => (n, Some(n.saturating_sub(by.unsigned_abs().into()))),
        }
    }
}

/// An iterator that is not known to the standard library, with a size hint of choice.
pub struct Shy<I>(pub I, pub Hint);

impl<I: ExactSizeIterator> Iterator for Shy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1.of(self.0.len())
    }
}

/// A type of values.
pub trait Val: Debug + Clone + PartialEq + 'static {
    /// Whether maps of these offer multi-key access, which takes long to compile.
    const MANY: bool = false;
}
impl Val for u64 {}
impl Val for u8 {}
impl Val for () {}
impl Val for String {}
impl<const N: usize> Val for [u64; N] {}

/// A value of which a map may hand out several.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cell(pub u64);
impl Val for Cell {
    const MANY: bool = true;
}

pub fn frozen<K, V>(ctor: Ctor, bh: Bh, p: Vec<(K, V)>) -> DMap<K, K, V>
where
    K: Debug + Clone + Hash + Eq + 'static,
    V: Val,
{
    match ctor {
        Ctor::VecHasher => Box::new(FrozenMap::from_vec_with_hasher(p, bh)),
        Ctor::IterHasher(h) => Box::new(FrozenMap::from_iter_with_hasher(Shy(p.into_iter(), h), bh)),
        Ctor::ArrayHasher => match with_array!(p, |a| FrozenMap::with_hasher(a, bh)) {
            Ok(m) => Box::new(m),
            Err(p) => Box::new(FrozenMap::from_iter_with_hasher(p, bh)),
        },
        Ctor::Vec => Box::new(FrozenMap::from_vec(p)),
        Ctor::Array => match with_array!(p, |a| FrozenMap::from(a)) {
            Ok(m) => Box::new(m),
            Err(p) => Box::new(FrozenMap::from_vec(p)),
        },
        Ctor::Collect(h) => Box::new(Shy(p.into_iter(), h).collect::<FrozenMap<K, V>>()),
    }
}

pub fn common<K, Q, V, S>(ctor: Ctor, bh: Bh, p: Vec<(K, V)>) -> DMap<K, Q, V>
where
    K: Debug + Clone + Hash + Eq + Borrow<Q> + 'static,
    Q: Clone + Hash + Eq + 'static,
    V: Val,
    S: PrimInt + Unsigned + 'static,
{
    type M<K, V, S, BH> = CommonMap<K, V, S, BH>;
    match ctor {
        Ctor::VecHasher => Box::new(M::<K, V, S, Bh>::from_vec_with_hasher(p, bh)),
        Ctor::IterHasher(h) => Box::new(M::<K, V, S, Bh>::from_iter_with_hasher(Shy(p.into_iter(), h), bh)),
        Ctor::ArrayHasher => match with_array!(p, |a| M::<K, V, S, Bh>::with_hasher(a, bh)) {
            Ok(m) => Box::new(m),
            Err(p) => Box::new(M::<K, V, S, Bh>::from_iter_with_hasher(p, bh)),
        },
        Ctor::Vec => Box::new(M::<K, V, S, RandomState>::from_vec(p)),
        Ctor::Array => match with_array!(p, |a| M::<K, V, S, RandomState>::from(a)) {
            Ok(m) => Box::new(m),
            Err(p) => Box::new(M::<K, V, S, RandomState>::from_vec(p)),
        },
        Ctor::Collect(h) => Box::new(Shy(p.into_iter(), h).collect::<M<K, V, S, RandomState>>()),
    }
}

macro_rules! slice_builder {
    ($name:ident, $M:ident) => {
        pub fn $name<K, Q, V, S>(ctor: Ctor, bh: Bh, range: Range<usize>, p: Vec<(K, V)>) -> DMap<K, Q, V>
        where
            K: Debug + Clone + SliceHash + Len + Eq + Borrow<Q> + 'static,
            Q: Clone + SliceHash + Len + Eq + 'static,
            V: Val,
            S: PrimInt + Unsigned + 'static,
        {
            type M<K, V, S, BH> = $M<K, V, S, BH>;
            match ctor {
                Ctor::VecHasher => Box::new(M::<K, V, S, Bh>::from_vec_with_hasher(p, range, bh)),
                Ctor::IterHasher(h) => Box::new(M::<K, V, S, Bh>::from_iter_with_hasher(Shy(p.into_iter(), h), range, bh)),
                Ctor::ArrayHasher => match with_array!(p, |a| M::<K, V, S, Bh>::with_hasher(a, range.clone(), bh)) {
                    Ok(m) => Box::new(m),
                    Err(p) => Box::new(M::<K, V, S, Bh>::from_iter_with_hasher(p, range, bh)),
                },
                Ctor::Vec => Box::new(M::<K, V, S, RandomState>::from_vec(p, range)),
                Ctor::Array => match with_array!(p, |a| M::<K, V, S, RandomState>::from(a, range.clone())) {
                    Ok(m) => Box::new(m),
                    Err(p) => Box::new(M::<K, V, S, RandomState>::from_vec(p, range)),
                },
                Ctor::Collect(h) => Box::new(M::<K, V, S, RandomState>::from_iter(Shy(p.into_iter(), h), range)),
            }
        }
    };
}
slice_builder!(left, LeftSliceMap);
slice_builder!(right, RightSliceMap);

macro_rules! plain {
    ($ctor:expr, $p:expr, $M:ty) => {
        match $ctor {
            Ctor::ArrayHasher | Ctor::Array => match with_array!($p, |a| <$M>::from(a)) {
                Ok(m) => Box::new(m),
                Err(p) => Box::new(<$M>::from_vec(p)),
            },
            Ctor::IterHasher(h) | Ctor::Collect(h) => Box::new(Shy($p.into_iter(), h).collect::<$M>()),
            _ => Box::new(<$M>::from_vec($p)),
        }
    };
}

pub fn length<K, Q, V, S>(ctor: Ctor, p: Vec<(K, V)>) -> DMap<K, Q, V>
where
    K: Debug + Clone + Len + Eq + Borrow<Q> + 'static,
    Q: Clone + Len + Eq + 'static,
    V: Val,
    S: PrimInt + Unsigned + 'static,
{
    // only the smallest capacity can be built from arrays and iterators
    if std::any::TypeId::of::<S>() == std::any::TypeId::of::<u8>() {
        plain!(ctor, p, LengthMap<K, V, u8>)
    } else {
        Box::new(LengthMap::<K, V, S>::from_vec(p))
    }
}

pub fn integer<K, Q, V, S>(ctor: Ctor, p: Vec<(K, V)>) -> DMap<K, Q, V>
where
    K: Debug + PrimInt + AsPrimitive<u64> + Borrow<Q> + 'static,
    Q: PrimInt + AsPrimitive<u64> + 'static,
    V: Val,
    S: PrimInt + Unsigned + 'static,
{
    plain!(ctor, p, IntegerMap<K, V, S>)
}

pub fn range<K, Q, V>(ctor: Ctor, p: Vec<(K, V)>) -> DMap<K, Q, V>
where
    K: Debug + PrimInt + Borrow<Q> + 'static,
    Q: PrimInt + 'static,
    V: Val,
{
    plain!(ctor, p, IntegerRangeMap<K, V>)
}

pub fn scanning<K, Q, V>(ctor: Ctor, p: Vec<(K, V)>) -> DMap<K, Q, V>
where
    K: Debug + Clone + Eq + Borrow<Q> + 'static,
    Q: Clone + Eq + 'static,
    V: Val,
{
    plain!(ctor, p, ScanningMap<K, V>)
}
