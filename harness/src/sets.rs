//! One view of every set type, and a wrapper that makes any of them the operand of a set operation.

use crate::hashers::Bh;
use crate::iters::{DIter, Dyn, Exact, Plain};
use crate::maps::{Ctor, Shy};
use crate::with_array;
use frozen_collections_core::facades::FrozenSet;
use frozen_collections_core::specialized_sets::*;
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use num_traits::{AsPrimitive, PrimInt, Unsigned};
use std::any::Any;
use std::borrow::Borrow;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, RandomState};
use std::ops::Range;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Union,
    Intersection,
    Difference,
    SymmetricDifference,
}

pub const OPS: [Op; 4] = [Op::Union, Op::Intersection, Op::Difference, Op::SymmetricDifference];

pub trait TSet<T: 'static, Q> {
    fn kind(&self) -> String;
    fn get(&self, v: &Q) -> Option<&T>;
    fn contains(&self, v: &Q) -> bool;
    /// Membership through the `Set` trait.
    fn set_contains(&self, v: &T) -> bool;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn iter(&self) -> DIter<'_, &T>;
    fn set_iter(&self) -> DIter<'_, &T>;
    fn by_ref(&self) -> DIter<'_, &T>;
    fn into_iter(self: Box<Self>) -> Option<DIter<'static, T>>;
    fn debug(&self) -> Option<String>;
    fn clone_box(&self) -> DSet<T, Q>;
    fn clone_from_dyn(&mut self, from: &dyn TSet<T, Q>) -> bool;
    fn as_any(&self) -> &dyn Any;
}

pub type DSet<T, Q> = Box<dyn TSet<T, Q>>;

/// A set that takes part in set operations.
pub trait ASet<T: 'static>: TSet<T, T> {
    fn op<'a>(&'a self, op: Op, rhs: &'a AnySet<T>) -> DIter<'a, &'a T>;
    fn operator(&self, op: Op, rhs: &AnySet<T>) -> Option<Vec<T>>;
    fn is_subset(&self, rhs: &AnySet<T>) -> bool;
    fn is_superset(&self, rhs: &AnySet<T>) -> bool;
    fn is_disjoint(&self, rhs: &AnySet<T>) -> bool;
    /// Equality with a set of any type, where the type offers it.
    fn equals_any(&self, rhs: &AnySet<T>) -> Option<bool>;
    /// Equality with a set of the same type.
    fn equals(&self, rhs: &dyn ASet<T>) -> Option<bool>;
    /// The operations and tests on a set of the same type, with no wrapper in between; it may be this very set.
    fn op_same<'a>(&'a self, op: Op, rhs: &'a dyn ASet<T>) -> Option<DIter<'a, &'a T>>;
    fn operator_same(&self, op: Op, rhs: &dyn ASet<T>) -> Option<Vec<T>>;
    /// Whether this is a subset, a superset, disjoint.
    fn tests_same(&self, rhs: &dyn ASet<T>) -> Option<[bool; 3]>;
    fn clone_aset(&self) -> DASet<T>;
}

pub type DASet<T> = Box<dyn ASet<T>>;

/// Any set, as an operand.
pub struct AnySet<T>(pub DASet<T>);

impl<T: 'static> Len for AnySet<T> {
    fn len(&self) -> usize {
        self.0.len()
    }
}

impl<T: 'static> Set<T> for AnySet<T> {
    type Iterator<'a> = Dyn<'a, &'a T>;
    fn iter(&self) -> Dyn<'_, &T> {
        Dyn(self.0.set_iter())
    }
    fn contains(&self, value: &T) -> bool {
        self.0.set_contains(value)
    }
}

fn both(eq: bool, ne: bool) -> bool {
    assert!(eq != ne, "== and != agree");
    eq
}

macro_rules! tset {
    ($kind:expr, [$($g:ident),*], $q:ident, $t:ty, [$($qg:ident)?], [$($w:tt)*], [$($aw:tt)*],
     get |$s0:ident, $v:ident| $get:expr, iter |$s1:ident| $iter:expr, into |$s2:ident| $into:expr, debug |$s3:ident| $debug:expr,
     operators $operators:tt, eq_any |$s4:ident, $r:ident| $eqany:expr $(, empty |$s5:ident| $empty:expr)?) => {
        impl<T, $($qg,)? $($g),*> TSet<T, $q> for $t
        where
            T: Debug + Clone + Hash + Eq + 'static,
            $($w)*
        {
            fn kind(&self) -> String {
                #[allow(unused_mut)]
                let mut k = String::from($kind);
                $(k.push('/'); k.push_str(std::any::type_name::<$g>().rsplit("::").next().unwrap_or(""));)*
                k
            }
            fn get(&self, v: &$q) -> Option<&T> { let ($s0, $v) = (self, v); $get }
            fn contains(&self, v: &$q) -> bool { <$t>::contains(self, v) }
            fn set_contains(&self, v: &T) -> bool { Set::<T>::contains(self, v) }
            fn len(&self) -> usize { Len::len(self) }
            fn is_empty(&self) -> bool {
                let empty = Len::is_empty(self);
                $({ let $s5 = self; assert!($empty == empty, "two ways to ask whether it is empty differ"); })?
                empty
            }
            fn iter(&self) -> DIter<'_, &T> { let $s1 = self; Box::new(Exact($iter)) }
            fn set_iter(&self) -> DIter<'_, &T> { Box::new(Exact(Set::<T>::iter(self))) }
            fn by_ref(&self) -> DIter<'_, &T> { Box::new(Exact((&*self).into_iter())) }
            fn into_iter(self: Box<Self>) -> Option<DIter<'static, T>> { let $s2 = self; $into }
            fn debug(&self) -> Option<String> { let $s3 = self; $debug }
            fn clone_box(&self) -> DSet<T, $q> { Box::new(self.clone()) }
            fn clone_from_dyn(&mut self, from: &dyn TSet<T, $q>) -> bool {
                match from.as_any().downcast_ref::<$t>() { Some(f) => { self.clone_from(f); true } None => false }
            }
            fn as_any(&self) -> &dyn Any { self }
        }

        impl<T, $($g),*> ASet<T> for $t
        where
            T: Debug + Clone + Hash + Eq + 'static,
            $($aw)*
        {
            fn op<'a>(&'a self, op: Op, rhs: &'a AnySet<T>) -> DIter<'a, &'a T> {
                match op {
                    Op::Union => Box::new(Plain(Set::<T>::union(self, rhs))),
                    Op::Intersection => Box::new(Plain(Set::<T>::intersection(self, rhs))),
                    Op::Difference => Box::new(Plain(Set::<T>::difference(self, rhs))),
                    Op::SymmetricDifference => Box::new(Plain(Set::<T>::symmetric_difference(self, rhs))),
                }
            }
            fn operator(&self, op: Op, rhs: &AnySet<T>) -> Option<Vec<T>> {
                tset!(@operators $operators, self, op, rhs)
            }
            fn is_subset(&self, rhs: &AnySet<T>) -> bool { Set::<T>::is_subset(self, rhs) }
            fn is_superset(&self, rhs: &AnySet<T>) -> bool { Set::<T>::is_superset(self, rhs) }
            fn is_disjoint(&self, rhs: &AnySet<T>) -> bool { Set::<T>::is_disjoint(self, rhs) }
            fn equals_any(&self, rhs: &AnySet<T>) -> Option<bool> { let ($s4, $r) = (self, rhs); $eqany }
            fn equals(&self, rhs: &dyn ASet<T>) -> Option<bool> {
                rhs.as_any().downcast_ref::<$t>().map(|o| both(self == o, self != o))
            }
            fn op_same<'a>(&'a self, op: Op, rhs: &'a dyn ASet<T>) -> Option<DIter<'a, &'a T>> {
                let rhs = rhs.as_any().downcast_ref::<$t>()?;
                Some(match op {
                    Op::Union => Box::new(Plain(Set::<T>::union(self, rhs))),
                    Op::Intersection => Box::new(Plain(Set::<T>::intersection(self, rhs))),
                    Op::Difference => Box::new(Plain(Set::<T>::difference(self, rhs))),
                    Op::SymmetricDifference => Box::new(Plain(Set::<T>::symmetric_difference(self, rhs))),
                })
            }
            fn operator_same(&self, op: Op, rhs: &dyn ASet<T>) -> Option<Vec<T>> {
                let rhs = rhs.as_any().downcast_ref::<$t>()?;
                tset!(@operators $operators, self, op, rhs)
            }
            fn tests_same(&self, rhs: &dyn ASet<T>) -> Option<[bool; 3]> {
                let rhs = rhs.as_any().downcast_ref::<$t>()?;
                Some([Set::<T>::is_subset(self, rhs), Set::<T>::is_superset(self, rhs), Set::<T>::is_disjoint(self, rhs)])
            }
            fn clone_aset(&self) -> DASet<T> { Box::new(self.clone()) }
        }
    };
    (@operators yes, $s:expr, $op:expr, $rhs:expr) => {
        Some(match $op {
            Op::Union => ($s | $rhs).into_iter().collect(),
            Op::Intersection => ($s & $rhs).into_iter().collect(),
            Op::Difference => ($s - $rhs).into_iter().collect(),
            Op::SymmetricDifference => ($s ^ $rhs).into_iter().collect(),
        })
    };
    (@operators no, $s:expr, $op:expr, $rhs:expr) => { { let _ = ($op, $rhs); None } };
}

tset!("Frozen", [BH], T, FrozenSet<T, BH>, [], [BH: BuildHasher + Clone + Default + 'static], [BH: BuildHasher + Clone + Default + 'static],
    get |s, v| s.get(v), iter |s| s.iter(), into |_s| None, debug |_s| None, operators yes, eq_any |_s, _r| None,
    empty |s| FrozenSet::is_empty(s));
tset!("Common", [S, BH], Q, CommonSet<T, S, BH>, [Q],
    [T: Borrow<Q>, Q: Hash + Eq, S: PrimInt + Unsigned + Debug + 'static, BH: BuildHasher + Clone + Default + 'static], [S: PrimInt + Unsigned + Debug + 'static, BH: BuildHasher + Clone + Default + 'static],
    get |s, v| s.get(v), iter |s| Set::<T>::iter(s), into |s| Some(Box::new(Exact((*s).into_iter()))),
    debug |s| Some(format!("{s:?}")), operators yes, eq_any |s, r| Some(both(s == r, s != r)));
tset!("Left", [S, BH], Q, LeftSliceSet<T, S, BH>, [Q],
    [T: Borrow<Q> + SliceHash + Len, Q: SliceHash + Len + Eq, S: PrimInt + Unsigned + Debug + 'static, BH: BuildHasher + Clone + Default + 'static], [T: SliceHash + Len, S: PrimInt + Unsigned + Debug + 'static, BH: BuildHasher + Clone + Default + 'static],
    get |s, v| s.get(v), iter |s| s.iter(), into |s| Some(Box::new(Exact((*s).into_iter()))),
    debug |s| Some(format!("{s:?}")), operators yes, eq_any |s, r| Some(both(s == r, s != r)));
tset!("Right", [S, BH], Q, RightSliceSet<T, S, BH>, [Q],
    [T: Borrow<Q> + SliceHash + Len, Q: SliceHash + Len + Eq, S: PrimInt + Unsigned + Debug + 'static, BH: BuildHasher + Clone + Default + 'static], [T: SliceHash + Len, S: PrimInt + Unsigned + Debug + 'static, BH: BuildHasher + Clone + Default + 'static],
    get |s, v| s.get(v), iter |s| s.iter(), into |s| Some(Box::new(Exact((*s).into_iter()))),
    debug |s| Some(format!("{s:?}")), operators yes, eq_any |s, r| Some(both(s == r, s != r)));
tset!("Length", [S], Q, LengthSet<T, S>, [Q],
    [T: Borrow<Q> + Len, Q: Len + Eq, S: PrimInt + Unsigned + Debug + 'static], [T: Len, S: PrimInt + Unsigned + Debug + 'static],
    get |s, v| s.get(v), iter |s| s.iter(), into |s| Some(Box::new(Exact((*s).into_iter()))),
    debug |s| Some(format!("{s:?}")), operators yes, eq_any |s, r| Some(both(s == r, s != r)));
tset!("Integer", [S], Q, IntegerSet<T, S>, [Q],
    [T: Borrow<Q> + PrimInt + AsPrimitive<u64>, Q: PrimInt + AsPrimitive<u64>, S: PrimInt + Unsigned + Debug + 'static], [T: PrimInt + AsPrimitive<u64>, S: PrimInt + Unsigned + Debug + 'static],
    get |s, v| s.get(v), iter |s| s.iter(), into |s| Some(Box::new(Exact((*s).into_iter()))),
    debug |s| Some(format!("{s:?}")), operators yes, eq_any |s, r| Some(both(s == r, s != r)));
tset!("Range", [], Q, IntegerRangeSet<T>, [Q],
    [T: Borrow<Q> + PrimInt, Q: PrimInt], [T: PrimInt],
    get |s, v| s.get(v), iter |s| s.iter(), into |s| Some(Box::new(Exact((*s).into_iter()))),
    debug |s| Some(format!("{s:?}")), operators yes, eq_any |s, r| Some(both(s == r, s != r)));
tset!("Scanning", [], Q, ScanningSet<T>, [Q],
    [T: Borrow<Q>, Q: Eq], [],
    get |s, v| s.get(v), iter |s| s.iter(), into |s| Some(Box::new(Exact((*s).into_iter()))),
    debug |s| Some(format!("{s:?}")), operators yes, eq_any |s, r| Some(both(s == r, s != r)));
tset!("HashSet", [BH], T, HashSet<T, BH>, [], [BH: BuildHasher + Clone + Default + 'static], [BH: BuildHasher + Clone + Default + 'static],
    get |s, v| s.get(v), iter |s| s.iter(), into |_s| None, debug |_s| None, operators no, eq_any |_s, _r| None);
tset!("BTreeSet", [], T, BTreeSet<T>, [], [T: Ord], [T: Ord],
    get |s, v| s.get(v), iter |s| s.iter(), into |_s| None, debug |_s| None, operators no, eq_any |_s, _r| None);

// ---------------------------------------------------------------------------------------------- building

pub trait El: Debug + Clone + Hash + Eq + 'static {}
impl<T: Debug + Clone + Hash + Eq + 'static> El for T {}

/// Builders of sets that are only read.
pub mod reads {
    use super::*;
    macro_rules! Out {
        ($t:ty, $q:ty) => { DSet<$t, $q> };
    }
    include!("set_builders.rs.in");
}

/// Builders of sets that take part in operations.
pub mod full {
    use super::*;
    macro_rules! Out {
        ($t:ty, $q:ty) => { DASet<$t> };
    }
    include!("set_builders.rs.in");
}
