//! Object-safe views of iterators, and the check that one obeys the iterator contract.

use crate::engine::{Src, R};
use crate::ensure;
use std::fmt::Debug;

pub trait CIter<'a, X> {
    fn next(&mut self) -> Option<X>;
    fn nth(&mut self, n: usize) -> Option<X>;
    fn size_hint(&self) -> (usize, Option<usize>);
    /// What `ExactSizeIterator::len` says, where there is such a thing.
    fn exact(&self) -> Option<usize>;
    fn count(self: Box<Self>) -> usize;
    /// Passes over `k` items and takes the next one, in one of `SEEKS` ways; some only tell whether there was one.
    fn seek(&mut self, how: usize, k: usize) -> Got<X>;
    /// All that is left, by one of `ALLS` ways to consume an iterator.
    fn all(self: Box<Self>, how: usize) -> Vec<X>;
    /// The last item, by one of `LASTS` ways that are to end there.
    fn end(self: Box<Self>, how: usize) -> Option<X>;
    fn clone_box(&self) -> DIter<'a, X>;
    fn debug(&self) -> Option<String>;
}

pub type DIter<'a, X> = Box<dyn CIter<'a, X> + 'a>;

/// What seeking an item came to.
#[derive(Debug, PartialEq)]
pub enum Got<X> {
    Item(Option<X>),
    Some(bool),
}

pub const SEEKS: [&str; 11] =
    ["nth", "find", "find_map", "position", "any", "all", "try_fold", "try_for_each", "by_ref().skip", "by_ref().take", "for with break"];

/// Where `by_ref().skip` is among them.
const SKIP: usize = 8;

fn seek<I: Iterator>(it: &mut I, how: usize, k: usize) -> Got<I::Item> {
    let mut i = 0;
    let mut here = move || {
        i += 1;
        i - 1 == k
    };
    match SEEKS[how] {
        "nth" => Got::Item(it.nth(k)),
        "find" => Got::Item(it.find(|_| here())),
        "find_map" => Got::Item(it.find_map(|x| here().then_some(x))),
        "position" => Got::Some(match it.position(|_| here()) {
            Some(p) => {
                assert!(p == k, "position is {p}, not {k}");
                true
            }
            None => false,
        }),
        "any" => Got::Some(it.any(|_| here())),
        "all" => Got::Some(!it.all(|_| !here())),
        "try_fold" => Got::Item(it.try_fold((), |(), x| if here() { Err(x) } else { Ok(()) }).err()),
        "try_for_each" => Got::Item(it.try_for_each(|x| if here() { Err(x) } else { Ok(()) }).err()),
        "by_ref().skip" => Got::Item(it.by_ref().skip(k).next()),
        "by_ref().take" => {
            let mut left = k + 1;
            let l = it.by_ref().take(k + 1).inspect(|_| left -= 1).last();
            Got::Item(l.filter(|_| left == 0))
        }
        _ => {
            for x in it {
                if here() {
                    return Got::Item(Some(x));
                }
            }
            Got::Item(None)
        }
    }
}

pub const ALLS: [&str; 16] = [
    "fold", "collect", "for_each", "partition", "skip(0)", "enumerate", "chain", "zip", "step_by(1)", "peekable", "extend", "reduce", "unzip",
    "collect into a result", "for", "try_fold",
];

fn all<I: Iterator>(mut it: I, how: usize) -> Vec<I::Item> {
    let mut v = Vec::new();
    match ALLS[how] {
        "fold" => it.fold(v, |mut v, x| {
            v.push(x);
            v
        }),
        "collect" => it.collect(),
        "for_each" => {
            it.for_each(|x| v.push(x));
            v
        }
        "partition" => {
            let mut odd = false;
            let (a, b): (Vec<_>, Vec<_>) = it.partition(|_| {
                odd = !odd;
                odd
            });
            let mut b = b.into_iter();
            for x in a {
                v.push(x);
                v.extend(b.next());
            }
            v
        }
        "skip(0)" => it.skip(0).collect(),
        "enumerate" => it.enumerate().map(|x| x.1).collect(),
        "chain" => std::iter::empty().chain(it).chain(std::iter::empty()).collect(),
        "zip" => it.zip(0..).map(|x| x.0).collect(),
        "step_by(1)" => it.step_by(1).collect(),
        "peekable" => {
            let mut p = it.peekable();
            while p.peek().is_some() {
                v.extend(p.next());
            }
            v
        }
        "extend" => {
            let mut d = std::collections::VecDeque::new();
            d.extend(it);
            d.into()
        }
        "reduce" => it
            .map(|x| vec![x])
            .reduce(|mut a, b| {
                a.extend(b);
                a
            })
            .unwrap_or_default(),
        "unzip" => {
            let (a, n): (Vec<_>, Vec<u8>) = it.map(|x| (x, 0)).unzip();
            assert!(a.len() == n.len());
            a
        }
        "collect into a result" => it.map(Ok::<_, ()>).collect::<Result<Vec<_>, ()>>().unwrap_or_default(),
        "for" => {
            for x in it {
                v.push(x);
            }
            v
        }
        _ => {
            let r: Result<(), ()> = it.try_fold((), |(), x| {
                v.push(x);
                Ok(())
            });
            assert!(r.is_ok());
            v
        }
    }
}

pub const LASTS: [&str; 4] = ["last", "max_by_key", "min_by_key", "reduce"];

fn end<I: Iterator>(it: I, how: usize) -> Option<I::Item> {
    let mut i = 0i64;
    match LASTS[how] {
        "last" => it.last(),
        // of equal ones, the last is the greatest
        "max_by_key" => it.max_by_key(|_| 0),
        "min_by_key" => it.min_by_key(|_| {
            i -= 1;
            i
        }),
        _ => it.reduce(|_, b| b),
    }
}

pub struct Exact<I>(pub I);
pub struct Plain<I>(pub I);

macro_rules! citer {
    ($w:ident, $bound:path, |$s:ident| $exact:expr) => {
        impl<'a, I> CIter<'a, I::Item> for $w<I>
        where
            I: Iterator + $bound + Clone + Debug + 'a,
        {
            fn next(&mut self) -> Option<I::Item> {
                self.0.next()
            }
            fn nth(&mut self, n: usize) -> Option<I::Item> {
                self.0.nth(n)
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                self.0.size_hint()
            }
            fn exact(&self) -> Option<usize> {
                let $s = self;
                $exact
            }
            fn count(self: Box<Self>) -> usize {
                self.0.count()
            }
            fn seek(&mut self, how: usize, k: usize) -> Got<I::Item> {
                seek(&mut self.0, how, k)
            }
            fn all(self: Box<Self>, how: usize) -> Vec<I::Item> {
                all(self.0, how)
            }
            fn end(self: Box<Self>, how: usize) -> Option<I::Item> {
                end(self.0, how)
            }
            fn clone_box(&self) -> DIter<'a, I::Item> {
                Box::new($w(self.0.clone()))
            }
            fn debug(&self) -> Option<String> {
                Some(format!("{:?}", self.0))
            }
        }
    };
}
citer!(Exact, ExactSizeIterator, |s| Some(s.0.len()));
citer!(Plain, Iterator, |s| {
    let _ = s;
    None
});

/// An iterator over a boxed view: what the set wrapper hands to the operations.
pub struct Dyn<'a, X>(pub DIter<'a, X>);

impl<X> Iterator for Dyn<'_, X> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn nth(&mut self, n: usize) -> Option<X> {
        self.0.nth(n)
    }
    fn count(self) -> usize {
        self.0.count()
    }
}

impl<X> Clone for Dyn<'_, X> {
    fn clone(&self) -> Self {
        Dyn(self.0.clone_box())
    }
}

impl<X> Debug for Dyn<'_, X> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0.debug().unwrap_or_default())
    }
}

/// The items of a traversal, at most `limit` of them, so that an endless one ends.
pub fn drain<X>(mut it: DIter<'_, X>, limit: usize) -> Result<Vec<X>, String> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
        if v.len() > limit {
            return Err(format!("a traversal of at most {limit} items yields more"));
        }
    }
    Ok(v)
}

/// Walks an iterator which is to yield `expected`, checking the contract at every step.
///
/// `exact`: the remaining length is known, so that the size bounds meet. Returns how far the walk went.
pub fn walk<X: PartialEq + Debug>(src: &mut Src, what: &str, it: DIter<'_, X>, expected: &[X], exact: bool) -> Result<usize, String> {
    let mut it = it;
    let n = expected.len();
    let mut pos = 0;
    // where to stop and look closely; everything else is quick steps
    let looks = src.urange(1, 4);
    for look in 0..=looks {
        check_at(src, what, &*it, &expected[pos..], pos, exact)?;
        if look == looks {
            break;
        }
        match src.weighted(&[5, 2, 1, 1]) {
            0 => {
                let far = if src.chance(1, 3) { n } else { 3 };
                let k = if pos < n { src.urange(1, (n - pos).min(far)) } else { 1 };
                for _ in 0..k {
                    let got = it.next();
                    ensure!(got.as_ref() == expected.get(pos), "{what}: item {pos} is {got:?}, not {:?}", expected.get(pos));
                    pos = (pos + 1).min(n);
                }
            }
            1 => {
                let far = if src.chance(1, 4) { n } else { 5 };
                let mut k = src.urange(0, (n - pos).min(far) + 1);
                let mut how = if src.flag() { 0 } else { src.idx(SEEKS.len()) };
                if src.chance(1, 12) {
                    // further than anything goes: by nth, or by skipping
                    k = usize::MAX - src.urange(0, 2);
                    how = if src.flag() { 0 } else { SKIP };
                }
                let at = pos.saturating_add(k);
                match it.seek(how, k) {
                    Got::Item(got) => {
                        let want = expected.get(at);
                        ensure!(got.as_ref() == want, "{what}: {}({k}) at {pos} is {got:?}, not {want:?}", SEEKS[how]);
                    }
                    Got::Some(found) => ensure!(found == (at < n), "{what}: {}({k}) at {pos} of {n} is {found}", SEEKS[how]),
                }
                pos = at.saturating_add(1).min(n);
            }
            2 => {
                // run to the end
                while let Some(got) = it.next() {
                    ensure!(expected.get(pos) == Some(&got), "{what}: item {pos} is {got:?}, not {:?}", expected.get(pos));
                    pos += 1;
                }
                ensure!(pos == n, "{what}: ends after {pos} of {n} items");
            }
            _ => {
                // continue with a clone instead of the original
                let mut c = it.clone_box();
                std::mem::swap(&mut it, &mut c);
                if src.flag() {
                    // the other one moving on does not matter
                    let _ = c.next();
                }
            }
        }
        if pos == n {
            for _ in 0..3 {
                let got = it.next();
                ensure!(got.is_none(), "{what}: the exhausted iterator yields {got:?}");
            }
            ensure!(it.nth(0).is_none(), "{what}: nth(0) of the exhausted iterator yields something");
        }
    }
    let stop = pos;
    match src.below(5) {
        0 => {
            let c = it.count();
            ensure!(c == n - pos, "{what}: count at {pos} of {n} is {c}");
        }
        1 => {
            let how = src.idx(LASTS.len());
            let l = it.end(how);
            ensure!(l.as_ref() == expected[pos..].last(), "{what}: {} at {pos} of {n} is {l:?}", LASTS[how]);
        }
        2 | 3 => {
            let how = src.idx(ALLS.len());
            let v = it.all(how);
            ensure!(v[..] == expected[pos..], "{what}: {} at {pos} of {n} goes over {v:?}, not {:?}", ALLS[how], &expected[pos..]);
        }
        _ => {
            while let Some(got) = it.next() {
                ensure!(expected.get(pos) == Some(&got), "{what}: item {pos} is {got:?}, not {:?}", expected.get(pos));
                pos += 1;
            }
            ensure!(pos == n, "{what}: ends after {pos} of {n} items");
        }
    }
    Ok(stop)
}

fn check_at<'a, X: PartialEq + Debug>(src: &mut Src, what: &str, it: &(dyn CIter<'a, X> + 'a), rest: &[X], pos: usize, exact: bool) -> R {
    let (lo, hi) = it.size_hint();
    let left = rest.len();
    ensure!(lo <= left, "{what}: after {pos} items the size hint starts at {lo}, {left} are left");
    if let Some(hi) = hi {
        ensure!(hi >= left, "{what}: after {pos} items the size hint ends at {hi}, {left} are left");
    }
    if exact {
        ensure!(lo == left && hi == Some(left), "{what}: after {pos} items the size hint is {lo}..={hi:?}, {left} are left");
    }
    if let Some(l) = it.exact() {
        ensure!(l == left, "{what}: after {pos} items the length is {l}, {left} are left");
    }
    if src.flag() {
        let c = it.clone_box().count();
        ensure!(c == left, "{what}: after {pos} items count is {c}, {left} are left");
    }
    if src.flag() {
        let v = drain(it.clone_box(), left + 8)?;
        ensure!(v[..] == *rest, "{what}: after {pos} items a clone goes over {v:?}, not {rest:?}");
    }
    if let Some(d) = it.debug().filter(|_| src.flag()) {
        let want = format!("{rest:?}");
        ensure!(d == want, "{what}: after {pos} items the debug rendering is {d}, not {want}");
    }
    Ok(())
}
