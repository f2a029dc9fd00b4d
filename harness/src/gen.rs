//! Compound generators.

use crate::engine::Src;
use std::fmt::Debug;
use std::ops::Range;

/// A slice range over values whose lengths are at most `longest`: usually sensible, sometimes empty or beyond.
pub fn slice_range(src: &mut Src, shortest: usize, longest: usize) -> Range<usize> {
    match src.weighted(&[5, 3, 1, 1]) {
        0 => {
            let a = src.urange(0, shortest);
            let b = src.urange(a, shortest);
            a..b
        }
        1 => {
            let a = src.urange(0, longest);
            let b = src.urange(a, longest);
            a..b
        }
        2 => {
            let a = src.urange(0, longest + 4);
            let b = src.urange(a, longest + 8);
            a..b
        }
        _ => {
            let a = src.urange(0, longest);
            a..a
        }
    }
}

/// A rendering of a long list: its start and its size.
pub fn brief<T: Debug>(v: &[T]) -> String {
    if v.len() <= 24 {
        format!("{v:?}")
    } else {
        format!("{:?}.. ({} in all)", &v[..16], v.len())
    }
}

/// Two overlapping selections from a list of distinct keys, each in its own order.
pub fn split<K: Clone + Ord>(src: &mut Src, keys: &[K]) -> (Vec<K>, Vec<K>, &'static str) {
    let n = keys.len();
    let mut sorted = keys.to_vec();
    sorted.sort();
    let (mut a, mut b, how) = match src.weighted(&[4, 3, 3, 1, 2, 2, 2, 1]) {
        // each key in one of the two, both, or neither
        0 => {
            let (mut a, mut b) = (Vec::new(), Vec::new());
            let mut rng = if n > 24 { Some(src.bulk()) } else { None };
            let lean = src.below(4);
            for k in keys {
                let x = match &mut rng {
                    Some(r) => r.upto(7),
                    None => src.below(8),
                };
                let side = if x < 4 { x } else { lean };
                if side & 1 == 1 {
                    a.push(k.clone());
                }
                if side & 2 == 2 {
                    b.push(k.clone());
                }
            }
            (a, b, "mixed")
        }
        // overlapping intervals
        1 => {
            let mut cut = || {
                let x = src.urange(0, n);
                let y = src.urange(0, n);
                sorted[x.min(y)..x.max(y)].to_vec()
            };
            (cut(), cut(), "intervals")
        }
        // adjacent intervals
        2 => {
            let x = src.urange(0, n);
            (sorted[..x].to_vec(), sorted[x..].to_vec(), "disjoint")
        }
        3 => (sorted.clone(), sorted, "same"),
        // all but one
        4 => {
            let mut b = sorted.clone();
            if n > 0 {
                b.remove(src.idx(n));
            }
            if src.flag() {
                (sorted, b, "all but one")
            } else {
                (b, sorted, "all but one")
            }
        }
        // same size, one key differs
        5 => {
            let (mut a, mut b) = (sorted.clone(), sorted);
            if n >= 2 {
                a.remove(src.idx(n));
                b.remove(src.idx(n));
            }
            (a, b, "one apart")
        }
        // a large one and a small one
        6 => {
            let few = src.urange(0, n.min(4));
            let at = src.urange(0, n - few);
            let mut b = sorted[at..at + few].to_vec();
            let cut = src.urange(0, n);
            let a = if src.flag() { sorted[..cut].to_vec() } else { sorted };
            if b.len() > 1 && src.flag() {
                b.remove(0);
            }
            if src.flag() {
                (a, b, "few")
            } else {
                (b, a, "few")
            }
        }
        _ => {
            if src.flag() {
                (sorted, Vec::new(), "empty")
            } else {
                (Vec::new(), sorted, "empty")
            }
        }
    };
    src.reorder(&mut a);
    src.reorder(&mut b);
    (a, b, how)
}
