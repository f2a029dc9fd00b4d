//! Checks of one collection against the list it was built from.

use crate::engine::{catch, Cx, Src, R};
use crate::ensure;
use crate::keys::Key;
use crate::maps::{TMap, Val};
use crate::sets::TSet;
use std::fmt::Debug;

/// Every read of the map agrees with `payload`, whose keys are distinct. `as_q` gives another, equal form of a key;
/// `probes` are forms that may be absent.
pub fn map_reads<K: Key, Q: Clone + Debug, V: Val>(
    m: &mut dyn TMap<K, Q, V>, payload: &[(K, V)], as_q: impl Fn(&K) -> Q, absent: &[Q], cx: &mut Cx, src: &mut Src,
) -> R {
    let n = payload.len();
    ensure!(m.len() == n, "len is {} for {n} pairs", m.len());
    ensure!(m.is_empty() == (n == 0), "is_empty is {} for {n} pairs", m.is_empty());

    // where the map keeps its entries: what reads hand out must lie there
    let mut own: Vec<(*const K, *const V)> = m.iter().map(|(k, v)| (std::ptr::from_ref(k), std::ptr::from_ref(v))).collect();
    own.sort_unstable();
    let is_own = |k: &K, v: &V| own.binary_search(&(k, v)).is_ok();

    // every key when there are few of them, a sample otherwise
    let step = (n / 300).max(1);
    let off = src.idx(step);
    for (k, v) in payload.iter().skip(off).step_by(step) {
        let q = as_q(k);
        ensure!(m.get(&q) == Some(v), "get({k:?}) is {:?}, not {v:?}", m.get(&q));
        match m.get_key_value(&q) {
            Some((k2, v2)) => {
                ensure!(k2.same(k) && v2 == v, "get_key_value({k:?}) is ({k2:?}, {v2:?}), not ({k:?}, {v:?})");
                ensure!(is_own(k2, v2), "get_key_value({k:?}) refers to something that is not the map's own");
                let own = std::ptr::from_ref(v2);
                ensure!(m.get(&q).is_some_and(|v| std::ptr::eq(v, own)), "get({k:?}) and get_key_value refer to different values");
                ensure!(std::ptr::eq(m.index(q.clone()), own), "get({k:?}) and indexing refer to different values");
            }
            None => return Err(format!("get_key_value({k:?}) is None")),
        }
        ensure!(m.contains_key(&q), "contains_key({k:?}) is false");
        ensure!(m.index(q.clone()) == v, "[{k:?}] is {:?}, not {v:?}", m.index(q.clone()));
        match m.get_mut(&q) {
            Some(v2) => ensure!(v2 == v, "get_mut({k:?}) is {v2:?}, not {v:?}"),
            None => return Err(format!("get_mut({k:?}) is None")),
        }
        let v2 = m.index_mut(q);
        ensure!(v2 == v, "mutably, [{k:?}] is {v2:?}, not {v:?}");
        let (a, b) = (std::ptr::from_ref(m.index_mut(as_q(k))), m.get_mut(&as_q(k)).map(|v| std::ptr::from_ref(v)));
        ensure!(Some(a) == b && m.get(&as_q(k)).map(std::ptr::from_ref) == b, "get({k:?}), get_mut and mutable indexing refer to different values");
    }
    cx.count("present lookups", n.div_ceil(step) as u64);

    for (i, q) in absent.iter().enumerate() {
        ensure!(m.get(q).is_none(), "get({q:?}) is {:?} for an absent key", m.get(q));
        ensure!(m.get_key_value(q).is_none(), "get_key_value({q:?}) is {:?} for an absent key", m.get_key_value(q));
        ensure!(!m.contains_key(q), "contains_key({q:?}) is true for an absent key");
        ensure!(m.get_mut(q).is_none(), "get_mut({q:?}) is {:?} for an absent key", m.get_mut(q));
        if i < 4 {
            ensure!(catch(|| m.index(q.clone()).clone()).is_err(), "indexing with the absent {q:?} does not panic");
            ensure!(catch(|| m.index_mut(q.clone()).clone()).is_err(), "mutable indexing with the absent {q:?} does not panic");
        }
    }
    cx.count("absent lookups", absent.len() as u64);
    Ok(())
}

/// Every membership test of the set agrees with `stored`, whose values are distinct.
pub fn set_reads<T: Key, Q: Clone + Debug>(
    s: &dyn TSet<T, Q>, stored: &[T], as_q: impl Fn(&T) -> Q, absent: &[Q], cx: &mut Cx, src: &mut Src,
) -> R {
    let n = stored.len();
    ensure!(s.len() == n, "len is {} for {n} values", s.len());
    ensure!(s.is_empty() == (n == 0), "is_empty is {} for {n} values", s.is_empty());

    // where the set keeps its values: what reads hand out must lie there
    let mut own: Vec<*const T> = crate::iters::drain(s.iter(), n)?.into_iter().map(std::ptr::from_ref).collect();
    own.sort_unstable();

    let step = (n / 300).max(1);
    let off = src.idx(step);
    for t in stored.iter().skip(off).step_by(step) {
        let q = as_q(t);
        match s.get(&q) {
            Some(t2) => {
                ensure!(t2.same(t), "get({t:?}) is {t2:?}");
                ensure!(own.binary_search(&std::ptr::from_ref(t2)).is_ok(), "get({t:?}) refers to something that is not the set's own");
            }
            None => return Err(format!("get({t:?}) is None")),
        }
        ensure!(s.contains(&q), "contains({t:?}) is false");
        ensure!(s.set_contains(&t.alias()), "Set::contains({t:?}) is false");
    }
    cx.count("present lookups", n.div_ceil(step) as u64);

    for q in absent {
        ensure!(s.get(q).is_none(), "get({q:?}) is {:?} for an absent value", s.get(q));
        ensure!(!s.contains(q), "contains({q:?}) is true for an absent value");
    }
    cx.count("absent lookups", absent.len() as u64);
    Ok(())
}

/// The probes that are not among the keys.
pub fn absent_of<K: Key>(keys: &[K], probes: Vec<K>) -> Vec<K> {
    let stored: std::collections::BTreeSet<&K> = keys.iter().collect();
    let mut seen = std::collections::BTreeSet::new();
    probes.into_iter().filter(|q| !stored.contains(q) && seen.insert(q.clone())).collect()
}
