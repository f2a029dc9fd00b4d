//! C28: the time of a read does not grow with the collection, that of a traversal only in proportion.

use frozen_collections_core::traits::len::Len;
use std::collections::HashSet;
use std::hint::black_box;
use std::process::ExitCode;
use vh::clock::cpu_ns;
use vh::engine::{Cx, Prop, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, Spec};
use vh::gen::brief;
use vh::hashers::Bh;
use vh::iters::drain;
use vh::keys::Key;
use vh::maps::{self, Cap, Ctor, TMap};
use vh::sets::{full, AnySet, DASet, El, TSet, OPS};

/// Nanoseconds for a lookup and whatever else is to be done at once.
const CALL: u64 = 5_000;
/// Nanoseconds for each item gone over.
const ITEM: u64 = 1_000;
/// The same where it is looked up, made or rendered on the way.
const WORK: u64 = 10_000;

/// A key that has nothing but a length.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Long(usize);
impl Len for Long {
    fn len(&self) -> usize {
        self.0
    }
}

/// Whether doing it takes no more than `each` for each of `times`, at the best of some attempts.
fn within(what: &str, times: usize, each: u64, mut f: impl FnMut() -> R) -> R {
    let mut best = u64::MAX;
    for _ in 0..if times > 1000 { 4 } else { 10 } {
        let t = cpu_ns();
        f()?;
        best = best.min(cpu_ns() - t);
        if best <= each * times as u64 {
            return Ok(());
        }
        if best > 30 * each * times as u64 {
            break;
        }
    }
    Err(format!("{what} takes {} ns each, for {times} of them", best / times as u64))
}

fn reads<K: Clone + std::fmt::Debug + PartialEq>(m: &mut dyn TMap<K, K, u64>, some: &[K], absent: &[K]) -> R {
    let n = m.len();
    let k = some.len();
    within("get", k, CALL, || some.iter().try_for_each(|q| m.get(q).map(|_| ()).ok_or("get finds nothing".into())))?;
    within("contains_key", k, CALL, || some.iter().try_for_each(|q| m.contains_key(q).then_some(()).ok_or("contains_key finds nothing".into())))?;
    within("get_key_value", k, CALL, || some.iter().try_for_each(|q| m.get_key_value(q).map(|_| ()).ok_or("get_key_value finds nothing".into())))?;
    within("indexing", k, CALL, || some.iter().try_for_each(|q| { black_box(m.index(q.clone())); Ok(()) }))?;
    within("get_mut", k, CALL, || some.iter().try_for_each(|q| m.get_mut(q).map(|v| *v = black_box(*v)).ok_or("get_mut finds nothing".into())))?;
    within("mutable indexing", k, CALL, || some.iter().try_for_each(|q| { let v = m.index_mut(q.clone()); *v = black_box(*v); Ok(()) }))?;
    within("get of an absent key", absent.len(), CALL, || absent.iter().try_for_each(|q| if m.get(q).is_none() { Ok(()) } else { Err("an absent key is found".into()) }))?;
    within("get_mut of an absent key", absent.len(), CALL, || absent.iter().try_for_each(|q| if m.get_mut(q).is_none() { Ok(()) } else { Err("an absent key is found".into()) }))?;
    within("get_key_value of an absent key", absent.len(), CALL, || absent.iter().try_for_each(|q| if m.get_key_value(q).is_none() { Ok(()) } else { Err("an absent key is found".into()) }))?;
    within("len", 100, CALL, || { (0..100).for_each(|_| { black_box((black_box(&*m).len(), black_box(&*m).is_empty())); }); Ok(()) })?;
    within("starting an iteration", 100, CALL, || {
        for _ in 0..100 {
            let m = black_box(&*m);
            let (mut a, mut b, mut c, mut d) = (m.iter(), m.keys(), m.values(), m.by_ref());
            black_box((a.next().is_some(), b.next().is_some(), c.next().is_some(), d.next().is_some()));
            ensure!(a.len() == n - 1 && b.size_hint() == (n - 1, Some(n - 1)) && c.clone().len() == n - 1 && d.count() == n - 1, "what is left of {n} is miscounted");
        }
        Ok(())
    })?;
    within("going over the entries", n, ITEM, || {
        let mut left = n;
        for e in m.by_ref() {
            black_box(e);
            ensure!(left > 0, "there are more entries than {n}");
            left -= 1;
        }
        Ok(())
    })?;
    within("folding the keys", n, ITEM, || { ensure!(m.keys().take(n + 1).fold(0, |i, k| { black_box(k); i + 1 }) == n, "not {n} keys"); Ok(()) })?;
    within("folding the values", n, ITEM, || { ensure!(m.values().take(n + 1).fold(0u64, |i, v| i.wrapping_add(*v)) != 1, "impossible"); Ok(()) })?;
    within("the last entry", n, ITEM, || { ensure!(m.iter().take(n + 1).last().is_some() && m.values().take(n + 1).last().is_some(), "no last entry"); Ok(()) })?;
    Ok(())
}

/// What goes over everything to make something of it.
fn wholes<K: Clone + std::fmt::Debug + PartialEq>(m: &mut dyn TMap<K, K, u64>) -> R {
    let n = m.len();
    let mut copy = None;
    within("rendering", n, WORK, || { ensure!(m.debug(false).len() >= n, "a rendering of {n} entries is too short"); Ok(()) })?;
    within("cloning", n, WORK, || { copy = Some(m.clone_box()); Ok(()) })?;
    let copy = copy.ok_or("no clone")?;
    within("comparing", n, WORK, || match m.equals(&*copy) {
        Some(false) => Err("a clone is different".into()),
        _ => Ok(()),
    })?;
    let mut copy = Some(copy);
    within("dropping", n, WORK, || { drop(copy.take()); Ok(()) })
}

/// Both operands are large.
fn set_reads<T: El>(s: &DASet<T>, other: &AnySet<T>, some: &[T], absent: &[T]) -> R {
    let n = s.len();
    within("get from a set", some.len(), CALL, || some.iter().try_for_each(|q| if s.get(q).is_some() && s.contains(q) && s.set_contains(q) { Ok(()) } else { Err("a value is not found".into()) }))?;
    within("get from a set of an absent value", absent.len(), CALL, || absent.iter().try_for_each(|q| if s.get(q).is_some() || s.contains(q) || s.set_contains(q) { Err("an absent value is found".into()) } else { Ok(()) }))?;
    within("len of a set", 100, CALL, || { (0..100).for_each(|_| { black_box((black_box(s).len(), black_box(s).is_empty())); }); Ok(()) })?;
    within("starting an iteration of a set", 100, CALL, || {
        for _ in 0..100 {
            let s = black_box(s);
            for mut it in [s.iter(), s.set_iter(), s.by_ref()] {
                black_box(it.next().is_some());
                ensure!(it.size_hint() == (n - 1, Some(n - 1)) && it.clone_box().count() == n - 1, "what is left of {n} is miscounted");
            }
        }
        Ok(())
    })?;
    within("starting set operations", 400, CALL, || {
        for _ in 0..100 {
            for op in OPS {
                let it = s.op(op, other);
                black_box((it.size_hint(), it.clone_box().size_hint()));
            }
        }
        Ok(())
    })?;
    within("going over a set", n, ITEM, || { ensure!(drain(s.set_iter(), n)?.len() == n, "not {n} values"); Ok(()) })?;
    let m = n + other.0.len();
    for op in OPS {
        within(&format!("{op:?}"), m, WORK, || { black_box(drain(s.op(op, other), m)?.len()); Ok(()) })?;
    }
    within("relating sets", m, WORK, || { black_box((s.is_subset(other), s.is_superset(other), s.is_disjoint(other))); Ok(()) })?;
    within("comparing sets", m, WORK, || { black_box(s.equals_any(other)); Ok(()) })?;
    let mut copy = None;
    within("cloning a set", n, WORK, || { copy = Some(s.clone_box()); Ok(()) })?;
    let mut copy = copy;
    if let Some(c) = copy.as_ref() {
        ensure!(c.len() == n, "a clone has {} values", c.len());
    }
    let mut taken = 0;
    within("consuming a set", n, WORK, || {
        if let Some(it) = copy.take().and_then(TSet::into_iter) {
            taken = drain(it, n)?.len();
            ensure!(taken == n, "{taken} of {n} values come");
        }
        Ok(())
    })
}

fn numbers(src: &mut Src, n: usize, below: u64) -> Vec<u64> {
    let mut r = src.bulk();
    let mut seen = HashSet::with_capacity(n);
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let x = r.upto(below - 1);
        if seen.insert(x) {
            v.push(x);
        }
    }
    v
}

fn case<K: Key + Family>(src: &mut Src, cx: &mut Cx, kind: Kind, range: std::ops::Range<usize>, keys: &[K]) -> R {
    // the first of the keys are absent
    let (absent, keys) = keys.split_at(200);
    let n = keys.len();
    let set = src.flag();
    let cap = *src.pick(&[Cap::Usize, Cap::U32]);
    let spec = Spec { kind, ctor: Ctor::gen(src), cap, bh: Bh::gen_good(src), range };
    cx.describe(|| format!("{} of {n} {} keys in {}: {}", if set { "set" } else { "map" }, K::NAME, spec.show(), brief(keys)));
    cx.label(format!("{kind:?}{}<{}>", if set { "Set" } else { "Map" }, K::NAME));
    cx.nontrivial(true);
    let some: Vec<K> = (0..200).map(|_| keys[src.idx(n)].clone()).collect();
    if set {
        let half = if kind == Kind::Range { n } else { n / 2 + src.idx(n / 4) };
        let s = K::build_aset::<()>(&spec, keys[..half].to_vec());
        let from = if kind == Kind::Range { 0 } else { n / 4 };
        let o = AnySet(K::build_aset::<()>(&spec, keys[from..].to_vec()));
        let some: Vec<K> = some.into_iter().filter(|k| s.contains(k)).collect();
        ensure!(!some.is_empty(), "nothing of what was put in is found");
        set_reads(&s, &o, &some, absent)
    } else {
        let mut m = K::build_map(&spec, keys.iter().cloned().enumerate().map(|(i, k)| (k, i as u64)).collect());
        reads(&mut *m, &some, absent)?;
        wholes(&mut *m)
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let n = src.urange(100_000, 250_000) + 200;
    let strings = |src: &mut Src| {
        let (a, z) = (src.urange(0, 9), src.urange(0, 9));
        let filler = src.urange(0, 3);
        let left = src.flag();
        let v: Vec<String> = numbers(src, n, 10_000_000)
            .into_iter()
            .map(|x| {
                let more = "~".repeat(x as usize % 7 * filler);
                let (b, e) = if left { (&more[..0], &more[..]) } else { (&more[..], &more[..0]) };
                format!("{b}{}{x:07}{}{e}", "-".repeat(a), "+".repeat(z))
            })
            .collect();
        (v, a, z, left)
    };
    match src.weighted(&[3, 2, 2, 3, 2, 2, 2, 2, 3, 1]) {
        0 => {
            let k = numbers(src, n, u64::MAX);
            case(src, cx, Kind::Frozen, 0..0, &k)
        }
        1 => {
            let k: Vec<u32> = numbers(src, n, 1 << 32).into_iter().map(|x| x as u32).collect();
            case(src, cx, Kind::Frozen, 0..0, &k)
        }
        2 => {
            let lo = src.range(0, 1 << 31) as u32;
            let mut k: Vec<u32> = (0..n as u32).map(|x| lo + x).collect();
            k.reverse();
            case(src, cx, Kind::Frozen, 0..0, &k)
        }
        3 => {
            let (k, ..) = strings(src);
            case(src, cx, Kind::Frozen, 0..0, &k)
        }
        4 => {
            let k = numbers(src, n, u64::MAX);
            case(src, cx, Kind::Common, 0..0, &k)
        }
        5 => {
            let k = numbers(src, n, u64::MAX);
            case(src, cx, Kind::Integer, 0..0, &k)
        }
        6 => {
            let k: Vec<i32> = numbers(src, n, 1 << 32).into_iter().map(|x| x as u32 as i32).collect();
            case(src, cx, Kind::Integer, 0..0, &k)
        }
        7 => {
            let lo = src.any_u64() as i64 >> 1;
            let k: Vec<i64> = (0..n as i64).map(|x| lo + x).collect();
            case(src, cx, Kind::Range, 0..0, &k)
        }
        8 => {
            let (k, a, z, left) = strings(src);
            if left {
                case(src, cx, Kind::Left, a..a + 7, &k)
            } else {
                case(src, cx, Kind::Right, z..z + 7, &k)
            }
        }
        _ => {
            let k: Vec<Long> = numbers(src, n, 1 << 40).into_iter().map(|x| Long(x as usize)).collect();
            let (absent, k) = k.split_at(200);
            let some: Vec<Long> = (0..200).map(|_| k[src.idx(k.len())].clone()).collect();
            cx.describe(|| format!("LengthMap of {} keys of different lengths: {}", k.len(), brief(k)));
            cx.label("LengthMap");
            cx.nontrivial(true);
            if src.flag() {
                let half = k.len() / 2;
                let build = |k: &[Long]| full::length::<Long, Long, usize>(Ctor::Vec, k.to_vec());
                let (s, o) = (build(&k[..half]), AnySet(build(&k[half / 2..])));
                let some: Vec<Long> = some.into_iter().filter(|k| s.contains(k)).collect();
                ensure!(!some.is_empty(), "nothing of what was put in is found");
                set_reads(&s, &o, &some, absent)
            } else {
                let mut m = maps::length::<Long, Long, u64, usize>(Ctor::Vec, k.iter().cloned().enumerate().map(|(i, k)| (k, i as u64)).collect());
                reads(&mut *m, &some, absent)?;
                wholes(&mut *m)
            }
        }
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop { id: "C28", rule: "every case: 100 000 entries and more, each way to read measured; distinct by the choices drawn", run })
}
