//! C13: misbehaving keys and hashers never cause undefined behaviour.

use frozen_collections_core::facades::{FrozenMap, FrozenSet};
use frozen_collections_core::specialized_sets::Set;
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use std::cell::Cell as StdCell;
use std::collections::BTreeMap;
use std::ops::Range;
use std::process::ExitCode;
use vh::checks::absent_of;
use vh::engine::{catch, Cx, Prop, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, Word, Bytes};
use vh::gen::brief;
use vh::hashers::Bh;
use vh::iters::ALLS;
use vh::keys::{gen_size, Key};
use vh::liars::{honestly, tell, Liar, Lies, OddInt};
use vh::maps::{Cell, Ctor, DMap, MANY};
use vh::sets::{AnySet, OPS};

#[derive(Clone, Debug)]
enum Act {
    Get(usize),
    GetMut(usize),
    Index(usize),
    Many(Vec<usize>),
    Iterate,
    Clone,
    CloneFrom,
    Equal,
    Lie(Box<Lies>),
    Operate(usize),
    Predicates,
    Consume(usize),
}

fn act(src: &mut Src) -> Act {
    let k = src.idx(1 << 12);
    match src.weighted(&[6, 3, 2, 3, 2, 1, 1, 1, 4, 3, 2, 1]) {
        0 => Act::Get(k),
        1 => Act::GetMut(k),
        2 => Act::Index(k),
        3 => {
            let n = MANY[src.idx(9)];
            Act::Many((0..n).map(|_| src.idx(1 << 12)).collect())
        }
        4 => Act::Iterate,
        5 => Act::Clone,
        6 => Act::CloneFrom,
        7 => Act::Equal,
        8 => Act::Lie(Box::new(Lies::gen(src))),
        9 => Act::Operate(src.idx(4)),
        10 => Act::Predicates,
        _ => Act::Consume(k),
    }
}

/// How many entries it has.
const KEPT: u64 = if cfg!(miri) { 3 } else { 40 };

/// A collection of one's own, to see that it is left alone.
struct Bystander(FrozenMap<String, u64>, FrozenSet<u32>);

impl Bystander {
    fn new() -> Self {
        Self(
            (0..KEPT).map(|i| (format!("key {i}"), i)).collect(),
            (0..KEPT as u32).map(|i| i * 3).collect(),
        )
    }

    fn check(&self) -> R {
        for i in 0..KEPT {
            ensure!(self.0.get(&format!("key {i}")) == Some(&i), "another collection changed");
        }
        ensure!((0..KEPT as u32 * 3).all(|i| self.1.contains(&i) == (i % 3 == 0)), "another collection changed");
        Ok(())
    }
}

fn addr<T>(x: &T) -> *const T {
    std::ptr::from_ref(x)
}

/// The stored entries, which all come from the payload.
fn own<K: Family>(m: &DMap<K, K, Cell>, payload: &[(String, u64)]) -> Result<Vec<(*const K, *const Cell)>, String> {
    honestly(|| {
        let v: Vec<(*const K, *const Cell)> = m.iter().map(|(k, v)| (addr(k), addr(v))).collect();
        ensure!(v.len() == m.len(), "{} entries where len is {}", v.len(), m.len());
        ensure!(v.len() <= payload.len(), "{} entries from {} pairs", v.len(), payload.len());
        let mut left: BTreeMap<&str, Vec<u64>> = BTreeMap::new();
        for (k, v) in payload {
            left.entry(k).or_default().push(*v);
        }
        for (k, v) in m.iter() {
            let k = format!("{k:?}");
            let ok = left.get_mut(&k[..]).is_some_and(|l| l.iter().position(|x| *x == v.0).map(|i| l.swap_remove(i)).is_some());
            ensure!(ok, "the stored ({k}, {v:?}) was not supplied, or only once");
        }
        Ok(v)
    })
}

fn lying_map<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    tell(Lies::NONE);
    let n = gen_size(src, 300);
    let (mut keys, fam) = K::gen(src, n);
    let mut spec = K::spec(src, &keys, &[]);
    if spec.lie(src) {
        cx.label("wrong size hint");
    }
    if src.chance(1, 6) && !keys.is_empty() {
        let k = src.pick(&keys).clone();
        keys.push(k);
    }
    let mut probes = absent_of(&keys, K::probes(src, &keys));
    probes.truncate(30);
    probes.extend(keys.iter().cloned());
    let at_build = if src.flag() { Lies::gen(src) } else { Lies::NONE };
    let at_read = Lies::gen(src);
    let acts = src.vec(1, 16, act);
    let payload: Vec<(K, Cell)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), Cell(i as u64))).collect();
    let shown: Vec<(String, u64)> = payload.iter().map(|(k, v)| (format!("{k:?}"), v.0)).collect();
    cx.describe(|| format!("map of {} in {}, family {fam}, keys {}, building with {at_build:?}, reading with {at_read:?}, then {acts:?}", K::NAME, spec.show(), brief(&keys)));
    tell(at_build);
    let built = catch(|| K::build_map(&spec, payload));
    tell(Lies::NONE);
    let Ok(mut m) = built else {
        cx.label("map: not built");
        return Ok(());
    };
    cx.label(format!("map {:?}<{}>", spec.kind, K::NAME));
    cx.nontrivial(m.len() >= 2);
    let mut has = own(&m, &shown)?;
    let is_key = |has: &[(*const K, *const Cell)], k: *const K, v: *const Cell| has.contains(&(k, v));
    let is_val = |has: &[(*const K, *const Cell)], v: *const Cell| has.iter().any(|x| x.1 == v);
    tell(at_read);
    let (mut answers, mut panics) = (0, 0);
    for a in &acts {
        let r: Result<R, String> = catch(|| {
            let q = |k: usize| &probes[k % probes.len()];
            match a {
                Act::Lie(l) => tell(**l),
                _ if probes.is_empty() => {}
                Act::Get(k) => {
                    if let Some(v) = m.get(q(*k)) {
                        ensure!(is_val(&has, addr(v)), "get returns a reference to something else");
                        answers += 1;
                    }
                    if let Some((k, v)) = m.get_key_value(q(*k)) {
                        ensure!(is_key(&has, addr(k), addr(v)), "get_key_value returns references to something else");
                        answers += 1;
                    }
                    let _ = m.contains_key(q(*k));
                }
                Act::GetMut(k) => {
                    if let Some(v) = m.get_mut(q(*k)) {
                        ensure!(is_val(&has, addr(v)), "get_mut returns a reference to something else");
                        answers += 1;
                    }
                }
                Act::Index(k) => {
                    let v = m.index(q(*k).clone());
                    ensure!(is_val(&has, addr(v)), "indexing returns a reference to something else");
                    let v = m.index_mut(q(*k).clone());
                    ensure!(is_val(&has, addr(v)), "mutable indexing returns a reference to something else");
                    answers += 1;
                }
                Act::Many(ks) => {
                    let ask: Vec<&K> = ks.iter().map(|k| q(*k)).collect();
                    if let Some(v) = m.get_many(&ask) {
                        let a: Vec<*const Cell> = v.into_iter().map(|x| addr(x)).collect();
                        for (i, x) in a.iter().enumerate() {
                            ensure!(is_val(&has, *x), "get_many_mut returns a reference to something else");
                            ensure!(!a[..i].contains(x), "get_many_mut returns two references to one value");
                        }
                        answers += 1;
                    }
                }
                Act::Iterate => {
                    let v: Vec<_> = m.iter().map(|(k, v)| (addr(k), addr(v))).collect();
                    ensure!(v == has, "iterating goes elsewhere");
                    let v: Vec<_> = m.values().map(addr).collect();
                    ensure!(v.iter().eq(has.iter().map(|x| &x.1)), "iterating over the values goes elsewhere");
                }
                Act::Clone => {
                    let c = m.clone_box();
                    m = c;
                    has = own(&m, &shown)?;
                }
                Act::CloneFrom => {
                    let c = m.clone_box();
                    m.clone_from_dyn(&*c);
                    has = own(&m, &shown)?;
                }
                Act::Equal => {
                    let c = m.clone_box();
                    // == and != need not agree now
                    let _ = catch(|| m.equals(&*c));
                }
                _ => {}
            }
            Ok(())
        });
        match r {
            Ok(r) => honestly(|| r)?,
            Err(_) => panics += 1,
        }
    }
    tell(Lies::NONE);
    ensure!(own(&m, &shown)? == has, "the entries moved");
    cx.count("references handed out", answers);
    cx.count("panics", panics);
    Ok(())
}

fn lying_set<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    tell(Lies::NONE);
    let n = gen_size(src, 200);
    let (keys, fam) = K::gen(src, n);
    let of = |k: &Kind| !matches!(k, Kind::Hash | Kind::BTree);
    let kinds: Vec<Kind> = K::KINDS.iter().copied().filter(of).collect();
    let mut spec = K::spec(src, &keys, &kinds);
    let mut other = K::spec(src, &keys, &kinds);
    if spec.lie(src) || other.lie(src) {
        cx.label("wrong size hint");
    }
    let mut probes = K::probes(src, &keys);
    probes.truncate(30);
    probes.extend(keys.iter().cloned());
    let at_build = if src.flag() { Lies::gen(src) } else { Lies::NONE };
    let at_read = Lies::gen(src);
    let acts = src.vec(1, 12, act);
    let half: Vec<K> = keys.iter().skip(n / 3).cloned().collect();
    let half = if other.kind == Kind::Range { keys.clone() } else { half };
    cx.describe(|| format!("sets of {} in {} and {}, family {fam}, keys {}, building with {at_build:?}, reading with {at_read:?}, then {acts:?}",
        K::NAME, spec.show(), other.show(), brief(&keys)));
    tell(at_build);
    let built = catch(|| (K::any_set::<()>(&spec, keys.clone()), K::any_set::<()>(&other, half)));
    tell(Lies::NONE);
    let Ok((s, o)) = built else {
        cx.label("set: not built");
        return Ok(());
    };
    cx.label(format!("set {:?}<{}>", spec.kind, K::NAME));
    cx.nontrivial(s.0.len() >= 2);
    let gather = |s: &AnySet<K>| -> Vec<*const K> {
        let mut it = s.0.iter();
        let mut v = Vec::new();
        while let Some(x) = it.next() {
            v.push(addr(x));
        }
        v
    };
    let (mine, theirs) = (gather(&s), gather(&o));
    ensure!(mine.len() == s.0.len() && mine.len() <= n, "{} values in a set of {n}", mine.len());
    tell(at_read);
    let mut answers = 0;
    for a in &acts {
        let r: Result<R, String> = catch(|| {
            let q = |k: usize| &probes[k % probes.len()];
            match a {
                Act::Lie(l) => tell(**l),
                _ if probes.is_empty() => {}
                Act::Get(k) | Act::GetMut(k) | Act::Index(k) => {
                    if let Some(v) = s.0.get(q(*k)) {
                        ensure!(mine.contains(&addr(v)), "get returns a reference to something else");
                        answers += 1;
                    }
                    let _ = (s.0.contains(q(*k)), s.0.set_contains(q(*k)));
                }
                Act::Operate(i) => {
                    let mut it = s.0.op(OPS[*i], &o);
                    let mut n = 0;
                    let _ = it.size_hint();
                    while let Some(x) = it.next() {
                        ensure!(mine.contains(&addr(x)) || theirs.contains(&addr(x)), "{:?} yields a reference to something else", OPS[*i]);
                        n += 1;
                        ensure!(n <= mine.len() + theirs.len(), "{:?} does not end", OPS[*i]);
                        let _ = it.size_hint();
                    }
                    answers += 1;
                    let _ = s.0.operator(OPS[*i], &o);
                }
                Act::Predicates => {
                    let _ = (s.0.is_subset(&o), s.0.is_superset(&o), s.0.is_disjoint(&o));
                }
                Act::Equal => {
                    let _ = catch(|| s.0.equals_any(&o));
                    let _ = catch(|| s.0.equals(&*o.0));
                }
                Act::Iterate => {
                    ensure!(gather(&s) == mine, "iterating goes elsewhere");
                }
                Act::Consume(k) => {
                    if let Some(mut it) = s.0.clone_aset().into_iter() {
                        let mut n = 0;
                        while let Some(x) = it.next() {
                            let _ = honestly(|| format!("{x:?}"));
                            n += 1;
                            if n > k % 20 {
                                break;
                            }
                        }
                        let _ = it.all(k % ALLS.len());
                    }
                }
                Act::Clone | Act::CloneFrom => {
                    let c = AnySet(s.0.clone_aset());
                    let v = gather(&c);
                    ensure!(v.len() == mine.len() && !v.iter().any(|x| mine.contains(x)), "a clone shares values");
                    if let Some(x) = c.0.get(q(0)) {
                        ensure!(v.contains(&addr(x)), "a clone hands out a reference to something else");
                    }
                }
                Act::Many(_) => {}
            }
            Ok(())
        });
        if let Ok(r) = r {
            r?;
        }
    }
    tell(Lies::NONE);
    cx.count("references handed out", answers);
    Ok(())
}

/// A user's set that contradicts itself.
struct BadSet {
    items: Vec<u32>,
    len: usize,
    flips: StdCell<u64>,
}

#[derive(Clone, Debug)]
struct BadIter<'a> {
    items: &'a [u32],
    at: usize,
    hint: usize,
}

impl<'a> Iterator for BadIter<'a> {
    type Item = &'a u32;
    fn next(&mut self) -> Option<&'a u32> {
        self.at += 1;
        self.items.get(self.at - 1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.hint, Some(self.hint))
    }
}

impl Len for BadSet {
    fn len(&self) -> usize {
        self.len
    }
}

impl Set<u32> for BadSet {
    type Iterator<'a> = BadIter<'a>;
    fn iter(&self) -> BadIter<'_> {
        BadIter { items: &self.items, at: 0, hint: self.len }
    }
    fn contains(&self, v: &u32) -> bool {
        self.flips.set(self.flips.get().wrapping_mul(6364136223846793005).wrapping_add(u64::from(*v)));
        self.flips.get() >> 33 & 1 == 1
    }
}

fn bad_set(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 60);
    let (keys, _) = u32::gen(src, n);
    let items = src.vec(0, 12, |s| s.below(80) as u32);
    let len = match src.below(4) {
        0 => 0,
        1 => items.len(),
        2 => src.idx(100),
        _ => usize::MAX,
    };
    cx.describe(|| format!("a set of {} with a set that claims to have {len} and yields {items:?}", brief(&keys)));
    cx.label("contradictory set");
    let s: FrozenSet<u32, Bh> = FrozenSet::from_vec_with_hasher(keys.clone(), Bh::good(1));
    let b = BadSet { items, len, flips: StdCell::new(src.below(1000)) };
    let limit = keys.len() + b.items.len();
    let go = |what: &str, it: &mut dyn Iterator<Item = &u32>| -> R {
        let mut n = 0;
        loop {
            let _ = catch(|| it.size_hint());
            match it.next() {
                None => return Ok(()),
                Some(x) => {
                    ensure!(Set::iter(&s).any(|y| addr(x) == addr(y)) || b.items.iter().any(|y| addr(x) == addr(y)), "{what} yields a reference to something else");
                    n += 1;
                    ensure!(n <= limit, "{what} does not end");
                }
            }
        }
    };
    go("union", &mut s.union(&b))?;
    go("union", &mut b.union(&s))?;
    go("intersection", &mut s.intersection(&b))?;
    go("intersection", &mut b.intersection(&s))?;
    go("difference", &mut s.difference(&b))?;
    go("difference", &mut b.difference(&s))?;
    go("symmetric difference", &mut s.symmetric_difference(&b))?;
    go("symmetric difference", &mut b.symmetric_difference(&s))?;
    let _ = (s.is_subset(&b), s.is_superset(&b), s.is_disjoint(&b), b.is_subset(&s), b.is_superset(&s), b.is_disjoint(&s));
    cx.nontrivial(!keys.is_empty());
    Ok(())
}

/// Keys of a type that goes by the name of the standard library's.
fn impostor(src: &mut Src, cx: &mut Cx) -> R {
    use not_alloc::string::String as Fake;
    let n = gen_size(src, 300);
    let (ids, _) = u64::gen(src, n);
    let ctor = Ctor::gen(src);
    let bh = Bh::gen(src);
    let keys: Vec<Fake> = ids.iter().map(|i| Fake(*i, i % 2 == 0)).collect();
    cx.describe(|| format!("keys of a type named {}: {} via {ctor:?}", std::any::type_name::<Fake>(), brief(&keys)));
    cx.label("impostor");
    let m = vh::maps::frozen(ctor, bh, keys.iter().cloned().zip(0u64..).collect::<Vec<_>>());
    let s = vh::sets::reads::frozen(ctor, bh, keys.clone());
    for (i, k) in keys.iter().enumerate() {
        ensure!(m.get(k) == Some(&(i as u64)), "get({k:?}) is {:?}, not {i}", m.get(k));
        ensure!(s.contains(k), "contains({k:?}) is false");
    }
    ensure!(m.get(&Fake(12345, false)).is_none() || ids.contains(&12345), "an absent key is found");
    cx.nontrivial(n >= 4);
    Ok(())
}

/// Slices that do not exist: constructing and hashing with them panics or works, and reads nothing else.
fn wild_ranges(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 40);
    let mut bound = |src: &mut Src| -> usize {
        match src.below(4) {
            0 => src.idx(6),
            1 => src.idx(40),
            2 => usize::MAX - src.idx(3),
            _ => src.any_u64() as usize,
        }
    };
    let range: Range<usize> = bound(src)..bound(src);
    let left = src.flag();
    let word = src.flag();
    cx.label("wild ranges");
    cx.nontrivial(n >= 2);
    let kind = if left { Kind::Left } else { Kind::Right };
    if word {
        let (keys, fam) = Word::gen(src, n);
        wild(src, cx, keys, fam, kind, range)
    } else {
        let (keys, fam) = String::gen(src, n);
        wild(src, cx, keys, fam, kind, range)
    }
}

fn wild<K: Family>(src: &mut Src, cx: &mut Cx, keys: Vec<K>, fam: &str, kind: Kind, range: Range<usize>) -> R {
    let mut spec = K::spec(src, &keys, &[kind]);
    spec.range = range.clone();
    cx.describe(|| format!("{} keys in {}, family {fam}, keys {}", K::NAME, spec.show(), brief(&keys)));
    let probes = absent_of(&keys, K::probes(src, &keys));
    let payload: Vec<(K, Cell)> = keys.iter().cloned().zip((0..).map(Cell)).collect();
    let set = keys.clone();
    let Ok(m) = catch(|| K::build_map(&spec, payload)) else {
        cx.label("wild ranges: rejected");
        let _ = catch(|| K::build_set::<()>(&spec, set));
        return Ok(());
    };
    for (i, k) in keys.iter().enumerate() {
        ensure!(m.get(k) == Some(&Cell(i as u64)), "get({k:?}) is {:?}, not {i}", m.get(k));
    }
    for k in &probes {
        ensure!(catch(|| m.get(k).is_none()).unwrap_or(true), "get({k:?}) is {:?}", m.get(k));
    }
    let s = K::build_set::<()>(&spec, set);
    for k in &keys {
        ensure!(s.contains(k), "contains({k:?}) is false");
    }
    Ok(())
}

/// The slice hash of any range.
fn wild_hash(src: &mut Src, cx: &mut Cx) -> R {
    let bytes = src.vec(0, 24, |s| s.below(128) as u8);
    let mut bound = |src: &mut Src| if src.flag() { src.idx(30) } else { src.any_u64() as usize };
    let range = bound(src)..bound(src);
    cx.describe(|| format!("hash {range:?} of {bytes:?}"));
    cx.label("wild hash");
    cx.nontrivial(!bytes.is_empty());
    let text = String::from_utf8(bytes.clone()).unwrap();
    let valid = range.start <= range.end && range.end <= bytes.len();
    let bh = Bh::good(1);
    for (what, r) in [
        ("String", catch(|| SliceHash::hash(&text, &bh, range.clone()))),
        ("[u8]", catch(|| SliceHash::hash(&bytes[..], &bh, range.clone()))),
        ("Bytes", catch(|| SliceHash::hash(&Bytes(bytes.clone()), &bh, range.clone()))),
    ] {
        ensure!(r.is_ok() == valid, "hashing {range:?} of a {what} of {} bytes {}", bytes.len(), if r.is_ok() { "is accepted" } else { "panics" });
    }
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    tell(Lies::NONE);
    let by = Bystander::new();
    let r = match src.weighted(&[12, 6, 8, 4, 2, 2, 4, 2]) {
        0 => lying_map::<Liar>(src, cx),
        1 => lying_map::<OddInt>(src, cx),
        2 => lying_set::<Liar>(src, cx),
        3 => lying_set::<OddInt>(src, cx),
        4 => bad_set(src, cx),
        5 => impostor(src, cx),
        6 => wild_ranges(src, cx),
        _ => wild_hash(src, cx),
    };
    tell(Lies::NONE);
    r?;
    by.check()
}

fn main() -> ExitCode {
    vh::engine::main(Prop { id: "C13", rule: "a collection of at least two entries was built and used; distinct by the choices drawn", run })
}
