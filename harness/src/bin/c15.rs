//! C15: repeated keys never invent associations.

use std::collections::BTreeMap;
use std::process::ExitCode;
use vh::checks::absent_of;
use vh::engine::{catch, Cx, Prop, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, Word};
use vh::gen::brief;
use vh::keys::{gen_size, Tagged, HUGE_A, HUGE_B, RARE};
use vh::maps::Cell;

/// A list in which values repeat, by one of several patterns.
fn repeat<K: Family>(src: &mut Src, keys: &[K]) -> (Vec<K>, &'static str) {
    let m = keys.len();
    if m == 0 {
        return (Vec::new(), "empty");
    }
    let mut out = keys.to_vec();
    let how = match src.weighted(&[4, 2, 3, 2, 2, 1]) {
        // a few repeats
        0 => {
            for _ in 0..src.urange(1, 4) {
                let k = src.pick(keys).alias();
                let at = src.urange(0, out.len());
                out.insert(at, k);
            }
            "few"
        }
        // everything twice
        1 => {
            out.extend(keys.iter().map(K::alias));
            "twice"
        }
        // one of them many times
        2 => {
            let k = src.pick(keys).alias();
            let times = src.biased(1, 300, &[1, 2, 3, 16, 100, 254, 255, 256]) as usize;
            out.extend((0..times).map(|_| k.clone()));
            "one often"
        }
        // one removed, another doubled: as many as there would be without repeats
        3 => {
            if m >= 2 {
                let gone = src.idx(m);
                let again = (gone + 1 + src.idx(m - 1)) % m;
                out[gone] = out[again].alias();
            }
            "replaced"
        }
        // the same key throughout
        4 => {
            for k in &mut out {
                *k = keys[0].alias();
            }
            "all alike"
        }
        // drawn at random
        _ => {
            let mut rng = src.bulk();
            for k in &mut out {
                *k = keys[rng.upto(m as u64 - 1) as usize].clone();
            }
            "drawn"
        }
    };
    if src.flag() {
        src.reorder(&mut out);
    }
    (out, how)
}

const KINDS: [Kind; 8] =
    [Kind::Frozen, Kind::Common, Kind::Left, Kind::Right, Kind::Length, Kind::Integer, Kind::Range, Kind::Scanning];

/// Keys that repeat, and a way to build a collection of them.
fn given<K: Family>(src: &mut Src, max: usize) -> (Vec<K>, vh::family::Spec, String) {
    let n = gen_size(src, max);
    let (distinct, fam) = K::gen(src, n);
    let (list, how) = repeat(src, &distinct);
    let mut spec = K::spec(src, &list, if list.len() > 5000 { &KINDS[..2] } else { &KINDS });
    if K::KINDS.contains(&Kind::Range) && src.chance(1, 4) {
        spec.kind = Kind::Range;
    }
    if list.len() as u64 > spec.cap.max() {
        spec.cap = vh::maps::Cap::Usize;
    }
    (list, spec, format!("{fam}, {how}"))
}

fn maps<K: Family>(src: &mut Src, cx: &mut Cx, max: usize) -> R {
    let (list, spec, how) = given::<K>(src, max);
    let payload: Vec<(K, Cell)> = list.into_iter().enumerate().map(|(i, k)| (k, Cell(i as u64 * 3 + 1))).collect();
    let mut supplied: BTreeMap<K, Vec<(K, u64)>> = BTreeMap::new();
    for (k, v) in &payload {
        supplied.entry(k.clone()).or_default().push((k.clone(), v.0));
    }
    let keys: Vec<K> = supplied.keys().cloned().collect();
    let probes = K::probes(src, &keys);
    let absent = absent_of(&keys, probes);
    cx.describe(|| format!("map of {} in {}, family {how}, payload {}", K::NAME, spec.show(), brief(&payload)));
    cx.label(format!("map {:?}<{}>", spec.kind, K::NAME));
    let repeated = payload.len() > keys.len();
    let mut m = if spec.kind == Kind::Range {
        match catch(|| K::build_map(&spec, payload.clone())) {
            Ok(m) => m,
            Err(_) => {
                // refusing is fine unless the keys are as they should be
                ensure!(repeated || !K::contiguous(&keys), "building panics for distinct contiguous keys");
                cx.label("refused");
                return Ok(());
            }
        }
    } else {
        K::build_map(&spec, payload.clone())
    };
    cx.nontrivial(repeated && keys.len() >= 2);

    for k in absent.iter() {
        ensure!(m.get(k).is_none(), "get({k:?}) is {:?} for an absent key", m.get(k));
        ensure!(m.get_key_value(k).is_none(), "get_key_value({k:?}) is {:?} for an absent key", m.get_key_value(k));
        ensure!(!m.contains_key(k), "contains_key({k:?}) is true for an absent key");
        ensure!(m.get_mut(k).is_none(), "get_mut({k:?}) is {:?} for an absent key", m.get_mut(k));
        ensure!(m.get_many(&[k]).is_none(), "get_many_mut([{k:?}]) gives a value for an absent key");
    }
    if let Some(k) = absent.first() {
        ensure!(catch(|| m.index(k.clone()).clone()).is_err(), "indexing with the absent {k:?} does not panic");
    }
    let step = (keys.len() / 100).max(1);
    let some: Vec<&K> = keys.iter().step_by(step).collect();
    for (i, k) in some.iter().enumerate() {
        let of = &supplied[*k];
        let fits = |v: &Cell| of.iter().any(|(_, w)| *w == v.0);
        let Some(v) = m.get(k).cloned() else {
            return Err(format!("get({k:?}) is None, but the key was supplied {} times", of.len()));
        };
        ensure!(fits(&v), "get({k:?}) is {v:?}, which was not supplied for it, but {of:?}");
        match m.get_key_value(k) {
            Some((k2, v2)) => {
                ensure!(*v2 == v, "get_key_value({k:?}) gives {v2:?}, get gives {v:?}");
                ensure!(of.iter().any(|(o, _)| o.same(k2)), "get_key_value({k:?}) gives the key {k2:?}, which was not supplied");
            }
            None => return Err(format!("get_key_value({k:?}) is None, get gives {v:?}")),
        }
        ensure!(m.contains_key(k), "contains_key({k:?}) is false, get gives {v:?}");
        ensure!(*m.index((*k).clone()) == v, "[{k:?}] is {:?}, get gives {v:?}", m.index((*k).clone()));
        ensure!(m.get_mut(k).is_some_and(|x| *x == v), "get_mut({k:?}) gives another than get, {v:?}");
        ensure!(*m.index_mut((*k).clone()) == v, "mutable [{k:?}] gives another than get, {v:?}");
        match m.get_many(&[k]) {
            Some(x) => ensure!(*x[0] == v, "get_many_mut([{k:?}]) gives {:?}, get gives {v:?}", x[0]),
            None => return Err(format!("get_many_mut([{k:?}]) is None, get gives {v:?}")),
        }
        // what is written is what is read
        if i < 20 {
            let new = Cell(1_000_000 + i as u64);
            match i % 3 {
                0 => *m.get_mut(k).ok_or("get_mut lost the key")? = new.clone(),
                1 => *m.index_mut((*k).clone()) = new.clone(),
                _ => *m.get_many(&[k]).ok_or("get_many_mut lost the key")?[0] = new.clone(),
            }
            ensure!(m.get(k) == Some(&new), "after writing {new:?}, get({k:?}) is {:?}", m.get(k));
            ensure!(*m.index((*k).clone()) == new, "after writing {new:?}, [{k:?}] is {:?}", m.index((*k).clone()));
            ensure!(m.get_key_value(k).map(|x| x.1) == Some(&new), "after writing {new:?}, get_key_value({k:?}) is {:?}", m.get_key_value(k));
            ensure!(m.get_mut(k).as_deref() == Some(&new), "after writing {new:?}, get_mut({k:?}) finds another value");
            ensure!(m.get_many(&[k]).is_some_and(|x| *x[0] == new), "after writing {new:?}, get_many_mut([{k:?}]) finds another value");
            *m.get_mut(k).ok_or("get_mut lost the key")? = v;
        }
    }
    if some.len() >= 2 {
        let (a, b) = (src.idx(some.len()), src.idx(some.len()));
        let (va, vb) = (m.get(some[a]).cloned(), m.get(some[b]).cloned());
        let both = m.get_many(&[some[a], some[b]]);
        if a == b {
            ensure!(both.is_none(), "get_many_mut([{0:?}, {0:?}]) gives two references", some[a]);
        } else {
            let both: Option<Vec<Cell>> = both.map(|x| x.into_iter().map(|c| c.clone()).collect());
            ensure!(both.is_some(), "get_many_mut([{:?}, {:?}]) is None, but get finds both", some[a], some[b]);
            let both = both.unwrap();
            ensure!(Some(&both[0]) == va.as_ref() && Some(&both[1]) == vb.as_ref(), "get_many_mut([{:?}, {:?}]) gives {both:?}, get gives {va:?} and {vb:?}", some[a], some[b]);
        }
    }
    Ok(())
}

fn sets<K: Family>(src: &mut Src, cx: &mut Cx, max: usize) -> R {
    let (list, spec, how) = given::<K>(src, max);
    let mut supplied: BTreeMap<K, Vec<K>> = BTreeMap::new();
    for k in &list {
        supplied.entry(k.clone()).or_default().push(k.clone());
    }
    let keys: Vec<K> = supplied.keys().cloned().collect();
    let probes = K::probes(src, &keys);
    let absent = absent_of(&keys, probes);
    cx.describe(|| format!("set of {} in {}, family {how}, values {}", K::NAME, spec.show(), brief(&list)));
    cx.label(format!("set {:?}<{}>", spec.kind, K::NAME));
    let repeated = list.len() > keys.len();
    let s = if spec.kind == Kind::Range {
        match catch(|| K::build_set::<()>(&spec, list.clone())) {
            Ok(m) => m,
            Err(_) => {
                ensure!(repeated || !K::contiguous(&keys), "building panics for distinct contiguous values");
                cx.label("refused");
                return Ok(());
            }
        }
    } else {
        K::build_set::<()>(&spec, list.clone())
    };
    cx.nontrivial(repeated && keys.len() >= 2);
    for k in &absent {
        ensure!(s.get(k).is_none(), "get({k:?}) is {:?} for an absent value", s.get(k));
        ensure!(!s.contains(k), "contains({k:?}) is true for an absent value");
        ensure!(!s.set_contains(k), "Set::contains({k:?}) is true for an absent value");
    }
    let step = (keys.len() / 100).max(1);
    for k in keys.iter().step_by(step) {
        let of = &supplied[k];
        match s.get(k) {
            Some(x) => ensure!(of.iter().any(|o| o.same(x)), "get({k:?}) is {x:?}, which was not supplied"),
            None => return Err(format!("get({k:?}) is None, but the value was supplied {} times", of.len())),
        }
        ensure!(s.contains(k), "contains({k:?}) is false, but the value was supplied");
        ensure!(s.set_contains(k), "Set::contains({k:?}) is false, but the value was supplied");
    }
    Ok(())
}

macro_rules! either {
    ($src:expr, $cx:expr, $K:ty, $max:expr) => {
        if $src.chance(2, 3) { maps::<$K>($src, $cx, $max) } else { sets::<$K>($src, $cx, $max) }
    };
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    if src.chance(1, RARE) {
        cx.label("huge");
        let max = *src.pick(&[HUGE_A, HUGE_B]);
        return match src.weighted(&[2, 2, 1]) {
            0 => either!(src, cx, u32, max),
            1 => either!(src, cx, String, max),
            _ => either!(src, cx, Tagged, max),
        };
    }
    match src.weighted(&[8, 12, 3, 3, 3, 2, 2, 2]) {
        0 => either!(src, cx, u32, 600),
        1 => either!(src, cx, String, 600),
        2 => either!(src, cx, Word, 400),
        3 => either!(src, cx, Tagged, 600),
        4 => either!(src, cx, i8, 256),
        5 => either!(src, cx, u64, 600),
        6 => either!(src, cx, i128, 300),
        _ => either!(src, cx, u8, 256),
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop {
        id: "C15",
        rule: "a payload with repeats and at least two different keys was built and read; distinct by the choices drawn",
        run,
    })
}
