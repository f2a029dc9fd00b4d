//! C11: value updates hit exactly one entry and clones are independent.

use std::collections::BTreeMap;
use std::process::ExitCode;
use vh::checks::absent_of;
use vh::engine::{Cx, Prop, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, Spec};
use vh::gen::{brief, split};
use vh::keys::gen_size;
use vh::maps::{Cell, DMap, MANY};
use vh::with_key;

#[derive(Clone, Debug)]
enum Step {
    GetMut(usize, usize, u64),
    IndexMut(usize, usize, u64),
    Many(usize, Vec<usize>, u64),
    /// Look a key up mutably, present or not, without writing.
    Look(usize, usize),
    GetAbsent(usize, usize),
    Read(usize, usize),
    Iterate(usize),
    Clone(usize),
    CloneFrom(usize, usize),
    Drop(usize),
    Compare(usize, usize),
}

fn step(src: &mut Src) -> Step {
    let m = src.idx(4);
    let k = src.idx(1 << 16);
    match src.weighted(&[5, 3, 3, 2, 2, 2, 1, 3, 2, 1, 1]) {
        0 => Step::GetMut(m, k, src.below(1000)),
        1 => Step::IndexMut(m, k, src.below(1000)),
        2 => {
            let n = MANY[src.idx(7)];
            let ks = (0..n).map(|_| src.idx(1 << 16)).collect();
            Step::Many(m, ks, src.below(1000))
        }
        3 => Step::Look(m, k),
        4 => Step::GetAbsent(m, k),
        5 => Step::Read(m, k),
        6 => Step::Iterate(m),
        7 => Step::Clone(m),
        8 => Step::CloneFrom(m, src.idx(4)),
        9 => Step::Drop(m),
        _ => Step::Compare(m, src.idx(4)),
    }
}

struct Live<K> {
    map: DMap<K, K, Cell>,
    model: BTreeMap<K, Cell>,
    order: Vec<K>,
}

fn check<K: Family>(l: &Live<K>, which: usize, after: &Step) -> R {
    ensure!(l.map.len() == l.model.len(), "after {after:?}, map {which} has length {}", l.map.len());
    let mut n = 0;
    for ((k, v), want) in l.map.iter().zip(&l.order) {
        ensure!(k.same(want), "after {after:?}, map {which} goes over {k:?} where it went over {want:?}");
        ensure!(*v == l.model[k], "after {after:?}, map {which} has {v:?} for {k:?}, not {:?}", l.model[k]);
        n += 1;
    }
    ensure!(n == l.order.len(), "after {after:?}, map {which} goes over {n} of {} entries", l.order.len());
    Ok(())
}

/// The way to build, if it suits these keys.
fn fitting<K: Family>(mut spec: Spec, keys: &[K]) -> Spec {
    if spec.kind == Kind::Range && !K::contiguous(keys) {
        spec.kind = Kind::Scanning;
    }
    spec
}

/// Every lookup of the map agrees with its model.
fn lookups<K: Family>(l: &Live<K>, keys: &[K], absent: &[K], after: &str) -> R {
    for k in keys.iter().chain(absent.iter().take(20)) {
        let (got, want) = (l.map.get_key_value(k), l.model.get_key_value(k));
        ensure!(got == want, "after {after}, get_key_value({k:?}) is {got:?}, not {want:?}");
    }
    Ok(())
}

fn case<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 400);
    let (keys, fam) = K::gen(src, n);
    let n = keys.len();
    let spec = K::spec(src, &keys, &[]);
    let absent = absent_of(&keys, K::probes(src, &keys));
    // a second map to clone into: a part of the first, or one with other keys
    let (mine, others) = if src.flag() {
        let (a, b, _) = split(src, &keys);
        (a, b)
    } else {
        (keys.clone(), keys[..n / 2].to_vec())
    };
    let spec = fitting(spec, &mine);
    let payload: Vec<(K, Cell)> = mine.iter().enumerate().map(|(i, k)| (k.clone(), Cell(5000 + i as u64))).collect();
    let steps = src.vec(1, 24, step);
    cx.describe(|| format!("{} keys in {}, family {fam}, keys {}, another of {}, then {steps:?}", K::NAME, spec.show(), brief(&mine), brief(&others)));
    cx.label(format!("{:?}", spec.kind));
    let model: BTreeMap<K, Cell> = payload.iter().cloned().collect();
    let map = K::build_map(&spec, payload.clone());
    let order: Vec<K> = map.iter().map(|x| x.0.clone()).collect();
    let mut live = vec![Live { map, model, order }];
    let other: Vec<(K, Cell)> = others.iter().enumerate().map(|(i, k)| (k.clone(), Cell(7000 + i as u64))).collect();
    let spare = fitting(spec.sibling(src, K::lengths(&keys)), &others);
    let map = K::build_map(&spare, other.clone());
    let order = map.iter().map(|x| x.0.clone()).collect();
    live.push(Live { map, model: other.into_iter().collect(), order });

    let mut writes = 0;
    for s in &steps {
        let at = |m: usize| m % live.len();
        match s {
            Step::GetMut(m, k, v) if n > 0 => {
                let l = at(*m);
                let l = &mut live[l];
                let k = &keys[k % n];
                let got = l.map.get_mut(&k.alias());
                ensure!(got.is_some() == l.model.contains_key(k), "get_mut({k:?}) is {got:?}");
                if let Some(x) = got {
                    *x = Cell(*v);
                    l.model.insert(k.clone(), Cell(*v));
                    writes += 1;
                }
            }
            Step::IndexMut(m, k, v) if n > 0 => {
                let l = at(*m);
                let l = &mut live[l];
                let k = &keys[k % n];
                if l.model.contains_key(k) {
                    *l.map.index_mut(k.alias()) = Cell(*v);
                    l.model.insert(k.clone(), Cell(*v));
                    writes += 1;
                }
            }
            Step::Many(m, ks, v) if n > 0 => {
                let l = at(*m);
                let l = &mut live[l];
                let mut ask: Vec<&K> = Vec::new();
                for k in ks {
                    let k = &keys[k % n];
                    if l.model.contains_key(k) && !ask.contains(&k) {
                        ask.push(k);
                    }
                }
                while !MANY.contains(&ask.len()) {
                    ask.pop();
                }
                let Some(got) = l.map.get_many(&ask) else { vh::fail!("asking for {ask:?} yields nothing") };
                for (i, x) in got.into_iter().enumerate() {
                    *x = Cell(v + i as u64);
                    l.model.insert(ask[i].clone(), Cell(v + i as u64));
                    writes += 1;
                }
            }
            Step::Look(m, k) if n > 0 => {
                let l = at(*m);
                let l = &mut live[l];
                let k = &keys[k % n];
                let got = l.map.get_mut(k).map(|x| x.clone());
                ensure!(got.as_ref() == l.model.get(k), "get_mut({k:?}) is {got:?}, not {:?}", l.model.get(k));
            }
            Step::GetAbsent(m, k) if !absent.is_empty() => {
                let l = at(*m);
                let k = &absent[k % absent.len()];
                ensure!(live[l].map.get_mut(k).is_none(), "get_mut({k:?}) is something");
                ensure!(live[l].map.get_many(&[k]).is_none(), "asking for the absent {k:?} yields something");
            }
            Step::Read(m, k) if n > 0 => {
                let l = &live[at(*m)];
                let k = &keys[k % n];
                ensure!(l.map.get(k) == l.model.get(k), "get({k:?}) is {:?}, not {:?}", l.map.get(k), l.model.get(k));
                ensure!(l.map.contains_key(k) == l.model.contains_key(k), "contains_key({k:?}) is wrong");
                let kv = l.map.get_key_value(k);
                ensure!(kv == l.model.get_key_value(k), "get_key_value({k:?}) is {kv:?}");
            }
            Step::Iterate(m) => {
                let l = &live[at(*m)];
                let v: Vec<&Cell> = l.map.values().collect();
                let w: Vec<&Cell> = l.order.iter().map(|k| &l.model[k]).collect();
                ensure!(v == w, "the values are {}, not {}", brief(&v), brief(&w));
            }
            Step::Clone(m) if live.len() < 4 => {
                let l = &live[at(*m)];
                let map = l.map.clone_box();
                let order: Vec<K> = map.iter().map(|x| x.0.clone()).collect();
                let model = l.model.clone();
                live.push(Live { map, model, order });
                lookups(&live[live.len() - 1], &keys, &absent, "cloning")?;
            }
            Step::CloneFrom(m, f) => {
                let (m, f) = (at(*m), at(*f));
                if m != f {
                    let (model, from) = (live[f].model.clone(), std::mem::replace(&mut live[f].map, K::build_map(&spare_spec(&spec), Vec::new())));
                    let ok = live[m].map.clone_from_dyn(&*from);
                    live[f].map = from;
                    if ok {
                        live[m].model = model;
                        live[m].order = live[m].map.iter().map(|x| x.0.clone()).collect();
                        lookups(&live[m], &keys, &absent, "cloning over it")?;
                    }
                }
            }
            Step::Drop(m) if live.len() > 1 => {
                let l = at(*m);
                live.swap_remove(l);
            }
            Step::Compare(a, b) => {
                let (a, b) = (&live[at(*a)], &live[at(*b)]);
                if let Some(e) = a.map.equals(&*b.map) {
                    ensure!(e == (a.model == b.model), "comparing equal is {e}");
                }
            }
            _ => {}
        }
        for (i, l) in live.iter().enumerate() {
            check(l, i, s)?;
        }
    }
    for l in &live {
        lookups(l, &keys, &absent, "all that")?;
    }
    cx.nontrivial(n >= 2 && writes > 0);
    cx.count("writes", writes);
    Ok(())
}

fn spare_spec(s: &vh::family::Spec) -> vh::family::Spec {
    vh::family::Spec { kind: vh::family::Kind::Scanning, ..s.clone() }
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    with_key!(src, K => case::<K>(src, cx))
}

fn main() -> ExitCode {
    vh::engine::main(Prop { id: "C11", rule: "at least two entries and at least one write; distinct by the choices drawn", run })
}
