//! C25: an operation that panics, is refused or finds nothing leaves every collection as it was, and usable.

use std::process::ExitCode;
use vh::engine::{catch, forget_panic, Cx, Prop, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, Spec};
use vh::iters::Dyn;
use vh::keys::{gen_size, gen_strings};
use vh::maps::{DMap, MANY};
use vh::sets::{AnySet, Op, OPS};
use vh::tokens::{self, Payload, Tok};

#[derive(Clone, Debug)]
enum Step {
    Get(usize),
    GetKeyValue(usize),
    Contains(usize),
    Index(usize),
    GetMut(usize, u64),
    IndexMut(usize, u64),
    Many(Vec<usize>, u64),
    Clone,
    CloneFrom,
    Equal,
    Debug,
    Iterate(usize),
    Operate(Op),
    Operator(Op),
    Relate,
}

fn gen_step(src: &mut Src) -> (Step, u64) {
    let k = src.idx(1 << 12);
    let v = 1000 + src.below(1000);
    let s = match src.weighted(&[3, 2, 2, 3, 5, 4, 5, 2, 1, 3, 1, 1, 3, 2, 2]) {
        0 => Step::Get(k),
        1 => Step::GetKeyValue(k),
        2 => Step::Contains(k),
        3 => Step::Index(k),
        4 => Step::GetMut(k, v),
        5 => Step::IndexMut(k, v),
        6 => {
            let n = MANY[src.idx(7)];
            Step::Many((0..n).map(|_| src.idx(1 << 12)).collect(), v)
        }
        7 => Step::Clone,
        8 => Step::CloneFrom,
        9 => Step::Equal,
        10 => Step::Debug,
        11 => Step::Iterate(k),
        12 => Step::Operate(OPS[src.idx(4)]),
        13 => Step::Operator(OPS[src.idx(4)]),
        _ => Step::Relate,
    };
    // which of the calls to the user's code panics: 0 for none
    let at = if src.chance(1, 3) { 0 } else { 1 + src.biased(0, 400, &[0, 1, 2, 3, 4, 5, 6]) };
    (s, at)
}

/// What can be asked for: keys that are there and ones that are not.
struct Ask<'a, K> {
    keys: &'a [K],
    absent: &'a [K],
}

impl<K> Ask<'_, K> {
    /// The key of this number, and where it is among those there.
    fn key(&self, k: usize) -> Option<(&K, Option<usize>)> {
        let (n, a) = (self.keys.len(), self.absent.len());
        if n > 0 && (k % 4 != 0 || a == 0) {
            Some((&self.keys[k / 4 % n], Some(k / 4 % n)))
        } else if a > 0 {
            Some((&self.absent[k / 4 % a], None))
        } else {
            None
        }
    }
}

#[derive(Default)]
struct Seen {
    panicked: usize,
    refused: usize,
}

/// What a map goes over: where its entries' keys are among the keys supplied, and their values.
fn shoot<K: Family>(m: &DMap<K, K, Payload>) -> Vec<(*const K, u64)> {
    m.iter().map(|(k, v)| (std::ptr::from_ref(k), **v.n)).collect()
}

fn map_case<K: Family>(a: &Ask<K>, spec: &Spec, steps: &[(Step, u64)], fresh: &dyn Fn(&K) -> K, seen: &mut Seen) -> R {
    let n = a.keys.len();
    let payload = |by: u64| -> Vec<(K, Payload)> { a.keys.iter().enumerate().map(|(i, k)| (fresh(k), Payload::new(i as u64 + by))).collect() };
    let mut m = K::build_map(spec, payload(0));
    let twin = K::build_map(spec, payload(0));
    let mut spare = K::build_map(spec, payload(0));
    let mut values: Vec<u64> = (0..n as u64).collect();
    // the order is taken once
    let order: Vec<usize> = m.iter().map(|(_, v)| **v.n as usize).collect();
    ensure!(order.len() == n, "{} entries of {n} gone over", order.len());
    let twins = shoot(&twin);
    let mut shot = shoot(&m);
    for (s, at) in steps {
        let before = values.clone();
        tokens::fuse(*at);
        let r = catch(|| -> Result<bool, String> {
            Ok(match s {
                Step::Get(k) => match a.key(*k) {
                    Some((key, i)) => {
                        let got = m.get(key).map(|v| **v.n);
                        ensure!(got == i.map(|i| values[i]), "get({key:?}) is {got:?}");
                        i.is_none()
                    }
                    None => false,
                },
                Step::GetKeyValue(k) => match a.key(*k) {
                    Some((key, i)) => {
                        let got = m.get_key_value(key).map(|v| **v.1.n);
                        ensure!(got == i.map(|i| values[i]), "get_key_value({key:?}) is {got:?}");
                        i.is_none()
                    }
                    None => false,
                },
                Step::Contains(k) => match a.key(*k) {
                    Some((key, i)) => {
                        let got = m.contains_key(key);
                        ensure!(got == i.is_some(), "contains_key({key:?}) is {got}");
                        i.is_none()
                    }
                    None => false,
                },
                Step::Index(k) => match a.key(*k) {
                    Some((key, i)) => {
                        let got = **m.index(fresh(key)).n;
                        ensure!(Some(got) == i.map(|i| values[i]), "[{key:?}] is {got}");
                        false
                    }
                    None => false,
                },
                Step::GetMut(k, v) => match a.key(*k) {
                    Some((key, i)) => {
                        let got = m.get_mut(key);
                        ensure!(got.is_some() == i.is_some(), "get_mut({key:?}) finds {:?}", got.map(|v| **v.n));
                        if let (Some(got), Some(i)) = (got, i) {
                            **got.n = *v;
                            values[i] = *v;
                        }
                        i.is_none()
                    }
                    None => false,
                },
                Step::IndexMut(k, v) => match a.key(*k) {
                    Some((key, i)) => {
                        let got = m.index_mut(fresh(key));
                        **got.n = *v;
                        let Some(i) = i else { return Err(format!("[{key:?}] is there")) };
                        values[i] = *v;
                        false
                    }
                    None => false,
                },
                Step::Many(ks, v) => {
                    let found: Option<Vec<(&K, Option<usize>)>> = ks.iter().map(|k| a.key(*k)).collect();
                    let Some(found) = found else { return Ok(false) };
                    let keys: Vec<&K> = found.iter().map(|f| f.0).collect();
                    let got = m.get_many(&keys);
                    let mut at: Vec<usize> = found.iter().filter_map(|f| f.1).collect();
                    at.sort_unstable();
                    at.dedup();
                    ensure!(got.is_some() == (at.len() == ks.len()), "get_many_mut({keys:?}) gives {}", got.is_some());
                    match got {
                        Some(refs) => {
                            for (j, (r, f)) in refs.into_iter().zip(&found).enumerate() {
                                **r.n = v + j as u64;
                                values[f.1.unwrap()] = v + j as u64;
                            }
                            false
                        }
                        None => true,
                    }
                }
                Step::Clone => {
                    let c = m.clone_box();
                    let cloned: Vec<u64> = c.iter().map(|x| **x.1.n).collect();
                    let wanted: Vec<u64> = order.iter().map(|i| values[*i]).collect();
                    ensure!(cloned == wanted, "the clone holds {cloned:?}, not {wanted:?}");
                    false
                }
                Step::CloneFrom => {
                    spare.clone_from_dyn(&*m);
                    false
                }
                Step::Equal => {
                    let want = values.iter().copied().eq(0..n as u64);
                    let same = (m.equals(&*twin), twin.equals(&*m));
                    ensure!(same == (Some(want), Some(want)), "equality with the map first built is {same:?}, not {want}");
                    false
                }
                Step::Debug => {
                    let _ = m.debug(*at % 2 == 0);
                    false
                }
                Step::Iterate(k) => {
                    let copies = m.iter().skip(k % (n + 1)).map(|x| x.1.clone()).collect::<Vec<_>>();
                    ensure!(copies.len() == n - k % (n + 1), "{} items after {}", copies.len(), k % (n + 1));
                    false
                }
                _ => false,
            })
        });
        tokens::fuse(0);
        match r {
            Ok(r) => seen.refused += usize::from(r?),
            Err(_) => {
                seen.panicked += 1;
                values = before;
            }
        }
        let (was, what) = (seen.panicked + seen.refused > 0, format!("after {s:?} (call {at} to panic)"));
        // the entries, as gone over
        let now = shoot(&m);
        ensure!(now.len() == n && m.len() == n && m.is_empty() == (n == 0), "{what}, {} entries are gone over, of {n}, with len {}", now.len(), m.len());
        for (j, (x, i)) in now.iter().zip(&order).enumerate() {
            ensure!(x.1 == values[*i], "{what}, entry {j}, of key {:?}, has {} and not {}", a.keys[*i], x.1, values[*i]);
            if x.0 != shot[j].0 {
                // SAFETY: points to a key of the map, which is alive
                let k = unsafe { &*x.0 };
                ensure!(k.same(&a.keys[*i]), "{what}, entry {j} has key {k:?} and not {:?}", a.keys[*i]);
            }
        }
        shot = now;
        ensure!(shoot(&twin) == twins, "{what}, the other map was changed");
        if was {
            lookups(a, &m, &values, &what)?;
        }
    }
    for (j, (k, _)) in m.iter().enumerate() {
        ensure!(k.same(&a.keys[order[j]]), "in the end, entry {j} has key {k:?} and not {:?}", a.keys[order[j]]);
    }
    let c = m.clone_box();
    ensure!(c.equals(&*m) == Some(true), "in the end, the map differs from its clone");
    Ok(())
}

/// Finding each key, or a good number of them, without a fault.
fn lookups<K: Family>(a: &Ask<K>, m: &DMap<K, K, Payload>, values: &[u64], what: &str) -> R {
    let step = 1 + values.len() / 24;
    for (k, v) in a.keys.iter().zip(values).step_by(step) {
        let r = catch(|| m.get(k).map(|v| **v.n));
        let Ok(got) = r else { return Err(format!("{what}, get({k:?}) panics")) };
        ensure!(got == Some(*v), "{what}, get({k:?}) is {got:?} and not {v}");
    }
    for k in a.absent.iter().take(6) {
        let r = catch(|| m.get(k).map(|v| **v.n));
        let Ok(got) = r else { return Err(format!("{what}, get({k:?}) panics")) };
        ensure!(got.is_none(), "{what}, get({k:?}), which is absent, is {got:?}");
    }
    Ok(())
}

fn set_case<K: Family>(a: &Ask<K>, spec: &Spec, other: &Spec, theirs: &[K], steps: &[(Step, u64)], fresh: &dyn Fn(&K) -> K, seen: &mut Seen) -> R {
    let n = a.keys.len();
    let s: AnySet<K> = K::any_set::<()>(spec, a.keys.iter().map(fresh).collect());
    let partner = AnySet(K::build_aset::<()>(other, theirs.iter().map(fresh).collect()));
    let mut spare = AnySet(K::build_aset::<()>(spec, a.keys.iter().map(fresh).collect()));
    let order: Vec<*const K> = Dyn(s.0.iter()).map(std::ptr::from_ref).collect();
    let partners: Vec<*const K> = Dyn(partner.0.iter()).map(std::ptr::from_ref).collect();
    let texts: Vec<String> = Dyn(s.0.iter()).map(|k| format!("{k:?}")).collect();
    ensure!(order.len() == n, "{} values of {n} gone over", order.len());
    for (st, at) in steps {
        tokens::fuse(*at);
        let r = catch(|| -> Result<bool, String> {
            Ok(match st {
                Step::Get(k) | Step::GetKeyValue(k) | Step::GetMut(k, _) => match a.key(*k) {
                    Some((key, i)) => {
                        let got = s.0.get(key).is_some();
                        ensure!(got == i.is_some(), "get({key:?}) is {got}");
                        i.is_none()
                    }
                    None => false,
                },
                Step::Contains(k) | Step::Index(k) | Step::IndexMut(k, _) => match a.key(*k) {
                    Some((key, i)) => {
                        let got = (s.0.contains(key), s.0.set_contains(key));
                        ensure!(got == (i.is_some(), i.is_some()), "contains({key:?}) is {got:?}");
                        i.is_none()
                    }
                    None => false,
                },
                Step::Clone => s.0.clone_aset().len() != n,
                Step::CloneFrom => {
                    spare.0.clone_from_dyn(&*s.0.clone_box());
                    false
                }
                Step::Equal => {
                    let _ = (s.0.equals(&*s.0), s.0.equals_any(&partner));
                    false
                }
                Step::Debug => {
                    let _ = s.0.debug();
                    false
                }
                Step::Iterate(k) => {
                    let _ = Dyn(s.0.iter()).nth(k % (n + 1)).cloned();
                    false
                }
                Step::Operate(op) => {
                    let it = Dyn(s.0.op(*op, &partner));
                    it.for_each(drop);
                    false
                }
                Step::Operator(op) => {
                    let _ = s.0.operator(*op, &partner);
                    false
                }
                Step::Relate => {
                    let _ = (s.0.is_subset(&partner), s.0.is_superset(&partner), s.0.is_disjoint(&partner));
                    false
                }
                Step::Many(..) => false,
            })
        });
        tokens::fuse(0);
        match r {
            Ok(r) => seen.refused += usize::from(r?),
            Err(_) => seen.panicked += 1,
        }
        let what = format!("after {st:?} (call {at} to panic)");
        // a set is only read, so that nothing of it moves
        let now: Vec<*const K> = Dyn(s.0.iter()).map(std::ptr::from_ref).collect();
        ensure!(now == order && s.0.len() == n && s.0.is_empty() == (n == 0), "{what}, {} values are gone over, or others", now.len());
        for (v, t) in Dyn(s.0.iter()).zip(&texts) {
            ensure!(format!("{v:?}") == *t, "{what}, {v:?} is where {t} was");
        }
        let now: Vec<*const K> = Dyn(partner.0.iter()).map(std::ptr::from_ref).collect();
        ensure!(now == partners, "{what}, the other operand was changed");
        let step = 1 + n / 24;
        for (k, there) in a.keys.iter().step_by(step).map(|k| (k, true)).chain(a.absent.iter().take(6).map(|k| (k, false))) {
            let Ok(got) = catch(|| s.0.contains(k)) else { return Err(format!("{what}, contains({k:?}) panics")) };
            ensure!(got == there, "{what}, contains({k:?}) is {got}");
        }
    }
    Ok(())
}

fn scenario<K: Family>(src: &mut Src, cx: &mut Cx, fam: &str, keys: Vec<K>, absent: Vec<K>, fresh: &dyn Fn(&K) -> K) -> R {
    let set = src.flag();
    let mut of: Vec<Kind> = K::KINDS.iter().copied().filter(|k| !matches!(k, Kind::Hash | Kind::BTree)).collect();
    of.retain(|k| *k != Kind::Range || K::contiguous(&keys));
    let spec = K::spec(src, &keys, &of);
    let theirs: Vec<K> = keys.iter().skip(keys.len() / 2).chain(absent.iter().take(keys.len() / 3)).map(fresh).collect();
    of.retain(|k| *k != Kind::Range);
    let other = K::spec(src, &theirs, &of);
    let steps = src.vec(1, 14, gen_step);
    cx.describe(|| {
        format!("{} of {} in {}, family {fam}, keys {}{}; steps, each with the call that panics: {steps:?}", if set { "set" } else { "map" }, K::NAME,
            spec.show(), vh::gen::brief(&keys), if set { format!(", against {}", other.show()) } else { String::new() })
    });
    let a = Ask { keys: &keys, absent: &absent };
    let mut seen = Seen::default();
    let r = if set { set_case(&a, &spec, &other, &theirs, &steps, fresh, &mut seen) } else { map_case(&a, &spec, &steps, fresh, &mut seen) };
    forget_panic();
    r?;
    cx.nontrivial(keys.len() >= 2 && seen.panicked + seen.refused > 0);
    cx.label(match (set, seen.panicked > 0, seen.refused > 0) {
        (true, true, _) => "set: panicked in use",
        (false, true, _) => "map: panicked in use",
        (true, _, true) => "set: nothing found",
        (false, _, true) => "map: nothing found, or refused",
        _ => "no fault",
    });
    cx.label(format!("{:?}<{}>", spec.kind, K::NAME));
    Ok(())
}

/// Tokens as keys.
fn tok(src: &mut Src, cx: &mut Cx) -> R {
    tokens::reset();
    let n = gen_size(src, 320);
    let (strings, fam) = gen_strings(src, n);
    let (here, not) = part(src, strings);
    let make = |v: Vec<String>| -> Vec<Tok> { v.into_iter().map(Tok::new).collect() };
    scenario(src, cx, fam, make(here), make(not), &|k: &Tok| Tok::new(k.text()))
}

/// Some are left out of the collection.
fn part<K>(src: &mut Src, mut v: Vec<K>) -> (Vec<K>, Vec<K>) {
    let out = if v.len() < 2 { src.idx(v.len() + 1) } else { 1 + src.idx(v.len().min(8) - 1) };
    let not = v.split_off(v.len() - out);
    (v, not)
}

fn plain<K: Family>(src: &mut Src, cx: &mut Cx, max: usize) -> R {
    tokens::reset();
    let n = gen_size(src, max);
    let (keys, fam) = K::gen(src, n);
    let (here, not) = part(src, keys);
    scenario(src, cx, fam, here, not, &K::clone)
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    match src.weighted(&[10, 2, 2, 1]) {
        0 => tok(src, cx),
        1 => plain::<u32>(src, cx, 320),
        2 => plain::<i64>(src, cx, 320),
        _ => plain::<String>(src, cx, 320),
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop {
        id: "C25",
        rule: "at least two entries, and an operation that panicked, was refused or found nothing; distinct by the choices drawn",
        run,
    })
}
