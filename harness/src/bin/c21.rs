//! C21: collections can be read from many threads at once.

use frozen_collections_core::facades::{FrozenMap, FrozenSet};
use frozen_collections_core::specialized_maps as sm;
use frozen_collections_core::specialized_sets as ss;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::process::ExitCode;
use std::sync::atomic::{AtomicUsize, Ordering};
use vh::checks::absent_of;
use vh::engine::{catch, Cx, Prop, Src, R};
use vh::family::Family;
use vh::gen::{brief, split};
use vh::iters::drain;
use vh::keys::gen_size;
use vh::maps::{DMap, TMap};
use vh::sets::{DASet, Op, OPS};
use vh::{ensure, with_key};

// ---------------------------------------------------------------------------------------------- Send and Sync

/// Whether a type may be sent and shared: the inherent constant is preferred where its bound holds.
struct P<T: ?Sized>(PhantomData<T>);

trait Not {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> Not for P<T> {}
impl<T: ?Sized + Send> P<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> P<T> {
    const SYNC: bool = true;
}

/// Stand-ins for keys, values and hashers: sendable and shareable, only one of these, or neither.
struct Both;
struct SendOnly(#[allow(dead_code)] std::cell::Cell<u8>);
struct SyncOnly(#[allow(dead_code)] PhantomData<std::sync::MutexGuard<'static, u8>>);
struct Neither(#[allow(dead_code)] std::rc::Rc<u8>);

/// What the type is made of, whether it is and whether it should be `Send` and `Sync`.
struct Row(String, [bool; 2], [bool; 2]);

macro_rules! row {
    ($rows:ident, $t:ty; $($part:ty),*) => {
        $rows.push(Row(
            stringify!($t).to_string() + &[$("; ", stringify!($part)),*].concat(),
            [P::<$t>::SEND, P::<$t>::SYNC],
            [true $(&& P::<$part>::SEND)*, true $(&& P::<$part>::SYNC)*],
        ));
    };
}

/// Iterators that borrow may be sent and shared when what they borrow may be shared.
macro_rules! borrowing {
    ($rows:ident, $t:ty; $($part:ty),*) => {{
        let shared = true $(&& P::<$part>::SYNC)*;
        $rows.push(Row(
            stringify!($t).to_string() + &[$("; ", stringify!($part)),*].concat(),
            [P::<$t>::SEND, P::<$t>::SYNC],
            [shared, shared],
        ));
    }};
}

macro_rules! one {
    ($rows:ident, $K:ty) => {{
        type K = $K;
        row!($rows, ss::ScanningSet<K>; K);
        row!($rows, ss::IntegerRangeSet<K>; K);
        row!($rows, ss::IntegerSet<K, u8>; K);
        row!($rows, ss::IntegerSet<K, usize>; K);
        row!($rows, ss::LengthSet<K, u8>; K);
        row!($rows, ss::LengthSet<K, usize>; K);
        row!($rows, ss::IntoIter<K>; K);
        borrowing!($rows, ss::Iter<'static, K>; K);
        two!($rows, Both);
        two!($rows, SendOnly);
        two!($rows, SyncOnly);
        two!($rows, Neither);
    }};
}

macro_rules! two {
    ($rows:ident, $V:ty) => {{
        type V = $V;
        row!($rows, sm::ScanningMap<K, V>; K, V);
        row!($rows, sm::IntegerRangeMap<K, V>; K, V);
        row!($rows, sm::IntegerMap<K, V, u8>; K, V);
        row!($rows, sm::IntegerMap<K, V, usize>; K, V);
        row!($rows, sm::LengthMap<K, V, u8>; K, V);
        row!($rows, sm::LengthMap<K, V, usize>; K, V);
        borrowing!($rows, sm::Iter<'static, K, V>; K, V);
        borrowing!($rows, sm::Keys<'static, K, V>; K, V);
        borrowing!($rows, sm::Values<'static, K, V>; K, V);
        row!($rows, FrozenSet<K, V>; K, V);
        row!($rows, ss::CommonSet<K, u8, V>; K, V);
        row!($rows, ss::CommonSet<K, usize, V>; K, V);
        row!($rows, ss::LeftSliceSet<K, u8, V>; K, V);
        row!($rows, ss::RightSliceSet<K, usize, V>; K, V);
        three!($rows, Both);
        three!($rows, SendOnly);
        three!($rows, SyncOnly);
        three!($rows, Neither);
    }};
}

macro_rules! three {
    ($rows:ident, $B:ty) => {{
        type B = $B;
        row!($rows, FrozenMap<K, V, B>; K, V, B);
        row!($rows, sm::CommonMap<K, V, u8, B>; K, V, B);
        row!($rows, sm::CommonMap<K, V, usize, B>; K, V, B);
        row!($rows, sm::LeftSliceMap<K, V, u8, B>; K, V, B);
        row!($rows, sm::LeftSliceMap<K, V, usize, B>; K, V, B);
        row!($rows, sm::RightSliceMap<K, V, u8, B>; K, V, B);
        row!($rows, sm::RightSliceMap<K, V, usize, B>; K, V, B);
    }};
}

fn rows() -> Vec<Row> {
    let mut rows = Vec::new();
    one!(rows, Both);
    one!(rows, SendOnly);
    one!(rows, SyncOnly);
    one!(rows, Neither);
    rows
}

fn traits(src: &mut Src, cx: &mut Cx) -> R {
    let rows = rows();
    let picked = src.idx(rows.len());
    let Row(what, is, should) = &rows[picked];
    cx.describe(|| format!("may {what} be sent and shared?"));
    cx.label(format!("traits: {should:?}"));
    ensure!(is == should, "of {what}, whether it may be sent and shared is {is:?}, not {should:?}");
    cx.nontrivial(true);
    Ok(())
}

// ---------------------------------------------------------------------------------------------- readers

/// Shared with other threads whatever the compiler thinks of it: all that is put in here is of types whose keys,
/// values and hashers may be shared.
struct Share<'a, T: ?Sized>(&'a T);
impl<T: ?Sized> Clone for Share<'_, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T: ?Sized> Copy for Share<'_, T> {}
unsafe impl<T: ?Sized> Send for Share<'_, T> {}
unsafe impl<T: ?Sized> Sync for Share<'_, T> {}
impl<'a, T: ?Sized> Share<'a, T> {
    fn it(self) -> &'a T {
        self.0
    }
}

struct Moved<T>(T);
unsafe impl<T> Send for Moved<T> {}
impl<T> Moved<T> {
    fn it(self) -> T {
        self.0
    }
}

#[derive(Clone, Copy, Debug)]
enum Read {
    Get,
    GetKeyValue,
    Contains,
    Index,
    Len,
    Iter,
    Keys,
    Values,
    Debug,
    Eq,
    Clone,
}

fn plan(src: &mut Src, keys: usize) -> Vec<(Read, usize)> {
    src.vec(1, 24, |s| {
        let r = [Read::Get, Read::GetKeyValue, Read::Contains, Read::Index, Read::Len, Read::Iter, Read::Keys, Read::Values,
            Read::Debug, Read::Eq, Read::Clone][s.weighted(&[12, 8, 6, 4, 1, 2, 1, 1, 1, 1, 1])];
        (r, s.idx(keys.max(1)))
    })
}

/// One thread's reads: `probes` are keys with the values they should have, if any.
fn read_map<K: Family>(
    m: &dyn TMap<K, K, u64>, other: &dyn TMap<K, K, u64>, equal: bool, probes: &[(K, Option<u64>)], order: &[(K, u64)], plan: &[(Read, usize)],
    repeat: usize,
) -> R {
    for _ in 0..repeat {
        for (r, i) in plan {
            let (k, want) = &probes[i % probes.len()];
            match r {
                Read::Get => ensure!(m.get(k).copied() == *want, "get({k:?}) is {:?}, not {want:?}", m.get(k)),
                Read::GetKeyValue => {
                    let got = m.get_key_value(k);
                    ensure!(got.map(|x| *x.1) == *want && got.map_or(true, |x| x.0 == k), "get_key_value({k:?}) is {got:?}, not {want:?}");
                }
                Read::Contains => ensure!(m.contains_key(k) == want.is_some(), "contains_key({k:?}) is {}", want.is_none()),
                Read::Index => {
                    if let Some(v) = want {
                        ensure!(m.index(k.clone()) == v, "[{k:?}] is {:?}, not {v}", m.index(k.clone()));
                    }
                }
                Read::Len => ensure!(m.len() == order.len() && m.is_empty() == order.is_empty(), "len is {}", m.len()),
                Read::Iter => ensure!(m.iter().eq(order.iter().map(|x| (&x.0, &x.1))), "iter() differs from a single thread's"),
                Read::Keys => ensure!(m.keys().eq(order.iter().map(|x| &x.0)), "keys() differs from a single thread's"),
                Read::Values => ensure!(m.values().eq(order.iter().map(|x| &x.1)), "values() differs from a single thread's"),
                Read::Debug => {
                    if order.len() < 40 {
                        struct D<'a, K>(&'a [(K, u64)]);
                        impl<K: std::fmt::Debug> std::fmt::Debug for D<'_, K> {
                            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                                f.debug_map().entries(self.0.iter().map(|x| (&x.0, &x.1))).finish()
                            }
                        }
                        ensure!(m.debug(false) == format!("{:?}", D(order)), "the debug rendering differs from a single thread's");
                    }
                }
                Read::Eq => ensure!(m.equals(other).unwrap_or(equal) == equal, "== is {}", !equal),
                Read::Clone => {
                    if order.len() < 100 {
                        let c = m.clone_box();
                        ensure!(c.get(k).copied() == *want, "a clone's get({k:?}) is {:?}, not {want:?}", c.get(k));
                    }
                }
            }
        }
    }
    Ok(())
}

/// Lets the threads start together.
fn gather(ready: &AtomicUsize, threads: usize) {
    ready.fetch_add(1, Ordering::SeqCst);
    let mut spins = 0;
    while ready.load(Ordering::SeqCst) < threads {
        spins += 1;
        if spins > 200 {
            std::thread::yield_now();
        }
    }
}

fn together(threads: usize, f: impl Fn(usize) -> R) -> R {
    let ready = AtomicUsize::new(0);
    let f = Share(&f);
    let ready = &ready;
    std::thread::scope(|s| {
        let handles: Vec<_> = (0..threads)
            .map(|t| {
                s.spawn(move || {
                    gather(ready, threads);
                    catch(|| f.it()(t)).unwrap_or_else(|p| Err(format!("unexpected panic: {p}")))
                })
            })
            .collect();
        let mut all = Ok(());
        for (t, h) in handles.into_iter().enumerate() {
            let r = h.join().unwrap_or_else(|_| Err("a thread panicked".into()));
            if let (Ok(()), Err(m)) = (&all, r) {
                all = Err(format!("in thread {t} of {threads}: {m}"));
            }
        }
        all
    })
}

fn maps<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 300);
    let (keys, fam) = K::gen(src, n);
    let spec = K::spec(src, &keys, &[]);
    let twin = spec.sibling(src, K::lengths(&keys));
    let probes = K::probes(src, &keys);
    let absent = absent_of(&keys, probes);
    let payload: Vec<(K, u64)> = keys.iter().cloned().enumerate().map(|(i, k)| (k, i as u64 * 3 + 1)).collect();
    let mut probes: Vec<(K, Option<u64>)> = payload.iter().map(|(k, v)| (k.alias(), Some(*v))).collect();
    probes.truncate(40);
    probes.extend(absent.into_iter().take(20).map(|k| (k, None)));
    if probes.is_empty() {
        return Ok(());
    }
    let threads = src.urange(2, 4);
    let plans: Vec<_> = (0..threads).map(|_| plan(src, probes.len())).collect();
    let repeat = src.urange(1, 6);
    let mut other = payload.clone();
    let equal = src.flag() || other.is_empty();
    if !equal {
        let i = src.idx(other.len());
        other[i].1 += 1;
    }
    let moved = src.chance(1, 3);
    cx.describe(|| {
        format!("{} keys in {}, family {fam}, payload {}, {threads} threads {repeat} times over {plans:?}{}",
            K::NAME, spec.show(), brief(&payload), if moved { ", sent to another thread" } else { "" })
    });
    cx.label(format!("map: {:?}", spec.kind));
    let m: DMap<K, K, u64> = K::build_map(&spec, payload.clone());
    let o: DMap<K, K, u64> = K::build_map(&twin, other);
    // the order is the map's own affair, what is in it is not
    let model: BTreeMap<K, u64> = payload.into_iter().collect();
    let order: Vec<(K, u64)> = m.iter().map(|x| (x.0.clone(), *x.1)).collect();
    ensure!(order.len() == model.len() && order.iter().all(|x| model.get(&x.0) == Some(&x.1)), "iterating yields {}", brief(&order));
    {
        let (m, o) = (Share(&*m), Share(&*o));
        let (probes, order, plans) = (Share(&probes), Share(&order), Share(&plans));
        together(threads, |t| {
            read_map(m.it(), o.it(), equal, probes.it(), order.it(), &plans.it()[t], repeat)
        })?;
    }
    if moved {
        let (all, probes, order, plans) = (Moved((m, o)), Share(&probes), Share(&order), Share(&plans));
        std::thread::scope(|s| {
            s.spawn(move || {
                let (m, o) = all.it();
                catch(|| read_map(&*m, &*o, equal, probes.it(), order.it(), &plans.it()[0], 1)).unwrap_or_else(|p| Err(format!("unexpected panic: {p}")))
            })
            .join()
            .unwrap_or_else(|_| Err("a thread panicked".into()))
        })
        .map_err(|m| format!("sent to another thread: {m}"))?;
    }
    cx.nontrivial(n >= 2);
    Ok(())
}

fn sets<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 200);
    let (keys, fam) = K::gen(src, n);
    let (a, b, how) = split(src, &keys);
    let sa = K::spec(src, &a, &[]);
    let sb = K::spec(src, &b, &[]);
    let threads = src.urange(2, 4);
    let repeat = src.urange(1, 4);
    let mut probes: Vec<(K, bool)> = keys.iter().map(|k| (k.alias(), a.contains(k))).collect();
    probes.truncate(40);
    let plans: Vec<Vec<(usize, usize)>> = (0..threads).map(|_| src.vec(1, 16, |s| (s.weighted(&[6, 6, 2, 2, 1, 1]), s.idx(probes.len().max(1))))).collect();
    cx.describe(|| {
        format!("{} in {} and {}, family {fam}/{how}: {} and {}, {threads} threads {repeat} times over {plans:?}",
            K::NAME, sa.show(), sb.show(), brief(&a), brief(&b))
    });
    cx.label(format!("set: {:?}", sa.kind));
    if probes.is_empty() {
        return Ok(());
    }
    let x: DASet<K> = K::build_aset::<()>(&sa, a.clone());
    let y = K::any_set::<()>(&sb, b.clone());
    let order: Vec<K> = drain(x.iter(), a.len())?.into_iter().cloned().collect();
    ensure!(order.len() == a.len() && order.iter().all(|k| a.contains(k)), "iterating yields {}", brief(&order));
    let ops: Vec<usize> = OPS.iter().map(|op| match op {
        Op::Intersection => a.iter().filter(|k| b.contains(k)).count(),
        Op::Difference => a.iter().filter(|k| !b.contains(k)).count(),
        Op::Union => a.len() + b.iter().filter(|k| !a.contains(k)).count(),
        Op::SymmetricDifference => a.iter().filter(|k| !b.contains(k)).count() + b.iter().filter(|k| !a.contains(k)).count(),
    }).collect();
    let subset = a.iter().all(|k| b.contains(k));
    let (x, y) = (Share(&*x), Share(&y));
    let (probes, order, plans, ops) = (Share(&probes), Share(&order), Share(&plans), Share(&ops));
    together(threads, |t| {
        let (x, y, order) = (x.it(), y.it(), order.it());
        for _ in 0..repeat {
            for (r, i) in &plans.it()[t] {
                let (k, want) = &probes.it()[i % probes.it().len()];
                match r {
                    0 => ensure!(x.contains(k) == *want, "contains({k:?}) is {}", !want),
                    1 => ensure!(x.get(k).is_some() == *want && x.get(k).map_or(true, |g| g == k), "get({k:?}) is {:?}", x.get(k)),
                    2 => ensure!(drain(x.iter(), order.len())?.into_iter().eq(order.iter()), "iter() differs from a single thread's"),
                    3 => {
                        let op = OPS[i % 4];
                        let got = drain(x.op(op, y), order.len() + y.0.len())?.len();
                        ensure!(got == ops.it()[i % 4], "{op:?} yields {got} values, not {}", ops.it()[i % 4]);
                    }
                    4 => ensure!(x.is_subset(y) == subset, "is_subset is {}", !subset),
                    _ => ensure!(x.len() == order.len() && x.is_empty() == order.is_empty(), "len is {}", x.len()),
                }
            }
        }
        Ok(())
    })?;
    cx.nontrivial(n >= 2);
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    match src.weighted(&[1, 8, 4]) {
        0 => traits(src, cx),
        1 => with_key!(src, K => maps::<K>(src, cx)),
        _ => with_key!(src, K => sets::<K>(src, cx)),
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop {
        id: "C21",
        rule: "at least two keys, read by at least two threads at the same time, or a type whose thread-safety is looked up; distinct by the choices drawn",
        run,
    })
}
