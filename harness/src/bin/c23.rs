//! C23: building is reproducible, and uses the hasher it was given and no other.

use frozen_collections_core::specialized_maps::{CommonMap, LeftSliceMap, RightSliceMap};
use frozen_collections_core::specialized_sets::{CommonSet, LeftSliceSet, RightSliceSet};
use std::process::ExitCode;
use vh::engine::{Cx, Prop, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, Spec};
use vh::gen::brief;
use vh::hashers::{other_than, Bh};
use vh::iters::Dyn;
use vh::keys::{gen_size, Key};
use vh::liars::{foreign, tell, Liar, Lies, OddInt};
use vh::maps::{Ctor, Hint, Shy};

const HASHED: [Kind; 8] = [Kind::Frozen, Kind::Common, Kind::Left, Kind::Right, Kind::Length, Kind::Integer, Kind::Range, Kind::Scanning];

fn with_hasher(src: &mut Src) -> Ctor {
    let h = Hint::gen(src);
    *src.pick(&[Ctor::VecHasher, Ctor::IterHasher(h), Ctor::ArrayHasher])
}

/// Runs `f` and sees to it that nothing but the given hasher is used.
fn only<T>(what: &str, bh: Bh, f: impl FnOnce() -> T) -> Result<T, String> {
    foreign();
    let (r, other) = other_than(bh, f);
    if let Some(o) = other {
        return Err(format!("{what} uses {o:?}, and was given {bh:?}"));
    }
    if let Some(f) = foreign() {
        return Err(format!("{what} uses a {f}, and was given a {bh:?}"));
    }
    Ok(r)
}

/// What two collections built alike from the same items show.
fn generic<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 1200);
    let (keys, fam) = K::gen(src, n);
    let n = keys.len();
    let mut spec = K::spec(src, &keys, &HASHED);
    spec.ctor = with_hasher(src);
    let again = Spec { ctor: with_hasher(src), ..spec.clone() };
    let set = src.flag();
    cx.describe(|| format!("{} of {n} {} keys in {}, then via {:?}, family {fam}, {}", if set { "set" } else { "map" }, K::NAME, spec.show(), again.ctor, brief(&keys)));
    cx.label(format!("{:?}<{}>", spec.kind, K::NAME));
    cx.nontrivial(n >= 4);
    let probes = K::probes(src, &keys);
    let bh = spec.bh;
    // what was built and dropped before must not matter
    let noise = src.below(3);
    let between = |i: u64| {
        for j in 0..i {
            drop(K::build_map(&Spec { bh: Bh::good(j), ..spec.clone() }, keys.iter().rev().map(|k| (k.clone(), 0u64)).collect()));
        }
    };
    if set {
        let a = only("building", bh, || K::build_set::<()>(&spec, keys.clone()))?;
        between(noise);
        let b = only("building", bh, || K::build_set::<()>(&again, keys.clone()))?;
        only("reading", bh, || keys.iter().chain(&probes).filter(|k| a.contains(k) && a.get(k).is_some() && a.set_contains(k)).count())?;
        let (x, y): (Vec<&K>, Vec<&K>) = (Dyn(a.iter()).collect(), Dyn(b.iter()).collect());
        ensure!(x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| p.same(q)), "the same values give {} and {}", brief(&x), brief(&y));
        ensure!(a.debug() == b.debug(), "renderings differ: {:?} and {:?}", a.debug(), b.debug());
        let c = only("cloning", bh, || a.clone_box())?;
        only("reading a clone", bh, || keys.iter().chain(&probes).filter(|k| c.contains(k)).count())?;
    } else {
        let p: Vec<(K, u64)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), i as u64)).collect();
        let mut a = only("building", bh, || K::build_map(&spec, p.clone()))?;
        between(noise);
        let b = only("building", bh, || K::build_map(&again, p.clone()))?;
        only("reading", bh, || keys.iter().chain(&probes).filter(|k| a.contains_key(k) && a.get(k).is_some() && a.get_key_value(k).is_some() && a.get_mut(k).is_some()).count())?;
        let same = a.iter().zip(b.iter()).all(|(x, y)| x.0.same(y.0) && x.1 == y.1);
        ensure!(a.len() == b.len() && same, "the same pairs give {} and {}", brief(&a.iter().collect::<Vec<_>>()), brief(&b.iter().collect::<Vec<_>>()));
        ensure!(a.debug(false) == b.debug(false) && a.debug(true) == b.debug(true), "renderings differ: {} and {}", a.debug(false), b.debug(false));
        ensure!(a.keys().zip(b.keys()).all(|(x, y)| x.same(y)) && a.values().eq(b.values()), "keys and values come in different orders");
        ensure!(only("comparing", bh, || a.equals(&*b))? == Some(true), "the same pairs give maps that differ");
        let c = only("cloning", bh, || a.clone_box())?;
        only("reading a clone", bh, || keys.iter().chain(&probes).filter(|k| c.contains_key(k)).count())?;
    }
    Ok(())
}

/// The hasher a collection shows.
fn shown_hasher(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 255);
    let (keys, _) = String::gen(src, n);
    let n = keys.len();
    let bh = Bh::gen(src);
    let (lo, hi) = <String as Family>::lengths(&keys);
    let range = vh::gen::slice_range(src, lo, hi);
    let how = src.idx(3);
    let what = src.idx(6);
    cx.describe(|| format!("the hasher of type {what} of {n} strings, constructor {how}, {bh:?}, {}", brief(&keys)));
    cx.label(format!("shown {what}"));
    cx.nontrivial(n > 0);
    let pairs = || keys.iter().cloned().zip(0u64..).collect::<Vec<_>>();
    let vals = || keys.clone();
    macro_rules! of {
        ($t:ty, $p:expr $(, $range:expr)?) => {{
            let m = match how {
                0 => <$t>::from_vec_with_hasher($p, $($range,)? bh),
                1 => <$t>::from_iter_with_hasher(Shy($p.into_iter(), Hint::Silent), $($range,)? bh),
                _ => {
                    let mut p = $p;
                    p.truncate(3);
                    match p.try_into() {
                        Ok(a) => { let a: [_; 3] = a; <$t>::with_hasher(a, $($range,)? bh) }
                        Err(p) => <$t>::from_vec_with_hasher(p, $($range,)? bh),
                    }
                }
            };
            ensure!(*m.hasher() == bh, "hasher() is {:?}, and {bh:?} was given", m.hasher());
            let c = m.clone();
            ensure!(*c.hasher() == bh, "a clone's hasher() is {:?}, and {bh:?} was given", c.hasher());
        }};
    }
    match what {
        0 => of!(CommonMap<String, u64, u8, Bh>, pairs()),
        1 => of!(LeftSliceMap<String, u64, u16, Bh>, pairs(), range.clone()),
        2 => of!(RightSliceMap<String, u64, usize, Bh>, pairs(), range.clone()),
        3 => of!(CommonSet<String, u16, Bh>, vals()),
        4 => of!(LeftSliceSet<String, u8, Bh>, vals(), range.clone()),
        _ => of!(RightSliceSet<String, u32, Bh>, vals(), range.clone()),
    }
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    tell(Lies::NONE);
    match src.weighted(&[3, 4, 4, 3, 2, 2]) {
        0 => generic::<u32>(src, cx),
        1 => generic::<String>(src, cx),
        2 => generic::<Liar>(src, cx),
        3 => generic::<OddInt>(src, cx),
        4 => generic::<vh::keys::Tagged>(src, cx),
        _ => shown_hasher(src, cx),
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop {
        id: "C23",
        rule: "at least four entries, built twice and read; or a hasher shown; distinct by the choices drawn",
        run,
    })
}
