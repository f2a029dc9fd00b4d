//! C16: construction limits are enforced exactly and cleanly.

use std::collections::BTreeSet;
use std::process::ExitCode;
use vh::engine::{catch, Cx, Prop, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, Spec, Word};
use vh::gen::{brief, slice_range};
use vh::hashers::Bh;
use vh::keys::{gen_size, Tagged};
use vh::maps::{Cap, Ctor};

/// A few reads of a map that was accepted.
fn sound_map<K: Family>(spec: &Spec, keys: &[K], src: &mut Src) -> R {
    let payload: Vec<(K, u64)> = keys.iter().cloned().enumerate().map(|(i, k)| (k, i as u64)).collect();
    let m = K::build_map(spec, payload);
    ensure!(m.len() == keys.len(), "len is {} for {} pairs", m.len(), keys.len());
    for _ in 0..8.min(keys.len()) {
        let i = src.idx(keys.len());
        ensure!(m.get(&keys[i]) == Some(&(i as u64)), "get({:?}) is {:?}, not {i}", keys[i], m.get(&keys[i]));
    }
    for i in [0, keys.len().saturating_sub(1)] {
        if let Some(k) = keys.get(i) {
            ensure!(m.get(k) == Some(&(i as u64)), "get({k:?}) is {:?}, not {i}", m.get(k));
        }
    }
    ensure!(m.iter().count() == keys.len(), "iterating yields {} entries, not {}", m.iter().count(), keys.len());
    Ok(())
}

fn sound_set<K: Family>(spec: &Spec, keys: &[K], src: &mut Src) -> R {
    let s = K::build_set::<()>(spec, keys.to_vec());
    ensure!(s.len() == keys.len(), "len is {} for {} values", s.len(), keys.len());
    for _ in 0..8.min(keys.len()) {
        let k = src.pick(keys);
        ensure!(s.get(k).is_some_and(|x| x == k), "get({k:?}) is {:?}", s.get(k));
    }
    let mut n = 0;
    vh::iters::Dyn(s.iter()).for_each(|_| n += 1);
    ensure!(n == keys.len(), "iterating yields {n} values, not {}", keys.len());
    Ok(())
}

/// Builds; a collection that is accepted must be sound, and acceptance must be as expected (when that is known).
fn judge<K: Family>(src: &mut Src, spec: &Spec, keys: &[K], set: bool, accept: Option<bool>) -> R {
    let r = if set { catch(|| sound_set(spec, keys, src)) } else { catch(|| sound_map(spec, keys, src)) };
    let what = if set { "set" } else { "map" };
    match (r, accept) {
        (Err(p), Some(true)) => Err(format!("a {what} of {} entries in {} panics: {p}", keys.len(), spec.show())),
        (Err(_), _) => Ok(()),
        (Ok(_), Some(false)) => Err(format!("a {what} of {} entries in {} is accepted", keys.len(), spec.show())),
        (Ok(r), _) => r,
    }
}

trait Many: Family {
    /// `n` distinct keys.
    fn many(src: &mut Src, n: usize) -> Vec<Self>;
}

impl Many for u32 {
    fn many(src: &mut Src, n: usize) -> Vec<Self> {
        let stride = src.biased(1, 1000, &[1, 2, 3, 10, 256]) as u32;
        let base = src.range(0, 1 << 24) as u32;
        (0..n as u32).map(|i| base + i * stride).collect()
    }
}
impl Many for i64 {
    fn many(src: &mut Src, n: usize) -> Vec<Self> {
        let stride = src.biased(1, 1 << 40, &[1, 2, 3, 10, 256, 1 << 32]) as i64;
        let base = src.any_u64() as i64;
        (0..n as i64).map(|i| base.wrapping_add(i * stride)).collect()
    }
}
impl Many for String {
    fn many(src: &mut Src, n: usize) -> Vec<Self> {
        match src.weighted(&[2, 1, 1]) {
            0 => (0..n).map(|i| format!("{i}")).collect(),
            1 => (0..n).map(|i| format!("key-{i:06}-suffix")).collect(),
            _ => (0..n).map(|i| format!("{}{i}", "x".repeat(i % 61))).collect(),
        }
    }
}
impl Many for Word {
    fn many(src: &mut Src, n: usize) -> Vec<Self> {
        String::many(src, n).into_iter().map(|s| Word { bytes: vh::family::Bytes(s.into_bytes()), tag: 1 }).collect()
    }
}

/// A hashed collection with a bounded number of entries.
fn capacity<K: Many>(src: &mut Src, cx: &mut Cx) -> R {
    let cap = *src.pick(&[Cap::U8, Cap::U8, Cap::U8, Cap::U16, Cap::U32, Cap::U64, Cap::U128, Cap::Usize]);
    // large ones are rare: they take long
    let n = match cap {
        Cap::U8 if !src.chance(1, 400) => src.biased(0, 600, &[0, 1, 254, 255, 256, 257, 258, 300, 383, 384, 510, 511, 512, 513]) as usize,
        Cap::U16 if src.chance(1, 60) => *src.pick(&[65534, 65535, 65536, 65537, 66000, 70000]),
        Cap::U8 | Cap::U32 | Cap::U64 | Cap::U128 | Cap::Usize if src.chance(1, 400) => *src.pick(&[65535, 65536, 70000]),
        _ => src.biased(0, 1100, &[0, 1, 254, 255, 256, 257, 258, 511, 512, 513, 999, 1000, 1001]) as usize,
    };
    let bounded = [Kind::Common, Kind::Left, Kind::Right, Kind::Length, Kind::Integer];
    let kinds: Vec<Kind> = K::KINDS.iter().copied().filter(|k| bounded.contains(k)).collect();
    let kind = *src.pick(&kinds);
    let mut bh = Bh::gen(src);
    let mut keys = K::many(src, n);
    if n < 2000 {
        src.reorder(&mut keys);
    } else {
        bh = Bh::gen_good(src);
    }
    let (lo, hi) = K::lengths(&keys);
    let range = slice_range(src, lo, hi);
    let spec = Spec { kind, ctor: Ctor::gen(src), cap, bh, range };
    let set = src.flag();
    let accept = n as u64 <= cap.max();
    // not every capacity type is instantiated for every key type: a wider one may stand in, never a narrower one
    let known = accept || matches!(cap, Cap::U8 | Cap::U16) && !(K::NAME == "i64" && kind == Kind::Common);
    cx.describe(|| format!("{} of {} {} keys in {}: {}", if set { "set" } else { "map" }, n, K::NAME, spec.show(), brief(&keys)));
    cx.label(format!("{kind:?}<{cap:?}> {}", if accept { "within" } else { "beyond" }));
    cx.nontrivial(n >= 200);
    judge(src, &spec, &keys, set, if known { Some(accept) } else { None })
}

/// The contiguous-integer forms.
fn contiguity<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    let n = match K::NAME {
        // the whole of the type, or all but one
        "u16" | "i16" if src.chance(1, 150) => *src.pick(&[65535, 65536]),
        _ => gen_size(src, 700),
    };
    let (keys, fam) = K::gen(src, n);
    let spec = Spec { kind: Kind::Range, ctor: Ctor::gen(src), cap: Cap::Usize, bh: Bh::default(), range: 0..0 };
    let accept = K::contiguous(&keys);
    let set = src.flag();
    cx.describe(|| format!("{} of {} in {}, family {fam}: {}", if set { "set" } else { "map" }, K::NAME, spec.show(), brief(&keys)));
    cx.label(format!("Range<{}> {}", K::NAME, if accept { "contiguous" } else { "not" }));
    cx.nontrivial(keys.len() >= 2);
    judge(src, &spec, &keys, set, Some(accept))
}

/// The facades take whatever they are given.
fn facade<K: Family>(src: &mut Src, cx: &mut Cx, max: usize) -> R {
    let n = gen_size(src, max);
    let (mut keys, fam) = K::gen(src, n);
    let repeated = !keys.is_empty() && src.chance(1, 3);
    if repeated {
        for _ in 0..src.biased(1, 300, &[1, 2, 3, 100, 255, 256]) {
            let k = src.pick(&keys).clone();
            keys.push(k);
        }
        src.reorder(&mut keys);
    }
    let spec = Spec { kind: Kind::Frozen, ctor: Ctor::gen(src), cap: Cap::Usize, bh: Bh::gen(src), range: 0..0 };
    let set = src.flag();
    let probes = K::probes(src, &keys);
    cx.describe(|| format!("{} of {} in {}, family {fam}: {}", if set { "set" } else { "map" }, K::NAME, spec.show(), brief(&keys)));
    cx.label(format!("facade<{}>{}", K::NAME, if repeated { " with repeats" } else { "" }));
    cx.nontrivial(keys.len() >= 2);
    whatever(&spec, &keys, &probes, set)
}

/// Building and reading do not panic.
fn whatever<K: Family>(spec: &Spec, keys: &[K], probes: &[K], set: bool) -> R {
    let distinct: BTreeSet<&K> = keys.iter().collect();
    let r = catch(|| {
        let mut found = 0;
        if set {
            let s = K::build_set::<()>(spec, keys.to_vec());
            for k in keys.iter().take(60).chain(probes.iter().take(60)) {
                found += usize::from(s.contains(k)) + usize::from(s.get(k).is_some());
            }
            vh::iters::Dyn(s.iter()).for_each(drop);
            drop(s.clone_box());
        } else {
            let mut m = K::build_map(spec, keys.iter().cloned().enumerate().map(|(i, k)| (k, i as u64)).collect());
            for k in keys.iter().take(60).chain(probes.iter().take(60)) {
                found += usize::from(m.contains_key(k)) + usize::from(m.get(k).is_some()) + usize::from(m.get_mut(k).is_some());
            }
            drop(m.iter().count());
            drop(m.clone_box());
        }
        found
    });
    match r {
        Ok(_) => Ok(()),
        Err(p) => Err(format!("{} entries, {} of them different: {p}", keys.len(), distinct.len())),
    }
}

/// Facades with many or long keys.
fn huge(src: &mut Src, cx: &mut Cx) -> R {
    let spec = Spec { kind: Kind::Frozen, ctor: Ctor::gen(src), cap: Cap::Usize, bh: Bh::gen_good(src), range: 0..0 };
    let set = src.flag();
    cx.nontrivial(true);
    if src.flag() {
        // long keys
        let n = src.urange(4, 40);
        let long = *src.pick(&[255, 256, 257, 4095, 65535, 65536, 65537, 100_000]);
        let keys: Vec<String> = match src.weighted(&[1, 1, 1, 1]) {
            0 => (0..n).map(|i| "x".repeat(long + i)).collect(),
            1 => (0..n).map(|i| format!("{}{i:04}", "x".repeat(long))).collect(),
            2 => (0..n).map(|i| format!("{i:04}{}", "x".repeat(long))).collect(),
            _ => (0..n).map(|i| format!("{}{i:04}{}", "x".repeat(long / 2), "y".repeat(long - i))).collect(),
        };
        cx.describe(|| format!("{n} strings of {} bytes and more in {}", keys[0].len(), spec.show()));
        cx.label("facade with long keys");
        let probes = vec![keys[0][1..].to_string(), String::new(), format!("{}x", keys[n - 1])];
        whatever(&spec, &keys, &probes, set)
    } else {
        let n = *src.pick(&[65535, 65536, 70000]);
        let probes = 5;
        cx.label("facade with many keys");
        if src.flag() {
            let keys = u32::many(src, n);
            cx.describe(|| format!("{n} integers {} in {}", brief(&keys), spec.show()));
            whatever(&spec, &keys, &[probes], set)
        } else {
            let keys = String::many(src, n);
            cx.describe(|| format!("{n} strings {} in {}", brief(&keys), spec.show()));
            whatever(&spec, &keys, &[String::new()], set)
        }
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    match src.weighted(&[8, 12, 3, 2, 3, 3, 3, 3, 3, 3, 2, 3, 2, 2, 3, 3, 8, 8, 2, 2]) {
        0 => capacity::<u32>(src, cx),
        1 => capacity::<String>(src, cx),
        2 => capacity::<Word>(src, cx),
        3 => capacity::<i64>(src, cx),
        4 => contiguity::<u8>(src, cx),
        5 => contiguity::<i8>(src, cx),
        6 => contiguity::<u16>(src, cx),
        7 => contiguity::<i16>(src, cx),
        8 => contiguity::<u32>(src, cx),
        9 => contiguity::<i32>(src, cx),
        10 => contiguity::<u64>(src, cx),
        11 => contiguity::<i64>(src, cx),
        12 => contiguity::<usize>(src, cx),
        13 => contiguity::<isize>(src, cx),
        14 => contiguity::<u128>(src, cx),
        15 => contiguity::<i128>(src, cx),
        16 => facade::<u32>(src, cx, 1500),
        17 => facade::<String>(src, cx, 1500),
        18 => facade::<Tagged>(src, cx, 1500),
        _ => {
            if src.chance(1, 16) {
                huge(src, cx)
            } else {
                facade::<i16>(src, cx, 600)
            }
        }
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop {
        id: "C16",
        rule: "at least two entries (200 for the bounded forms) were offered; distinct by the choices drawn",
        run,
    })
}
