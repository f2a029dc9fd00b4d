//! C24: building takes work and memory in proportion to the payload.

use std::mem::size_of;
use std::process::ExitCode;
use vh::alloc::{peak, Counting};
use vh::clock::cpu;
use vh::engine::{Cx, Prop, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, Word};
use vh::gen::brief;
use vh::hashers::finished;
use vh::keys::{Key, Tagged};
use vh::liars::{comparisons, hashings, orderings, tell, Liar, Lies, OddInt};
use vh::maps::{Cap, Ctor, Hint, Val};

#[global_allocator]
static COUNTING: Counting = Counting;

fn size(src: &mut Src) -> usize {
    match src.weighted(&[120, 160, 120, 120, 4, 1]) {
        0 => src.urange(0, 12),
        1 => src.biased(0, 270, &[100, 120, 126, 127, 128, 129, 254, 255, 256, 257]) as usize,
        2 => src.biased(0, 600, &[127, 128, 129, 255, 256, 257, 511, 512]) as usize,
        3 => src.biased(600, 2400, &[900, 998, 999, 1000, 1001, 1002, 1500, 2000]) as usize,
        4 => src.biased(2400, 40_000, &[5000, 10_000, 20_000]) as usize,
        _ => src.biased(40_000, 250_000, &[100_000, 200_000]) as usize,
    }
}

/// Most keys repeat others, or collide.
fn stubborn<K: Key>(src: &mut Src, keys: &mut [K]) -> bool {
    if keys.is_empty() || !src.chance(1, 4) {
        return false;
    }
    let few = src.urange(1, keys.len());
    for i in few..keys.len() {
        keys[i] = keys[i % few].clone();
    }
    src.reorder(keys);
    true
}

fn build<K: Family, V: Val>(src: &mut Src, cx: &mut Cx, val: impl Fn(usize) -> V) -> R {
    let n = size(src);
    let (mut keys, fam) = K::gen(src, n);
    let mut spec = K::spec(src, &keys, &[Kind::Frozen, Kind::Common, Kind::Left, Kind::Right, Kind::Length, Kind::Integer, Kind::Range, Kind::Scanning]);
    let n = keys.len();
    let h = if src.flag() { Hint::Silent } else { Hint::Exact };
    spec.ctor = *src.pick(&[Ctor::VecHasher, Ctor::IterHasher(h), Ctor::ArrayHasher]);
    let repeated = spec.kind != Kind::Range && stubborn(src, &mut keys);
    let set = src.flag();
    let show = brief(&keys);
    cx.describe(|| format!("{} of {n} {} keys{} in {}, family {fam}: {show}", if set { "set" } else { "map" }, K::NAME, if repeated { " with repeats" } else { "" }, spec.show()));
    cx.label(format!("{:?}<{}> {}", spec.kind, K::NAME, if n < 128 { "small" } else if n < 1000 { "medium" } else { "large" }));
    cx.nontrivial(n >= 4);

    // the shortest has the fewest slices to try out
    let shortest = keys.iter().map(Family::extent).min().unwrap_or(0) as u64;
    let was = (hashings(), finished(), comparisons(), orderings());
    let started = cpu();
    let (entry, most) = if set {
        let p = keys.clone();
        let (s, most) = peak(|| K::build_set::<()>(&spec, p));
        ensure!(s.len() == n, "len is {}", s.len());
        (size_of::<K>(), most)
    } else {
        let p: Vec<(K, V)> = keys.iter().cloned().enumerate().map(|(i, k)| (k, val(i))).collect();
        let (m, most) = peak(|| K::build_map(&spec, p));
        ensure!(m.len() == n, "len is {}", m.len());
        (size_of::<(K, V)>(), most)
    };
    let spent = cpu() - started;
    let hashed = (hashings() - was.0).max(finished() - was.1);
    let n64 = n as u64;

    let tried = if spec.kind == Kind::Frozen && K::NAME == "String" { 32 * (shortest + 1) } else { 0 };
    ensure!(hashed <= n64 * (4 + tried), "building from {n} keys hashes {hashed} times, {} or more for some", hashed / n64.max(1));
    let compared = comparisons() - was.2 + orderings() - was.3;
    let log = u64::from(64 - n64.leading_zeros());
    ensure!(compared <= n64 * (4 + 4 * log), "building from {n} keys compares them {compared} times");
    let index = match (spec.kind, spec.cap) {
        (Kind::Frozen, _) => if n <= 255 { 1 } else { 8 },
        (_, Cap::U8) => 1,
        (_, Cap::U16) => 2,
        (_, Cap::U128) => 16,
        _ => 8,
    };
    let slots = if n < 128 { 16 * n } else if n < 1000 { 10 * n } else { 3 * n };
    let allowed = 16 * n * (entry + 8) + slots.max(1) * 2 * index + 4096;
    ensure!(most <= allowed as i64, "building from {n} entries of {entry} bytes holds {most} bytes at one time, and not at most {allowed}");
    let time = 1.0 + (n64 + hashed) as f64 * 20e-6;
    ensure!(spent <= time, "building from {n} entries takes {spent:.1} s, and not at most {time:.1} s");
    if n > 20_000 {
        cx.count("many entries", 1);
    }
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    tell(Lies::NONE);
    match src.weighted(&[6, 8, 2, 2, 6, 6]) {
        0 => build::<u32, u64>(src, cx, |i| i as u64),
        1 => build::<String, u64>(src, cx, |i| i as u64),
        2 => build::<Word, u64>(src, cx, |i| i as u64),
        3 => build::<Tagged, [u64; 5]>(src, cx, |i| [i as u64; 5]),
        4 => build::<Liar, u64>(src, cx, |i| i as u64),
        _ => build::<OddInt, ()>(src, cx, |_| ()),
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop {
        id: "C24",
        rule: "at least four entries, the building of which was measured; distinct by the choices drawn",
        run,
    })
}
