//! C01 at sizes beyond the table of primes: millions of entries, few cases.

use frozen_collections_core::facades::FrozenMap;
use std::process::ExitCode;
use vh::engine::{Cx, Prop, Src, R};
use vh::ensure;
use vh::hashers::Bh;

/// The largest lookup table size of the table of primes, and thereabouts.
const EDGE: u64 = 7_199_369;

fn run(src: &mut Src, cx: &mut Cx) -> R {
    // past the edge, the sizes tried are computed; the edge applies to what remains after the acceptable collisions
    let n = src.biased(EDGE - (1 << 16), EDGE + (1 << 19), &[EDGE, EDGE * 20 / 19 + 1]);
    let family = src.below(4);
    let (base, odd) = (src.any_u64(), src.any_u64() | 1);
    let stride = src.pick(&[2u64, 3, 4, 15, 256, 2310]).to_owned();
    // injective in i
    let key = move |i: u64| match family {
        0 => base.wrapping_add(i.wrapping_mul(stride)),
        1 => (i ^ base).wrapping_mul(odd),
        2 => i << 32 | (i & 7),
        _ => (i.wrapping_mul(odd) ^ base).rotate_left(29),
    };
    let small = src.chance(1, 3);
    let bh = Bh::gen_good(src);
    cx.label(if small { "u32" } else { "u64" });
    cx.nontrivial(true);
    cx.describe(|| format!("FrozenMap<{}, u32> of {n} entries, family {family}, stride {stride}, {bh:?}", if small { "u32" } else { "u64" }));
    if small {
        // halves of the possible keys, so that the others are absent
        let odd32 = odd as u32;
        let k32 = |i: u64| (i as u32).wrapping_mul(2).wrapping_mul(odd32) ^ base as u32;
        let m = FrozenMap::from_vec_with_hasher((0..n).map(|i| (k32(i), i as u32)).collect(), bh);
        ensure!(m.len() as u64 == n, "len is {} for {n} pairs", m.len());
        for i in 0..n {
            ensure!(m.get(&k32(i)) == Some(&(i as u32)), "get({}) is {:?}, not {i}", k32(i), m.get(&k32(i)));
        }
        for i in n..n + 100_000 {
            ensure!(m.get(&k32(i)).is_none(), "get({}) is {:?} for an absent key", k32(i), m.get(&k32(i)));
        }
    } else {
        let m = FrozenMap::from_vec_with_hasher((0..n).map(|i| (key(i), i as u32)).collect(), bh);
        ensure!(m.len() as u64 == n, "len is {} for {n} pairs", m.len());
        for i in 0..n {
            ensure!(m.get(&key(i)) == Some(&(i as u32)), "get({}) is {:?}, not {i}", key(i), m.get(&key(i)));
        }
        for i in n..n + 100_000 {
            ensure!(m.get(&key(i)).is_none(), "get({}) is {:?} for an absent key", key(i), m.get(&key(i)));
        }
    }
    cx.count("lookups", n + 100_000);
    Ok(())
}

fn main() -> ExitCode {
    vh::engine::main(Prop { id: "C01", rule: "every case: millions of pairs, each one looked up, and absent keys", run })
}
