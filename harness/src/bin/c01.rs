//! C01: a frozen map reports exactly the associations it was built from.

use std::process::ExitCode;
use vh::checks::{absent_of, map_reads};
use vh::engine::{Cx, Prop, Src, R};
use vh::gen::brief;
use vh::hashers::{full_input, record, Bh};
use vh::keys::{gen_size, Key, Tagged, HUGE_A, HUGE_B, RARE};
use vh::maps::{frozen, Ctor, DMap, Val};

fn case<K: Key, V: Val>(src: &mut Src, cx: &mut Cx, max: usize, val: impl Fn(usize) -> V) -> R {
    let n = gen_size(src, max);
    let ctor = Ctor::gen(src);
    let bh = Bh::gen(src);
    let (keys, fam) = K::gen(src, n);
    let probes = K::probes(src, &keys);
    let absent = absent_of(&keys, probes);
    let payload: Vec<(K, V)> = keys.into_iter().enumerate().map(|(i, k)| (k, val(i))).collect();
    let n = payload.len();
    cx.describe(|| format!("FrozenMap<{}, {}> via {ctor:?}, {bh:?}, family {fam}, payload {}", K::NAME, std::any::type_name::<V>(), brief(&payload)));
    let mut m = frozen(ctor, bh, payload.clone());
    map_reads(&mut *m, &payload, K::alias, &absent, cx, src)?;
    cx.nontrivial(n >= 2 && !absent.is_empty());
    if ctor.with_hasher() && n > 0 {
        let (_, log) = record(|| m.contains_key(&payload[0].0));
        let layout = vh::hashers::classify(&full_input(&payload[0].0), &log);
        cx.label(format!("{}:{}{}", K::NAME, layout, if n < 4 { ":tiny" } else if n > 255 { ":large" } else { "" }));
    }
    if src.chance(1, 4) {
        cx.label("clone");
        let mut c = m.clone_box();
        drop(m);
        map_reads(&mut *c, &payload, K::alias, &absent, cx, src)?;
    }
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let idx = |i: usize| i as u64 * 3 + 1;
    if src.chance(1, RARE) {
        cx.label("huge");
        let max = *src.pick(&[HUGE_A, HUGE_B]);
        return match src.weighted(&[3, 3, 2, 1]) {
            0 => case::<u64, u64>(src, cx, max, idx),
            1 => case::<String, u64>(src, cx, max, idx),
            2 => case::<Tagged, u64>(src, cx, max, idx),
            _ => case::<u32, u64>(src, cx, max, idx),
        };
    }
    match src.weighted(&[12, 24, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1]) {
        0 => case::<u32, u64>(src, cx, 2000, idx),
        1 => case::<String, u64>(src, cx, 1500, idx),
        2 => case::<Tagged, u64>(src, cx, 2000, idx),
        3 => case::<u64, u64>(src, cx, 2000, idx),
        4 => case::<(u32, String), u64>(src, cx, 600, idx),
        5 => case::<String, String>(src, cx, 600, |i| format!("value {i}")),
        6 => case::<u32, String>(src, cx, 600, |i| format!("value {i}")),
        7 => case::<u32, ()>(src, cx, 600, |_| ()),
        8 => case::<String, u8>(src, cx, 600, |i| i as u8),
        9 => case::<u32, [u64; 5]>(src, cx, 600, |i| [i as u64; 5]),
        10 => case::<Box<str>, u64>(src, cx, 600, idx),
        11 => case::<i32, u64>(src, cx, 600, idx),
        12 => case::<u8, u64>(src, cx, 256, idx),
        13 => case::<bool, u64>(src, cx, 2, idx),
        _ => {
            // the empty map by default construction
            let mut m: DMap<String, String, u64> =
                Box::new(frozen_collections_core::facades::FrozenMap::<String, u64, Bh>::default());
            cx.describe(|| "FrozenMap::default()".into());
            let probes = String::probes(src, &[]);
            map_reads(&mut *m, &[], String::clone, &probes, cx, src)
        }
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop {
        id: "C01",
        rule: "at least two pairs stored and at least one absent key probed; distinct by the choices drawn",
        run,
    })
}
