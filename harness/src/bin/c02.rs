//! C02: a frozen set contains exactly the values it was built from.

use frozen_collections_core::facades::FrozenSet;
use std::process::ExitCode;
use vh::checks::{absent_of, set_reads};
use vh::engine::{Cx, Prop, Src, R};
use vh::gen::brief;
use vh::hashers::{full_input, record, Bh};
use vh::keys::{gen_size, Key, Tagged, HUGE_A, HUGE_B, RARE};
use vh::maps::Ctor;
use vh::sets::{reads::frozen, DSet};

fn case<T: Key>(src: &mut Src, cx: &mut Cx, max: usize) -> R {
    let n = gen_size(src, max);
    let ctor = Ctor::gen(src);
    let bh = Bh::gen(src);
    let (values, fam) = T::gen(src, n);
    let probes = T::probes(src, &values);
    let absent = absent_of(&values, probes);
    let n = values.len();
    cx.describe(|| format!("FrozenSet<{}> via {ctor:?}, {bh:?}, family {fam}, payload {}", T::NAME, brief(&values)));
    let s = frozen(ctor, bh, values.clone());
    set_reads(&*s, &values, T::alias, &absent, cx, src)?;
    cx.nontrivial(n >= 2 && !absent.is_empty());
    if ctor.with_hasher() && n > 0 {
        let (_, log) = record(|| s.contains(&values[0]));
        let layout = vh::hashers::classify(&full_input(&values[0]), &log);
        cx.label(format!("{}:{}{}", T::NAME, layout, if n < 4 { ":tiny" } else if n > 255 { ":large" } else { "" }));
    }
    if src.chance(1, 4) {
        cx.label("clone");
        let c = s.clone_box();
        drop(s);
        set_reads(&*c, &values, T::alias, &absent, cx, src)?;
    }
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    if src.chance(1, RARE) {
        cx.label("huge");
        let max = *src.pick(&[HUGE_A, HUGE_B]);
        return match src.weighted(&[3, 3, 2, 1]) {
            0 => case::<u64>(src, cx, max),
            1 => case::<String>(src, cx, max),
            2 => case::<Tagged>(src, cx, max),
            _ => case::<u32>(src, cx, max),
        };
    }
    match src.weighted(&[12, 24, 2, 2, 2, 1, 1, 1, 1, 1, 1]) {
        0 => case::<u32>(src, cx, 2000),
        1 => case::<String>(src, cx, 1500),
        2 => case::<Tagged>(src, cx, 2000),
        3 => case::<u64>(src, cx, 2000),
        4 => case::<(u32, String)>(src, cx, 600),
        5 => case::<Box<str>>(src, cx, 600),
        6 => case::<i32>(src, cx, 600),
        7 => case::<u8>(src, cx, 256),
        8 => case::<bool>(src, cx, 2),
        9 => case::<char>(src, cx, 600),
        _ => {
            let s: DSet<String, String> = Box::new(FrozenSet::<String, Bh>::default());
            cx.describe(|| "FrozenSet::default()".into());
            let probes = String::probes(src, &[]);
            set_reads(&*s, &[], String::clone, &probes, cx, src)
        }
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop {
        id: "C02",
        rule: "at least two values stored and at least one absent value probed; distinct by the choices drawn",
        run,
    })
}
