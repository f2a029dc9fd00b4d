//! C03: every specialized map type is a faithful map over its documented domain.

use std::process::ExitCode;
use std::rc::Rc;
use std::sync::Arc;
use vh::checks::{absent_of, map_reads};
use vh::engine::{Cx, Prop, Src, R};
use vh::family::{Bytes, Family, Kind, Word};
use vh::gen::{brief, slice_range};
use vh::hashers::Bh;
use vh::keys::{gen_size, gen_strings, string_probes, Key, Tagged, HUGE_A, HUGE_B, RARE};
use vh::maps::{self, Cap, Ctor, DMap};
use vh::{with_cap, with_few_caps};

const SPECIAL: [Kind; 7] = [Kind::Common, Kind::Left, Kind::Right, Kind::Length, Kind::Integer, Kind::Range, Kind::Scanning];

/// Looked up through its own key type.
fn own<K: Family>(src: &mut Src, cx: &mut Cx, max: usize) -> R {
    let n = gen_size(src, max);
    let (keys, fam) = K::gen(src, n);
    let spec = K::spec(src, &keys, if keys.len() > 5000 { &SPECIAL[..6] } else { &SPECIAL });
    let probes = K::probes(src, &keys);
    let absent = absent_of(&keys, probes);
    let payload: Vec<(K, u64)> = keys.into_iter().enumerate().map(|(i, k)| (k, i as u64 * 3 + 1)).collect();
    cx.describe(|| format!("{} keys in {}, family {fam}, payload {}", K::NAME, spec.show(), brief(&payload)));
    cx.label(format!("{:?}<{}>", spec.kind, K::NAME));
    let mut m = K::build_map(&spec, payload.clone());
    map_reads(&mut *m, &payload, K::alias, &absent, cx, src)?;
    cx.nontrivial(payload.len() >= 2 && !absent.is_empty());
    if src.chance(1, 5) {
        let mut c = m.clone_box();
        drop(m);
        map_reads(&mut *c, &payload, K::alias, &absent, cx, src)?;
    }
    Ok(())
}

/// Looked up through a borrowed form of the key.
fn borrowed<K: Key, Q: Clone + std::fmt::Debug>(
    src: &mut Src, cx: &mut Cx, kinds: &[&str], to: impl Fn(String) -> K, as_q: impl Fn(&K) -> Q, q: impl Fn(String) -> Q,
    build: impl Fn(&str, Ctor, Cap, Bh, std::ops::Range<usize>, Vec<(K, u64)>) -> DMap<K, Q, u64>,
) -> R {
    let n = gen_size(src, 300);
    let (strings, fam) = gen_strings(src, n);
    let kind = *src.pick(kinds);
    let (ctor, cap, bh) = (Ctor::gen(src), Cap::gen(src, n), Bh::gen(src));
    let lens = strings.iter().map(String::len);
    let range = slice_range(src, lens.clone().min().unwrap_or(0), lens.max().unwrap_or(0));
    let probes = string_probes(src, &strings);
    let absent: Vec<Q> = absent_of(&strings, probes).into_iter().map(q).collect();
    let payload: Vec<(K, u64)> = strings.into_iter().enumerate().map(|(i, s)| (to(s), i as u64 * 3 + 1)).collect();
    cx.describe(|| {
        format!("{} keys looked up by {} in {kind}<{cap:?}>[{range:?}] via {ctor:?}, {bh:?}, family {fam}, payload {}",
            K::NAME, std::any::type_name::<Q>(), brief(&payload))
    });
    cx.label(format!("{kind}<{}> by {}", K::NAME, std::any::type_name::<Q>().rsplit("::").next().unwrap_or("")));
    let mut m = build(kind, ctor, cap, bh, range, payload.clone());
    cx.nontrivial(payload.len() >= 2);
    map_reads(&mut *m, &payload, as_q, &absent, cx, src)
}

macro_rules! by_string {
    ($src:expr, $cx:expr, $K:ty) => {
        borrowed::<$K, String>($src, $cx, &["Common", "Length", "Scanning"], <$K>::new, |k| (**k).clone(), |s| s,
            |kind, ctor, cap, bh, _r, p| match kind {
                "Common" => with_few_caps!(cap, S => maps::common::<$K, String, u64, S>(ctor, bh, p)),
                "Length" => with_few_caps!(cap, S => maps::length::<$K, String, u64, S>(ctor, p)),
                _ => maps::scanning(ctor, p),
            })
    };
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    if src.chance(1, RARE) {
        cx.label("huge");
        let max = *src.pick(&[HUGE_A, HUGE_B]);
        return match src.weighted(&[3, 4, 2, 1]) {
            0 => own::<u32>(src, cx, max),
            1 => own::<String>(src, cx, max),
            2 => own::<i64>(src, cx, max),
            _ => own::<u16>(src, cx, HUGE_A),
        };
    }
    match src.weighted(&[3, 3, 3, 3, 2, 3, 2, 3, 3, 3, 2, 3, 14, 6, 2, 2, 1, 1, 2, 1, 1, 1, 3, 1]) {
        0 => own::<u8>(src, cx, 256),
        1 => own::<u16>(src, cx, 600),
        2 => own::<u32>(src, cx, 1500),
        3 => own::<u64>(src, cx, 600),
        4 => own::<usize>(src, cx, 600),
        5 => own::<u128>(src, cx, 400),
        6 => own::<i8>(src, cx, 256),
        7 => own::<i16>(src, cx, 600),
        8 => own::<i32>(src, cx, 600),
        9 => own::<i64>(src, cx, 600),
        10 => own::<isize>(src, cx, 600),
        11 => own::<i128>(src, cx, 400),
        12 => own::<String>(src, cx, 1200),
        13 => own::<Word>(src, cx, 600),
        14 => own::<Tagged>(src, cx, 1200),
        15 => own::<(u32, String)>(src, cx, 600),
        16 => own::<Box<str>>(src, cx, 400),
        17 => own::<Vec<u8>>(src, cx, 400),
        18 => own::<std::ffi::OsString>(src, cx, 400),
        19 => by_string!(src, cx, Rc<String>),
        20 => by_string!(src, cx, Box<String>),
        21 => by_string!(src, cx, Arc<String>),
        22 => borrowed::<Word, Bytes>(
            src, cx, &["Common", "Left", "Right", "Length", "Scanning"],
            |s| Word { bytes: Bytes(s.into_bytes()), tag: 1 },
            |k| k.bytes.clone(),
            |s| Bytes(s.into_bytes()),
            |kind, ctor, cap, bh, r, p| match kind {
                "Common" => with_cap!(cap, S => maps::common::<Word, Bytes, u64, S>(ctor, bh, p)),
                "Left" => with_cap!(cap, S => maps::left::<Word, Bytes, u64, S>(ctor, bh, r, p)),
                "Right" => with_cap!(cap, S => maps::right::<Word, Bytes, u64, S>(ctor, bh, r, p)),
                "Length" => with_cap!(cap, S => maps::length::<Word, Bytes, u64, S>(ctor, p)),
                _ => maps::scanning(ctor, p),
            },
        ),
        _ => own::<char>(src, cx, 600),
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop {
        id: "C03",
        rule: "at least two pairs stored and absent keys probed; distinct by the choices drawn",
        run,
    })
}
