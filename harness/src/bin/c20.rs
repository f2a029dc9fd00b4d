//! C20: slice hashing depends only on the selected bytes.

use frozen_collections_core::traits::slice_hash::SliceHash;
use std::hash::{BuildHasher, DefaultHasher, Hasher, RandomState};
use std::ops::Range;
use std::process::ExitCode;
use vh::engine::{catch, Cx, Prop, Src, R};
use vh::ensure;
use vh::hashers::{record, Bh};
use vh::keys::gen_strings;

/// What a hasher was given, call by call.
#[derive(Clone, Copy, Debug)]
struct Calls;
#[derive(Default)]
struct Call(Vec<u8>);
impl BuildHasher for Calls {
    type Hasher = Call;
    fn build_hasher(&self) -> Call {
        Call::default()
    }
}
impl Hasher for Call {
    fn write(&mut self, bytes: &[u8]) {
        // how the input is divided shows
        self.0.extend_from_slice(&bytes.len().to_le_bytes());
        self.0.extend_from_slice(bytes);
    }
    fn write_u8(&mut self, i: u8) {
        self.0.push(i);
        self.0.push(1);
    }
    fn finish(&self) -> u64 {
        let mut h = DefaultHasher::new();
        h.write(&self.0);
        h.finish()
    }
}

#[derive(Clone, Copy, Debug)]
struct Sip;
impl BuildHasher for Sip {
    type Hasher = DefaultHasher;
    fn build_hasher(&self) -> DefaultHasher {
        DefaultHasher::new()
    }
}

/// Bytes, as the types that can hold them.
fn holders(b: &[u8], bh: &impl BuildHasher, r: &Range<usize>) -> Vec<(&'static str, u64)> {
    let mut v = vec![("[u8]", SliceHash::hash(b, bh, r.clone()))];
    if let Ok(s) = String::from_utf8(b.to_vec()) {
        v.push(("String", SliceHash::hash(&s, bh, r.clone())));
    }
    v
}

fn any_text(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[3, 2, 1]) {
        0 => {
            let n = src.urange(1, 3);
            gen_strings(src, n).0.swap_remove(0).into_bytes()
        }
        1 => src.vec(0, 40, |s| s.pick(&[0u8, 1, b'a', b'b', 0x7f, 0x80, 0xff, 0xc3, 0xa9]).to_owned()),
        _ => {
            let n = src.biased(0, 5000, &[63, 64, 65, 255, 256, 4096]) as usize;
            let mut rng = src.bulk();
            (0..n).map(|_| rng.upto(255) as u8).collect()
        }
    }
}

fn surround(src: &mut Src, part: &[u8]) -> (Vec<u8>, Range<usize>) {
    let ascii = src.flag();
    let fill = |src: &mut Src| src.vec(0, 12, |s| if ascii { b'a' + s.below(26) as u8 } else { s.below(256) as u8 });
    let (mut v, tail) = (fill(src), fill(src));
    let at = v.len();
    v.extend_from_slice(part);
    v.extend(tail);
    (v, at..at + part.len())
}

fn equal(src: &mut Src, cx: &mut Cx) -> R {
    let part = any_text(src);
    let (a, ra) = surround(src, &part);
    let (b, rb) = surround(src, &part);
    let bh = Bh::gen(src);
    cx.describe(|| format!("{ra:?} of {a:?} and {rb:?} of {b:?}, {bh:?}"));
    cx.label("equal parts");
    cx.nontrivial(!part.is_empty() && a != b);
    let rs = RandomState::new();
    macro_rules! with {
        ($bh:expr) => {{
            let mut all = holders(&a, $bh, &ra);
            all.extend(holders(&b, $bh, &rb));
            all.extend(holders(&part, $bh, &(0..part.len())));
            for (t, h) in &all {
                ensure!(*h == all[0].1, "by {:?}, the same bytes hash to {:x} in a {} and to {h:x} in a {t}", stringify!($bh), all[0].1, all[0].0);
            }
        }};
    }
    with!(&bh);
    with!(&Calls);
    with!(&Sip);
    with!(&rs);
    Ok(())
}

/// Another byte string, which differs in some interesting way.
fn other(src: &mut Src, a: &[u8]) -> Vec<u8> {
    let mut b = a.to_vec();
    match src.weighted(&[4, 2, 2, 2, 2, 1, 1]) {
        0 if !b.is_empty() => {
            let i = src.idx(b.len());
            b[i] ^= 1 << src.below(8);
        }
        1 => b.push(src.pick(&[0u8, 0xff, b'a']).to_owned()),
        2 if !b.is_empty() => {
            b.pop();
        }
        3 if !b.is_empty() => {
            b.remove(0);
        }
        4 if b.len() >= 2 => {
            let (i, j) = (src.idx(b.len()), src.idx(b.len()));
            b.swap(i, j);
        }
        5 => b.insert(0, 0),
        _ => b = any_text(src),
    }
    b
}

fn different(src: &mut Src, cx: &mut Cx) -> R {
    let (p, bh) = (any_text(src), Bh::gen_good(src));
    let q = other(src, &p);
    if p == q {
        cx.label("no difference");
        return Ok(());
    }
    let (a, ra) = surround(src, &p);
    let (b, rb) = surround(src, &q);
    cx.describe(|| format!("{ra:?} of {a:?} and {rb:?} of {b:?}"));
    cx.label("different parts");
    cx.nontrivial(true);
    let (ha, la) = record(|| holders(&a, &bh, &ra));
    let (hb, lb) = record(|| holders(&b, &bh, &rb));
    ensure!(la.len() == ha.len() && lb.len() == hb.len(), "not one hash is computed for each value");
    for (x, (t, _)) in la.iter().zip(&ha) {
        for (y, (u, _)) in lb.iter().zip(&hb) {
            ensure!(x != y, "{p:?} in a {t} and {q:?} in a {u} give the hasher the same input {x:?}");
        }
    }
    Ok(())
}

fn outside(src: &mut Src, cx: &mut Cx) -> R {
    let a = any_text(src);
    let n = a.len();
    let mut bound = |src: &mut Src| match src.weighted(&[3, 3, 1, 1]) {
        0 => src.urange(0, n),
        1 => n + src.urange(0, 3),
        2 => usize::MAX - src.urange(0, 40),
        _ => src.any_u64() as usize,
    };
    let (s, e) = (bound(src), bound(src));
    let r = s..e;
    let valid = s <= e && e <= n;
    cx.describe(|| format!("{r:?} of {a:?}"));
    cx.label(if valid { "inside" } else { "outside" });
    cx.nontrivial(!valid);
    let bh = Bh::gen(src);
    let results = [
        ("[u8]", catch(|| SliceHash::hash(&a[..], &bh, r.clone()))),
        // a string is tried wherever it can be one, though the range may cut its characters
        ("String", match String::from_utf8(a.clone()) {
            Ok(t) => catch(|| SliceHash::hash(&t, &bh, r.clone())),
            Err(_) => catch(|| SliceHash::hash(&a[..], &bh, r.clone())),
        }),
    ];
    for (t, h) in results {
        ensure!(h.is_ok() == valid, "hashing {r:?} of a {t} of {n} bytes {}", if valid { "panics" } else { "is accepted" });
    }
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    match src.weighted(&[3, 3, 2]) {
        0 => equal(src, cx),
        1 => different(src, cx),
        _ => outside(src, cx),
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop {
        id: "C20",
        rule: "two different surroundings of some bytes, two different parts, or a range outside; distinct by the choices drawn",
        run,
    })
}
