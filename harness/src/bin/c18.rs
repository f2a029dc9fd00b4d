//! C18: lookups examine only a few candidates.

use std::collections::{HashMap, HashSet};
use std::process::ExitCode;
use vh::engine::{Cx, Prop, Rng, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, Spec};
use vh::gen::brief;
use vh::hashers::{full_input, record, Bh};
use vh::keys::{gen_strings, Key};
use vh::liars::{comparisons, tell, Liar, Lies, OddInt};
use vh::maps::{Cap, Ctor, Hint};

/// The documented average.
const FEW: f64 = 3.0;

fn size(src: &mut Src) -> usize {
    match src.weighted(&[120, 120, 60, 24, 1]) {
        0 => src.urange(1, 20),
        1 => src.biased(1, 140, &[7, 8, 9, 16, 31, 32, 64, 100, 126, 127, 128, 129]) as usize,
        2 => src.biased(128, 700, &[128, 129, 199, 200, 253, 254, 255, 256, 257, 512]) as usize,
        3 => src.biased(600, 3000, &[998, 999, 1000, 1001, 1024, 2048]) as usize,
        _ => src.biased(3000, 20_000, &[4096, 8192, 10_000]) as usize,
    }
}

/// `n` distinct digit strings of one width.
fn codes(rng: &mut Rng, n: usize) -> Vec<String> {
    let w = n.to_string().len() + 1 + rng.upto(4) as usize;
    let mut seen = HashSet::new();
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let c: String = (0..w).map(|_| char::from(b'a' + rng.upto(9) as u8)).collect();
        if seen.insert(c.clone()) {
            v.push(c);
        }
    }
    v
}

fn text(rng: &mut Rng, len: usize) -> String {
    (0..len).map(|_| char::from(b'a' + rng.upto(3) as u8)).collect()
}

/// Keys, absent keys, the range of a slice.
type Given<K> = (Vec<K>, Vec<K>, std::ops::Range<usize>);

fn liar(s: String) -> Liar {
    Liar { text: s }
}

fn texts(src: &mut Src, kind: Kind, n: usize) -> Given<Liar> {
    let mut rng = src.bulk();
    let m = n.clamp(200, 2000);
    match kind {
        Kind::Left | Kind::Right => {
            let all = codes(&mut rng, n + m);
            let (fixed, vary) = (src.urange(0, 4), src.urange(0, 6));
            let anchor = text(&mut rng, fixed);
            let w = all[0].len();
            let mut keys: Vec<Liar> = all
                .iter()
                .map(|c| {
                    let len = rng.upto(vary as u64) as usize;
                    let rest = text(&mut rng, len);
                    liar(if kind == Kind::Left { format!("{anchor}{c}{rest}") } else { format!("{rest}{c}{anchor}") })
                })
                .collect();
            let absent = keys.split_off(n);
            (keys, absent, fixed..fixed + w)
        }
        Kind::Length => {
            // one length for each residue
            let far = src.urange(0, 3) as u64;
            let base = src.urange(0, 40) as u64;
            let keys: Vec<Liar> = (0..n as u64)
                .map(|i| {
                    let len = base + i + n as u64 * rng.upto(far);
                    liar(text(&mut rng, len as usize))
                })
                .collect();
            let longest = base + n as u64 * (far + 2);
            let absent = (0..m).map(|_| liar(format!("z{}", { let l = rng.upto(longest) as usize; text(&mut rng, l) }))).collect();
            (keys, absent, 0..0)
        }
        _ => {
            let (mut keys, _) = <Liar as Key>::gen(src, n);
            let have: HashSet<String> = keys.iter().map(|k| k.text.clone()).collect();
            let mut near = Liar::probes(src, &keys);
            near.extend(codes(&mut rng, m).into_iter().map(|c| liar(format!("{c}!"))));
            near.retain(|k| !have.contains(&k.text));
            let mut seen = HashSet::new();
            near.retain(|k| seen.insert(k.text.clone()));
            keys.truncate(n);
            (keys, near, 0..0)
        }
    }
}

fn ints(src: &mut Src, kind: Kind, n: usize) -> Given<OddInt> {
    let mut rng = src.bulk();
    let m = n.clamp(200, 2000);
    let mut keys: Vec<u64> = if kind == Kind::Integer {
        // one integer for each residue
        let far = src.biased(0, u64::MAX / (n as u64 + 2) - 2, &[0, 1, 2, 3, 15, 255, 1 << 20]);
        let base = src.biased(0, 1 << 40, &[0, 1, 100]);
        let same = src.flag();
        (0..n as u64).map(|i| (base + i).wrapping_add(n as u64 * if same { 0 } else { rng.upto(far.min((u64::MAX - base - n as u64) / n as u64)) })).collect()
    } else {
        let (v, _) = <OddInt as Key>::gen(src, n);
        v.into_iter().map(|x| x.0).collect()
    };
    src.reorder(&mut keys);
    let have: HashSet<u64> = keys.iter().copied().collect();
    let span = keys.iter().max().map_or(100, |x| x.saturating_mul(2).max(4 * n as u64 + 100));
    let mut seen = HashSet::new();
    let absent = (0..m).map(|_| rng.upto(span)).filter(|x| !have.contains(x) && seen.insert(*x)).map(OddInt).collect();
    (keys.into_iter().map(OddInt).collect(), absent, 0..0)
}

/// Comparisons over several lookups.
#[derive(Default)]
struct Tally {
    lookups: u64,
    compared: u64,
}

impl Tally {
    fn of<T>(&mut self, f: impl FnOnce() -> T) -> T {
        let before = comparisons();
        let r = f();
        self.compared += comparisons() - before;
        self.lookups += 1;
        r
    }
    fn few(&self, what: &str) -> R {
        let mean = self.compared as f64 / self.lookups.max(1) as f64;
        ensure!(mean <= FEW, "{what} compares {mean:.2} keys on average ({} lookups)", self.lookups);
        Ok(())
    }
}

/// The mean over several hashers: a single one may be unlucky when there are few keys.
fn hashed<K: Family>(src: &mut Src, cx: &mut Cx, given: impl Fn(&mut Src, Kind, usize) -> Given<K>, kinds: &[Kind]) -> R {
    let kind = *src.pick(kinds);
    // the residues and the lengths are exact: no luck is needed, and long texts take long
    let n = if kind == Kind::Length { src.biased(1, 300, &[4, 127, 128, 129, 255, 256]) as usize } else { size(src) };
    let (keys, absent, range) = given(src, kind, n);
    let n = keys.len();
    let set = src.flag();
    let cap = Cap::gen(src, n);
    let ctor = *src.pick(&[Ctor::VecHasher, Ctor::IterHasher(Hint::Silent), Ctor::ArrayHasher]);
    let hashers = if matches!(kind, Kind::Length | Kind::Integer) || n > 600 { 1 } else if n > 64 { 4 } else { 12 };
    let seed = src.below(1 << 20);
    let spec = |i: u64| Spec { kind, ctor, cap, bh: Bh::good(seed + i), range: range.clone() };
    cx.describe(|| format!("{} of {n} {} keys in {}, {hashers} hashers, {}", if set { "set" } else { "map" }, K::NAME, spec(0).show(), brief(&keys)));
    cx.label(format!("{kind:?}<{}> {}", K::NAME, if n < 128 { "small" } else if n < 1000 { "medium" } else { "large" }));
    cx.nontrivial(n >= 4);
    let mut t: [Tally; 6] = Default::default();
    let mut lost = 0;
    for i in 0..hashers {
        if set {
            let s = K::build_set::<()>(&spec(i), keys.clone());
            for k in &keys {
                lost += usize::from(t[0].of(|| s.get(k)).is_none());
                lost += usize::from(!t[1].of(|| s.contains(k)));
                lost += usize::from(!t[1].of(|| s.set_contains(k)));
            }
            for k in &absent {
                t[4].of(|| s.get(k).is_some());
                t[5].of(|| s.contains(k));
                t[5].of(|| s.set_contains(k));
            }
        } else {
            let mut m = K::build_map(&spec(i), keys.iter().cloned().enumerate().map(|(i, k)| (k, i as u64)).collect::<Vec<_>>());
            for k in &keys {
                lost += usize::from(t[0].of(|| m.get(k).is_none()));
                lost += usize::from(!t[1].of(|| m.contains_key(k)));
                lost += usize::from(t[2].of(|| m.get_key_value(k).is_none()));
                lost += usize::from(t[3].of(|| m.get_mut(k).is_none()));
            }
            for (j, k) in absent.iter().enumerate() {
                t[4].of(|| m.get(k).is_some());
                match j % 3 {
                    0 => t[5].of(|| m.contains_key(k)),
                    1 => t[5].of(|| m.get_key_value(k).is_some()),
                    _ => t[5].of(|| m.get_mut(k).is_some()),
                };
            }
        }
    }
    ensure!(lost == 0, "{lost} lookups of keys present fail");
    for (i, what) in ["get of a key present", "contains of a key present", "get_key_value of a key present", "get_mut of a key present",
        "get of an absent key", "another lookup of an absent key"].iter().enumerate() {
        t[i].few(what)?;
    }
    Ok(())
}

/// Comparing strings cannot be counted, but keys that are hashed alike can: one lookup can tell them apart only by
/// examining them.
fn facade(src: &mut Src, cx: &mut Cx) -> R {
    let n = if src.chance(1, 6) { src.biased(600, 6000, &[1000, 2000, 3000, 5000]) as usize } else { size(src).clamp(4, 700) };
    let mut keys = if src.chance(1, 2) {
        gen_strings(src, n).0
    } else {
        // all but some have a short part that tells them apart; some are alike in it
        let mut rng = src.bulk();
        let percent = src.biased(0, 60, &[0, 1, 2, 3, 4, 5, 6, 10, 50]);
        let groups = src.biased(1, n as u64, &[1, 1, 2, 10]);
        let (left, tail) = (src.flag(), src.urange(0, 3));
        let all = codes(&mut rng, n);
        let alike = all[0].clone();
        all.into_iter()
            .enumerate()
            .map(|(i, c)| {
                let (a, b) = if rng.upto(99) < percent {
                    let g = rng.upto(groups - 1);
                    (if g == 0 { alike.clone() } else { format!("{g:0w$}", w = alike.len()) }, format!("#{i}#"))
                } else {
                    let l = tail + rng.upto(4) as usize;
                    (c, text(&mut rng, l))
                };
                if left { format!("{a}{b}") } else { format!("{b}{a}") }
            })
            .collect()
    };
    let mut seen = HashSet::new();
    keys.retain(|k| seen.insert(k.clone()));
    src.reorder(&mut keys);
    let spec = Spec { kind: Kind::Frozen, ctor: *src.pick(&[Ctor::VecHasher, Ctor::IterHasher(Hint::Silent)]), cap: Cap::Usize, bh: Bh::gen_good(src), range: 0..0 };
    let set = src.flag();
    let n = keys.len();
    cx.describe(|| format!("{} of {n} strings in {}, {}", if set { "set" } else { "map" }, spec.show(), brief(&keys)));
    cx.nontrivial(n >= 4);
    let mut inputs: HashMap<(Vec<Vec<u8>>, usize), u64> = HashMap::new();
    let mut note = |k: &String, log: Vec<Vec<u8>>| *inputs.entry((log, k.len())).or_default() += 1;
    let mut kind = "nohash";
    if set {
        let s = String::build_set::<()>(&spec, keys.clone());
        for k in &keys {
            let (_, log) = record(|| s.contains(k));
            kind = vh::hashers::classify(&full_input(k), &log);
            note(k, log);
        }
    } else {
        let m = String::build_map(&spec, keys.iter().map(|k| (k.clone(), 0u64)).collect());
        for k in &keys {
            let (_, log) = record(|| m.contains_key(k));
            kind = vh::hashers::classify(&full_input(k), &log);
            note(k, log);
        }
    }
    cx.label(format!("facade {kind} {}", if n < 128 { "small" } else if n < 1000 { "medium" } else { "large" }));
    // where nothing is hashed, keys of one length cannot be told apart either
    let examined: u64 = inputs.values().map(|m| m * (m + 1) / 2).sum();
    let mean = examined as f64 / n as f64;
    ensure!(mean <= FEW, "lookups examine at least {mean:.2} keys on average: so many keys are hashed alike, or as long as each other and not hashed");
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    tell(Lies::NONE);
    match src.weighted(&[6, 4, 2]) {
        0 => hashed::<Liar>(src, cx, texts, &[Kind::Common, Kind::Frozen, Kind::Left, Kind::Right, Kind::Length]),
        1 => hashed::<OddInt>(src, cx, ints, &[Kind::Common, Kind::Frozen, Kind::Integer]),
        _ => facade(src, cx),
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop {
        id: "C18",
        rule: "at least four entries, every one of them looked up; distinct by the choices drawn",
        run,
    })
}
