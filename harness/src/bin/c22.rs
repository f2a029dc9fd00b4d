//! C22: reading allocates nothing, and hashes a key at most once.

use std::process::ExitCode;
use vh::alloc::{allocated, Counting};
use vh::engine::{Cx, Prop, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, Spec};
use vh::gen::{brief, split};
use vh::hashers::finished;
use vh::iters::Dyn;
use vh::keys::{gen_size, gen_size_min};
use vh::liars::{hashings, tell, Liar, Lies, OddInt};
use vh::maps::{Cell, MANY};
use vh::sets::{Op, OPS};

#[global_allocator]
static COUNTING: Counting = Counting;

/// What the harness itself allocates for an iterator of a type unknown to it, generously.
const BOXES: (u64, u64) = (640, 8);

/// What one read took: blocks allocated, keys hashed.
struct Took {
    bytes: u64,
    blocks: u64,
    hashed: u64,
}

fn took<T>(f: impl FnOnce() -> T) -> (T, Took) {
    let (h, d) = (hashings(), finished());
    let (r, (bytes, blocks)) = allocated(f);
    (r, Took { bytes, blocks, hashed: (hashings() - h).max(finished() - d) })
}

fn nothing(what: &str, t: &Took, hashes: u64) -> R {
    ensure!(t.blocks == 0, "{what} allocates {} bytes in {} blocks", t.bytes, t.blocks);
    ensure!(t.hashed <= hashes, "{what} hashes keys {} times, and not at most {hashes}", t.hashed);
    Ok(())
}

fn little(what: &str, t: &Took, hashes: u64) -> R {
    ensure!(t.blocks <= BOXES.1 && t.bytes <= BOXES.0, "{what} allocates {} bytes in {} blocks", t.bytes, t.blocks);
    ensure!(t.hashed <= hashes, "{what} hashes keys {} times, and not at most {hashes}", t.hashed);
    Ok(())
}

/// How often a lookup may hash.
fn hashes(spec: &Spec) -> u64 {
    u64::from(!matches!(spec.kind, Kind::Scanning | Kind::Length | Kind::Integer | Kind::Range | Kind::BTree))
}

fn maps<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 1200);
    let (keys, fam) = K::gen(src, n);
    let n = keys.len();
    let spec = K::spec(src, &keys, &[]);
    let mut payload: Vec<(K, Cell)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), Cell(i as u64))).collect();
    let twin = K::build_map(&spec, payload.clone());
    src.reorder(&mut payload);
    let other_spec = spec.sibling(src, K::lengths(&keys));
    let mut other = K::build_map(&other_spec, payload.clone());
    let mut m = K::build_map(&spec, payload);
    cx.describe(|| format!("map of {n} {} keys in {}, family {fam}, {}", K::NAME, spec.show(), brief(&keys)));
    cx.label(format!("map {:?}<{}>", spec.kind, K::NAME));
    cx.nontrivial(n >= 4);
    let once = hashes(&spec);

    let step = (n / 100).max(1);
    let probes = vh::checks::absent_of(&keys, K::probes(src, &keys));
    let mut found = 0;
    for k in keys.iter().step_by(step).chain(&probes) {
        let (r, t) = took(|| m.get(k).is_some());
        nothing("get", &t, once)?;
        found += usize::from(r);
        let (r, t) = took(|| m.get_key_value(k).is_some());
        nothing("get_key_value", &t, once)?;
        found += usize::from(r);
        let (r, t) = took(|| m.contains_key(k));
        nothing("contains_key", &t, once)?;
        found += usize::from(r);
        let (r, t) = took(|| m.get_mut(k).is_some());
        nothing("get_mut", &t, once)?;
        found += usize::from(r);
    }
    for k in keys.iter().step_by(step) {
        let q = k.clone();
        let (v, t) = took(|| m.index(q).0);
        nothing("indexing", &t, once)?;
        let q = k.clone();
        let (w, t) = took(|| m.index_mut(q).0);
        nothing("mutable indexing", &t, once)?;
        ensure!(v == w, "indexing finds {v}, mutable indexing finds {w}");
    }
    ensure!(found == 4 * n.div_ceil(step), "{found} lookups succeed");

    let (l, t) = took(|| m.len() + usize::from(m.is_empty()));
    nothing("len", &t, 0)?;
    ensure!(l == n.max(1), "len is {l}");
    let (c, t) = took(|| {
        let mut c = m.iter().fold(0, |a, _| a + 1) + m.keys().fold(0, |a, _| a + 1) + m.values().fold(0, |a, _| a + 1) + m.by_ref().fold(0, |a, _| a + 1);
        let mut it = m.iter();
        while it.next().is_some() {
            c += it.len() + it.size_hint().0 - 2 * it.clone().count() + 1;
        }
        c
    });
    nothing("iteration", &t, 0)?;
    ensure!(c == 5 * n, "five iterations find {c}");

    // several at once: the harness makes one list of the references
    if n > 0 {
        let want = *src.pick(&MANY);
        let mut asked: Vec<&K> = Vec::new();
        for _ in 0..want {
            asked.push(if !probes.is_empty() && src.chance(1, 12) { src.pick(&probes) } else { src.pick(&keys) });
        }
        if src.flag() && want <= n {
            asked = keys.iter().take(want).collect();
        }
        let (r, t) = took(|| m.get_many(&asked).map(|v| v.len()));
        let mine = if r.is_some() { (8 * want as u64, u64::from(want > 0)) } else { (0, 0) };
        ensure!((t.bytes, t.blocks) == mine, "get_many_mut of {want} allocates {} bytes in {} blocks, of which {} are the harness's", t.bytes, t.blocks, mine.1);
        ensure!(t.hashed <= once * want as u64, "get_many_mut of {want} hashes keys {} times", t.hashed);
    }

    let (e, t) = took(|| m.equals(&*twin));
    nothing("equality", &t, 2 * n as u64)?;
    ensure!(e == Some(true), "equal maps are found not to be");
    let (e, t) = took(|| m.equals(&*other));
    nothing("equality", &t, 2 * n as u64)?;
    ensure!(e == Some(true), "equal maps are found not to be");
    if n > 0 {
        src.pick(&keys).clone_into_mut(&mut *other);
        let (e, t) = took(|| m.equals(&*other));
        nothing("equality", &t, 2 * n as u64)?;
        ensure!(e == Some(false), "maps that differ are found equal");
    }
    Ok(())
}

trait Change<K> {
    fn clone_into_mut(&self, m: &mut dyn vh::maps::TMap<K, K, Cell>);
}
impl<K: Clone> Change<K> for K {
    /// Changes the value of this key.
    fn clone_into_mut(&self, m: &mut dyn vh::maps::TMap<K, K, Cell>) {
        m.index_mut(self.clone()).0 += 1_000_000;
    }
}

fn sets<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size_min(src, 0, 1200);
    let (keys, fam) = K::gen(src, n);
    let (a, b, how) = split(src, &keys);
    let all = [Kind::Frozen, Kind::Common, Kind::Left, Kind::Right, Kind::Length, Kind::Integer, Kind::Range, Kind::Scanning, Kind::Hash, Kind::BTree];
    let sa = K::spec(src, &a, &[]);
    let sb = K::spec(src, &b, &all);
    cx.describe(|| format!("set of {} {} values in {} and set of {} in {}, {how}, family {fam}, {}", a.len(), K::NAME, sa.show(), b.len(), sb.show(), brief(&keys)));
    cx.label(format!("set {:?}<{}>", sa.kind, K::NAME));
    cx.nontrivial(a.len() + b.len() >= 4);
    let once = hashes(&sa);
    let x = K::build_aset::<()>(&sa, a.clone());
    let y = K::any_set::<()>(&sb, b.clone());
    let twin = x.clone_aset();
    let steps = (a.len() + b.len()) as u64;
    let probes = K::probes(src, &a);

    let step = (a.len() / 50).max(1);
    for k in a.iter().step_by(step).chain(&b).take(100).chain(&probes) {
        let (_, t) = took(|| x.get(k).is_some());
        nothing("get", &t, once)?;
        let (_, t) = took(|| x.contains(k));
        nothing("contains", &t, once)?;
        let (_, t) = took(|| x.set_contains(k));
        nothing("Set::contains", &t, once)?;
    }
    let (_, t) = took(|| x.len() + usize::from(x.is_empty()));
    nothing("len", &t, 0)?;
    let (it, t) = took(|| x.iter());
    little("iter", &t, 0)?;
    let (c, t) = took(|| Dyn(it).fold(0, |c, _| c + 1));
    nothing("iteration", &t, 0)?;
    ensure!(c == a.len(), "{c} of {} values", a.len());

    for op in OPS {
        let (it, t) = took(|| x.op(op, &y));
        little(&format!("{op:?}"), &t, steps)?;
        let made = t.hashed;
        let mut it = Dyn(it);
        let mut c = 0;
        // as a vector that collects them would
        let hints = src.flag();
        let mut most = Some(0);
        let ((), t) = took(|| {
            most = it.size_hint().1;
            while it.next().is_some() {
                c += 1;
                if hints {
                    most = it.size_hint().1;
                }
            }
        });
        std::hint::black_box(most);
        // passing from one set to the other, the harness may box an iterator
        little(&format!("going through a {op:?}"), &t, steps.saturating_sub(made))?;
        ensure!(c <= steps && (op != Op::Intersection || c <= a.len().min(b.len()) as u64), "{op:?} has {c} items");
    }
    for (what, r) in [("is_subset", took(|| x.is_subset(&y))), ("is_superset", took(|| x.is_superset(&y))), ("is_disjoint", took(|| x.is_disjoint(&y)))] {
        little(what, &r.1, steps)?;
    }
    let (_, t) = took(|| x.equals_any(&y));
    little("equality with another type", &t, steps)?;
    let (e, t) = took(|| x.equals(&*twin));
    little("equality", &t, 2 * a.len() as u64)?;
    ensure!(e == Some(true), "equal sets are found not to be");
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    tell(Lies::NONE);
    match src.weighted(&[3, 3, 3, 2, 3, 3, 3, 2]) {
        0 => maps::<u32>(src, cx),
        1 => maps::<String>(src, cx),
        2 => maps::<Liar>(src, cx),
        3 => maps::<OddInt>(src, cx),
        4 => sets::<u32>(src, cx),
        5 => sets::<String>(src, cx),
        6 => sets::<Liar>(src, cx),
        _ => sets::<OddInt>(src, cx),
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop {
        id: "C22",
        rule: "at least four entries, and every kind of read measured; distinct by the choices drawn",
        run,
    })
}
