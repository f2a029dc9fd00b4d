//! C17: memory use stays proportional to the payload.

use std::mem::{size_of, size_of_val};
use std::process::ExitCode;
use vh::alloc::{live, Counting};
use vh::engine::{Cx, Prop, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, Spec, Word};
use vh::gen::brief;
use vh::keys::{Key, Tagged};
use vh::maps::{Cap, Val};

#[global_allocator]
static COUNTING: Counting = Counting;

/// The most bytes a lookup table may take.
fn table(spec: &Spec, n: usize) -> usize {
    let index = match (spec.kind, spec.cap) {
        (Kind::Scanning | Kind::Range, _) => 0,
        (Kind::Frozen, _) => if n <= 255 { 1 } else { size_of::<usize>() },
        (_, Cap::U8) => 1,
        (_, Cap::U16) => 2,
        (_, Cap::U32) => 4,
        (_, Cap::U128) => 16,
        _ => 8,
    };
    let slots = if n < 128 { 16 * n } else if n < 1000 { 10 * n } else { 3 * n };
    // the table of an empty collection is not counted by its entries
    slots.max(1) * 2 * index
}

/// The capacity types that are really there: elsewhere a wider one stands in.
fn exact<K: Key>(spec: &mut Spec) {
    spec.cap = match (K::NAME, spec.kind) {
        ("u32" | "String" | "Word", _) | ("i64", Kind::Integer) => spec.cap,
        ("i64", _) => Cap::Usize,
        _ if matches!(spec.cap, Cap::U8 | Cap::U16) => spec.cap,
        _ => Cap::Usize,
    };
}

fn size(src: &mut Src) -> usize {
    match src.weighted(&[6, 8, 6, 3]) {
        0 => src.urange(0, 12),
        1 => src.biased(0, 270, &[100, 120, 126, 127, 128, 129, 254, 255, 256, 257]) as usize,
        2 => src.biased(0, 600, &[127, 128, 129, 255, 256, 257, 511, 512]) as usize,
        _ => src.biased(600, 2400, &[900, 998, 999, 1000, 1001, 1002, 1500, 2000]) as usize,
    }
}

/// Keys which collide however many slots there are, if the hash shows it.
fn stubborn<K: Key>(src: &mut Src, keys: &mut Vec<K>) -> bool {
    if keys.is_empty() || !src.chance(1, 3) {
        return false;
    }
    let few = src.urange(1, keys.len());
    let n = keys.len();
    for i in 0..n {
        if i % few != i {
            keys[i] = keys[i % few].clone();
        }
    }
    src.reorder(keys);
    true
}

fn given<K: Family>(src: &mut Src) -> (Vec<K>, Spec, &'static str, bool) {
    let n = size(src);
    let (mut keys, fam) = K::gen(src, n);
    let mut spec = K::spec(src, &keys, &[Kind::Frozen, Kind::Common, Kind::Left, Kind::Right, Kind::Length, Kind::Integer, Kind::Range, Kind::Scanning]);
    exact::<K>(&mut spec);
    let repeated = spec.kind != Kind::Range && stubborn(src, &mut keys);
    (keys, spec, fam, repeated)
}

struct Budget {
    /// What the keys hold on the heap.
    heap: i64,
    entries: i64,
    table: i64,
}

impl Budget {
    fn check(&self, what: &str, used: i64, n: usize) -> R {
        let allowed = self.heap + self.entries + self.table;
        ensure!(used <= allowed,
            "{what} of {n} entries retains {used} bytes: {} for what the keys hold, {} for entries, and {} for its table, which may have {}",
            self.heap, self.entries, used - self.heap - self.entries, self.table);
        Ok(())
    }
}

fn maps<K: Family, V: Val>(src: &mut Src, cx: &mut Cx, val: impl Fn(usize) -> V) -> R {
    let (keys, spec, fam, repeated) = given::<K>(src);
    let n = keys.len();
    let extra = if src.chance(1, 3) { src.urange(1, 2000) } else { 0 };
    let show = brief(&keys);
    cx.describe(|| format!("map of {n} {} keys{} in {}, family {fam}, room for {extra} more: {show}", K::NAME, if repeated { " with repeats" } else { "" }, spec.show()));
    cx.label(format!("map {:?} {}", spec.kind, if n < 128 { "small" } else if n < 1000 { "medium" } else { "large" }));
    cx.nontrivial(n >= 4);
    let probes = K::probes(src, &keys);
    let outlived = src.flag();

    // nothing is drawn from here on: drawing allocates
    let base = live();
    let mut payload: Vec<(K, V)> = Vec::with_capacity(n + extra);
    payload.extend(keys.iter().cloned().enumerate().map(|(i, k)| (k, val(i))));
    let heap = live().0 - base.0 - (payload.capacity() * size_of::<(K, V)>()) as i64;
    let budget = Budget { heap, entries: (n * size_of::<(K, V)>()) as i64, table: table(&spec, n) as i64 };
    let mut m = K::build_map(&spec, payload);
    let built = live();
    budget.check("a map", built.0 - base.0 - size_of_val(&*m) as i64, n)?;
    ensure!(m.len() == n, "len is {} for {n} pairs", m.len());

    // using it costs nothing
    let mut found = 0;
    for k in keys.iter().take(50).chain(&probes) {
        found += usize::from(m.get(k).is_some()) + usize::from(m.contains_key(k)) + usize::from(m.get_mut(k).is_some());
    }
    found += m.iter().count() + m.keys().count() + m.values().count();
    ensure!(found >= n, "{found} found");
    ensure!(live() == built, "after some reads, {} bytes are held and not {}", live().0 - base.0, built.0 - base.0);

    let c = m.clone_box();
    budget.check("the clone of a map", live().0 - built.0 - size_of_val(&*c) as i64, n)?;
    if outlived {
        drop(m);
        budget.check("the clone of a map that is gone", live().0 - base.0 - size_of_val(&*c) as i64, n)?;
        drop(c);
    } else {
        drop(c);
        ensure!(live() == built, "a clone came and went, and {} bytes are held and not {}", live().0 - base.0, built.0 - base.0);
        drop(m);
    }
    ensure!(live() == base, "with the map gone, {} bytes in {} blocks are still held", live().0 - base.0, live().1 - base.1);
    Ok(())
}

fn sets<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    let (keys, spec, fam, repeated) = given::<K>(src);
    let n = keys.len();
    let extra = if src.chance(1, 3) { src.urange(1, 2000) } else { 0 };
    let show = brief(&keys);
    cx.describe(|| format!("set of {n} {} values{} in {}, family {fam}, room for {extra} more: {show}", K::NAME, if repeated { " with repeats" } else { "" }, spec.show()));
    cx.label(format!("set {:?} {}", spec.kind, if n < 128 { "small" } else if n < 1000 { "medium" } else { "large" }));
    cx.nontrivial(n >= 4);
    let probes = K::probes(src, &keys);
    let consumed = if src.flag() { Some(src.urange(0, n)) } else { None };

    // nothing is drawn from here on: drawing allocates
    let base = live();
    let mut payload: Vec<K> = Vec::with_capacity(n + extra);
    payload.extend(keys.iter().cloned());
    let heap = live().0 - base.0 - (payload.capacity() * size_of::<K>()) as i64;
    let budget = Budget { heap, entries: (n * size_of::<(K, ())>()) as i64, table: table(&spec, n) as i64 };
    let s = K::build_set::<()>(&spec, payload);
    let built = live();
    budget.check("a set", built.0 - base.0 - size_of_val(&*s) as i64, n)?;

    let mut found = 0;
    for k in keys.iter().take(50).chain(&probes) {
        found += usize::from(s.get(k).is_some()) + usize::from(s.contains(k));
    }
    vh::iters::Dyn(s.iter()).for_each(|_| found += 1);
    ensure!(found >= n, "{found} found");
    ensure!(live() == built, "after some reads, {} bytes are held and not {}", live().0 - base.0, built.0 - base.0);

    let c = s.clone_box();
    budget.check("the clone of a set", live().0 - built.0 - size_of_val(&*c) as i64, n)?;
    // consumed, the clone gives everything back
    if let Some(some) = consumed {
        if let Some(it) = c.into_iter() {
            let mut it = vh::iters::Dyn(it);
            for _ in 0..some {
                drop(it.next());
            }
        }
    } else {
        drop(c);
    }
    ensure!(live() == built, "a clone came and went, and {} bytes are held and not {}", live().0 - base.0, built.0 - base.0);
    drop(s);
    ensure!(live() == base, "with the set gone, {} bytes in {} blocks are still held", live().0 - base.0, live().1 - base.1);
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    match src.weighted(&[6, 8, 2, 2, 2, 2, 2, 2, 4, 6, 2, 2]) {
        0 => maps::<u32, u64>(src, cx, |i| i as u64),
        1 => maps::<String, u64>(src, cx, |i| i as u64),
        2 => maps::<Word, u64>(src, cx, |i| i as u64),
        3 => maps::<Tagged, u64>(src, cx, |i| i as u64),
        4 => maps::<i64, u64>(src, cx, |i| i as u64),
        5 => maps::<u32, ()>(src, cx, |_| ()),
        6 => maps::<String, u8>(src, cx, |i| i as u8),
        7 => maps::<u32, [u64; 5]>(src, cx, |i| [i as u64; 5]),
        8 => sets::<u32>(src, cx),
        9 => sets::<String>(src, cx),
        10 => sets::<Word>(src, cx),
        _ => sets::<i64>(src, cx),
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop {
        id: "C17",
        rule: "a collection of at least four entries was built, measured, used and dropped; distinct by the choices drawn",
        run,
    })
}
