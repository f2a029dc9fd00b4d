//! C12: keys and values are owned exactly once, under success and failure.

use std::process::ExitCode;
use vh::alloc::{live, Counting};
use vh::engine::{catch, forget_panic, Cx, Prop, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, Spec};
use vh::iters::{ALLS, LASTS, SEEKS};
use vh::keys::{gen_size, gen_strings};
use vh::maps::{Cap, DMap};
use vh::sets::{AnySet, Op, OPS};
use vh::tokens::{self, Payload, Tok};

#[global_allocator]
static ALLOC: Counting = Counting;

#[derive(Clone, Copy, Debug)]
enum Use {
    Clone,
    CloneFrom,
    Iterate(usize),
    Get(usize),
    Set(usize),
    Many(usize, usize),
    Equal,
    Debug,
    /// Take some from a consuming iterator, and the rest in some way.
    Consume(usize, u64),
    Operate(Op, usize),
    Drop,
}

fn gen_use(src: &mut Src) -> (Use, u64) {
    let k = src.idx(1 << 10);
    let u = match src.weighted(&[4, 2, 1, 2, 2, 2, 2, 1, 4, 3, 1]) {
        0 => Use::Clone,
        1 => Use::CloneFrom,
        2 => Use::Iterate(k),
        3 => Use::Get(k),
        4 => Use::Set(k),
        5 => Use::Many(k, src.idx(1 << 10)),
        6 => Use::Equal,
        7 => Use::Debug,
        8 => Use::Consume(k, src.below(5)),
        9 => Use::Operate(OPS[src.idx(4)], k),
        _ => Use::Drop,
    };
    // where in this use the key's code panics: half the time it does not
    let at = if src.flag() { 0 } else { 1 + src.biased(0, 60, &[0, 1, 2, 3]) };
    (u, at)
}

/// What is built, and what then becomes of it.
struct Plan {
    spec: Spec,
    uses: Vec<(Use, u64)>,
    /// Where building panics: in so many 1024ths of all calls, 0 for nowhere.
    build_fuse: u64,
}

fn plan<K: Family>(src: &mut Src, keys: &[K], sets: bool) -> Plan {
    let mut of: Vec<Kind> = K::KINDS.iter().copied().filter(|k| !matches!(k, Kind::Hash | Kind::BTree)).collect();
    if sets && src.chance(1, 12) {
        of = vec![Kind::Hash];
    }
    let mut spec = K::spec(src, keys, &of);
    // now and then one that cannot be built
    if src.chance(1, 8) && K::KINDS.contains(&Kind::Range) {
        spec.kind = Kind::Range;
    }
    if src.chance(1, 8) {
        spec.cap = Cap::U8;
    }
    let uses = src.vec(0, 8, gen_use);
    let build_fuse = if src.chance(1, 2) { 0 } else { 1 + src.below(1024) };
    Plan { spec, uses, build_fuse }
}

/// Building once without a fault tells how many calls there are to fail at.
fn fuse_for<T>(p: &Plan, build: impl Fn() -> T) -> u64 {
    if p.build_fuse == 0 {
        return 0;
    }
    let before = tokens::calls();
    let r = catch(|| drop(build()));
    drop(r);
    let n = tokens::calls() - before;
    if n == 0 { 0 } else { 1 + (n - 1) * (p.build_fuse - 1) / 1023 }
}

fn map_case<K: Family>(keys: &[K], p: &Plan, fresh: &dyn Fn(&K) -> K, seen: &mut Seen) -> R {
    let payload = || -> Vec<(K, Payload)> { keys.iter().enumerate().map(|(i, k)| (fresh(k), Payload::new(i as u64))).collect() };
    let at = fuse_for(p, || K::build_map(&p.spec, payload()));
    let q = payload();
    tokens::fuse(at);
    let built = catch(|| K::build_map(&p.spec, q));
    tokens::fuse(0);
    let Ok(m) = built else {
        seen.not_built = true;
        return Ok(());
    };
    let mut maps: Vec<DMap<K, K, Payload>> = vec![m];
    for (u, at) in &p.uses {
        let Some(m) = maps.last_mut() else { break };
        let n = keys.len().max(1);
        tokens::fuse(*at);
        let r = catch(|| -> Option<DMap<K, K, Payload>> {
            match *u {
                Use::Clone => return Some(m.clone_box()),
                Use::CloneFrom => {
                    let other = m.clone_box();
                    m.clone_from_dyn(&*other);
                }
                Use::Iterate(k) => {
                    let mut it = m.iter();
                    let _ = it.nth(k % n);
                    let _ = it.clone().count();
                }
                Use::Get(k) => {
                    if let Some(key) = keys.get(k % n) {
                        let _ = (m.get(key), m.contains_key(key));
                        let _ = m.get_key_value(key);
                    }
                }
                Use::Set(k) => {
                    if let Some(v) = keys.get(k % n).and_then(|key| m.get_mut(key)) {
                        *v = Payload::new(9000 + k as u64);
                    }
                }
                Use::Many(a, b) => {
                    if !keys.is_empty() {
                        let (x, y) = (&keys[a % n], &keys[b % n]);
                        if let Some(mut v) = m.get_many(&[x, y]) {
                            let (p, q) = v.split_at_mut(1);
                            std::mem::swap(p[0], q[0]);
                        }
                    }
                }
                Use::Equal => {
                    let _ = m.equals(&**m);
                }
                Use::Debug => {
                    let _ = m.debug(false);
                }
                Use::Consume(k, _) => {
                    let _ = m.values().take(k % n).cloned().count();
                }
                Use::Operate(..) | Use::Drop => {}
            }
            None
        });
        tokens::fuse(0);
        seen.in_use |= r.is_err();
        if let Ok(Some(c)) = r {
            maps.push(c);
        }
        if matches!(u, Use::Drop) && !maps.is_empty() {
            maps.swap_remove(0);
        }
    }
    Ok(())
}

fn set_case<K: Family>(keys: &[K], p: &Plan, fresh: &dyn Fn(&K) -> K, seen: &mut Seen) -> R {
    let payload = || -> Vec<K> { keys.iter().map(fresh).collect() };
    let at = fuse_for(p, || K::any_set::<()>(&p.spec, payload()));
    let q = payload();
    tokens::fuse(at);
    let built = catch(|| K::any_set::<()>(&p.spec, q));
    tokens::fuse(0);
    let Ok(s) = built else {
        seen.not_built = true;
        return Ok(());
    };
    // a partner for the operations, sharing half of the values
    let partner = AnySet(K::build_aset::<()>(&Spec { kind: Kind::Scanning, ..p.spec.clone() }, keys.iter().skip(keys.len() / 2).map(fresh).collect()));
    let mut sets: Vec<AnySet<K>> = vec![s];
    for (u, at) in &p.uses {
        let n = keys.len().max(1);
        if let Use::Consume(k, how) = u {
            let Some(s) = sets.pop() else { break };
            // the last one stays where there is only one
            if sets.is_empty() {
                let Ok(c) = catch(|| AnySet(s.0.clone_aset())) else { return Ok(()) };
                sets.push(c);
            }
            tokens::fuse(*at);
            let r = catch(|| {
                let Some(mut it) = s.0.into_iter() else { return };
                let mut kept: Vec<K> = Vec::new();
                for _ in 0..k % (n + 2) {
                    kept.extend(it.next());
                }
                match how {
                    0 => drop(it),
                    1 => {
                        let c = it.clone_box();
                        drop(it);
                        let _ = c.all(k % ALLS.len());
                    }
                    2 => {
                        let _ = it.count();
                    }
                    3 => {
                        let _ = it.debug();
                        let _ = it.end(k % LASTS.len());
                    }
                    _ => {
                        let _ = it.seek(k % SEEKS.len(), k / 3 % (n + 2));
                        let _ = it.all(k % ALLS.len());
                    }
                }
            });
            tokens::fuse(0);
            seen.consumed = true;
            seen.in_use |= r.is_err();
            continue;
        }
        let Some(s) = sets.last_mut() else { break };
        tokens::fuse(*at);
        let r = catch(|| -> Option<AnySet<K>> {
            match *u {
                Use::Clone => return Some(AnySet(s.0.clone_aset())),
                Use::Iterate(k) => {
                    let mut it = s.0.iter();
                    let _ = it.nth(k % n);
                    let _ = it.count();
                }
                Use::Get(k) | Use::Set(k) => {
                    if let Some(key) = keys.get(k % n) {
                        let _ = (s.0.get(key), s.0.contains(key));
                    }
                }
                Use::Equal => {
                    let _ = (s.0.equals(&*s.0), s.0.equals_any(&partner));
                }
                Use::Debug => {
                    let _ = s.0.debug();
                }
                Use::Operate(op, k) => {
                    let _ = s.0.op(op, &partner).nth(k % n);
                    let _ = s.0.operator(op, &partner);
                    let _ = (s.0.is_subset(&partner), s.0.is_disjoint(&partner));
                }
                Use::CloneFrom => {
                    let c = s.0.clone_box();
                    s.0.clone_from_dyn(&*c);
                }
                _ => {}
            }
            None
        });
        tokens::fuse(0);
        seen.in_use |= r.is_err();
        if let Ok(Some(c)) = r {
            sets.push(c);
        }
        if matches!(u, Use::Drop) {
            sets.swap_remove(0);
        }
    }
    Ok(())
}

#[derive(Default)]
struct Seen {
    not_built: bool,
    in_use: bool,
    consumed: bool,
}

fn scenario<K: Family>(src: &mut Src, cx: &mut Cx, make: &dyn Fn() -> Vec<K>, fam: &str, fresh: &dyn Fn(&K) -> K) -> R {
    tokens::reset();
    let keys = make();
    let set = src.flag();
    let p = plan(src, &keys, set);
    cx.describe(|| {
        format!("{} of {} in {}, family {fam}, keys {}; building fails at {}/1024 of the calls; uses {:?}", if set { "set" } else { "map" }, K::NAME,
            p.spec.show(), vh::gen::brief(&keys), p.build_fuse, p.uses)
    });
    let mut seen = Seen::default();
    // tokens that belong to the harness itself are alive throughout
    let (base, ..) = tokens::report();
    let _ = catch(|| panic!("the first panic of a thread may leave something behind"));
    forget_panic();
    let before = live();
    let r = if set { set_case(&keys, &p, fresh, &mut seen) } else { map_case(&keys, &p, fresh, &mut seen) };
    forget_panic();
    let log = tokens::report();
    let after = live();
    r?;
    let what = format!("{}{}", if seen.not_built { ", having failed to build" } else { "" }, if seen.in_use { ", having panicked in use" } else { "" });
    ensure!(log.1 == base, "{} of {} tokens were never dropped{what}", log.1 - base, log.0);
    ensure!(log.2 == 0, "tokens were dropped or used again after being dropped: {}{what}", log.2);
    let grown = after.0 - before.0 - tokens_memory(log.0) + tokens_memory(base);
    ensure!(grown == 0, "{grown} bytes were not freed{what}");
    let injected = p.build_fuse > 0 || p.uses.iter().any(|u| u.1 > 0);
    cx.nontrivial(keys.len() >= 2);
    cx.label(match (set, seen.not_built, seen.in_use) {
        (_, true, _) => "building panicked",
        (true, _, true) => "set: panicked in use",
        (false, _, true) => "map: panicked in use",
        (true, ..) => "set: no panic",
        (false, ..) => "map: no panic",
    });
    if seen.consumed {
        cx.label("set consumed");
    }
    if injected {
        cx.label("faults injected");
    }
    cx.label(format!("{:?}<{}>", p.spec.kind, K::NAME));
    Ok(())
}

/// What the record of so many tokens takes up: a vector that doubles.
fn tokens_memory(n: usize) -> i64 {
    if n == 0 { 0 } else { 4 * n.next_power_of_two().max(4) as i64 }
}

/// Tokens as keys.
fn tok(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 320);
    let (mut strings, fam) = gen_strings(src, n);
    repeat(src, &mut strings);
    scenario(src, cx, &|| strings.iter().map(|s| Tok::new(s.clone())).collect(), fam, &|k: &Tok| Tok::new(k.text()))
}

fn repeat<T: Clone>(src: &mut Src, keys: &mut Vec<T>) {
    if src.chance(1, 6) && !keys.is_empty() {
        let x = src.pick(keys).clone();
        keys.push(x);
    }
}

fn plain<K: Family>(src: &mut Src, cx: &mut Cx, max: usize) -> R {
    let n = gen_size(src, max);
    let (mut keys, fam) = K::gen(src, n);
    repeat(src, &mut keys);
    scenario(src, cx, &|| keys.clone(), fam, &K::clone)
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    match src.weighted(&[10, 3, 3, 2, 1]) {
        0 => tok(src, cx),
        1 => plain::<String>(src, cx, 320),
        2 => plain::<u32>(src, cx, 320),
        3 => plain::<i64>(src, cx, 320),
        _ => plain::<Box<str>>(src, cx, 300),
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop { id: "C12", rule: "at least two entries handed over; distinct by the choices drawn", run })
}
