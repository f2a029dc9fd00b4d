//! C10: multi-key mutable access is all-or-nothing and never aliases.

use std::collections::{BTreeMap, BTreeSet};
use std::process::ExitCode;
use vh::checks::absent_of;
use vh::engine::{catch, Cx, Prop, Src, R};
use vh::ensure;
use vh::family::Family;
use vh::gen::brief;
use vh::keys::gen_size;
use vh::liars::{honestly, tell, Liar, Lies, OddInt};
use vh::maps::{Cell, DMap, MANY};
use vh::with_key;

/// What is asked for: mostly distinct present keys, sometimes with a repetition or an absent key somewhere.
fn request<K: Family>(src: &mut Src, keys: &[K], absent: &[K]) -> Vec<K> {
    let mut k = MANY[src.weighted(&[1, 3, 8, 6, 4, 3, 2, 2, 2, 1, 1, 1, 1, 1])];
    if k > keys.len() && k > 8 && src.chance(2, 3) || keys.len() > 100 && src.flag() {
        // as many as there are, so that they can all be different
        k = MANY.iter().copied().filter(|m| *m <= keys.len()).max().unwrap_or(0);
    }
    let mut pool: Vec<usize> = (0..keys.len()).collect();
    let mut out: Vec<K> = Vec::new();
    // anywhere, or among the last
    let bad_at = match src.idx(4) {
        2 if k > 0 => Some(src.idx(k)),
        3 if k > 0 => Some(k - 1 - src.idx(k.min(4))),
        _ => None,
    };
    for i in 0..k {
        if bad_at == Some(i) {
            if out.is_empty() || (!absent.is_empty() && src.flag()) {
                if !absent.is_empty() {
                    out.push(src.pick(absent).clone());
                    continue;
                }
            } else {
                let back = src.biased(1, out.len() as u64, &[1, 2, 4, 8, 16, 32, 64, 128, 256]);
                out.push(out[out.len() - back as usize].alias());
                continue;
            }
        }
        if pool.is_empty() {
            let x = if !absent.is_empty() && src.flag() { src.pick(absent).clone() } else if let Some(x) = out.first() { x.alias() } else if let Some(x) = absent.first() { x.clone() } else { break };
            out.push(x);
        } else {
            let at = src.idx(pool.len());
            out.push(keys[pool.swap_remove(at)].alias());
        }
    }
    while !MANY.contains(&out.len()) {
        out.pop();
    }
    out
}

fn honest<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    let n = if src.chance(1, 16) && !cfg!(miri) { src.urange(240, 300) } else { gen_size(src, 400) };
    let (keys, fam) = K::gen(src, n);
    let spec = K::spec(src, &keys, &[]);
    let absent = absent_of(&keys, K::probes(src, &keys));
    let payload: Vec<(K, Cell)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), Cell(i as u64))).collect();
    let mut model: BTreeMap<K, Cell> = payload.iter().cloned().collect();
    let mut m = K::build_map(&spec, payload);
    let rounds = src.urange(1, 4);
    let reqs: Vec<Vec<K>> = (0..rounds).map(|_| request(src, &keys, &absent)).collect();
    cx.describe(|| format!("{} keys in {}, family {fam}, keys {}, requests {reqs:?}", K::NAME, spec.show(), brief(&keys)));
    cx.label(format!("{:?}", spec.kind));
    for (round, req) in reqs.iter().enumerate() {
        let distinct: BTreeSet<&K> = req.iter().collect();
        let want = distinct.len() == req.len() && req.iter().all(|k| model.contains_key(k));
        cx.label(if want { "granted" } else { "refused" });
        cx.nontrivial(req.len() >= 2);
        let refs: Vec<&K> = req.iter().collect();
        match m.get_many(&refs) {
            None => ensure!(!want, "asking for {req:?}, all present and distinct, yields nothing"),
            Some(got) => {
                ensure!(want, "asking for {req:?} yields {} references", got.len());
                ensure!(got.len() == req.len(), "{} references for {} keys", got.len(), req.len());
                let addr: BTreeSet<*const Cell> = got.iter().map(|v| std::ptr::from_ref::<Cell>(v)).collect();
                ensure!(addr.len() == got.len(), "two references designate one value");
                for (i, (k, v)) in req.iter().zip(got).enumerate() {
                    ensure!(*v == model[k], "reference {i} is to {v:?}, not to the value of {k:?}, {:?}", model[k]);
                    let new = Cell(1_000_000 + round as u64 * 1000 + i as u64);
                    *v = new.clone();
                    *model.get_mut(k).unwrap() = new;
                }
            }
        }
        if keys.len() <= 60 || round + 1 == reqs.len() {
            for (k, v) in &model {
                ensure!(m.get(k) == Some(v), "after the writes, {k:?} has {:?}, not {v:?}", m.get(k));
            }
        }
    }
    Ok(())
}

/// Whatever equality says, the references are to different values of this map.
fn lying<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    tell(Lies::NONE);
    let n = gen_size(src, 60);
    let (keys, fam) = K::gen(src, n);
    let spec = K::spec(src, &keys, &[]);
    let absent = absent_of(&keys, K::probes(src, &keys));
    let payload: Vec<(K, Cell)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), Cell(i as u64))).collect();
    let (at_build, at_read) = (if src.chance(1, 4) { Lies::gen(src) } else { Lies::NONE }, Lies::gen(src));
    let rounds = src.urange(1, 5);
    let reqs: Vec<Vec<K>> = (0..rounds).map(|_| request(src, &keys, &absent)).collect();
    cx.describe(|| honestly(|| format!("{} keys in {}, family {fam}, keys {}, requests {reqs:?}, building with {at_build:?}, reading with {at_read:?}",
        K::NAME, spec.show(), brief(&keys))));
    tell(at_build);
    let Ok(mut m): Result<DMap<K, K, Cell>, _> = catch(|| K::build_map(&spec, payload)) else {
        cx.label("lying: not built");
        return Ok(());
    };
    tell(Lies::NONE);
    let own: BTreeSet<*const Cell> = m.values().map(std::ptr::from_ref::<Cell>).collect();
    cx.nontrivial(n >= 2);
    for req in &reqs {
        let refs: Vec<&K> = req.iter().collect();
        tell(at_read);
        let got: Result<Option<Vec<*const Cell>>, String> =
            catch(|| m.get_many(&refs).map(|v| v.into_iter().map(|x| std::ptr::from_ref::<Cell>(x)).collect()));
        tell(Lies::NONE);
        match got {
            Err(_) => cx.label("lying: panicked"),
            Ok(None) => cx.label("lying: refused"),
            Ok(Some(got)) => {
                cx.label("lying: granted");
                ensure!(got.len() == req.len(), "{} references for {} keys", got.len(), req.len());
                for (i, a) in got.iter().enumerate() {
                    ensure!(own.contains(a), "reference {i} is not to a value of the map");
                    ensure!(!got[..i].contains(a), "two references designate one value");
                }
            }
        }
    }
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    match src.weighted(&[6, 3, 2]) {
        0 => with_key!(src, K => honest::<K>(src, cx)),
        1 => lying::<Liar>(src, cx),
        _ => lying::<OddInt>(src, cx),
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop { id: "C10", rule: "at least two keys asked for at once; distinct by the choices drawn", run })
}
