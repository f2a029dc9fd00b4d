//! C05: iterating a map visits every entry exactly once, consistently.

use std::fmt::Write as _;
use std::process::ExitCode;
use vh::engine::{Cx, Prop, Src, R};
use vh::ensure;
use vh::family::Family;
use vh::gen::brief;
use vh::iters::{drain, walk, Exact};
use vh::keys::gen_size;
use vh::maps::TMap;
use vh::with_key;

/// The common order, once it is known that it presents the payload.
fn order<K: Family>(m: &dyn TMap<K, K, u64>, payload: &[(K, u64)]) -> Result<Vec<(K, u64)>, String> {
    let got = drain(Box::new(Exact(m.iter())), payload.len())?;
    let mut want: Vec<&(K, u64)> = payload.iter().collect();
    want.sort();
    let mut have = got.clone();
    have.sort();
    ensure!(have.len() == want.len(), "iterating yields {} of {} entries: {}", have.len(), want.len(), brief(&got));
    for (h, w) in have.iter().zip(&want) {
        ensure!(h.0.same(&w.0) && *h.1 == w.1, "iterating yields {h:?}, not {w:?}");
    }
    Ok(got.into_iter().map(|(k, v)| (k.clone(), *v)).collect())
}

fn traverse<K: Family>(src: &mut Src, cx: &mut Cx, m: &dyn TMap<K, K, u64>, payload: &[(K, u64)]) -> R {
    let ord = order(m, payload)?;
    let pairs: Vec<(&K, &u64)> = ord.iter().map(|(k, v)| (k, v)).collect();
    let keys: Vec<&K> = ord.iter().map(|x| &x.0).collect();
    let values: Vec<&u64> = ord.iter().map(|x| &x.1).collect();
    let mut stops = Vec::new();
    for _ in 0..src.urange(2, 5) {
        stops.push(match src.below(4) {
            0 => walk(src, "iter", Box::new(Exact(m.iter())), &pairs, true)?,
            1 => walk(src, "keys", Box::new(Exact(m.keys())), &keys, true)?,
            2 => walk(src, "values", Box::new(Exact(m.values())), &values, true)?,
            _ => walk(src, "by-reference loop", Box::new(Exact(m.by_ref())), &pairs, true)?,
        });
    }
    // each of them at least once
    ensure!(drain(Box::new(Exact(m.keys())), pairs.len())? == keys, "keys and entries come in different orders");
    ensure!(drain(Box::new(Exact(m.values())), pairs.len())? == values, "values and entries come in different orders");
    ensure!(drain(Box::new(Exact(m.by_ref())), pairs.len())? == pairs, "the by-reference loop has an order of its own");
    ensure!(drain(Box::new(Exact(m.iter())), pairs.len())? == pairs, "the second traversal has another order");
    if src.flag() {
        let mut want = String::from("{");
        for (i, (k, v)) in ord.iter().enumerate() {
            let _ = write!(want, "{}{k:?}: {v:?}", if i == 0 { "" } else { ", " });
        }
        want.push('}');
        let d = m.debug(false);
        ensure!(d == want, "the debug rendering is {d}, not {want}");
    }
    if ord.len() <= 40 && src.chance(1, 4) {
        struct D<'a, K>(&'a [(K, u64)]);
        impl<K: std::fmt::Debug> std::fmt::Debug for D<'_, K> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.debug_map().entries(self.0.iter().map(|x| (&x.0, &x.1))).finish()
            }
        }
        let want = format!("{:#?}", D(&ord));
        let d = m.debug(true);
        ensure!(d == want, "the pretty debug rendering is {d}, not {want}");
    }
    cx.count("stopped in the middle", stops.iter().filter(|s| **s > 0 && **s < ord.len()).count() as u64);
    Ok(())
}

fn case<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 600);
    let (keys, fam) = K::gen(src, n);
    let spec = K::spec(src, &keys, &[]);
    let payload: Vec<(K, u64)> = keys.into_iter().enumerate().map(|(i, k)| (k, i as u64 * 3 + 1)).collect();
    cx.describe(|| format!("{} keys in {}, family {fam}, payload {}", K::NAME, spec.show(), brief(&payload)));
    cx.label(format!("{:?}", spec.kind));
    cx.nontrivial(payload.len() >= 2);
    let mut m = K::build_map(&spec, payload.clone());
    traverse(src, cx, &*m, &payload)?;
    if src.chance(1, 4) {
        m = m.clone_box();
        traverse(src, cx, &*m, &payload)?;
    }
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    with_key!(src, K => case::<K>(src, cx))
}

fn main() -> ExitCode {
    vh::engine::main(Prop { id: "C05", rule: "at least two entries; distinct by the choices drawn", run })
}
