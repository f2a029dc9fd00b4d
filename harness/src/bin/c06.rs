//! C06: iterating a set, or a combination of sets, obeys the iterator contract.

use std::process::ExitCode;
use vh::engine::{Cx, Prop, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, STD};
use vh::gen::{brief, split};
use vh::iters::{drain, walk};
use vh::keys::gen_size;
use vh::sets::OPS;
use vh::with_key;

/// One set, all its iterators.
fn alone<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 600);
    let (keys, fam) = K::gen(src, n);
    let spec = K::spec(src, &keys, &[]);
    cx.describe(|| format!("set of {} in {}, family {fam}, values {}", K::NAME, spec.show(), brief(&keys)));
    cx.label(format!("{:?}", spec.kind));
    cx.nontrivial(keys.len() >= 2);
    let s = K::build_aset::<()>(&spec, keys.clone());
    let ord: Vec<K> = drain(s.iter(), keys.len())?.into_iter().cloned().collect();
    let mut want: Vec<&K> = keys.iter().collect();
    want.sort();
    let mut have: Vec<&K> = ord.iter().collect();
    have.sort();
    ensure!(have.len() == want.len() && have.iter().zip(&want).all(|(a, b)| a.same(b)),
        "iterating yields {} of {} values: {}", have.len(), want.len(), brief(&ord));
    let refs: Vec<&K> = ord.iter().collect();
    let mut stops = Vec::new();
    for _ in 0..src.urange(1, 4) {
        stops.push(match src.below(3) {
            0 => walk(src, "iter", s.iter(), &refs, true)?,
            1 => walk(src, "Set::iter", s.set_iter(), &refs, true)?,
            _ => walk(src, "by-reference loop", s.by_ref(), &refs, true)?,
        });
    }
    // consuming: whatever its order, each value once
    let c = s.clone_aset();
    if let Some(it) = c.into_iter() {
        let first = drain(it.clone_box(), n)?;
        let mut have: Vec<&K> = first.iter().collect();
        have.sort();
        ensure!(have.len() == want.len() && have.iter().zip(&want).all(|(a, b)| a.same(b)),
            "consuming yields {} of {} values: {}", have.len(), want.len(), brief(&first));
        stops.push(walk(src, "into_iter", it, &first, true)?);
        if let Some(it) = s.into_iter() {
            stops.push(walk(src, "into_iter", it, &first, true)?);
        }
        cx.label("consumed");
    }
    cx.count("stopped in the middle", stops.iter().filter(|s| **s > 0 && **s < n).count() as u64);
    Ok(())
}

/// Combinations of two sets.
fn pair<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 300);
    let (keys, fam) = K::gen(src, n);
    let (a, b, how) = split(src, &keys);
    let all: Vec<Kind> = K::KINDS.iter().chain(&STD).copied().collect();
    let sa = K::spec(src, &a, &all);
    let sb = K::partner(src, &sa, &keys, &b, &all);
    cx.describe(|| format!("sets of {}, family {fam}/{how}: {} {} and {} {}", K::NAME, sa.show(), brief(&a), sb.show(), brief(&b)));
    let x = K::any_set::<()>(&sa, a.clone());
    let y = K::any_set::<()>(&sb, b.clone());
    let limit = a.len() + b.len();
    // the wrapped set, the set itself if it is of the same type, or the very same one
    let how = src.weighted(&[3, 3, 1]);
    let combine = |op| {
        let same = if how == 0 { None } else { x.0.op_same(op, if how == 1 { &*y.0 } else { &*x.0 }) };
        same.unwrap_or_else(|| x.0.op(op, &y))
    };
    cx.label(["wrapped", "plain", "with itself"][how]);
    let mut some = 0;
    for op in OPS {
        let first: Vec<&K> = drain(combine(op), limit.max(2 * a.len()))?;
        some += usize::from(first.len() >= 2);
        let stop = walk(src, &format!("{op:?}"), combine(op), &first, false)?;
        if stop > 0 && stop < first.len() {
            cx.label("stopped in the middle");
        }
        cx.label(format!("{op:?} of {} and {}", size_class(a.len(), b.len()), "two"));
    }
    cx.nontrivial(some > 0);
    Ok(())
}

fn size_class(a: usize, b: usize) -> &'static str {
    match a.cmp(&b) {
        std::cmp::Ordering::Less => "smaller, larger",
        std::cmp::Ordering::Equal => "same size",
        std::cmp::Ordering::Greater => "larger, smaller",
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    if src.flag() {
        with_key!(src, K => pair::<K>(src, cx))
    } else {
        with_key!(src, K => alone::<K>(src, cx))
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop {
        id: "C06",
        rule: "a set of at least two values, or a combination yielding at least two; distinct by the choices drawn",
        run,
    })
}
