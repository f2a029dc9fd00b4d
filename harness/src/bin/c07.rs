//! C07: set algebra yields the mathematical result for any mix of set types.

use std::collections::BTreeSet;
use std::process::ExitCode;
use vh::engine::{Cx, Prop, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, STD};
use vh::gen::{brief, split};
use vh::iters::{drain, DIter};
use vh::keys::gen_size;
use vh::sets::{Op, OPS};
use vh::with_key;

fn case<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 700);
    let (keys, fam) = K::gen(src, n);
    let (a, b, how) = split(src, &keys);
    let all: Vec<Kind> = K::KINDS.iter().chain(&STD).copied().collect();
    let sa = K::spec(src, &a, &all);
    let sb = K::partner(src, &sa, &keys, &b, &all);
    cx.describe(|| format!("sets of {}, family {fam}/{how}: {} {} and {} {}", K::NAME, sa.show(), brief(&a), sb.show(), brief(&b)));
    cx.label(format!("{:?} with {:?}", sa.kind, sb.kind));
    cx.label(how);
    let (ma, mb): (BTreeSet<&K>, BTreeSet<&K>) = (a.iter().collect(), b.iter().collect());
    let x = K::any_set::<()>(&sa, a.clone());
    let y = K::any_set::<()>(&sb, b.clone());
    cx.nontrivial(!a.is_empty() && !b.is_empty() && n >= 2);
    for op in OPS {
        let want: Vec<&K> = match op {
            Op::Union => ma.union(&mb).copied().collect(),
            Op::Intersection => ma.intersection(&mb).copied().collect(),
            Op::Difference => ma.difference(&mb).copied().collect(),
            Op::SymmetricDifference => ma.symmetric_difference(&mb).copied().collect(),
        };
        let check = |got: DIter<'_, &K>, how: &str| -> R {
            let mut got: Vec<&K> = drain(got, a.len() + b.len())?;
            got.sort();
            ensure!(got == want, "{op:?}{how} is {}, not {}", brief(&got), brief(&want));
            for g in &got {
                // an item comes from one of the two
                let ok = x.0.get(g).is_some_and(|k| std::ptr::eq(k, *g)) || y.0.get(g).is_some_and(|k| std::ptr::eq(k, *g));
                ensure!(ok, "{op:?}{how} yields {g:?} which is in neither set's memory");
            }
            Ok(())
        };
        let check_owned = |got: Option<Vec<K>>, how: &str| -> R {
            if let Some(mut got) = got {
                got.sort();
                ensure!(got.iter().eq(want.iter().copied()), "the operator for {op:?}{how} yields {}, not {}", brief(&got), brief(&want));
            }
            Ok(())
        };
        check(x.0.op(op, &y), "")?;
        if let Some(got) = x.0.op_same(op, &*y.0) {
            cx.label("of one type");
            check(got, " (of one type)")?;
        }
        let got = x.0.operator(op, &y);
        if got.is_some() {
            cx.label("operator");
        }
        check_owned(got, "")?;
        check_owned(x.0.operator_same(op, &*y.0), " (of one type)")?;
        // a set with itself, the very same one
        let all: Vec<&K> = if matches!(op, Op::Union | Op::Intersection) { ma.iter().copied().collect() } else { Vec::new() };
        if let Some(got) = x.0.op_same(op, &*x.0) {
            let mut got = drain(got, 2 * a.len())?;
            got.sort();
            ensure!(got == all, "{op:?} of a set with itself is {}", brief(&got));
        }
        if let Some(mut got) = x.0.operator_same(op, &*x.0) {
            got.sort();
            ensure!(got.iter().eq(all.iter().copied()), "the operator for {op:?} of a set with itself yields {}", brief(&got));
        }
    }
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    with_key!(src, K => case::<K>(src, cx))
}

fn main() -> ExitCode {
    vh::engine::main(Prop { id: "C07", rule: "two sets which are not empty, out of at least two values; distinct by the choices drawn", run })
}
