//! C08: subset, superset and disjointness tests agree with set theory.

use std::collections::BTreeSet;
use std::process::ExitCode;
use vh::engine::{Cx, Prop, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, STD};
use vh::gen::{brief, split};
use vh::keys::gen_size;
use vh::with_key;

fn case<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 700);
    let (keys, fam) = K::gen(src, n);
    let (a, b, how) = split(src, &keys);
    let all: Vec<Kind> = K::KINDS.iter().chain(&STD).copied().collect();
    let sa = K::spec(src, &a, &all);
    let sb = K::partner(src, &sa, &keys, &b, &all);
    cx.describe(|| format!("sets of {}, family {fam}/{how}: {} {} and {} {}", K::NAME, sa.show(), brief(&a), sb.show(), brief(&b)));
    let (ma, mb): (BTreeSet<&K>, BTreeSet<&K>) = (a.iter().collect(), b.iter().collect());
    let x = K::any_set::<()>(&sa, a.clone());
    let y = K::any_set::<()>(&sb, b.clone());
    let (sub, sup, dis) = (ma.is_subset(&mb), ma.is_superset(&mb), ma.is_disjoint(&mb));
    cx.label(match (sub, sup, dis) {
        (true, true, _) => "equal",
        (true, ..) => "subset",
        (_, true, _) => "superset",
        (.., true) => "disjoint",
        _ => "overlapping",
    });
    cx.label(format!("{:?} with {:?}", sa.kind, sb.kind));
    cx.nontrivial(!a.is_empty() && !b.is_empty() && n >= 2);
    for (p, q, sub, sup, which) in [(&x, &y, sub, sup, "first, second"), (&y, &x, sup, sub, "second, first")] {
        ensure!(p.0.is_subset(q) == sub, "is_subset({which}) is {}", !sub);
        ensure!(p.0.is_superset(q) == sup, "is_superset({which}) is {}", !sup);
        ensure!(p.0.is_disjoint(q) == dis, "is_disjoint({which}) is {}", !dis);
        if let Some(t) = p.0.tests_same(&*q.0) {
            cx.label("of one type");
            ensure!(t == [sub, sup, dis], "is_subset, is_superset and is_disjoint({which}; of one type) are {t:?}");
        }
    }
    // a set with itself, the very same one
    for (p, n) in [(&x, a.len()), (&y, b.len())] {
        let t = p.0.tests_same(&*p.0);
        ensure!(t == Some([true, true, n == 0]), "is_subset, is_superset and is_disjoint of a set of {n} with itself are {t:?}");
    }
    ensure!(x.0.is_subset(&x) && x.0.is_superset(&x), "a set is not a subset or superset of itself");
    ensure!(x.0.is_disjoint(&x) == a.is_empty(), "whether a set of {} is disjoint from itself is {}", a.len(), x.0.is_disjoint(&x));
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    with_key!(src, K => case::<K>(src, cx))
}

fn main() -> ExitCode {
    vh::engine::main(Prop { id: "C08", rule: "two sets which are not empty, out of at least two values; distinct by the choices drawn", run })
}
