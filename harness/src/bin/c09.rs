//! C09: equality of maps and sets depends only on their contents.

use std::collections::{BTreeMap, BTreeSet};
use std::process::ExitCode;
use vh::engine::{Cx, Prop, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, STD};
use vh::gen::{brief, split};
use vh::keys::gen_size;
use vh::maps::Val;
use vh::with_key;

/// A value that may not be equal to itself, as a floating-point number need not be.
#[derive(Clone, Debug)]
struct Value(u64);

const ODD: u64 = 1 << 40;

impl PartialEq for Value {
    fn eq(&self, other: &Self) -> bool {
        self.0 == other.0 && self.0 < ODD
    }
}

impl Val for Value {}

/// Maps of one type, with contents that are the same or nearly so.
fn maps<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 600);
    let (keys, fam) = K::gen(src, n);
    let n = keys.len();
    let spec_a = K::spec(src, &keys, &[]);
    let small = src.flag();
    let mut a: Vec<(K, Value)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), Value(if small { i as u64 % 2 } else { i as u64 }))).collect();
    if n > 0 && src.chance(1, 8) {
        let i = src.idx(n);
        a[i].1 .0 += ODD;
    }
    let itself = a.iter().all(|x| x.1.0 < ODD);
    let mut b: Vec<(K, Value)> = a.iter().map(|(k, v)| (k.alias(), v.clone())).collect();
    let how = match src.weighted(&[4, 4, 3, 3, 2, 1]) {
        0 => "same",
        1 if n > 0 => {
            let i = src.idx(n);
            b[i].1 .0 += 1 + src.below(3);
            "one value"
        }
        2 if n > 1 => {
            let (i, j) = (src.idx(n), src.idx(n));
            let t = b[i].1.clone();
            b[i].1 = b[j].1.clone();
            b[j].1 = t;
            "two values swapped"
        }
        3 if n > 0 => {
            // another key in the place of one
            let probes = vh::checks::absent_of(&keys, K::probes(src, &keys));
            if let Some(k) = (!probes.is_empty()).then(|| src.pick(&probes).clone()) {
                let i = src.idx(n);
                b[i].0 = k;
            }
            "one key"
        }
        4 if n > 0 => {
            b.remove(src.idx(n));
            "one less"
        }
        _ => {
            let (p, q, _) = split(src, &keys);
            let _ = p;
            b.retain(|(k, _)| q.contains(k));
            "part"
        }
    };
    src.reorder(&mut b);
    let kb: Vec<K> = b.iter().map(|x| x.0.clone()).collect();
    let mut spec_b = spec_a.sibling(src, K::lengths(&keys));
    if spec_a.kind == Kind::Range && !K::contiguous(&kb) {
        return Ok(());
    }
    if spec_b.cap.max() < b.len() as u64 {
        spec_b.cap = spec_a.cap;
    }
    cx.describe(|| format!("maps of {}, family {fam}/{how}: {} {} and {} {}", K::NAME, spec_a.show(), brief(&a), spec_b.show(), brief(&b)));
    let ma: BTreeMap<&K, &Value> = a.iter().map(|(k, v)| (k, v)).collect();
    let mb: BTreeMap<&K, &Value> = b.iter().map(|(k, v)| (k, v)).collect();
    let want = ma == mb;
    let x = K::build_map(&spec_a, a.clone());
    let y = K::build_map(&spec_b, b.clone());
    cx.label(format!("{:?} {}", spec_a.kind, if want { "equal" } else { how }));
    cx.nontrivial(n >= 2);
    match (x.equals(&*y), y.equals(&*x)) {
        (Some(p), Some(q)) => {
            ensure!(p == want, "first == second is {p}");
            ensure!(q == want, "second == first is {q}");
        }
        _ => vh::fail!("harness: {} and {} are not of one type", x.kind(), y.kind()),
    }
    ensure!(x.equals(&*x) == Some(itself), "whether a map is equal to itself is {}", !itself);
    if !itself {
        cx.label("a value not equal to itself");
    }
    let c = x.clone_box();
    ensure!(x.equals(&*c) == Some(itself) && c.equals(&*x) == Some(itself), "whether a map is equal to its clone is {}", !itself);
    Ok(())
}

/// Sets: of one type, or for the specialized ones of any type.
fn sets<K: Family>(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 600);
    let (keys, fam) = K::gen(src, n);
    let (a, mut b, mut how) = split(src, &keys);
    if src.flag() {
        how = "same";
        b = a.iter().map(K::alias).collect();
        src.reorder(&mut b);
    }
    let all: Vec<Kind> = K::KINDS.iter().chain(&STD).copied().collect();
    let sa = K::spec(src, &a, &all);
    let mut one_type = src.flag();
    let sb = if one_type {
        let mut s = sa.sibling(src, K::lengths(&keys));
        if s.cap.max() < b.len() as u64 {
            s.cap = vh::maps::Cap::Usize;
            one_type = false;
        }
        if s.kind == Kind::Range && !K::contiguous(&b) {
            s.kind = Kind::Scanning;
            one_type = false;
        }
        s
    } else {
        K::spec(src, &b, &all)
    };
    cx.describe(|| format!("sets of {}, family {fam}/{how}: {} {} and {} {}", K::NAME, sa.show(), brief(&a), sb.show(), brief(&b)));
    let want = a.iter().collect::<BTreeSet<_>>() == b.iter().collect::<BTreeSet<_>>();
    let x = K::any_set::<()>(&sa, a.clone());
    let y = K::any_set::<()>(&sb, b.clone());
    let std_type = STD.contains(&sa.kind);
    cx.label(format!("{:?} with {:?} {}", sa.kind, sb.kind, if want { "equal" } else { "different" }));
    cx.nontrivial(a.len() >= 2 && !std_type);
    let mut compared = false;
    for (p, q, which) in [(&x, &y, "first == second"), (&y, &x, "second == first")] {
        if let Some(e) = p.0.equals(&*q.0) {
            compared = true;
            ensure!(e == want, "{which} (of one type) is {e}");
        }
        if let Some(e) = p.0.equals_any(q) {
            compared = true;
            ensure!(e == want, "{which} is {e}");
        }
    }
    ensure!(!one_type || std_type || compared, "harness: {} and {} were not compared", x.0.kind(), y.0.kind());
    if let Some(e) = x.0.equals(&*x.0) {
        ensure!(e, "a set is not equal to itself");
    }
    let c = x.0.clone_aset();
    ensure!(x.0.equals(&*c) != Some(false) && c.equals(&*x.0) != Some(false), "a set is not equal to its clone");
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    if src.flag() {
        with_key!(src, K => sets::<K>(src, cx))
    } else {
        with_key!(src, K => maps::<K>(src, cx))
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop { id: "C09", rule: "a collection of at least two entries compared; distinct by the choices drawn", run })
}
