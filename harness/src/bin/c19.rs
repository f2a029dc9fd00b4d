//! C19: the length abstraction reports the true length for every supported type.

use frozen_collections_core::facades::{FrozenMap, FrozenSet};
use frozen_collections_core::traits::len::Len;
use std::collections::*;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::process::ExitCode;
use std::rc::Rc;
use std::sync::Arc;
use vh::clock::cpu_ns;
use vh::engine::{Cx, Prop, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, Spec, Word};
use vh::gen::brief;
use vh::hashers::Bh;
use vh::keys::{gen_size, gen_strings, Tagged};
use vh::maps::{Cap, Ctor};

fn is<T: Len + ?Sized>(what: &str, x: &T, n: usize) -> R {
    ensure!(x.len() == n, "len of a {what} is {}, not {n}", x.len());
    ensure!(x.is_empty() == (n == 0), "is_empty of a {what} of length {n} is {}", x.is_empty());
    Ok(())
}

/// A value and every wrapper of it.
macro_rules! wrapped {
    ($t:ty: $make:expr, $n:expr) => {{
        let n = $n;
        let name = stringify!($t);
        is::<$t>(name, &$make, n)?;
        is::<Box<$t>>(&format!("Box<{name}>"), &Box::new($make), n)?;
        is::<Rc<$t>>(&format!("Rc<{name}>"), &Rc::new($make), n)?;
        is::<Arc<$t>>(&format!("Arc<{name}>"), &Arc::new($make), n)?;
        is::<Box<Rc<Arc<$t>>>>(&format!("Box<Rc<Arc<{name}>>>"), &Box::new(Rc::new(Arc::new($make))), n)?;
    }};
}

/// An unsized value behind every pointer.
macro_rules! unsized_ {
    ($t:ty: $r:expr, $n:expr) => {{
        let (r, n): (&$t, usize) = ($r, $n);
        let name = stringify!($t);
        is::<$t>(name, r, n)?;
        is::<Box<$t>>(&format!("Box<{name}>"), &Box::from(r), n)?;
        is::<Rc<$t>>(&format!("Rc<{name}>"), &Rc::from(r), n)?;
        is::<Arc<$t>>(&format!("Arc<{name}>"), &Arc::from(r), n)?;
        is::<Rc<Box<$t>>>(&format!("Rc<Box<{name}>>"), &Rc::new(Box::from(r)), n)?;
        is::<Box<Box<$t>>>(&format!("Box<Box<{name}>>"), &Box::new(Box::from(r)), n)?;
        is::<Arc<Rc<$t>>>(&format!("Arc<Rc<{name}>>"), &Arc::new(Rc::from(r)), n)?;
    }};
}

fn text(src: &mut Src, cx: &mut Cx) -> R {
    let count = src.urange(1, 3);
    let (v, _) = gen_strings(src, count);
    let mut s = v[0].clone();
    if src.chance(1, 6) {
        s = s.repeat(src.biased(1, 3000, &[16, 255, 256, 257]) as usize);
    }
    cx.describe(|| format!("string {s:?}"));
    cx.label("strings");
    cx.nontrivial(!s.is_empty());
    let n = s.as_bytes().len();
    let spare = src.urange(0, 100);
    wrapped!(String: { let mut t = String::with_capacity(n + spare); t.push_str(&s); t }, n);
    unsized_!(str: &s[..], n);
    // a part of it
    let mut cut = src.urange(0, n);
    while !s.is_char_boundary(cut) {
        cut -= 1;
    }
    unsized_!(str: &s[cut..], n - cut);
    unsized_!(str: &s[..cut], cut);
    wrapped!(Box<str>: Box::from(&s[cut..]), n - cut);
    wrapped!(OsString: OsString::from(s.clone()), n);
    unsized_!(OsStr: OsStr::new(&s), n);
    // a C string holds no zero
    let z: Vec<u8> = s.bytes().filter(|b| *b != 0).collect();
    wrapped!(CString: CString::new(z.clone()).unwrap(), z.len());
    let c = CString::new(z.clone()).unwrap();
    unsized_!(CStr: c.as_c_str(), z.len());
    Ok(())
}

fn bytes(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 1000);
    let mut rng = src.bulk();
    let b: Vec<u8> = (0..n).map(|_| rng.upto(255) as u8).collect();
    cx.describe(|| format!("bytes {}", brief(&b)));
    cx.label("bytes");
    cx.nontrivial(n > 0);
    // not UTF-8
    wrapped!(OsString: OsString::from_vec(b.clone()), n);
    unsized_!(OsStr: OsStr::from_bytes(&b), n);
    let z: Vec<u8> = b.iter().map(|x| (*x).max(1)).collect();
    wrapped!(CString: CString::new(z.clone()).unwrap(), n);
    let c = CString::new(z).unwrap();
    unsized_!(CStr: &c, n);
    // what comes after the first zero is not part of it
    let mut raw = b.clone();
    raw.push(0);
    let first = raw.iter().position(|x| *x == 0).unwrap();
    unsized_!(CStr: CStr::from_bytes_until_nul(&raw).unwrap(), first);
    Ok(())
}

fn slices(src: &mut Src, cx: &mut Cx) -> R {
    let n = gen_size(src, 2000);
    let (a, b) = (src.urange(0, n), src.urange(0, n));
    let (a, b) = (a.min(b), a.max(b));
    cx.describe(|| format!("slices of {n} elements and of {a}..{b} of them"));
    cx.label("slices");
    cx.nontrivial(n > 0);
    macro_rules! of {
        ($t:ty, $e:expr) => {{
            let v: Vec<$t> = (0..n).map($e).collect();
            wrapped!(Vec<$t>: { let mut w = Vec::with_capacity(n + b); w.extend(v.iter().cloned()); w }, n);
            unsized_!([$t]: &v[..], n);
            unsized_!([$t]: &v[a..b], b - a);
        }};
    }
    of!(u8, |i| i as u8);
    of!(u64, |i| i as u64);
    of!((), |_| ());
    of!(String, |i| i.to_string());
    of!([u64; 3], |i| [i as u64; 3]);
    Ok(())
}

/// The standard collections, after a history of insertions and removals.
fn standard(src: &mut Src, cx: &mut Cx) -> R {
    let steps = src.biased(0, 600, &[0, 1, 2, 16, 64]) as usize;
    let span = src.range(0, 300);
    let lean = src.range(0, 3);
    let mut rng = src.bulk();
    let mut deque = VecDeque::new();
    let (mut list, mut heap, mut vec) = (LinkedList::new(), BinaryHeap::new(), Vec::new());
    let (mut hs, mut bs) = (HashSet::new(), BTreeSet::new());
    let mut hh = HashSet::with_hasher(Bh::good(3));
    let (mut hm, mut bm) = (HashMap::new(), BTreeMap::new());
    let (mut line, mut uniq) = (0usize, BTreeSet::new());
    let mut model = BTreeSet::new();
    for _ in 0..steps {
        let x = rng.upto(span);
        if rng.upto(4) > lean {
            deque.push_back(x);
            list.push_back(x);
            heap.push(x);
            vec.push(x);
            line += 1;
        } else if deque.pop_front().is_some() {
            list.pop_front();
            heap.pop();
            vec.pop();
            line -= 1;
        }
        if rng.upto(4) > lean {
            hs.insert(x);
            bs.insert(x);
            hh.insert(x);
            hm.insert(x, ());
            bm.insert(x, line);
            model.insert(x);
        } else {
            hs.remove(&x);
            bs.remove(&x);
            hh.remove(&x);
            hm.remove(&x);
            bm.remove(&x);
            model.remove(&x);
        }
        uniq.insert(x);
    }
    cx.describe(|| format!("standard collections of {line} and {} elements after {steps} steps", model.len()));
    cx.label("standard");
    cx.nontrivial(line > 0 && !model.is_empty());
    let m = model.into_iter().count();
    wrapped!(VecDeque<u64>: deque.clone(), line);
    wrapped!(LinkedList<u64>: list.clone(), line);
    wrapped!(BinaryHeap<u64>: heap.clone(), line);
    wrapped!(Vec<u64>: vec.clone(), line);
    wrapped!(HashSet<u64>: hs.clone(), m);
    is("HashSet<u64, Bh>", &hh, m)?;
    wrapped!(BTreeSet<u64>: bs.clone(), m);
    wrapped!(HashMap<u64, ()>: hm.clone(), m);
    wrapped!(BTreeMap<u64, usize>: bm.clone(), m);
    is("a VecDeque in use", &deque, line)?;
    Ok(())
}

const KINDS: [Kind; 8] = [Kind::Frozen, Kind::Common, Kind::Left, Kind::Right, Kind::Length, Kind::Integer, Kind::Range, Kind::Scanning];

/// Frozen and specialized collections.
fn ours<K: Family>(src: &mut Src, cx: &mut Cx, max: usize) -> R {
    let n = gen_size(src, max);
    let (keys, fam) = K::gen(src, n);
    let n = keys.len();
    let spec = K::spec(src, &keys, &KINDS);
    let set = src.flag();
    cx.describe(|| format!("{} of {n} {} in {}, family {fam}: {}", if set { "set" } else { "map" }, K::NAME, spec.show(), brief(&keys)));
    cx.label(format!("{} {:?}<{}>", if set { "set" } else { "map" }, spec.kind, K::NAME));
    cx.nontrivial(n > 0);
    if set {
        let s = K::build_aset::<()>(&spec, keys.clone());
        ensure!(s.len() == n && s.is_empty() == (n == 0), "len is {} and is_empty {} for {n} values", s.len(), s.is_empty());
        wrapped!(vh::sets::AnySet<K>: vh::sets::AnySet(s.clone_aset()), n);
    } else {
        let m = K::build_map(&spec, keys.iter().cloned().enumerate().map(|(i, k)| (k, i as u64)).collect());
        ensure!(m.len() == n && m.is_empty() == (n == 0), "len is {} and is_empty {} for {n} pairs", m.len(), m.is_empty());
        let c = m.clone_box();
        ensure!(c.len() == n && c.is_empty() == (n == 0), "of a clone, len is {} and is_empty {} for {n} pairs", c.len(), c.is_empty());
        if spec.kind == Kind::Frozen {
            let f: FrozenMap<K, u64> = keys.iter().cloned().map(|k| (k, 0)).collect();
            ensure!(f.len() == n && f.is_empty() == (n == 0), "len is {} and is_empty {} for {n} pairs", f.len(), f.is_empty());
            wrapped!(FrozenSet<K>: keys.iter().cloned().collect(), n);
        }
    }
    Ok(())
}

/// The length of something large is had at once.
fn at_once<T: Len + ?Sized>(what: &str, x: &T, n: usize) -> R {
    is(what, x, n)?;
    // going over even the smallest of these takes ten times as long
    const CALLS: u64 = 100;
    let mut best = u64::MAX;
    for _ in 0..5 {
        let start = cpu_ns();
        for _ in 0..CALLS {
            std::hint::black_box((std::hint::black_box(x).len(), std::hint::black_box(x).is_empty()));
        }
        best = best.min((cpu_ns() - start) / CALLS);
        if best < 4000 {
            return Ok(());
        }
    }
    Err(format!("len and is_empty of a {what} of {n} elements take {best} ns, and not constant time"))
}

/// Large values, of which the length takes no longer.
fn large(src: &mut Src, cx: &mut Cx) -> R {
    let n = src.urange(200_000, 300_000);
    let which = src.idx(19);
    let words = || (0..n as u64).map(|x| x * 3);
    let spec = |kind| Spec { kind, ctor: Ctor::VecHasher, cap: Cap::U32, bh: Bh::good(1), range: 0..0 };
    let set = |kind| <u64 as Family>::any_set::<()>(&spec(kind), if kind == Kind::Range { (0..n as u64).collect() } else { words().collect() });
    let bytes = || vec![b'x'; 16 * n];
    cx.describe(|| format!("large value number {which}, of {n} elements, or 16 times as many bytes"));
    cx.label("large");
    cx.nontrivial(true);
    match which {
        0 => at_once("Vec", &words().collect::<Vec<_>>(), n),
        1 => at_once("VecDeque", &words().collect::<VecDeque<_>>(), n),
        2 => at_once("LinkedList", &words().collect::<LinkedList<_>>(), n),
        3 => at_once("BinaryHeap", &words().collect::<BinaryHeap<_>>(), n),
        4 => at_once("HashSet", &words().collect::<HashSet<_>>(), n),
        5 => at_once("BTreeSet", &words().collect::<BTreeSet<_>>(), n),
        6 => at_once("HashMap", &words().map(|x| (x, ())).collect::<HashMap<_, _>>(), n),
        7 => at_once("BTreeMap", &words().map(|x| (x, ())).collect::<BTreeMap<_, _>>(), n),
        8 => {
            let s = String::from_utf8(bytes()).unwrap();
            at_once("String", &s, 16 * n)?;
            at_once("str", &s[..], 16 * n)?;
            at_once("OsStr", OsStr::new(&s), 16 * n)?;
            at_once("Box<str>", &s.clone().into_boxed_str(), 16 * n)
        }
        9 => {
            let s = CString::new(bytes()).unwrap();
            at_once("CString", &s, 16 * n)?;
            at_once("CStr", s.as_c_str(), 16 * n)?;
            at_once("Rc<CStr>", &Rc::<CStr>::from(s.as_c_str()), 16 * n)
        }
        10 => at_once("OsString", &OsString::from_vec(bytes()), 16 * n),
        11 => at_once("Arc<[u64]>", &words().collect::<Arc<[u64]>>(), n),
        12 => at_once("CommonSet", &set(Kind::Common), n),
        13 => at_once("IntegerSet", &set(Kind::Integer), n),
        14 => at_once("IntegerRangeSet", &set(Kind::Range), n),
        15 => at_once("ScanningSet", &set(Kind::Scanning), n),
        16 => at_once("FrozenSet<u64>", &words().collect::<FrozenSet<u64>>(), n),
        17 => {
            // a range, or not
            let step = src.range(1, 2) as u32;
            at_once("FrozenSet<u32>", &(0..n as u32).map(|x| x * step).collect::<FrozenSet<u32>>(), n)
        }
        _ => {
            let m: FrozenMap<u32, ()> = (0..n as u32).map(|x| (x * 5, ())).collect();
            let start = cpu_ns();
            for _ in 0..500 {
                ensure!(std::hint::black_box(&m).len() == n, "len of a FrozenMap is {}", m.len());
            }
            let took = cpu_ns() - start;
            ensure!(took < 500 * 4000 * 5, "len of a FrozenMap of {n} takes {} ns", took / 500);
            Ok(())
        }
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    match src.weighted(&[48, 24, 16, 32, 40, 48, 16, 16, 16, 16, 1]) {
        0 => text(src, cx),
        1 => bytes(src, cx),
        2 => slices(src, cx),
        3 => standard(src, cx),
        4 => ours::<u32>(src, cx, 1200),
        5 => ours::<String>(src, cx, 1200),
        6 => ours::<Word>(src, cx, 600),
        7 => ours::<Tagged>(src, cx, 1200),
        8 => ours::<i8>(src, cx, 256),
        9 => ours::<u64>(src, cx, 600),
        _ => large(src, cx),
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop { id: "C19", rule: "the values measured are not all empty; distinct by the choices drawn", run })
}
