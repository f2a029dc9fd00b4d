"""C27: generated programs which use the collections with every kind of key, value and hasher, compiled and run.

A case is a collection, a key type, a value type, a hasher, a number of entries, and what is done with them. A
program that is refused, or finds something else than what it put in, is a violation. Only types that have what the
statement lists for an operation are used in it, and each list has types that have nothing else.
"""
import concurrent.futures
import hashlib
import random
import re

import macros

PRELUDE = r'''#![allow(warnings)]
use frozen_collections::facades::{FrozenMap, FrozenSet};
use frozen_collections::specialized_maps::{CommonMap, IntegerMap, IntegerRangeMap, LeftSliceMap, LengthMap, RightSliceMap, ScanningMap};
use frozen_collections::specialized_sets::{CommonSet, IntegerRangeSet, IntegerSet, LeftSliceSet, LengthSet, RightSliceSet, ScanningSet, Set};
use frozen_collections::traits::len::Len;
use frozen_collections::traits::slice_hash::SliceHash;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::{BTreeSet, HashSet, VecDeque};
use std::fmt::Debug;
use std::hash::{BuildHasher, BuildHasherDefault, DefaultHasher, Hash, Hasher, RandomState};
use std::marker::PhantomData;
use std::ops::Range;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } } }

// keys that have what is asked for and nothing more
struct EqOnly(usize);
impl PartialEq for EqOnly { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Eq for EqOnly {}
struct HashOnly(usize);
impl PartialEq for HashOnly { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Eq for HashOnly {}
impl Hash for HashOnly { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
struct LenOnly(usize);
impl PartialEq for LenOnly { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Eq for LenOnly {}
impl Len for LenOnly { fn len(&self) -> usize { self.0 / 2 } }
struct SliceOnly(Vec<u8>);
impl PartialEq for SliceOnly { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Eq for SliceOnly {}
impl Len for SliceOnly { fn len(&self) -> usize { self.0.len() } }
impl SliceHash for SliceOnly { fn hash<B: BuildHasher>(&self, bh: &B, r: Range<usize>) -> u64 { let mut h = bh.build_hasher(); h.write(&self.0[r]); h.finish() } }
struct Lent<'a>(&'a [u8]);
impl<'a> PartialEq for Lent<'a> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<'a> Eq for Lent<'a> {}
impl<'a> Len for Lent<'a> { fn len(&self) -> usize { self.0.len() } }
impl<'a> SliceHash for Lent<'a> { fn hash<B: BuildHasher>(&self, bh: &B, r: Range<usize>) -> u64 { bh.hash_one(&self.0[r]) } }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
#[repr(align(64))]
struct Wide(u8);
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
#[repr(align(4096))]
struct Page;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
#[repr(transparent)]
struct Id(u32);
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Unit;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Color { Red, Green, Blue, Grey(u8), Named(std::string::String), Deep { of: Box<Color> } }
fn color(i: usize) -> Color {
    match i { 0 => Color::Red, 1 => Color::Green, 2 => Color::Blue, _ if i % 3 == 0 && i < 600 => Color::Grey((i / 3) as u8), _ if i % 3 == 1 => Color::Named(i.to_string()), _ => Color::Deep { of: Box::new(Color::Named(i.to_string())) } }
}
mod other {
    #[derive(Clone, PartialEq, Eq, Hash, Debug)]
    pub struct String { pub a: usize, pub b: usize, pub c: usize }
    #[allow(non_camel_case_types)]
    #[derive(Clone, PartialEq, Eq, Hash, Debug)]
    pub struct u32(pub i32);
}
struct Bare(usize);
trait Told { fn told(&self) -> usize; }
impl Told for Bare { fn told(&self) -> usize { self.0 } }
fn even() -> bool { true }
fn odd() -> bool { false }
fn bare_iter(n: usize) -> impl Iterator<Item = usize> { 0..n }

// a hasher builder that can do nothing else
struct Plain(u64);
struct PlainHasher(u64);
impl Hasher for PlainHasher {
    fn finish(&self) -> u64 { self.0 ^ self.0 >> 29 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x0100_0000_01b3); } }
}
impl BuildHasher for Plain { type Hasher = PlainHasher; fn build_hasher(&self) -> PlainHasher { PlainHasher(self.0) } }
// one that borrows, and so do its hashers
struct Watched<'a>(&'a Cell<u64>);
struct WatchedHasher<'a>(&'a Cell<u64>, DefaultHasher);
impl<'a> Hasher for WatchedHasher<'a> {
    fn finish(&self) -> u64 { self.0.set(self.0.get() + 1); self.1.finish() }
    fn write(&mut self, b: &[u8]) { self.1.write(b) }
}
impl<'a> BuildHasher for Watched<'a> { type Hasher = WatchedHasher<'a>; fn build_hasher(&self) -> Self::Hasher { WatchedHasher(self.0, DefaultHasher::new()) } }
type Steady = BuildHasherDefault<DefaultHasher>;

/// References to different places, each of them aligned.
fn places<T>(refs: &[&T]) -> Result<(), String> {
    let mut at: Vec<usize> = refs.iter().map(|r| *r as *const T as usize).collect();
    at.sort();
    for a in &at { ensure!(a % std::mem::align_of::<T>() == 0, "a reference to {a:x} where {} bytes of alignment are needed", std::mem::align_of::<T>()); }
    for w in at.windows(2) { ensure!(w[1] - w[0] >= std::mem::size_of::<T>(), "references overlap: {w:x?} of {} bytes", std::mem::size_of::<T>()); }
    Ok(())
}
fn same<T>(a: &T, b: &T) -> bool { std::ptr::eq(a, b) }
'''

INTS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]
#        type, key number i, how many there are, what it can do, lines before
KEYS = []


def key(ty, make, caps, limit=400, pre="", probe=None, late="", borrow=()):
    KEYS.append({"ty": ty, "make": make, "caps": set(caps.split()), "limit": limit, "pre": pre, "probe": probe or make, "late": late, "borrow": borrow})


ALL = "eq hash clone debug"
for t in INTS:
    key(t, f"(i as {t})" + ("" if t[0] == "u" else ".wrapping_sub(60)"), ALL + " int ord", {"u8": 250, "i8": 180}.get(t, 400))
POOL = "let pool: Vec<String> = (0..500).map(|i| format!(\"{}{:03}\", [\"\", \"some\", \"a longer \"][i % 3], i)).collect();"
BYTES = "let bytes: Vec<Vec<u8>> = (0..500usize).map(|i| format!(\"{:03}{}\", i, \"~\".repeat(i % 5)).into_bytes()).collect();"
key("String", 'format!("{:03}", i)', ALL + " slice len ord")
key("String", 'format!("common {:03} common", i)', ALL + " slice len ord")
key("String", '"x".repeat(i)', ALL + " slice len ord", 260)
key("String", 'format!("{}{:03}", "-".repeat(i % 7), i)', ALL + " slice len ord")
key("&'static str", "&*Box::leak(format!(\"{:03}\", i).into_boxed_str())", ALL + " ord short", probe="&shorter[i][..]", late='let shorter: Vec<String> = (0..500).map(|i| format!("{:03}", i)).collect();')
key("&str", "&pool[i][..]", ALL + " ord", pre=POOL, probe="&shorter[i][..]", late="let shorter = pool.clone();")
key("&String", "&pool[i]", ALL + " ord", pre=POOL, borrow=("String", "pool[i].clone()"))
key("Box<str>", "pool[i].clone().into_boxed_str()", ALL + " len ord", pre=POOL)
key("Rc<str>", "Rc::from(&pool[i][..])", ALL + " len ord", pre=POOL)
key("Arc<String>", "Arc::new(pool[i].clone())", ALL + " len ord", pre=POOL, borrow=("String", "pool[i].clone()"))
key("Box<String>", "Box::new(pool[i].clone())", ALL + " len ord", pre=POOL, borrow=("String", "pool[i].clone()"))
key("Cow<'_, str>", "if i % 2 == 0 { Cow::Borrowed(&pool[i][..]) } else { Cow::Owned(pool[i].clone()) }", ALL + " ord", pre=POOL, probe="Cow::Borrowed(&shorter[i][..])", late="let shorter = pool.clone();")
key("std::ffi::OsString", "std::ffi::OsString::from(&pool[i])", ALL + " len ord", pre=POOL)
key("std::path::PathBuf", "std::path::PathBuf::from(&pool[i])", ALL + " ord", pre=POOL)
key("std::ffi::CString", "std::ffi::CString::new(&pool[i][..]).unwrap()", ALL + " len ord", pre=POOL)
key("Vec<u8>", "bytes[i].clone()", ALL + " len ord", pre=BYTES)
key("&[u8]", "&bytes[i][..]", ALL + " ord", pre=BYTES, probe="&shorter[i][..]", late="let shorter = bytes.clone();")
key("Box<[u8]>", "bytes[i].clone().into_boxed_slice()", ALL + " len ord", pre=BYTES)
key("VecDeque<u16>", "bytes[i].iter().map(|b| u16::from(*b)).collect::<VecDeque<u16>>()", ALL + " len ord", pre=BYTES)
key("BTreeSet<&u8>", "(0..9u32).filter(|b| i >> b & 1 == 1).map(|b| &bytes[0][0..1][0]).take(0).chain(lots.iter().enumerate().filter(|(b, _)| i >> b & 1 == 1).map(|(_, x)| x)).collect::<BTreeSet<&u8>>()", ALL + " len ord", pre=BYTES + " let lots: Vec<u8> = (0..16).collect();")
key("char", "char::from_u32(0x1f00 + i as u32).unwrap()", ALL + " ord")
key("bool", "i == 1", ALL + " ord", 2)
key("()", "()", ALL + " ord", 1)
key("Unit", "Unit", ALL, 1)
key("Page", "Page", ALL, 1)
key("PhantomData<Bare>", "PhantomData::<Bare>", ALL, 1)
key("[u8; 3]", "[i as u8, (i >> 8) as u8, 7]", ALL + " ord")
key("[u8; 4]", "(i as u32).to_be_bytes()", ALL + " ord")
key("[u64; 40]", "[i as u64; 40]", ALL)
key("Option<u32>", "(i as u32).checked_sub(1)", ALL + " ord")
key("Option<&str>", "(i > 0).then(|| &pool[i][..])", ALL + " ord", pre=POOL, probe="(i > 0).then(|| &shorter[i][..])", late="let shorter = pool.clone();")
key("(u32, String)", "((i % 3) as u32, (i / 3).to_string())", ALL + " ord")
key("(&str, &Bareness)", "(&pool[i][..], &Bareness)", ALL, pre="#[derive(PartialEq, Eq, Hash, Debug)] struct Bareness; " + POOL)
key("Wide", "Wide(i as u8)", ALL, 250)
key("Id", "Id(i as u32)", ALL)
key("other::u32", "other::u32(i as i32)", ALL)
key("other::String", "other::String { a: i, b: usize::MAX, c: 1 }", ALL)
key("Color", "color(i)", ALL)
key("Reverse<u32>", "Reverse(i as u32)", ALL + " ord")
key("std::num::Wrapping<u32>", "std::num::Wrapping(i as u32)", ALL + " ord")
key("std::num::NonZeroU32", "std::num::NonZeroU32::new(i as u32 + 1).unwrap()", ALL + " ord")
key("std::net::Ipv4Addr", "std::net::Ipv4Addr::from(i as u32)", ALL + " ord")
key("std::time::Duration", "std::time::Duration::from_micros(i as u64)", ALL + " ord")
key("&u32", "&numbers[i]", ALL + " ord", pre="let numbers: Vec<u32> = (0..500).collect();", borrow=("u32", "i as u32"))
key("Box<u32>", "Box::new(i as u32)", ALL + " ord", borrow=("u32", "i as u32"))
key("*const u32", "&numbers[i] as *const u32", ALL + " ord", pre="let numbers: Vec<u32> = (0..500).collect();")
key("std::any::TypeId", "[std::any::TypeId::of::<u8>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<Bare>()][i]", ALL, 4)
key("Result<u32, &str>", "if i % 2 == 0 { Ok(i as u32) } else { Err(&pool[i][..]) }", ALL, pre=POOL)
key("EqOnly", "EqOnly(i)", "eq")
key("HashOnly", "HashOnly(i)", "eq hash")
key("LenOnly", "LenOnly(i)", "eq len")
key("SliceOnly", "SliceOnly(bytes[i].clone())", "eq len slice", pre=BYTES)
key("Lent<'_>", "Lent(&bytes[i])", "eq len slice", pre=BYTES, probe="Lent(&shorter[i])", late="let shorter = bytes.clone();")

VALUES = []


def value(ty, make, test, caps="", pre="", site=False):
    VALUES.append({"ty": ty, "make": make, "test": test, "caps": set(caps.split()), "pre": pre, "one_site": site})


CDP = "clone debug eq"
value("()", "()", "*v == ()", CDP)
value("u8", "i as u8", "*v == i as u8", CDP)
value("u64", "i as u64", "*v == i as u64", CDP)
value("u128", "i as u128", "*v == i as u128", CDP)
value("bool", "i % 2 == 1", "*v == (i % 2 == 1)", CDP)
value("f64", "i as f64 / 3.0", "*v == i as f64 / 3.0", CDP)
value("[u64; 50]", "[i as u64; 50]", "*v == [i as u64; 50]", CDP)
value("(u8, u64, u16)", "(1, i as u64, 2)", "*v == (1, i as u64, 2)", CDP)
value("Wide", "Wide(i as u8)", "*v == Wide(i as u8)", CDP)
value("Page", "Page", "*v == Page", CDP)
value("[Wide; 3]", "[Wide(1), Wide(i as u8), Wide(3)]", "v[1] == Wide(i as u8)", CDP)
value("PhantomData<Bare>", "PhantomData", "true", CDP)
value("String", "i.to_string()", "*v == i.to_string()", CDP)
value("Option<std::num::NonZeroU8>", "std::num::NonZeroU8::new(i as u8)", "*v == std::num::NonZeroU8::new(i as u8)", CDP)
value("Option<Box<usize>>", "(i % 3 > 0).then(|| Box::new(i))", "*v == (i % 3 > 0).then(|| Box::new(i))", CDP)
value("Vec<Rc<String>>", "vec![Rc::new(i.to_string()); i % 4]", "v.len() == i % 4 && v.iter().all(|x| **x == i.to_string())", CDP)
value("Rc<RefCell<usize>>", "Rc::new(RefCell::new(i))", "*v.borrow() == i", CDP)
value("Color", "color(i)", "*v == color(i)", CDP)
value("Box<dyn Fn(usize) -> usize>", "Box::new(move |x: usize| x + i) as Box<dyn Fn(usize) -> usize>", "v(3) == i + 3")
value("Box<dyn Told + '_>", "Box::new(Bare(i)) as Box<dyn Told + '_>", "v.told() == i")
value("&dyn Debug", "&numerals[i % 500] as &dyn Debug", "format!(\"{v:?}\") == (i % 500).to_string()", "clone debug", "let numerals: Vec<usize> = (0..500).collect();")
value("_", "move |x: usize| x * i", "v(2) == i * 2", "clone", site=True)
value("_", "{ let b = Bare(i); move || b.told() }", "v() == i", "", site=True)
value("_", "bare_iter(i)", "true", "", site=True)
value("_", "async move { i }", "true", "", site=True)
value("&Cell<usize>", "&cells[i % 500]", "v.get() == i % 500", "clone debug eq", "let cells: Vec<Cell<usize>> = (0..500).map(Cell::new).collect();")
value("&mut usize", "{ let u = unique.next().unwrap(); *u = i; u }", "**v == i", "debug", "let mut spaces = vec![0usize; 4000]; let mut unique = spaces.iter_mut();")
value("Bare", "Bare(i)", "v.0 == i")
value("Mutex<usize>", "Mutex::new(i)", "*v.lock().unwrap() == i", "debug")
value("Cell<Option<Bare>>", "Cell::new(Some(Bare(i)))", "{ let b = v.take(); let r = b.as_ref().map(|b| b.0) == Some(i); v.set(b); r }")
value("fn() -> bool", "(if i % 2 == 0 { even } else { odd }) as fn() -> bool", "v() == (i % 2 == 0)", "clone debug")
value("FrozenMap<usize, usize>", "FrozenMap::from([(i, i + 1)])", "v.get(&i) == Some(&(i + 1))", CDP)
value("Box<[usize]>", "(0..i % 9).collect::<Box<[usize]>>()", "v.len() == i % 9", CDP)
value("Cow<'_, str>", "if i % 2 == 0 { Cow::Borrowed(&texts[i % 500][..]) } else { Cow::Owned(texts[i % 500].clone()) }", "**v == (i % 500).to_string()", CDP, "let texts: Vec<String> = (0..500usize).map(|i| i.to_string()).collect();")
value("Result<u8, Box<dyn std::error::Error>>", "(i as u8).to_string().parse::<u8>().map_err(|e| Box::new(e) as Box<dyn std::error::Error>)", "matches!(v, Ok(x) if *x == i as u8)", "debug")
value("std::mem::ManuallyDrop<Bare>", "std::mem::ManuallyDrop::new(Bare(i))", "v.0 == i")
value("std::rc::Weak<Bare>", "Rc::downgrade(&kept)", "v.upgrade().is_some()", "clone", "let kept = Rc::new(Bare(0));")

#          name, needs of keys, hasher?, capacity?, range?
KINDS = [("Frozen", "hash", True, False, False), ("Common", "hash", True, True, False), ("Scanning", "eq", False, False, False), ("Integer", "int", False, True, False),
         ("IntegerRange", "int", False, False, False), ("Length", "len", False, True, False), ("LeftSlice", "slice", True, True, True), ("RightSlice", "slice", True, True, True)]
HASHERS = {"default": ("RandomState", "RandomState::new()"), "plain": ("Plain", "Plain(7)"), "watched": ("Watched<'_>", "Watched(&hashings)"), "steady": ("Steady", "Steady::default()")}
SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 12, 20, 33, 60, 130]
PATTERNS = ["i", "n - 1 - i", "(i * 7 + 3) % n"]
DISTINCT_FACADE = 1


def gen_case(seed, index):
    r = random.Random(f"{seed}/{index}")
    name, need, hashed, capped, ranged = r.choice(KINDS + KINDS[:2])
    is_set = r.random() < 0.3
    fit = [i for i, k in enumerate(KEYS) if need in k["caps"]]
    ki = r.choice(fit)
    # types that have nothing else come up often
    bare = [i for i in fit if not {"clone", "debug"} & KEYS[i]["caps"]]
    if bare and r.random() < 0.15:
        ki = r.choice(bare)
    vi = r.randrange(len(VALUES))
    n = min(r.choice(SIZES), KEYS[ki]["limit"] - 1 if KEYS[ki]["limit"] > 4 else KEYS[ki]["limit"])
    if capped is False and name == "Frozen" and KEYS[ki]["limit"] > 300 and r.random() < 0.08:
        n = r.choice([255, 256, 300])
    pat = "i" if n < 2 else r.choice([p for p in PATTERNS if p != PATTERNS[2] or n % 7])
    if name != "IntegerRange" and r.random() < 0.3 and "int" in KEYS[ki]["caps"] and n * 3 < KEYS[ki]["limit"]:
        pat = f"3 * ({pat})"
    if name == "Scanning":
        n = min(n, 33)
    spare = 3 * n + 5 if pat.startswith("3 *") else n + 5
    c = {"kind": name, "set": is_set, "key": ki, "value": vi, "n": n, "pattern": pat, "cap": r.choice(["u8", "u16", "u32", "u64", "usize"]) if capped else "",
         "absent": [a for a in range(n, spare) if not pat.startswith("3 *")] if not pat.startswith("3 *") else [1, 2, 3 * n, 3 * n + 1]}
    c["absent"] = [a for a in c["absent"] if a < KEYS[ki]["limit"]][:6]
    if pat.startswith("3 *") and n == 0:
        c["absent"] = c["absent"][:1]
    c["hasher"] = r.choice(sorted(HASHERS)) if hashed else "default"
    c["ctor"] = r.choice(["vec", "iter", "array"])
    lo = r.choice([0, 1])
    c["range"] = [lo, lo + r.choice([0, 1, 2, 3])]
    if name == "Length" and c["cap"] != "u8":
        c["ctor"] = "vec"  # only the smallest is collected into
    ops = set_ops(KEYS[ki], name, c["hasher"]) if is_set else map_ops(KEYS[ki], VALUES[vi], name, c["hasher"])
    c["ops"] = [o for o in ops if r.random() < 0.6]
    return c


def map_ops(k, v, name, hasher):
    ops = ["mutate", "many", "walk", "walkers", "index", "holder"]
    if v["one_site"]:
        ops.remove("mutate")
    if "clone" in k["caps"] and "clone" in v["caps"] and hasher in ("default", "steady"):
        ops.append("clone")
    if "debug" in k["caps"] and "debug" in v["caps"]:
        ops.append("debug")
    # comparing a scanning map asks for nothing else than Eq of the keys
    if "eq" in v["caps"]:
        ops += ["compare", "kept"]
    if name != "Frozen" and k["borrow"]:
        ops.append("borrowed")
    if name == "Frozen" and hasher in ("default", "steady"):
        ops.append("take")
    if k["late"]:
        ops.append("outlive")
    return ops


def set_ops(k, name, hasher):
    ops = ["walk", "into", "combine", "relate", "holder", "kept"]
    if "clone" in k["caps"]:
        ops.append("clone")
    if "clone" in k["caps"] and "hash" in k["caps"]:
        ops.append("operators")
    if "debug" in k["caps"] and name != "Frozen":
        ops.append("debug")
    if "hash" in k["caps"] and (name == "Frozen" or hasher in ("default", "steady")):
        ops.append("compare")
    if k["late"]:
        ops.append("outlive")
    return ops


def map_type(c):
    k, v = KEYS[c["key"]], VALUES[c["value"]]
    args = [k["ty"]] + ([] if c["set"] else [v["ty"]])
    if c["cap"]:
        args.append(c["cap"])
    if any(x[0] == c["kind"] and x[2] for x in KINDS):
        args.append(HASHERS[c["hasher"]][0])
    return f"{c['kind']}{'Set' if c['set'] else 'Map'}<{', '.join(args)}>"


def construct(c, payload, ctor=None, hasher=True):
    """An expression that makes the collection of the items of an iterator."""
    ctor = ctor or c["ctor"]
    ranged = f", {c['range'][0]}..{c['range'][1]}" if c["kind"] in ("LeftSlice", "RightSlice") else ""
    name = c["kind"] + ("Set" if c["set"] else "Map")
    if any(x[0] == c["kind"] and x[2] for x in KINDS) and c["hasher"] != "default":
        h = HASHERS[c["hasher"]][1]
        if ctor == "iter":
            return f"{name}::from_iter_with_hasher({payload}{ranged}, {h})"
        return f"{name}::from_vec_with_hasher({payload}.collect::<Vec<_>>(){ranged}, {h})"
    if ranged:
        return f"{name}::from_vec({payload}.collect::<Vec<_>>(){ranged})"
    if ctor == "iter":
        return f"{payload}.collect()"
    return f"{name}::from_vec({payload}.collect::<Vec<_>>())"


def function(idx, c):
    k, v = KEYS[c["key"]], VALUES[c["value"]]
    body = ["let hashings = Cell::new(0u64);", k["pre"], v["pre"] if not c["set"] else ""]
    n = c["n"]
    body.append(f"let n = {n}usize;")
    body.append(f"let nth = |i: usize| -> usize {{ {c['pattern']} }};")
    key_at = f"{{ let i = nth(i); {k['make']} }}"
    probe = f"{{ let i = nth(i); {k['probe']} }}"
    absent = f"{{ {k['probe']} }}"
    f = set_body if c["set"] else map_body
    body += f(c, k, v, key_at, probe, absent)
    if "kept" in c["ops"] and not (c["set"] and "into" in c["ops"]):
        # it is dropped after what its keys and values refer to
        body.insert(0, "let kept;")
        body.append(f"kept = Some({'s' if c['set'] else 'm'}); ensure!(kept.as_ref().is_some_and(|x| x.len() == n), \"kept\");")
    lines = "\n    ".join(x for x in body if x)
    return f"fn case_{idx}() -> Result<(), String> {{\n    {lines}\n    Ok(())\n}}\n"


def lookups(c, probe, absent, v):
    test = v["test"]
    out = [f"ensure!(m.len() == n && m.is_empty() == (n == 0), \"length {{}} of {{n}}\", m.len());",
           f"for i in 0..n {{ let q = {probe}; let Some(v) = m.get(&q) else {{ return Err(format!(\"key {{i}} is not found\")) }}; ensure!({test}, \"key {{i}} has another value\");",
           "  ensure!(m.contains_key(&q), \"key {i} is not contained\");",
           "  let Some((k, w)) = m.get_key_value(&q) else { return Err(format!(\"key {i} has no entry\")) }; ensure!(*k == q && same(v, w), \"the entry of key {i} is another\"); }"]
    if c["absent"]:
        out.append(f"for i in {c['absent']} {{ let q = {absent}; ensure!(m.get(&q).is_none() && !m.contains_key(&q) && m.get_key_value(&q).is_none(), \"key {{i}} is absent and found\"); }}")
    return out


def map_body(c, k, v, key_at, probe, absent):
    payload = f"(0..n).map(|i| ({key_at}, {v['make']}))"
    ty = map_type(c)
    out = [f"let mut m: {ty} = {construct(c, payload)};", k["late"]]
    look = lookups(c, probe, absent, v)
    out += look
    out += [f"let all: Vec<&_> = (0..n).map(|i| {{ let q = {probe}; m.get(&q).unwrap() }}).collect(); places(&all)?;"] if "late" not in k or not k["late"] else \
           [f"let all: Vec<&_> = m.values().collect(); places(&all)?;"]
    out.append("let all: Vec<&_> = m.keys().collect(); places(&all)?;")
    ops = c["ops"]
    if "walk" in ops:
        out.append(f"let mut seen = 0; for (k, v) in &m {{ let Some(i) = (0..n).find(|i| {{ let i = *i; *k == {probe} }}) else {{ return Err(\"an entry that was not put in\".into()) }}; ensure!({v['test']}, \"entry {{i}} has another value\"); seen += 1; }} ensure!(seen == n, \"{{seen}} entries\");")
    if "walkers" in ops:
        # iterators can be cloned whatever the entries are
        out.append("{ let mut it = m.iter(); let left = it.clone(); let first = it.next(); ensure!(left.count() == n && it.len() == n - first.is_some() as usize, \"entries left\");")
        out.append("  let mut ks = m.keys(); let k2 = ks.clone(); ks.next(); ensure!(k2.len() == n && ks.count() == n.saturating_sub(1), \"keys left\");")
        out.append("  let mut vs = m.values(); let v2 = vs.clone(); vs.next(); ensure!(v2.len() == n && vs.count() == n.saturating_sub(1), \"values left\");")
        out.append("  ensure!(m.iter().zip(m.keys()).zip(m.values()).all(|(((k, v), k2), v2)| same(k, k2) && same(v, v2)), \"keys and values apart from entries\"); }")
    if "mutate" in ops:
        # `unique` and the like: values are made at one place
        out.append(f"for i in 0..n {{ let q = {key_at}; let i = i + 1000; *m.get_mut(&q).unwrap() = {v['make']}; }}")
        out.append(f"for i in 0..n {{ let q = {probe}; let i = i + 1000; let v = m.get(&q).unwrap(); ensure!({v['test']}, \"another value than the one assigned\"); }}")
        out.append(f"for i in 0..n {{ let q = {key_at}; *m.get_mut(&q).unwrap() = {v['make']}; }}")
    if "many" in ops and c["n"] >= 2:
        out.append(f"{{ let (p, q) = ({{ let i = 0usize; {key_at} }}, {{ let i = n - 1; {key_at} }}); let Some([x, y]) = m.get_many_mut([&p, &q]) else {{ return Err(\"two keys are refused\".into()) }}; places(&[&*x, &*y])?; std::mem::swap(x, y); }}")
        out.append(f"for (i, j) in [(0usize, n - 1), (n - 1, 0usize)] {{ let q = {probe}; let v = m.get(&q).unwrap(); let i = j; ensure!({v['test']}, \"the values are not swapped\"); }}")
        out.append(f"{{ let (p, q) = ({{ let i = 0usize; {key_at} }}, {{ let i = n - 1; {key_at} }}); let [x, y] = m.get_many_mut([&p, &q]).unwrap(); std::mem::swap(x, y); ensure!(m.get_many_mut([&p, &p]).is_none(), \"a key twice\"); }}")
    if "index" in ops and c["n"]:
        out.append(f"for i in 0..n {{ let v = &m[{probe}]; ensure!({v['test']}, \"index of key {{i}}\"); }}")
        out.append(f"for i in 0..n {{ let place = &mut m[{key_at}]; let v = &*place; ensure!({v['test']}, \"mutable index of key {{i}}\"); }}")
    if "clone" in ops:
        out.append(f"{{ let was = m; m = was.clone(); ensure!(was.len() == n && was.values().zip(m.values()).all(|(a, b)| std::mem::size_of_val(a) == 0 || !same(a, b)), \"a clone shares values\"); }}")
        out += look
    if "debug" in ops:
        out.append("{ let want: Vec<String> = m.iter().map(|(k, v)| format!(\"{k:?}: {v:?}\")).collect(); ensure!(format!(\"{m:?}\") == format!(\"{{{}}}\", want.join(\", \")), \"rendered {m:?}\");")
        out.append("  let _ = (format!(\"{:?}\", m.iter()), format!(\"{:?}\", m.keys()), format!(\"{:?}\", m.values()), format!(\"{m:#?}\")); }")
    if "compare" in ops:
        again = f"(0..n).rev().map(|i| ({key_at}, {v['make']}))"
        if c["n"] and not v["one_site"]:
            out.append(f"{{ let mut other: {ty} = {construct(c, again, 'vec')}; ensure!(m == other && other == m, \"not equal to itself built again\");")
            changes = {"()": False, "Page": False, "PhantomData<Bare>": False}.get(v["ty"], True)
            if changes:
                out.append(f"  let q = {{ let i = 0usize; {key_at} }}; {{ let i = 1usize; *other.get_mut(&q).unwrap() = {v['make']}; }} ensure!(m != other, \"equal in spite of another value\");")
            out.append("}")
    if "borrowed" in ops:
        q, e = k["borrow"]
        out.append(f"for i in 0..n {{ let q: {q} = {{ let i = nth(i); {e} }}; let Some(v) = m.get::<{q}>(&q) else {{ return Err(format!(\"key {{i}} is not found in its borrowed form\")) }}; ensure!({v['test']}, \"borrowed key {{i}}\"); ensure!(m.contains_key::<{q}>(&q) && m.get_mut::<{q}>(&q).is_some() && m.get_many_mut::<{q}, 1>([&q]).is_some() && m.get_key_value::<{q}>(&q).is_some(), \"borrowed key {{i}}\"); }}")
    if "holder" in ops:
        out.append(f"let first = m.iter().next(); struct Holder<'h, M> {{ map: &'h M }} let h = Holder {{ map: &m }}; ensure!(h.map.iter().next().map(|e| e.0 as *const _) == first.map(|e| e.0 as *const _), \"held\");")
    if "take" in ops:
        out.append("{ let kept = std::mem::take(&mut m); ensure!(m.is_empty() && m.iter().next().is_none() && kept.len() == n, \"taken\"); m = kept; }")
    if "outlive" in ops:
        out.append("let out: Vec<_> = m.iter().map(|(k, v)| k).collect(); ensure!(out.len() == n, \"keys\");")
    out += look
    return out


def set_body(c, k, v, key_at, probe, absent):
    ty = map_type(c)
    payload = f"(0..n).map(|i| {key_at})"
    out = [f"let mut s: {ty} = {construct(c, payload)};", k["late"]]
    look = ["ensure!(s.len() == n && s.is_empty() == (n == 0), \"length {} of {n}\", s.len());",
            f"for i in 0..n {{ let q = {probe}; let Some(v) = s.get(&q) else {{ return Err(format!(\"item {{i}} is not found\")) }}; ensure!(*v == q && s.contains(&q), \"item {{i}} is another\"); }}"]
    if c["absent"]:
        look.append(f"for i in {c['absent']} {{ let q = {absent}; ensure!(s.get(&q).is_none() && !s.contains(&q), \"item {{i}} is absent and found\"); }}")
    out += look
    out.append("let all: Vec<&_> = s.iter().collect(); places(&all)?; ensure!(all.len() == n, \"{} items\", all.len());")
    ops = c["ops"]
    if "walk" in ops:
        out.append("{ let mut it = s.iter(); let left = it.clone(); it.next(); ensure!(left.len() == n && it.count() == n.saturating_sub(1), \"items left\"); let mut seen = 0; for x in &s { seen += 1; ensure!(s.contains(x), \"an item that is not found\"); } ensure!(seen == n, \"{seen} items\"); }")
    part = f"(0..n).filter(|i| i % 2 == 0).map(|i| {key_at})"
    other = f"(0..n).map(|i| {key_at})"
    half = "n.div_ceil(2)"
    if "combine" in ops or "relate" in ops:
        out.append(f"let t: ScanningSet<{k['ty']}> = {part}.collect();")
    if "combine" in ops:
        out.append(f"ensure!(s.union(&t).count() == n && t.union(&s).count() == n, \"union\"); ensure!(s.intersection(&t).count() == {half} && s.difference(&t).count() == n - {half} && t.difference(&s).count() == 0 && s.symmetric_difference(&t).count() == n - {half}, \"combinations\");")
        out.append(f"{{ let mut u = s.union(&t); let u2 = u.clone(); u.next(); ensure!(u2.count() == n, \"a clone of a union\"); let d = s.difference(&t); let d2 = d.clone(); ensure!(d.count() == d2.count(), \"a clone of a difference\"); let d = s.symmetric_difference(&t); let d2 = d.clone(); ensure!(d.count() == d2.count(), \"a clone of a symmetric difference\"); let d = s.intersection(&t); let d2 = d.clone(); ensure!(d.count() == d2.count(), \"a clone of an intersection\"); }}")
    if "relate" in ops:
        out.append(f"ensure!(t.is_subset(&s) && s.is_superset(&t) && s.is_disjoint(&t) == (n == 0) && s.is_subset(&t) == (n < 2), \"relations\");")
    if "operators" in ops:
        # the operators' hasher is made by default
        if c["hasher"] in ("default", "steady"):
            out.append(f"{{ let h: HashSet<{k['ty']}> = {part}.collect(); ensure!((&s | &h).len() == n && (&s & &h).len() == {half} && (&s - &h).len() == n - {half} && (&s ^ &h).len() == n - {half}, \"operators\"); }}")
        out.append(f"{{ let h: HashSet<{k['ty']}> = {part}.collect(); ensure!(s.union(&h).count() == n && Set::union(&h, &s).count() == n && Set::is_subset(&h, &s), \"with a HashSet\"); }}")
    if "compare" in ops:
        again = f"(0..n).rev().map(|i| {key_at})"
        out.append(f"{{ let o: {ty} = {construct(c, again, 'vec')}; ensure!(s == o && o == s, \"not equal to itself built again\"); }}")
    if "debug" in ops:
        out.append("{ let r = format!(\"{s:?} {s:#?}\"); for x in s.iter() { ensure!(r.contains(&format!(\"{x:?}\")), \"rendered {r}\"); } let _ = format!(\"{:?}\", s.iter()); }")
    if "clone" in ops and c["hasher"] in ("default", "steady"):
        out.append("{ let was = s; s = was.clone(); ensure!(was.len() == n, \"cloned\"); }")
        out += look
    if "holder" in ops:
        out.append("struct Holder<'h, S> { set: &'h S } let h = Holder { set: &s }; ensure!(h.set.len() == n, \"held\");")
    out += look
    if "into" in ops and c["kind"] != "Frozen":
        out.append("let it = s.into_iter(); ensure!(it.len() == n, \"items to come\"); let items: Vec<_> = it.collect();")
        out.append(f"for i in 0..n {{ let q = {probe}; ensure!(items.iter().filter(|x| **x == q).count() == 1, \"item {{i}} is not handed out once\"); }}")
    return out


def program(cases, plain=False):
    out = [PRELUDE]
    out += [function(i, c) for i, c in enumerate(cases)]
    out.append("fn main() {\n    std::panic::set_hook(Box::new(|_| ()));\n    let cases: [fn() -> Result<(), String>; %d] = [%s];" % (len(cases), ", ".join(f"case_{i}" for i in range(len(cases)))))
    out.append('''    for (i, case) in cases.iter().enumerate() {
        let why = match std::panic::catch_unwind(|| case()) {
            Ok(Ok(())) => continue,
            Ok(Err(why)) => why,
            Err(p) => format!("panics: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        };
        println!("FAIL {i} {}", why.replace('\\n', " "));
    }
    println!("END");
}''')
    return "\n".join(out)


def describe(c):
    k, v = KEYS[c["key"]], VALUES[c["value"]]
    vt = "" if c["set"] else f", values {v['make']}"
    return f"{map_type(c)} of {c['n']} entries, keys {k['make']} with i = {c['pattern']}{vt}; built by {c['ctor']}; {' '.join(c['ops'])}"


def shrink(cc, c, why, pool):
    def attempt(cands):
        for cand, w in zip(cands, pool.map(cc.fails, cands)):
            if w:
                return cand, w
        return None

    for _ in range(12):
        cands = [{**c, "ops": []}] if c["ops"] else []
        cands += [{**c, "ops": c["ops"][:i] + c["ops"][i + 1:]} for i in range(len(c["ops"]))]
        cands += [{**c, "n": n, "absent": [a for a in c["absent"] if a >= c["n"]]} for n in (0, 1, 2, 3, 4, c["n"] // 2, c["n"] - 1) if 0 <= n < c["n"]]
        if c["value"]:
            cands += [{**c, "value": i} for i in (0, 1, 2) if i < c["value"]]
        cands += [{**c, k: v} for k, v in (("hasher", "default"), ("absent", []), ("pattern", "i"), ("ctor", "vec")) if c[k] != v]
        need = next(x[1] for x in KINDS if x[0] == c["kind"])
        cands += [{**c, "key": i} for i in (2, 12) if need in KEYS[i]["caps"] and i < c["key"] and set(c["ops"]) <= {"walk", "walkers", "many", "index", "mutate"}]
        hit = attempt(cands)
        if not hit:
            break
        c, why = hit
    return c, why


def run(pid, tier, seed, env, save_replay, Violation, NoAnswer):
    total, batch = (2000, 50) if tier == "quick" else (50000, 50)
    cc = Judge(env, NoAnswer)
    try:
        batches = [[gen_case(seed, i) for i in range(b, b + batch)] for b in range(0, total, batch)]
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            first = None
            for cases, (fails, text) in zip(batches, pool.map(cc.run, batches)):
                if fails is None or fails:
                    first = (cases, fails, text)
                    pool.shutdown(wait=False, cancel_futures=True)
                    break
        if first:
            with concurrent.futures.ThreadPoolExecutor(8) as pool:
                cases, fails, text = first
                if fails is None:
                    while len(cases) > 1:
                        parts = [cases[i::8] for i in range(8) if cases[i::8]]
                        bad = [p for p, (f, _) in zip(parts, pool.map(cc.run, parts)) if f is None]
                        if not bad:
                            raise NoAnswer("programs compile apart but not together: " + text[:1500])
                        cases = bad[0]
                    c = cases[0]
                else:
                    c = cases[min(fails)]
                why = cc.fails(c)
                if why is not None:
                    c, why = shrink(cc, c, why, pool)
                elif fails:
                    why = fails[min(fails)] + " (not reproduced by itself)"
                else:
                    raise NoAnswer("a program does not compile, but each of its cases does: " + text[:1500])
            path = save_replay(pid, {"property": pid, "script": "generality", "case": c, "message": why, "source": function(0, c)})
            raise Violation(f"{why}\n  case: {describe(c)}", path)
        every = [c for b in batches for c in b]
        classes = {}
        for c in every:
            for k in (f"{c['kind']} {'set' if c['set'] else 'map'}", f"hasher {c['hasher']}", f"key {KEYS[c['key']]['ty']}", "" if c["set"] else f"value {VALUES[c['value']]['make']}", *(f"op {o}" for o in c["ops"])):
                classes[k] = classes.get(k, 0) + 1
        classes.pop("", None)
        return {"evaluations": len(every), "distinct": len({hashlib.sha256(function(0, c).encode()).hexdigest() for c in every if c["n"] >= 2 and c["ops"]}),
                "rule": "a compiled function that builds a collection of at least two entries and does more with it than look them up; distinct by its text",
                "samples": [describe(every[i])[:400] for i in (1, 5, 9)], "detail": dict(sorted(classes.items()))}
    finally:
        cc.close()


class Judge(macros.Compiler):
    def __init__(self, env, NoAnswer):
        super().__init__(env, NoAnswer, program)

    def fails(self, c):
        """Why the case fails, or None."""
        f, text = self.run([c])
        if f is None:
            errors = re.findall(r"(?ms)^error.*?(?=^error|\Z)", text)
            return "does not compile: " + " ".join(" ".join(errors[:2]).split())[:700]
        return f.get(0)


def replay(d, env):
    class NoAnswer(Exception):
        pass
    cc = Judge(env, NoAnswer)
    try:
        why = cc.fails(d["case"])
        print(function(0, d["case"]))
        print(why or "held")
        return 1 if why else 0
    finally:
        cc.close()
