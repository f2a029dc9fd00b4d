"""C14: generated frozen_map! invocations, compiled, run, and compared with the pairs written in them.

A case is a key type, entries and probes as source text. Batches of cases are compiled as one program each. A case
which fails (it does not compile, or its map is not the one written) is minimised by leaving out entries.
"""
import concurrent.futures
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import tempfile

from fresh import forget_stale

HERE = os.path.dirname(os.path.abspath(__file__))
CRATE = os.path.join(HERE, "macros")

PRELUDE = r'''#![allow(warnings)]
#![recursion_limit = "512"]
use frozen_collections::*;
use frozen_collections::traits::len::Len as _;
use std::fmt::Debug;
use std::marker::PhantomData;

trait Made<T> { fn made(t: &T) -> Self; }
impl<T: Clone> Made<T> for T { fn made(t: &T) -> T { t.clone() } }
impl Made<&'static str> for String { fn made(t: &&'static str) -> String { t.to_string() } }
impl Made<&'static str> for Box<str> { fn made(t: &&'static str) -> Box<str> { (*t).into() } }
impl Made<&'static str> for std::rc::Rc<str> { fn made(t: &&'static str) -> Self { (*t).into() } }
impl Made<&'static str> for std::sync::Arc<str> { fn made(t: &&'static str) -> Self { (*t).into() } }
impl Made<&'static str> for std::borrow::Cow<'static, str> { fn made(t: &&'static str) -> Self { (*t).into() } }

fn key_type<'a, K: 'a, V: 'a>(_: impl Iterator<Item = (&'a K, &'a V)>) -> PhantomData<K> { PhantomData }
fn made<T, K: Made<T>>(_: &PhantomData<K>, t: &T) -> K { K::made(t) }
fn found<V: PartialEq + Debug>(got: Option<&V>, want: &V, key: &dyn Debug) {
    match got {
        None => panic!("key {key:?} is written with value {want:?}, but is not found"),
        Some(v) => assert!(v == want, "key {key:?} is written with value {want:?}, but has {v:?}"),
    }
}
fn absent<V: PartialEq + Debug>(got: Option<&V>, key: &dyn Debug) {
    if let Some(v) = got { panic!("key {key:?} is not written, but has {v:?}"); }
}

macro_rules! verify {
    ($m:ident, $want:ident, $absent:ident) => {{
        let kt = key_type($m.iter());
        for (k, v) in &$want {
            let q = made(&kt, k);
            found($m.get(&q), v, k);
            assert!($m.contains_key(&q), "key {k:?} is found but not contained");
        }
        for k in &$absent {
            let q = made(&kt, k);
            absent($m.get(&q), k);
            assert!(!$m.contains_key(&q), "key {k:?} is contained but not found");
        }
        assert_eq!($m.len(), $want.len(), "length");
        assert_eq!($m.iter().count(), $want.len(), "entries iterated over");
        if $want.len() <= 64 {
            for (k, v) in $m.iter() {
                assert!($want.iter().any(|w| made(&kt, &w.0) == *k && w.1 == *v), "an entry that is not written: {k:?}: {v:?}");
            }
        }
    }};
}

// hands its arguments on as fragments
macro_rules! through { ($t:ty; $($k:expr => $v:expr),*) => { frozen_map!($t, $($k: $v),*) }; }

type Id = u32;
type Name = &'static str;
const SEVEN: u8 = 7;
const WORD: &str = "word";

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Color { Red, Green, Blue, Rgb(u8, u8, u8), Named { name: &'static str } }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Pair { a: i32, b: String }
'''

INTS = {"u8": (0, 2**8 - 1), "i8": (-2**7, 2**7 - 1), "u16": (0, 2**16 - 1), "i16": (-2**15, 2**15 - 1),
        "u32": (0, 2**32 - 1), "i32": (-2**31, 2**31 - 1), "u64": (0, 2**64 - 1), "i64": (-2**63, 2**63 - 1),
        "u128": (0, 2**128 - 1), "i128": (-2**127, 2**127 - 1), "usize": (0, 2**64 - 1), "isize": (-2**63, 2**63 - 1),
        "Id": (0, 2**32 - 1), "std::primitive::i16": (-2**15, 2**15 - 1)}


def underscored(r, digits):
    out = digits[0]
    for d in digits[1:]:
        if r.random() < 0.2:
            out += "_" * r.choice((1, 1, 2))
        out += d
    return out


def spell_int(r, v, ty, fancy):
    """A literal for v, of type ty."""
    neg, a = v < 0, abs(v)
    t = str(a)
    if fancy:
        if ty == "u8" and r.random() < 0.15:
            return f"b'{chr(a)}'" if 32 <= a < 127 and chr(a) not in "'\\" else f"b'\\x{a:02x}'"
        if not neg and a == 7 and ty == "u8" and r.random() < 0.3:
            return "SEVEN"
        style = r.randrange(8)
        # what a negative literal's digits spell must fit the type by itself, but for the minimum
        if style == 0:
            t = "0x" + underscored(r, f"{a:x}" if r.random() < 0.5 else f"{a:X}")
        elif style == 1:
            t = "0b" + underscored(r, f"{a:b}")
        elif style == 2:
            t = "0o" + underscored(r, f"{a:o}")
        elif style == 3:
            t = underscored(r, t)
        elif style == 4:
            t = "0" * r.randrange(1, 4) + t
        if ty in INTS and ":" not in ty and ty != "Id" and r.random() < 0.25:
            t += r.choice(("", "_")) + ty
    return ("-" + r.choice(("", "", " ")) if neg else "") + t


PREFIX = {2: "0b", 8: "0o", 16: "0x"}


def in_base(v, b):
    return {2: f"{v:b}", 8: f"{v:o}", 10: str(v), 16: f"{v:x}"}[b]


def lookalikes(r, ty, lo, hi, n):
    """Literals whose digits or suffixes, read otherwise than they should be, say something else: mostly contiguous."""
    b = r.choice((2, 8, 16, 16, 10))
    neg = lo < 0 and r.random() < 0.3
    read = r.choice((10, 10, 16, 8))
    start = r.choice((0, 1, 2, 7, 8, 9, 10, 90, 99, r.randrange(1000)))
    step = r.choice((1, 1, 1, 2))
    stop = min(hi, -lo if neg else hi)
    texts, v = [], start
    tries = 0
    while len(texts) < n and tries < 40 * n + 200:
        tries += 1
        t = in_base(v, read)
        v += step
        if all(int(c, 16) < b for c in t) and int(t, b) <= stop:
            texts.append(t)
    width = max(map(len, texts), default=0)
    pad = r.choice((0, 0, width, width + 1))
    suffix = r.choice(("", "", "_")) + ty if r.random() < 0.4 and ty in INTS and ":" not in ty and ty != "Id" else ""
    cut = r.choice((0, 0, 1, 2))
    out = []
    for t in texts:
        k = int(t, b)
        t = t.rjust(pad, "0")
        if cut and len(t) > cut:
            t = t[:cut] + "_" + t[cut:]
        # a suffix would be read as digits after some hexadecimal literals
        s = PREFIX.get(b, "") + t + (suffix if b != 16 or suffix[:1] in ("_", "u", "i") else "")
        out.append((-k if neg else k, ("-" if neg else "") + s))
    out = list({k: (k, s) for k, s in out}.values())
    if r.random() < 0.5:
        r.shuffle(out)
    return out


def int_keys(r, lo, hi, n):
    n = min(n, hi - lo + 1)
    if n == 0:
        return []
    kind = r.randrange(9)
    span = hi - lo + 1

    def base(width):
        top = max(lo, hi - width + 1)
        c = r.randrange(6)
        if c == 0:
            return lo
        if c == 1:
            return top
        if c == 2:
            return max(lo, min(top, -r.randrange(width + 1)))
        if c == 3:
            return max(lo, min(top, r.choice((0, 1, 127, 128, 255, 256, 2**15, 2**16, 2**31, 2**32, 2**63, 2**64)) - r.randrange(width + 1)))
        return r.randint(lo, top)
    if kind <= 2:  # contiguous
        b = base(n)
        keys = list(range(b, b + n))
    elif kind == 3 and n >= 2 and span > n:  # contiguous but for one key
        b = base(n + 1)
        keys = list(range(b, b + n + 1))
        del keys[r.choice((1, n - 1, r.randrange(1, n)))]
    elif kind == 4 and n >= 2:  # contiguous but for one far away
        b = base(n)
        keys = list(range(b, b + n))
        out = r.choice((lo, hi, r.randint(lo, hi)))
        if out not in keys:
            keys[r.randrange(n)] = out
    elif kind == 5:  # multiples
        step = 1 << r.randrange(0, max(1, (span // n).bit_length()))
        step = max(1, min(step, span // n))
        b = base((n - 1) * step + 1)
        keys = [b + i * step for i in range(n)]
    elif kind == 6:  # the ends
        keys = []
        for i in range(n):
            keys.append(lo + i // 2 if i % 2 == 0 else hi - i // 2)
    else:
        width = min(span, r.choice((n, n + 1, 2 * n, 10 * n, 1000 * n, span)))
        b = base(width)
        seen = set()
        if width < 4 * n:
            keys = [b + x for x in r.sample(range(width), n)]
        else:
            while len(seen) < n:
                seen.add(b + r.randrange(width))
            keys = sorted(seen)
    assert len(set(keys)) == n and all(lo <= k <= hi for k in keys), (kind, lo, hi, n)
    if r.random() < 0.6:
        r.shuffle(keys)
    return keys


def int_absent(r, keys, lo, hi):
    have = set(keys)
    out = set()
    for k in r.sample(keys, min(len(keys), 12)) + ([min(keys), max(keys)] if keys else []):
        for c in (k - 1, k + 1, -k, k + 256, k - 256, k ^ 1, k + 65536, k + 2**32, k - 2**32, k + 2**64, ~k, k + len(keys), k - len(keys)):
            out.add(c)
    out |= {0, 1, -1, lo, hi, r.randint(lo, hi)}
    return sorted(c for c in out if lo <= c <= hi and c not in have)[:60]


ALPHABETS = ("ab", "abcdefghijklmnopqrstuvwxyz", "0123456789", "aé", "日本語テキスト", "\x00\x01\t\n\r\"\\'{}", "🦀👩‍👩‍👧é ")


def strings(r, n):
    seen = set()
    out = []
    kind = r.randrange(7)
    al = r.choice(ALPHABETS)
    pre = "".join(r.choice(al) for _ in range(r.choice((0, 0, 1, 5, 30))))
    post = "".join(r.choice(al) for _ in range(r.choice((0, 0, 1, 5, 30))))
    width = 1
    while len(al) ** width < 4 * n:
        width += 1
    tries = 0
    while len(out) < n:
        tries += 1
        i = len(out)
        if kind == 0 and n <= 60:  # every length once
            s = pre + al[0] * i
        elif kind == 1:
            s = pre + "".join(r.choice(al) for _ in range(width)) + post
        elif kind == 2:
            s = pre + "".join(r.choice(al) for _ in range(r.randrange(width + 3))) + post
        elif kind == 3:
            s = pre + str(i) + post
        elif kind == 4:
            s = "".join(r.choice(r.choice(ALPHABETS)) for _ in range(r.randrange(0, 12)))
        elif kind == 5:  # lengths that nearly tell
            s = r.choice((pre, post)) + "x" * (i // 2) + r.choice(al)
        else:
            s = "".join(r.choice(al) for _ in range(width)) + pre
        if tries > 20 * n:
            s += str(i) + "."
        if s not in seen:
            seen.add(s)
            out.append(s)
    r.shuffle(out)
    return out


def string_absent(r, keys):
    have = set(keys)
    out = {"", "a", "key", "\x00", "é"}
    for k in r.sample(keys, min(len(keys), 10)):
        out |= {k + "a", k + "\x00", k[:-1], k[1:], k[::-1], k + k, k.upper(), "a" + k}
        if k:
            i = r.randrange(len(k))
            out.add(k[:i] + r.choice("abc") + k[i + 1:])
    return sorted(s for s in out if s not in have)[:50]


def esc(s):
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif 32 <= ord(c) < 127:
            out += c
        else:
            out += "\\u{%x}" % ord(c)
    return out + '"'


def spell_str(r, s, fancy, uniform=None):
    if not fancy:
        return esc(s)
    if uniform == 1:
        return '"' + "".join("\\u{%x}" % ord(c) for c in s) + '"'
    if uniform == 2:
        return '"' + "".join("\\x%02x" % ord(c) if ord(c) < 128 else c if c.isalnum() else "\\u{%x}" % ord(c) for c in s) + '"'
    # of fixed width in the source or not
    if uniform == 0:
        return '"' + "".join(r.choice(("\\u{%x}", "\\u{%06x}")) % ord(c) for c in s) + '"'
    if s == "word" and r.random() < 0.5:
        return "WORD"
    k = r.randrange(6)
    if k == 0 and "\r" not in s and "\x00" not in s and '"#' not in s:
        h = "##" if r.random() < 0.5 or '"' in s else "#"
        if '"' + h not in s and not any(0x202a <= ord(c) <= 0x2069 for c in s):
            return f'r{h}"{s}"{h}'
    out = '"'
    for c in s:
        o = ord(c)
        if c in '"\\':
            out += "\\" + c
        elif c in "\n\r\t\0" and r.random() < 0.7:
            out += {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\0": "\\0"}[c]
        elif o < 128 and r.random() < 0.1:
            out += f"\\x{o:02x}"
        elif r.random() < 0.1 or o < 32 or o == 127 or 0x200b <= o <= 0x2069:
            out += "\\u{%x}" % o
        elif r.random() < 0.03 and not c.isspace():
            out += "\\\n      " + c
        else:
            out += c
    return out + '"'


# names that the caller may have given to variables, any of which the code made by the macro might also want to use
NAMES = list("abcdefghijklmnopqrstuvwxyz") + """map set pairs pair entries entry payload vec items item keys key values value kv kvs data table slots result res ret
out tmp temp inner list array arr builder hasher bh range start end index idx len count size capacity iter it this frozen frozen_map input args output buf
_m _v _map __m __map __frozen_map""".split()


# what the caller may have defined under names that the macro might also want to use
SHADOWS = {"String": "struct String; ", "Vec": "struct Vec; ", "Box": "enum Box {} ", "Option": "struct Option; ", "Some": "fn Some() {} ", "None": "const None: u8 = 1; ",
           "vec": "macro_rules! vec { ($($t:tt)*) => { compile_error!() } } ", "std": "mod std {} ", "core": "mod core {} ", "alloc": "mod alloc {} ",
           "RandomState": "struct RandomState; ", "From": "trait From {} ", "Into": "trait Into {} ", "Iterator": "trait Iterator {} ",
           "FromIterator": "trait FromIterator {} ", "HashMap": "struct HashMap; ", "ScanningMap": "struct ScanningMap; ", "CommonMap": "struct CommonMap; ",
           "IntegerMap": "struct IntegerMap; ", "IntegerRangeMap": "enum IntegerRangeMap {} ", "LengthMap": "type LengthMap = (); ",
           "LeftSliceMap": "struct LeftSliceMap; ", "RightSliceMap": "struct RightSliceMap; ", "FrozenMap": "struct FrozenMap; ",
           "specialized_maps": "mod specialized_maps {} ", "frozen_collections": "mod frozen_collections {} ", "ToString": "trait ToString { fn to_string(&self) {} } "}


def shadows(r, text):
    """Definitions under names that are not used in the text."""
    used = set(re.findall(r"\w+", text))
    return "".join(SHADOWS[k] for k in r.sample(sorted(SHADOWS), r.randrange(1, 9)) if k not in used)


def values(r, n, local):
    """The type and texts of n values, and what goes before and after the macro's use."""
    k = r.randrange(9)
    if n > 2000:
        k = 0
    if local and n <= 2000:
        style = r.randrange(3)
        if style == 0:  # variables
            names = r.sample(NAMES, min(max(n, 1), len(NAMES)))
            before = "".join(f"let {x}: i64 = {-i}; " for i, x in enumerate(names))
            if 0 < n <= 30 and r.random() < 0.7:  # every name, shared out among the values
                names = r.sample(NAMES, len(NAMES))
                before = "".join(f"let {x}: i64 = {-i * i}; " for i, x in enumerate(names))
                return "i64", [" + ".join(names[i::n]) for i in range(n)], before, ""
            return "i64", [r.choice(("{x}", "{x} + {i}", "(({x}))", "{{ {x} * {i} }}")).format(x=names[i % len(names)], i=i * 1000) for i in range(n)], before, ""
        x = r.choice(NAMES)
        if style == 1:  # each value is made once
            made = r.choice(("{i} * 2", "{x} * 2", "{x}"))  # which tells the order in which they are made, or not
            return "u32", ["{ %s += 1; %s }" % (x, made.format(i=i, x=x)) for i in range(n)], f"let mut {x} = 0; ", f'assert!({x} == {n}, "of {n} values, {{}} were made", {x}); '
        # leaving the function from within a value
        return "i64", [r.choice((f"match Some({i}) {{ Some(y) => y, None => return }}", f"if {x} == {i} {{ {i} }} else if {x} > 0 {{ return }} else {{ {i} + 1 }}", f"{x} + {i}")) for i in range(n)], f"let {x}: i64 = 0; ", ""
    if k <= 2:
        a = r.randrange(1000)
        return "u32", [str(a + i * 3) for i in range(n)], "", ""
    if k == 3:
        return "&'static str", [esc(f"v{i}") for i in range(n)], "", ""
    if k == 4:
        return "(i32, &'static str)", [f'({i - 2}, "{i}")' for i in range(n)], "", ""
    if k == 5:
        return "Vec<u8>", [r.choice((f"vec![{i % 200}, 1]", f"[{i % 200}u8, 1].to_vec()")) for i in range(n)], "", ""
    if k == 6:
        return "i64", [r.choice((f"-{i + 1}", f"{{ let m = {i}; let n = 7; m * 2 + n }}", f"if {i} > 3 {{ {i} }} else {{ 1000 + {i} }}",
                                 f"match {i} {{ x if x > 5 => x, y => 2000 + y }}", f"(|x: i64| x * 2)({i})")) for i in range(n)], "", ""
    if k == 7:
        return "Pair", [f'Pair {{ a: {i}, b: "b".to_string() }}' for i in range(n)], "", ""
    return "Option<usize>", [r.choice((f"Some({i})", f"frozen_map!(u8, 1: 2, 3: 4).get(&3).map(|x: &u32| *x as usize + {i})")) for i in range(n)], "", ""


def general_keys(r, n):
    k = r.randrange(9)
    if k == 0:
        n = min(n, 500)
        cs = r.sample(range(33, 0xd7ff), n)
        f = lambda c: r.choice((f"'\\u{{{c:x}}}'", f"'{chr(c)}'" if chr(c).isalnum() else f"'\\u{{{c:x}}}'"))
        return "char", [f(c) for c in cs], [f"'\\u{{{c:x}}}'" for c in range(33, 60) if c not in cs]
    if k == 1:
        ks = r.sample(["true", "false"], min(n, r.randrange(1, 3)))
        return "bool", ks, [x for x in ("true", "false") if x not in ks]
    if k == 2:
        n = min(n, 400)
        ps = r.sample([(a, b) for a in range(20) for b in range(20)], n)
        return "(u8, i64)", [f"({a}, -{b})" for a, b in ps], [f"({a}, -{b})" for a in range(20) for b in range(20) if (a, b) not in ps][:40]
    if k == 3:
        xs = r.sample(range(100000), n)
        have = set(xs)
        return "[u16; 2]", [f"[{x % 317}, {x // 317}]" for x in xs], [f"[{x % 317}, {x // 317}]" for x in range(40) if x not in have]
    if k == 4:
        ss = strings(r, n)
        return "String", [r.choice((f"String::from({esc(s)})", f"{esc(s)}.to_string()", f"{esc(s)}.into()")) for s in ss], \
            [f"{esc(s)}.to_string()" for s in string_absent(r, ss)]
    if k == 5:
        ss = strings(r, n)
        return r.choice(("&'static str", "Name", "& 'static str")), [spell_str(r, s, True) for s in ss], [esc(s) for s in string_absent(r, ss)]
    if k == 6:
        pool = ["Color::Red", "Color::Green", "Color::Blue"] + [f"Color::Rgb({i}, 0, {i % 7})" for i in range(200)] + \
            [f'Color::Named {{ name: "n{i}" }}' for i in range(40)]
        n = min(n, len(pool) - 3)
        ks = r.sample(pool, n)
        return "Color", ks, [x for x in pool if x not in ks][:30]
    if k == 7:
        ks = r.sample(range(-1, 200), min(n, 200))
        f = lambda x: "None" if x < 0 else f"Some({x})"
        return "Option<u8>", [f(x) for x in ks], [f(x) for x in range(-1, 250) if x not in ks][:40]
    xs = r.sample(range(100000), n)
    have = set(xs)
    return "std::num::NonZeroU64", [f"std::num::NonZeroU64::new({x + 1}).unwrap()" for x in xs], \
        [f"std::num::NonZeroU64::new({x + 1}).unwrap()" for x in range(30) if x not in have]


def gen_case(seed, index, size=None):
    r = random.Random(f"{seed}/{index}")
    if size is None:
        size = r.choice((r.randrange(0, 6), r.randrange(0, 6), r.randrange(3, 20), r.randrange(3, 20), r.randrange(3, 60),
                         r.choice((127, 128, 129, 254, 255, 256, 257, 258, 300)) if r.random() < 0.3 else r.randrange(2, 9)))
        if r.random() < 0.01:
            size = r.randrange(300, 1500)
    kind = r.randrange(10)
    fancy = r.random() < 0.6
    if kind <= 4 or size > 10000:
        ty = r.choice(list(INTS)) if size <= 200 else r.choice([t for t in INTS if INTS[t][1] - INTS[t][0] >= 10 * size] if size > 256 else ["u8", "i8", "u16", "i16", "u32", "u128", "i64"])
        lo, hi = INTS[ty]
        pairs = lookalikes(r, ty, lo, hi, size) if fancy and size <= 300 and r.random() < 0.3 else []
        if pairs:
            ks, keys = [k for k, _ in pairs], [s for _, s in pairs]
        else:
            ks = int_keys(r, lo, hi, size)
            keys = [spell_int(r, k, ty, fancy) for k in ks]
        gone = [str(k) for k in int_absent(r, ks, lo, hi)]
        plain = ty
    elif kind <= 7:
        ss = strings(r, size)
        uniform = r.choice((None, None, 0, 1, 2)) if fancy else None
        keys = [spell_str(r, s, fancy, uniform) for s in ss]
        gone = [esc(s) for s in string_absent(r, ss)]
        ty = "&str"
        plain = "&'static str"
    else:
        ty, keys, gone = general_keys(r, size)
        plain = ty
    vty, vals, before, after = values(r, len(keys), r.random() < 0.25)
    c = {"before": before, "after": after, "ty": ty, "plain": plain, "vty": vty, "entries": [[k, v] for k, v in zip(keys, vals)], "absent": gone,
         "trailing": r.random() < 0.5, "style": r.choice(("round", "square", "curly", "path", "through"))}
    if r.random() < 0.15:
        c["around"] = shadows(r, before + after + invocation(c))
    return c


def invocation(c, lead=""):
    es = c["entries"]
    if c["style"] == "through":
        return f"through!({c['ty']}; {', '.join(f'{k} => {v}' for k, v in es)})"
    sep = ",\n        " if len(es) > 4 else ", "
    body = f"{c['ty']}, " + sep.join(f"{k}: {v}" for k, v in es) + ("," if c["trailing"] and es else "")
    o, e = {"square": "[]", "curly": "{}"}.get(c["style"], "()")
    return ("frozen_collections::" if c["style"] == "path" else "") + f"frozen_map!{o}{body}{e}"


def function(i, c, plain=False):
    tv = f"Vec<({c['plain']}, {c['vty']})>"
    want = ", ".join(f"({k}, {v})" for k, v in c["entries"])
    before, after, around = c.get("before", ""), c.get("after", ""), c.get("around", "")
    out = f"fn case_{i}() {{\n    let want: {tv} = {{ {before}vec![{want}] }};\n    let absent: Vec<{c['plain']}> = vec![{', '.join(c['absent'])}];\n"
    if not plain:  # otherwise, the same keys and values, without the macro
        if before or around:
            out += f"    let m = {{ {around}{before}let made_ = {invocation(c)}; {after}made_ }};\n"
        else:
            out += f"    let m = {invocation(c)};\n"
        out += "    verify!(m, want, absent);\n"
    return out + "}\n"


def program(cases, plain=False):
    out = [PRELUDE]
    for i, c in enumerate(cases):
        out.append(function(i, c, plain))
    out.append("fn main() {\n    std::panic::set_hook(Box::new(|_| ()));\n    let cases: Vec<fn()> = vec![%s];\n" % ", ".join(f"case_{i}" for i in range(len(cases))))
    out.append('''    for (i, c) in cases.iter().enumerate() {
        if let Err(e) = std::panic::catch_unwind(c) {
            let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("FAIL {i} {s:?}");
        }
    }
    println!("END");
}
''')
    return "".join(out)


class Compiler:
    def __init__(self, env, NoAnswer, make=None):
        self.make = make or program
        self.env = env
        self.NoAnswer = NoAnswer
        e = {**env, "RUSTFLAGS": "--cap-lints=allow"}
        forget_stale(os.path.join(CRATE, "target", "debug"))
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--message-format=json", "--target-dir", os.path.join(CRATE, "target")],
                           cwd=CRATE, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise NoAnswer("the crate the programs are compiled against does not build: " + r.stderr[-2000:])
        self.rlib = None
        for line in r.stdout.splitlines():
            d = json.loads(line)
            if d.get("reason") == "compiler-artifact" and d["target"]["name"] == "frozen_collections":
                self.rlib = next(f for f in d["filenames"] if f.endswith(".rlib"))
        self.dir = tempfile.mkdtemp(prefix="c14-")
        self.count = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, cases, plain=False):
        """None if the program does not compile (with the text); otherwise the failures, {index: message}."""
        d = tempfile.mkdtemp(dir=self.dir)
        try:
            src, exe = os.path.join(d, "p.rs"), os.path.join(d, "p")
            with open(src, "w") as f:
                f.write(self.make(cases, plain))
            cmd = ["rustc", "--edition", "2021", src, "-o", exe, "--extern", "frozen_collections=" + self.rlib,
                   "-L", "dependency=" + os.path.join(os.path.dirname(self.rlib), "deps"), "-L", "dependency=" + os.path.dirname(self.rlib),
                   "-C", "debuginfo=0", "-C", "codegen-units=4", "--cap-lints=allow"]
            try:
                r = subprocess.run(cmd, cwd=CRATE, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=400)
            except subprocess.TimeoutExpired:
                raise self.NoAnswer("rustc takes too long")
            if r.returncode != 0:
                if r.returncode < 0 or "error" not in r.stdout:
                    raise self.NoAnswer(f"rustc ended with {r.returncode}: {r.stdout[-500:]}")
                return None, r.stdout
            try:
                r = subprocess.run([exe], env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
            except subprocess.TimeoutExpired:
                return {0: "does not end"} if len(cases) == 1 else self.apart(cases), ""
            fails = {}
            for line in r.stdout.splitlines():
                if line.startswith("FAIL "):
                    _, i, text = line.split(" ", 2)
                    fails[int(i)] = text
            if not r.stdout.endswith("END\n"):
                if len(cases) == 1:
                    return {0: f"the program died ({r.returncode}): {r.stdout[-300:]}"}, ""
                return self.apart(cases), ""
            return fails, ""
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def apart(self, cases):
        out = {}
        for i, c in enumerate(cases):
            f, _ = self.run([c])
            if f:
                out[i] = f[0]
        return out

    def fails(self, c):
        """Why the case fails, or None."""
        f, text = self.run([c])
        if f is None:
            p, ptext = self.run([c], plain=True)
            if p is None:
                raise self.NoAnswer("a generated case is not valid Rust: " + ptext[:1500] + function(0, c)[:800])
            first = [ln for ln in text.splitlines() if ln.strip()]
            return "does not compile: " + " ".join(first)[:600]
        return f.get(0)


def fewer(c, entries):
    n, k = len(c["entries"]), len(entries)
    return {**c, "entries": entries, "after": c.get("after", "").replace(f"== {n},", f"== {k},").replace(f"of {n} values", f"of {k} values")}


def shrink(cc, c, why, pool):
    def attempt(cands):
        """The first of the candidates that fails."""
        for cand, w in zip(cands, pool.map(cc.fails, cands)):
            if w:
                return cand, w
        return None

    budget = 40
    step = max(1, len(c["entries"]) // 2)
    while budget > 0:
        es = c["entries"]
        cands = [fewer(c, es[:i] + es[i + step:]) for i in range(0, len(es), step)]
        # what is left out may be probed no more, so that probes stay absent keys
        budget -= 1
        hit = attempt(cands[:32]) if es else None
        if hit:
            c, why = hit
            step = max(1, min(step, len(c["entries"]) // 2))
        elif step == 1:
            break
        else:
            step = max(1, step // 2)
    parts = [x for x in SHADOWS.values() if x in c.get("around", "")]
    if parts:
        hit = attempt([{**c, "around": x} for x in ["", *parts]])
        if hit:
            c, why = hit
    for change in ({"style": "round"}, {"trailing": False}, {"absent": []}):
        if all(c[k] == v for k, v in change.items()):
            continue
        hit = attempt([{**c, **change}])
        if hit:
            c, why = hit
    if len(c["absent"]) > 1:
        hit = attempt([{**c, "absent": [a]} for a in c["absent"]])
        if hit:
            c, why = hit
    simple = {**c, "before": "", "after": "", "vty": "u32", "entries": [[k, str(i)] for i, (k, _) in enumerate(c["entries"])]}
    hit = attempt([simple])
    if hit:
        c, why = hit
    return c, why


def describe(c):
    t = c.get("around", "") + c.get("before", "") + invocation(c)
    return t if len(t) < 1500 else t[:1500] + f"... ({len(c['entries'])} entries)"


def nontrivial(c):
    return len(c["entries"]) >= 3 and len(c["absent"]) > 0


def run(pid, tier, seed, env, save_replay, Violation, NoAnswer):
    total = 2400 if tier == "quick" else 60000
    batch = 50
    sizes = [65535 + seed % 3] if tier == "quick" else [65534, 65535, 65536, 65537, 70000]
    cc = Compiler(env, NoAnswer)
    try:
        batches = [[gen_case(seed, f"big{s}", s)] for s in sizes]
        batches += [[gen_case(seed, i) for i in range(b, b + batch)] for b in range(0, total, batch)]
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            first = None
            for cases, (fails, text) in zip(batches, pool.map(cc.run, batches)):
                if fails is None or fails:
                    first = (cases, fails, text)
                    pool.shutdown(wait=False, cancel_futures=True)
                    break
        if first:
            with concurrent.futures.ThreadPoolExecutor(8) as pool:
                cases, fails, text = first
                if fails is None:
                    while len(cases) > 1:
                        parts = [cases[i::8] for i in range(8) if cases[i::8]]
                        res = list(pool.map(cc.run, parts))
                        bad = [p for p, (f, _) in zip(parts, res) if f is None]
                        if not bad:
                            raise NoAnswer("programs compile apart but not together: " + text[:1500])
                        cases = bad[0]
                    c = cases[0]
                else:
                    c = cases[min(fails)]
                why = cc.fails(c)
                if why is None:
                    if fails:
                        why = fails[min(fails)] + " (not reproduced by itself)"
                    else:
                        raise NoAnswer("a program does not compile, but each of its cases does: " + text[:1500])
                else:
                    c, why = shrink(cc, c, why, pool)
            path = save_replay(pid, {"property": pid, "script": "macros", "case": c, "message": why, "source": c.get("around", "") + c.get("before", "") + invocation(c)})
            raise Violation(f"{why}\n  case: {describe(c)}", path)
        every = [c for b in batches for c in b]
        interesting = {hashlib.sha256(function(0, c).encode()).hexdigest() for c in every if nontrivial(c)}
        classes = {}
        for c in every:
            n = len(c["entries"])
            size = next(f"up to {x} entries" for x in (2, 8, 64, 255, 65535, 10**9) if n <= x)
            for k in (f"key type {c['ty']}", size, f"invoked {c['style']}"):
                classes[k] = classes.get(k, 0) + 1
        return {"evaluations": len(every), "distinct": len(interesting),
                "rule": "a compiled frozen_map! invocation with at least three entries, probed with at least one absent key",
                "samples": [describe(every[i])[:400] for i in (len(sizes) + 2, len(sizes) + 5, len(sizes) + 9)], "detail": dict(sorted(classes.items()))}
    finally:
        cc.close()


def replay(d, env):
    class NoAnswer(Exception):
        pass
    cc = Compiler(env, NoAnswer)
    try:
        why = cc.fails(d["case"])
        print(invocation(d["case"]))
        print(why or "held")
        return 1 if why else 0
    finally:
        cc.close()
