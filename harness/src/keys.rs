//! Key types and key families.

use crate::engine::Src;
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// Sizes at which something changes in the code, plus everything small.
pub const SIZES: &[u64] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 253,
    254, 255, 256, 257, 258, 300, 511, 512, 513,
];
pub const BIG_SIZES: &[u64] = &[998, 999, 1000, 1001, 1002, 1023, 1024, 1025, 1500, 2000];

/// One case in this many is huge.
pub const RARE: u64 = 2500;
/// Sizes given as at least this are for collections near or beyond the reach of 16-bit counts.
pub const HUGE: usize = 1 << 16;
/// Sizes just below and above it.
pub const HUGE_A: usize = HUGE + (1 << 12);
/// Sizes at which the lookup table needs 2^17 slots or more.
pub const HUGE_B: usize = 2 * HUGE + (1 << 12);

/// A collection size of at most `max`: mostly small, often at a threshold.
pub fn gen_size(src: &mut Src, max: usize) -> usize {
    if max >= HUGE {
        let low = max - HUGE / 2;
        return src.biased(low as u64, max as u64, &[HUGE as u64 - 1, HUGE as u64, HUGE as u64 + 1, 2 * HUGE as u64]) as usize;
    }
    if cfg!(miri) {
        // a thousand times slower
        let most = if src.chance(1, 12) { 40 } else { 9 };
        return src.urange(0, max.min(most));
    }
    match src.weighted(&[10, 8, 4, 1]) {
        0 => src.urange(0, 12.min(max)),
        1 => src.biased(0, 70.min(max) as u64, SIZES) as usize,
        2 => src.biased(0, 520.min(max) as u64, SIZES) as usize,
        _ => src.biased(0, max as u64, BIG_SIZES) as usize,
    }
}

/// A size above the linear-scan limit of the facades.
pub fn gen_size_min(src: &mut Src, min: usize, max: usize) -> usize {
    gen_size(src, max).max(min)
}

/// `n` distinct integers in `0..=max`, in some order.
pub fn gen_ints(src: &mut Src, n: usize, max: u64) -> Vec<u64> {
    let n = if max == u64::MAX { n } else { n.min(usize::try_from(max + 1).unwrap_or(usize::MAX)) };
    if n == 0 {
        return Vec::new();
    }
    let m = n as u64;
    let span = m - 1;
    let mut out: Vec<u64> = match src.weighted(&[4, 3, 4, 3, 2, 2]) {
        // a contiguous range
        0 => {
            let base = gen_base(src, max - span);
            (0..m).map(|i| base + i).collect()
        }
        // nearly contiguous: one element moved elsewhere
        1 => {
            let base = gen_base(src, max - span);
            let mut v: Vec<u64> = (0..m).map(|i| base + i).collect();
            let at = src.idx(n);
            let to = match src.weighted(&[2, 2, 2, 1]) {
                0 => base.wrapping_sub(1 + src.below(3)),
                1 => base.wrapping_add(m).wrapping_add(src.below(3)),
                2 => max,
                _ => src.any_u64(),
            };
            if to <= max && !v.contains(&to) {
                v[at] = to;
            }
            v
        }
        // an arithmetic progression
        2 => {
            let limit = if span == 0 { max } else { max / span };
            let stride = src.biased(1.min(limit), limit, &[2, 3, 4, 7, 8, 10, 16, 32, 64, 100, 128, 256, 1024, 4096, 65536, m, 2 * m]).max(1);
            let base = gen_base(src, max - stride * span);
            (0..m).map(|i| base + i * stride).collect()
        }
        // scattered over a domain
        3 => {
            let domain = match src.weighted(&[2, 2, 1, 1]) {
                0 => max,
                1 => (2 * m).min(max),
                2 => (16 * m).min(max),
                _ => src.any_u64().clamp(span, max),
            };
            scatter(src, n, domain.max(span))
        }
        // two clusters
        4 => {
            let a = src.range(0, m);
            let base = gen_base(src, max - span);
            let gap = src.biased(0, max - span - base, &[1, 2, 3, 100, 1 << 16, 1 << 31]);
            (0..m).map(|i| if i < a { base + i } else { base + i + gap }).collect()
        }
        // edges of the type, then whatever
        _ => {
            let mut v = vec![0, max, max / 2, max / 2 + 1, 1, max - 1];
            let mut seen = HashSet::new();
            v.retain(|x| seen.insert(*x));
            v.truncate(n);
            let mut rng = src.bulk();
            while v.len() < n {
                let x = rng.upto(max);
                if seen.insert(x) {
                    v.push(x);
                } else if (max as u128) < 2 * n as u128 {
                    for x in 0..=max {
                        if v.len() < n && seen.insert(x) {
                            v.push(x);
                        }
                    }
                }
            }
            v
        }
    };
    src.reorder(&mut out);
    out
}

fn gen_base(src: &mut Src, max: u64) -> u64 {
    src.biased(0, max, &[0, 1, 2, 3, 10, 100, 127, 128, 255, 256, max / 2, max / 2 + 1, max - max.min(1), max, 1 << 31, (1 << 31) - 1])
}

fn scatter(src: &mut Src, n: usize, domain: u64) -> Vec<u64> {
    if n <= 24 {
        let mut seen = HashSet::new();
        let mut v = Vec::new();
        for _ in 0..n {
            let mut x = src.range(0, domain);
            while !seen.insert(x) {
                x = if x == domain { 0 } else { x + 1 };
            }
            v.push(x);
        }
        return v;
    }
    let mut rng = src.bulk();
    let mut seen = HashSet::new();
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let mut x = rng.upto(domain);
        while !seen.insert(x) {
            x = if x == domain { 0 } else { x + 1 };
        }
        v.push(x);
    }
    v
}

/// Integers that may be near the given ones, in `0..=max`.
pub fn int_probes(src: &mut Src, keys: &[u64], max: u64) -> Vec<u64> {
    let mut p = vec![0, 1, max, max - 1, max / 2, max / 2 + 1];
    let step = (keys.len() / if cfg!(miri) { 1 } else { 40 }).max(1);
    for k in keys.iter().step_by(step).chain(keys.last()) {
        for x in [k.wrapping_add(1), k.wrapping_sub(1), k ^ 0x80, k ^ 0x8000_0000, k.wrapping_mul(2), k ^ (1 << 8)] {
            if x <= max {
                p.push(x);
            }
        }
    }
    if let (Some(lo), Some(hi)) = (keys.iter().min(), keys.iter().max()) {
        for d in 1..4u64 {
            for x in [hi.wrapping_add(d), lo.wrapping_sub(d)] {
                if x <= max {
                    p.push(x);
                }
            }
        }
        // congruent to stored keys modulo likely table sizes
        let n = keys.len() as u64;
        for m in [n, 2 * n, n + 1, 256] {
            for x in [lo.wrapping_add(m), hi.wrapping_sub(m), hi.wrapping_add(m)] {
                if x <= max {
                    p.push(x);
                }
            }
        }
    }
    for _ in 0..3 {
        p.push(src.any_u64().min(max));
    }
    p
}

// ---------------------------------------------------------------------------------------------- strings

const ALPHA: &[char] = &['a', 'b', 'c', 'd', 'A', 'B', '0', '1', '9', '-', ' ', '_', 'z', 'é', 'ß', '字', '\u{0}', '\u{7f}', '🦀', '\u{10ffff}'];

fn code(mut i: usize, width: usize, base: usize, alphabet: &[char]) -> String {
    let mut s: Vec<char> = Vec::with_capacity(width);
    for _ in 0..width {
        s.push(alphabet[i % base]);
        i /= base;
    }
    s.reverse();
    s.into_iter().collect()
}

fn width_for(n: usize, base: usize) -> usize {
    let mut w = 1;
    let mut cap = base;
    while cap < n {
        cap *= base;
        w += 1;
    }
    w
}

fn filler(rng: &mut crate::engine::Rng, len: usize, alphabet: &[char]) -> String {
    (0..len).map(|_| alphabet[rng.upto(alphabet.len() as u64 - 1) as usize]).collect()
}

const ASCII: &[char] = &['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', '0', '1', '2', '3', '4', '5', '6', '7'];

/// `n` distinct strings, from a family chosen to steer the layout. The family's name comes with them.
pub fn gen_strings(src: &mut Src, n: usize) -> (Vec<String>, &'static str) {
    let (raw, fam) = gen_raw_strings(src, n);
    let mut seen = HashSet::new();
    let mut out: Vec<String> = Vec::with_capacity(raw.len());
    for (i, mut s) in raw.into_iter().enumerate() {
        let mut j = i;
        while seen.contains(&s) {
            s.push(ASCII[j % ASCII.len()]);
            j = j / 2 + 1;
        }
        seen.insert(s.clone());
        out.push(s);
    }
    src.reorder(&mut out);
    (out, fam)
}

fn gen_raw_strings(src: &mut Src, n: usize) -> (Vec<String>, &'static str) {
    // this many lengths would not fit in memory
    let lengths_fit = n <= 5000;
    if n <= 6 && !cfg!(miri) && src.chance(1, 12) {
        return giant_strings(src, n);
    }
    match src.weighted(&[3, 4, 4, 3, 2, 3, 2]).max(usize::from(!lengths_fit)) {
        // lengths distinct, or nearly so
        0 => {
            let per = src.urange(1, 3);
            let base = src.urange(0, 6);
            let mut rng = src.bulk();
            let al: &[char] = if src.chance(1, 4) { ALPHA } else { &ASCII[..4] };
            let v = (0..n)
                .map(|i| {
                    let mut s = filler(&mut rng, base + i / per, al);
                    if i % per > 0 {
                        s.insert(0, ASCII[4 + i % per]);
                        s.pop();
                        if s.is_empty() {
                            s.push('q');
                        }
                    }
                    s
                })
                .collect();
            (v, "lengths")
        }
        // distinct characters at a fixed offset from the start, tails of varying length
        1 => {
            let base = src.urange(2, 24);
            let w = width_for(n.max(1), base);
            let pre = src.urange(0, 5);
            let vary = src.urange(0, 6);
            let pad = src.urange(0, 18);
            let mut rng = src.bulk();
            let prefix = filler(&mut rng, pre, ASCII);
            let v = (0..n)
                .map(|i| {
                    let tail = if vary == 0 { pad } else { pad + rng.upto(vary as u64) as usize };
                    let t = if src_tail_same(pad) { "x".repeat(tail) } else { filler(&mut rng, tail, &ASCII[..2]) };
                    format!("{prefix}{}{t}", code(i, w, base, ASCII))
                })
                .collect();
            (v, "left")
        }
        // heads of varying length, distinct characters at a fixed offset from the end
        2 => {
            let base = src.urange(2, 24);
            let w = width_for(n.max(1), base);
            let suf = src.urange(0, 4);
            let vary = src.urange(1, 6);
            let head = src.urange(0, 18);
            let uniform_head = src.flag();
            let mut rng = src.bulk();
            let suffix = filler(&mut rng, suf, ASCII);
            let v = (0..n)
                .map(|i| {
                    let h = head + rng.upto(vary as u64) as usize;
                    let t = if uniform_head { "x".repeat(h) } else { filler(&mut rng, h, &ASCII[..2]) };
                    format!("{t}{}{suffix}", code(i, w, base, ASCII))
                })
                .collect();
            (v, "right")
        }
        // random words over a small alphabet, possibly empty
        3 => {
            let al = src.urange(2, ALPHA.len());
            let hi = src.urange(1, 8);
            if n <= 24 {
                let v = (0..n)
                    .map(|_| src.vec(0, hi, |s| ALPHA[s.idx(al)]).into_iter().collect::<String>())
                    .collect();
                (v, "words")
            } else {
                let mut rng = src.bulk();
                let v = (0..n)
                    .map(|_| {
                        let l = rng.upto(hi as u64) as usize;
                        filler(&mut rng, l, &ALPHA[..al])
                    })
                    .collect();
                (v, "words")
            }
        }
        // long, alike in the first and last 16 bytes and more
        4 => {
            let w = width_for(n.max(1), 4);
            let pre = src.urange(14, 22);
            let post = src.urange(14, 22);
            let vary = src.urange(0, 3);
            let mut rng = src.bulk();
            let v = (0..n)
                .map(|i| {
                    let x = rng.upto(vary as u64) as usize;
                    format!("{}{}{}", "p".repeat(pre), code(i, w, 4, ASCII), "s".repeat(post + x))
                })
                .collect();
            (v, "deep")
        }
        // one word with single changes: the classic near misses
        5 => {
            let len = src.urange(1, 20);
            let mut rng = src.bulk();
            let word: Vec<char> = filler(&mut rng, len, &ASCII[..3]).chars().collect();
            let v = (0..n)
                .map(|i| {
                    let mut w = word.clone();
                    let at = i % len;
                    w[at] = ASCII[(i / len + 1) % ASCII.len()];
                    if i >= len * ASCII.len() {
                        w.push(ASCII[i % ASCII.len()]);
                    }
                    if i % 7 == 3 {
                        w.push('y');
                    }
                    w.into_iter().collect()
                })
                .collect();
            (v, "nearmiss")
        }
        // numbers with a prefix
        _ => {
            let base = src.biased(0, 1 << 40, &[0, 1, 9, 10, 95, 99, 100, 990, 999, 1000, 10000]);
            let stride = src.range(1, 13);
            let prefix = ["", "n", "item-", "0x", "a-rather-long-common-prefix/"][src.idx(5)];
            let padded = src.flag();
            let v = (0..n as u64)
                .map(|i| {
                    let x = base + i * stride;
                    if padded {
                        format!("{prefix}{x:08}")
                    } else {
                        format!("{prefix}{x}")
                    }
                })
                .collect();
            (v, "numbers")
        }
    }
}

/// Few strings, with lengths around those that do not fit a smaller integer, and lengths alike in their low bits.
fn giant_strings(src: &mut Src, n: usize) -> (Vec<String>, &'static str) {
    let unit = src.pick(&[256usize, 256, 4096, 65_536, 65_536]).to_owned();
    let low = src.urange(0, 5);
    let mut rng = src.bulk();
    let v = (0..n)
        .map(|_| {
            let len = match src.below(4) {
                0 => low,
                1 => unit * src.urange(1, 2) + low,
                2 => unit + src.urange(0, 3) - 2,
                _ => src.urange(0, 24),
            };
            match src.below(3) {
                0 => "x".repeat(len),
                1 => format!("{}{}", filler(&mut rng, len.min(4), &ASCII[..8]), "y".repeat(len - len.min(4))),
                _ => format!("{}{}", "y".repeat(len - len.min(4)), filler(&mut rng, len.min(4), &ASCII[..8])),
            }
        })
        .collect();
    (v, "giant")
}

fn src_tail_same(pad: usize) -> bool {
    pad % 2 == 0
}

/// Strings that resemble the given ones.
pub fn string_probes(src: &mut Src, keys: &[String]) -> Vec<String> {
    let mut p: Vec<String> = vec![String::new(), "a".into(), "x".into(), "zzzz".into(), "\u{0}".into()];
    if keys.is_empty() {
        return p;
    }
    let step = (keys.len() / if cfg!(miri) { 1 } else { 12 }).max(1);
    let off = src.idx(step);
    for k in keys.iter().skip(off).step_by(step) {
        let cs: Vec<char> = k.chars().collect();
        // one character changed, at every (sampled) position: other bytes stay as they are
        let hop = (cs.len() / if cfg!(miri) { 2 } else { 20 }).max(1);
        for at in (0..cs.len()).step_by(hop) {
            let mut c = cs.clone();
            c[at] = if c[at] == '#' { '%' } else { '#' };
            p.push(c.into_iter().collect());
        }
        if !cs.is_empty() {
            p.push(cs[1..].iter().collect());
            p.push(cs[..cs.len() - 1].iter().collect());
            p.push(cs[..cs.len() / 2].iter().collect());
            p.push(cs[cs.len() / 2..].iter().collect());
            p.push(cs.iter().rev().collect());
        }
        p.push(format!("{k}x"));
        p.push(format!("x{k}"));
        p.push(format!("{k}{k}"));
        p.push("#".repeat(k.len()));
    }
    let longest = keys.iter().map(String::len).max().unwrap_or(0);
    p.push("x".repeat(longest + 1));
    for _ in 0..2 {
        let a = src.pick(keys).clone();
        let b = src.pick(keys).clone();
        p.push(format!("{a}{b}"));
        let cut = src.urange(0, a.len());
        if a.is_char_boundary(cut) && cut <= b.len() && b.is_char_boundary(cut) {
            p.push(format!("{}{}", &a[..cut], &b[cut..]));
        }
    }
    p
}

// ---------------------------------------------------------------------------------------------- other key types

/// A key with a part that takes no part in equality: which of two equal keys is stored can be told apart.
#[derive(Clone, Debug)]
pub struct Tagged {
    pub id: u64,
    pub tag: u32,
}

impl PartialEq for Tagged {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}

impl Eq for Tagged {}

impl Hash for Tagged {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.id.hash(h);
    }
}

impl PartialOrd for Tagged {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}

impl Ord for Tagged {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.id.cmp(&o.id)
    }
}

/// What a property needs of a key type: `n` distinct keys, and probes near them.
pub trait Key: Clone + Eq + Hash + Ord + Debug + 'static {
    const NAME: &'static str;
    fn gen(src: &mut Src, n: usize) -> (Vec<Self>, &'static str);
    fn probes(src: &mut Src, keys: &[Self]) -> Vec<Self>;

    /// An equal key which is not the same object, distinguishable from the stored one if the type allows it.
    fn alias(&self) -> Self {
        self.clone()
    }

    /// Whether two equal keys are the same in every way that can be observed.
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

macro_rules! int_key {
    ($($t:ty, $u:ty);*) => {$(
        impl Key for $t {
            const NAME: &'static str = stringify!($t);
            #[allow(clippy::cast_lossless)]
            fn gen(src: &mut Src, n: usize) -> (Vec<Self>, &'static str) {
                let flip = if <$t>::MIN == 0 { 0 } else if src.flag() { <$u>::MAX / 2 + 1 } else { 0 };
                (gen_ints(src, n, <$u>::MAX as u64).into_iter().map(|x| (x as $u ^ flip) as $t).collect(), "ints")
            }
            #[allow(clippy::cast_lossless)]
            fn probes(src: &mut Src, keys: &[Self]) -> Vec<Self> {
                let k: Vec<u64> = keys.iter().map(|x| *x as $u as u64).collect();
                int_probes(src, &k, <$u>::MAX as u64).into_iter().map(|x| x as $u as $t).collect()
            }
        }
    )*};
}
int_key!(u8, u8; u16, u16; u32, u32; u64, u64; usize, usize; i8, u8; i16, u16; i32, u32; i64, u64; isize, usize);

/// 128-bit keys: the 64-bit families spread over the high half, the low half, or straddling the middle.
fn wide(src: &mut Src, n: usize) -> Vec<u128> {
    let v = gen_ints(src, n, u64::MAX);
    let mode = src.below(4);
    let base = u128::from(src.any_u64()) << 64 | u128::from(src.any_u64());
    v.into_iter()
        .map(|x| match mode {
            0 => u128::from(x),
            1 => u128::from(x) << 64,
            2 => base.wrapping_add(u128::from(x)),
            _ => u128::from(x).rotate_right(7),
        })
        .collect()
}

fn wide_probes(src: &mut Src, keys: &[u128]) -> Vec<u128> {
    let mut p = vec![0, 1, u128::MAX, u128::MAX - 1, u128::MAX / 2, u128::MAX / 2 + 1, 1 << 64, u128::from(u64::MAX)];
    let step = (keys.len() / 40).max(1);
    for k in keys.iter().step_by(step) {
        p.extend([k.wrapping_add(1), k.wrapping_sub(1), k ^ (1 << 64), k ^ (1 << 127), k.wrapping_add(1 << 64), u128::from(*k as u64)]);
    }
    p.push(u128::from(src.any_u64()));
    p
}

impl Key for u128 {
    const NAME: &'static str = "u128";
    fn gen(src: &mut Src, n: usize) -> (Vec<Self>, &'static str) {
        (wide(src, n), "ints")
    }
    fn probes(src: &mut Src, keys: &[Self]) -> Vec<Self> {
        wide_probes(src, keys)
    }
}

impl Key for i128 {
    const NAME: &'static str = "i128";
    fn gen(src: &mut Src, n: usize) -> (Vec<Self>, &'static str) {
        let flip = if src.flag() { 1u128 << 127 } else { 0 };
        (wide(src, n).into_iter().map(|x| (x ^ flip) as i128).collect(), "ints")
    }
    fn probes(src: &mut Src, keys: &[Self]) -> Vec<Self> {
        let k: Vec<u128> = keys.iter().map(|x| *x as u128).collect();
        wide_probes(src, &k).into_iter().map(|x| x as i128).collect()
    }
}

impl Key for String {
    const NAME: &'static str = "String";
    fn gen(src: &mut Src, n: usize) -> (Vec<Self>, &'static str) {
        gen_strings(src, n)
    }
    fn probes(src: &mut Src, keys: &[Self]) -> Vec<Self> {
        string_probes(src, keys)
    }
}

macro_rules! via_string {
    ($t:ty, $name:expr, $to:expr, $from:expr) => {
        impl Key for $t {
            const NAME: &'static str = $name;
            fn gen(src: &mut Src, n: usize) -> (Vec<Self>, &'static str) {
                let (v, f) = gen_strings(src, n);
                (v.into_iter().map($to).collect(), f)
            }
            fn probes(src: &mut Src, keys: &[Self]) -> Vec<Self> {
                let k: Vec<String> = keys.iter().map($from).collect();
                string_probes(src, &k).into_iter().map($to).collect()
            }
        }
    };
}
via_string!(Box<str>, "Box<str>", |s| s.into_boxed_str(), |s| s.to_string());
via_string!(std::rc::Rc<String>, "Rc<String>", std::rc::Rc::new, |s| (**s).clone());
via_string!(Box<String>, "Box<String>", Box::new, |s| (**s).clone());
via_string!(std::sync::Arc<String>, "Arc<String>", std::sync::Arc::new, |s| (**s).clone());
via_string!(Vec<u8>, "Vec<u8>", String::into_bytes, |s| String::from_utf8_lossy(s).into_owned());
via_string!(std::ffi::OsString, "OsString", std::ffi::OsString::from, |s| s.to_string_lossy().into_owned());

impl Key for Tagged {
    const NAME: &'static str = "Tagged";
    fn gen(src: &mut Src, n: usize) -> (Vec<Self>, &'static str) {
        (gen_ints(src, n, u64::MAX).into_iter().map(|id| Self { id, tag: 1 }).collect(), "ints")
    }
    fn probes(src: &mut Src, keys: &[Self]) -> Vec<Self> {
        let k: Vec<u64> = keys.iter().map(|x| x.id).collect();
        int_probes(src, &k, u64::MAX).into_iter().map(|id| Self { id, tag: 2 }).collect()
    }
    fn alias(&self) -> Self {
        Self { id: self.id, tag: 2 }
    }
    fn same(&self, o: &Self) -> bool {
        self.id == o.id && self.tag == o.tag
    }
}

impl Key for (u32, String) {
    const NAME: &'static str = "(u32,String)";
    fn gen(src: &mut Src, n: usize) -> (Vec<Self>, &'static str) {
        let (v, f) = gen_strings(src, n);
        let m = src.range(1, 5) as u32;
        (v.into_iter().enumerate().map(|(i, s)| (i as u32 % m, s)).collect(), f)
    }
    fn probes(src: &mut Src, keys: &[Self]) -> Vec<Self> {
        let k: Vec<String> = keys.iter().map(|x| x.1.clone()).collect();
        let mut p: Vec<Self> = string_probes(src, &k).into_iter().map(|s| (0, s)).collect();
        p.extend(keys.iter().take(20).map(|k| (k.0 + 1, k.1.clone())));
        p
    }
}

impl Key for char {
    const NAME: &'static str = "char";
    fn gen(src: &mut Src, n: usize) -> (Vec<Self>, &'static str) {
        (gen_ints(src, n, 0xd7ff).into_iter().map(|x| char::from_u32(x as u32).unwrap()).collect(), "ints")
    }
    fn probes(src: &mut Src, keys: &[Self]) -> Vec<Self> {
        let k: Vec<u64> = keys.iter().map(|x| u64::from(u32::from(*x))).collect();
        int_probes(src, &k, 0xd7ff).into_iter().filter_map(|x| char::from_u32(x as u32)).collect()
    }
}

impl Key for bool {
    const NAME: &'static str = "bool";
    fn gen(src: &mut Src, n: usize) -> (Vec<Self>, &'static str) {
        let mut v = vec![false, true];
        src.reorder(&mut v);
        v.truncate(n);
        (v, "bools")
    }
    fn probes(_: &mut Src, _: &[Self]) -> Vec<Self> {
        vec![false, true]
    }
}
