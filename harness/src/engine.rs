//! A property-testing engine built on a choice tape.
//!
//! A generator draws bounded integers from a [`Src`]; every draw is recorded on a tape, and a case is a pure
//! function of its tape. Random cases are determined by (seed, property, shard, index). Shrinking edits the tape.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, ExitCode, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}

// ---------------------------------------------------------------------------------------------- randomness

#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93).rotate_left(23);
    splitmix(&mut s)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Self([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }

    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }

    /// Uniform in `0..=max`.
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX {
            self.next()
        } else {
            ((u128::from(self.next()) * (u128::from(max) + 1)) >> 64) as u64
        }
    }
}

// The standard library seeds RandomState from getrandom, once per thread. Defining the symbol makes the seeds a
// function of the case: every case runs on a thread of its own. (Miri has seeds of its own, and does not allow this.)
static ENTROPY: AtomicU64 = AtomicU64::new(1);

#[cfg(not(miri))]
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = ENTROPY.load(Ordering::Relaxed);
    for i in 0..len {
        // SAFETY: the caller supplies a buffer of `len` bytes
        unsafe { *buf.add(i) = splitmix(&mut s) as u8 };
    }
    len as isize
}

// ---------------------------------------------------------------------------------------------- the source

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
    /// The tape first, and random draws after it.
    Extend(Vec<u64>, Rng),
}

/// Where a vector's length was drawn, and where each of its elements starts and ends on the tape.
#[derive(Clone)]
struct VecRec {
    len_pos: usize,
    spans: Vec<(usize, usize)>,
}

pub struct Src {
    mode: Mode,
    pos: usize,
    rec: Vec<u64>,
    vecs: Vec<VecRec>,
    mirror: Option<std::fs::File>,
}

static DICT: Mutex<Vec<u64>> = Mutex::new(Vec::new());

/// Integers found in the source of the code under test, used as hints when choosing sizes and values.
fn dict() -> Vec<u64> {
    DICT.lock().unwrap().clone()
}

impl Src {
    fn random(rng: Rng) -> Self {
        Self { mode: Mode::Random(rng), pos: 0, rec: Vec::new(), vecs: Vec::new(), mirror: None }
    }

    fn replay(tape: &[u64]) -> Self {
        Self { mode: Mode::Replay(tape.to_vec()), pos: 0, rec: Vec::new(), vecs: Vec::new(), mirror: None }
    }

    fn extend(tape: Vec<u64>, rng: Rng) -> Self {
        Self { mode: Mode::Extend(tape, rng), pos: 0, rec: Vec::new(), vecs: Vec::new(), mirror: None }
    }

    /// The one primitive: a value in `0..=max`. `dist` chooses it in random mode, replay takes it from the tape.
    fn draw(&mut self, max: u64, dist: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(rng) => dist(rng).min(max),
            Mode::Replay(t) => t.get(self.pos).copied().unwrap_or(0).min(max),
            Mode::Extend(t, rng) => match t.get(self.pos) {
                Some(v) if *v <= max && *v != guided::ANEW => *v,
                _ => dist(rng).min(max),
            },
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.mirror {
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }

    /// Uniform in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        let max = n.max(1) - 1;
        self.draw(max, |r| r.upto(max))
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        let max = hi - lo;
        lo + self.draw(max, |r| r.upto(max))
    }

    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }

    /// True with probability `num / den`; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(1, |r| u64::from(r.upto(den - 1) < num)) == 1
    }

    pub fn flag(&mut self) -> bool {
        self.chance(1, 2)
    }

    /// An index, chosen with the given weights; shrinks towards the first.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| u64::from(*x)).sum();
        self.draw(w.len() as u64 - 1, |r| {
            let mut x = r.upto(total - 1);
            for (i, w) in w.iter().enumerate() {
                if x < u64::from(*w) {
                    return i as u64;
                }
                x -= u64::from(*w);
            }
            0
        }) as usize
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }

    /// A value in `lo..=hi`, biased in random mode to the candidates and to numbers that occur in the code.
    pub fn biased(&mut self, lo: u64, hi: u64, candidates: &[u64]) -> u64 {
        let max = hi - lo;
        lo + self.draw(max, |r| {
            let mut pool: Vec<u64> = Vec::new();
            match r.upto(5) {
                0..=2 => pool.extend(candidates.iter().filter(|x| (lo..=hi).contains(x))),
                3 => {
                    for d in dict() {
                        for x in [d.wrapping_sub(1), d, d.wrapping_add(1)] {
                            if (lo..=hi).contains(&x) {
                                pool.push(x);
                            }
                        }
                    }
                }
                _ => {}
            }
            if pool.is_empty() {
                r.upto(max)
            } else {
                pool[r.upto(pool.len() as u64 - 1) as usize] - lo
            }
        })
    }

    /// Any 64-bit value, biased to small numbers and the edges of the integer types.
    pub fn any_u64(&mut self) -> u64 {
        self.draw(u64::MAX, |r| match r.upto(5) {
            0 => r.upto(16),
            1 => r.upto(1 << 16),
            2 => {
                let e = [
                    0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff,
                    0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX, u64::MAX - 1,
                ];
                e[r.upto(e.len() as u64 - 1) as usize].wrapping_add(r.upto(4)).wrapping_sub(2)
            }
            3 => {
                let d = dict();
                if d.is_empty() {
                    r.next()
                } else {
                    d[r.upto(d.len() as u64 - 1) as usize].wrapping_add(r.upto(2)).wrapping_sub(1)
                }
            }
            _ => r.next(),
        })
    }

    /// A vector of `lo..=hi` elements, which the shrinker knows how to shorten.
    pub fn vec<T>(&mut self, lo: usize, hi: usize, f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let len_pos = self.pos;
        let n = self.urange(lo, hi);
        self.elements(len_pos, n, f)
    }

    /// Like [`Src::vec`], with a length which was the last draw.
    pub fn vec_of_last<T>(&mut self, n: usize, f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let len_pos = self.pos - 1;
        self.elements(len_pos, n, f)
    }

    fn elements<T>(&mut self, len_pos: usize, n: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let mut out = Vec::with_capacity(n.min(1 << 16));
        let mut spans = Vec::new();
        for _ in 0..n {
            let start = self.pos;
            out.push(f(self));
            spans.push((start, self.pos));
        }
        self.vecs.push(VecRec { len_pos, spans });
        out
    }

    /// A permutation of the vector. Zero draws leave it as it is.
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.idx(i + 1);
            xs.swap(i, j);
        }
    }

    /// A permutation drawn as one choice, for large vectors: 0 keeps the order, 1 reverses it, others scramble it.
    pub fn reorder<T>(&mut self, xs: &mut [T]) {
        let k = self.draw(1 << 32, |r| match r.upto(3) {
            0 => 0,
            1 => 1,
            _ => r.upto(1 << 32),
        });
        match k {
            0 => {}
            1 => xs.reverse(),
            _ => {
                let mut r = Rng::new(k);
                for i in (1..xs.len()).rev() {
                    let j = r.upto(i as u64) as usize;
                    xs.swap(i, j);
                }
            }
        }
    }

    /// A generator of its own, seeded by one recorded choice: for bulk data whose details need not shrink.
    pub fn bulk(&mut self) -> Rng {
        Rng::new(self.draw(1 << 32, |r| r.upto(1 << 32)))
    }
}

// ---------------------------------------------------------------------------------------------- the case context

#[derive(Default)]
pub struct Cx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    desc: Option<String>,
    want_desc: bool,
    desc_file: Option<String>,
    pub thorough: bool,
}

impl Cx {
    pub fn label(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_insert(0) += 1;
    }

    pub fn count(&mut self, l: &str, n: u64) {
        *self.labels.entry(l.to_string()).or_insert(0) += n;
    }

    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }

    /// Renders the case for the replay file and the evidence; called before the code under test runs.
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let mut s = f();
            if s.len() > 4000 {
                let mut cut = 3900;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("... (cut)");
            }
            if let Some(p) = &self.desc_file {
                let _ = std::fs::write(p, &s);
            }
            self.desc = Some(s);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub run: fn(&mut Src, &mut Cx) -> R,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs a closure that is allowed to panic.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Lets go of the memory that the last panic's message takes up.
pub fn forget_panic() {
    LAST_PANIC.with(|p| *p.borrow_mut() = String::new());
}

struct Outcome {
    result: R,
    rec: Vec<u64>,
    vecs: Vec<VecRec>,
    cx: Cx,
}

fn run_case(p: &Prop, mut src: Src, mut cx: Cx) -> Outcome {
    let result = std::thread::scope(|s| {
        let entropy = src.draw(u64::MAX, Rng::next);
        ENTROPY.store(mix(entropy, 77), Ordering::Relaxed);
        let (src, cx) = (&mut src, &mut cx);
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || match catch(|| (p.run)(src, cx)) {
                Ok(r) => r,
                Err(m) => Err(format!("unexpected panic: {m}")),
            })
            .expect("spawn")
            .join()
            .unwrap_or_else(|_| Err("the case's thread panicked".into()))
    });
    Outcome { result, rec: src.rec, vecs: src.vecs, cx }
}

// ---------------------------------------------------------------------------------------------- shrinking

struct Failing {
    tape: Vec<u64>,
    vecs: Vec<VecRec>,
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

/// Shrinks a failing tape. `fails` runs a candidate and returns what it recorded if it still fails.
fn shrink(start: Failing, budget: Duration, max_runs: u32, mut fails: impl FnMut(&[u64]) -> Option<Failing>) -> (Failing, u32) {
    let deadline = Instant::now() + budget;
    let mut best = start;
    let mut runs = 0;
    let mut tried: HashSet<u64> = HashSet::new();

    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            let mut ok = false;
            if runs < max_runs && Instant::now() < deadline && tried.insert(hash_tape(&cand)) {
                runs += 1;
                if let Some(f) = fails(&cand) {
                    if simpler(&f.tape, &best.tape) {
                        best = f;
                        ok = true;
                    }
                }
            }
            ok
        }};
    }

    loop {
        let before = best.tape.clone();

        // shorten vectors, largest chunks first
        let mut vi = 0;
        while vi < best.vecs.len() {
            let mut chunk = best.vecs[vi].spans.len();
            while chunk >= 1 {
                let mut at = 0;
                loop {
                    let Some(v) = best.vecs.get(vi) else { break };
                    let n = v.spans.len();
                    if at + chunk > n {
                        break;
                    }
                    let (a, b) = (v.spans[at].0, v.spans[at + chunk - 1].1);
                    let mut t = best.tape.clone();
                    if b > t.len() || v.len_pos >= t.len() {
                        break;
                    }
                    t[v.len_pos] = t[v.len_pos].saturating_sub(chunk as u64);
                    t.drain(a..b);
                    if !attempt!(t) {
                        at += chunk;
                    }
                }
                chunk /= 2;
            }
            vi += 1;
        }

        // truncate, delete blocks
        let mut k = best.tape.len() / 2;
        while k >= 1 {
            let n = best.tape.len();
            if n > k && attempt!(best.tape[..n - k].to_vec()) {
                continue;
            }
            k /= 2;
        }
        for block in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + block <= best.tape.len() && best.tape.len() < 2000 {
                let mut t = best.tape.clone();
                t.drain(i..i + block);
                if !attempt!(t) {
                    i += 1;
                }
            }
        }

        // lower values
        let mut i = 0;
        while i < best.tape.len() {
            let v = best.tape[i];
            if v > 0 {
                let mut t = best.tape.clone();
                t[i] = 0;
                if !attempt!(t) {
                    let (mut lo, mut hi) = (0u64, v);
                    while hi - lo > 1 {
                        let mid = lo + (hi - lo) / 2;
                        let mut t = best.tape.clone();
                        if i >= t.len() {
                            break;
                        }
                        t[i] = mid;
                        if attempt!(t) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }

        if best.tape == before || runs >= max_runs || Instant::now() >= deadline {
            return (best, runs);
        }
    }
}

fn hash_tape(t: &[u64]) -> u64 {
    let mut h = t.len() as u64;
    for x in t {
        h = mix(h, *x);
    }
    h
}

// ---------------------------------------------------------------------------------------------- JSON

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jtape(t: &[u64]) -> String {
    let v: Vec<String> = t.iter().map(u64::to_string).collect();
    format!("[{}]", v.join(","))
}

fn parse_tape(s: &str) -> Vec<u64> {
    let at = s.find("\"tape\"").expect("no tape in the replay file");
    let open = at + s[at..].find('[').expect("tape");
    let close = open + s[open..].find(']').expect("tape");
    s[open + 1..close].split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

// ---------------------------------------------------------------------------------------------- main

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

static QUIET: AtomicBool = AtomicBool::new(true);

pub fn main(p: Prop) -> ExitCode {
    if let Ok(d) = std::env::var("VH_DICT") {
        *DICT.lock().unwrap() = d.split(',').filter_map(|x| x.parse().ok()).collect();
    }
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "(no message)".into());
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{m}{loc}");
        if !QUIET.load(Ordering::Relaxed) || m.contains("unsafe precondition") || m.contains("cannot unwind") {
            eprintln!("panic: {text}");
        }
        // the thread may be going away
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = text);
    }));

    let thorough = arg("--tier").as_deref() == Some("thorough");

    if let Some(f) = arg("--replay") {
        return replay(&p, &f, thorough);
    }
    if let Some(f) = arg("--shrink-crash") {
        return shrink_crash(&p, &f, thorough);
    }

    let seed: u64 = arg("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let shard: u64 = arg("--shard").and_then(|x| x.parse().ok()).unwrap_or(0);
    let cases: u64 = arg("--cases").and_then(|x| x.parse().ok()).unwrap_or(1000);
    let out = arg("--out").unwrap_or_else(|| "/dev/stdout".into());
    let rng_of = |i: u64| {
        let mut h = mix(seed, 0x5EED);
        for b in p.id.bytes() {
            h = mix(h, u64::from(b));
        }
        Rng::new(mix(mix(h, shard), i))
    };

    // rerun the case which a state file tells of, mirroring its tape
    if let (Some(from), Some(mirror)) = (arg("--from"), arg("--mirror")) {
        let (tape, s) = guided::read(&std::fs::read(from).expect("state"));
        let mut src = Src::extend(tape, Rng::new(s));
        src.mirror = std::fs::File::create(mirror).ok();
        let o = run_case(&p, src, Cx { thorough, ..Cx::default() });
        return match o.result {
            Ok(()) => ExitCode::SUCCESS,
            Err(m) => {
                eprintln!("{m}");
                ExitCode::from(1)
            }
        };
    }

    // rerun one case of a crashed shard, mirroring its tape to a file as it is drawn
    if let (Some(i), Some(mirror)) = (arg("--one").and_then(|x| x.parse().ok()), arg("--mirror")) {
        let mut src = Src::random(rng_of(i));
        src.mirror = std::fs::File::create(mirror).ok();
        let o = run_case(&p, src, Cx { thorough, ..Cx::default() });
        return match o.result {
            Ok(()) => ExitCode::SUCCESS,
            Err(m) => {
                eprintln!("{m}");
                ExitCode::from(1)
            }
        };
    }

    let state = arg("--state").map(|f| std::fs::File::create(f).expect("state file"));
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut nontrivial = 0u64;
    let mut done = 0u64;
    let seconds = arg("--seconds").and_then(|x| x.parse().ok()).map(Duration::from_secs);
    let begun = Instant::now();
    let mut guide = std::env::args().any(|a| a == "--guided").then(|| guided::Guide::new(rng_of(u64::MAX)));
    for i in 0..cases {
        if seconds.is_some_and(|s| begun.elapsed() > s) {
            break;
        }
        if let Some(f) = &state {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(&i.to_le_bytes(), 0);
        }
        let want_desc = samples.len() < 2;
        let src = match &mut guide {
            Some(g) => {
                let (tape, s) = g.next();
                if let Some(f) = &state {
                    guided::write(f, &tape, s);
                }
                Src::extend(tape, Rng::new(s))
            }
            None => Src::random(rng_of(i)),
        };
        if guide.is_some() {
            reach::clear();
        }
        let mut o = run_case(&p, src, Cx { thorough, want_desc, ..Cx::default() });
        done += 1;
        if let Some(g) = &mut guide {
            if g.done(&o.rec) {
                *o.cx.labels.entry("guided: a tape that reached something new".into()).or_insert(0) += 1;
            }
        }
        for (k, v) in o.cx.labels {
            *labels.entry(k).or_insert(0) += v;
        }
        if o.cx.nontrivial {
            nontrivial += 1;
            seen.insert(hash_tape(&o.rec[1..]));
            if let Some(d) = o.cx.desc.filter(|_| want_desc) {
                samples.push(d);
            }
        }
        if let Err(m) = o.result {
            let first = m.clone();
            let (best, runs) = shrink(
                Failing { tape: o.rec, vecs: o.vecs },
                Duration::from_secs(25),
                4000,
                |t| {
                    let o = run_case(&p, Src::replay(t), Cx { thorough, ..Cx::default() });
                    o.result.is_err().then_some(Failing { tape: o.rec, vecs: o.vecs })
                },
            );
            let o = run_case(&p, Src::replay(&best.tape), Cx { thorough, want_desc: true, ..Cx::default() });
            let m = o.result.err().unwrap_or_else(|| format!("(not reproduced) {m}"));
            let j = format!(
                "{{\"property\":{},\"message\":{},\"case\":{},\"first_message\":{},\"shard\":{shard},\"index\":{i},\"shrink_runs\":{runs},\"tape\":{}}}\n",
                jstr(p.id), jstr(&m), jstr(&o.cx.desc.unwrap_or_default()), jstr(&first), jtape(&best.tape)
            );
            std::fs::write(&out, j).expect("write");
            return ExitCode::from(1);
        }
    }

    let mut hs: Vec<u8> = Vec::new();
    for h in &seen {
        hs.extend_from_slice(&h.to_le_bytes());
    }
    if out != "/dev/stdout" {
        std::fs::write(format!("{out}.hashes"), hs).expect("write");
    }
    let l: Vec<String> = labels.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect();
    let s: Vec<String> = samples.iter().map(|x| jstr(x)).collect();
    let j = format!(
        "{{\"evaluations\":{done},\"nontrivial\":{nontrivial},\"distinct\":{},\"rule\":{},\"labels\":{{{}}},\"samples\":[{}]}}\n",
        seen.len(), jstr(p.rule), l.join(","), s.join(",")
    );
    std::fs::write(&out, j).expect("write");
    ExitCode::SUCCESS
}

fn replay(p: &Prop, file: &str, thorough: bool) -> ExitCode {
    let tape = parse_tape(&std::fs::read_to_string(file).expect("replay file"));
    let cx = Cx { thorough, want_desc: true, desc_file: arg("--desc"), ..Cx::default() };
    let mut src = Src::replay(&tape);
    src.mirror = arg("--mirror").and_then(|f| std::fs::File::create(f).ok());
    let o = run_case(p, src, cx);
    println!("case: {}", o.cx.desc.unwrap_or_default());
    match o.result {
        Ok(()) => {
            println!("replay: the property holds on this case");
            ExitCode::SUCCESS
        }
        Err(m) => {
            println!("replay: {m}");
            ExitCode::from(1)
        }
    }
}

/// Shrinks a tape that crashes the process, running each candidate in a child.
fn shrink_crash(p: &Prop, file: &str, thorough: bool) -> ExitCode {
    let words: Vec<String> = match std::env::var("VH_CHILD") {
        Ok(c) => c.lines().map(str::to_owned).collect(),
        Err(_) => vec![std::env::current_exe().expect("exe").to_string_lossy().into_owned()],
    };
    // an interpreter takes longer
    let slow = if words.len() > 1 { 3 } else { 1 };
    let tape = parse_tape(&std::fs::read_to_string(file).expect("replay file"));
    let cand = format!("{file}.cand");
    let mirror = format!("{file}.mirror");
    let desc = format!("{file}.desc");
    let tier = if thorough { "thorough" } else { "quick" };
    let hang = std::env::args().any(|a| a == "--hang");
    let run = |t: &[u64], desc: Option<&str>| -> Option<(Failing, String)> {
        std::fs::write(&cand, format!("{{\"tape\":{}}}", jtape(t))).ok()?;
        let mut c = Command::new(&words[0]);
        c.args(&words[1..]);
        c.args(["--replay", &cand, "--mirror", &mirror, "--tier", tier]).stdout(Stdio::null()).stderr(Stdio::piped());
        if let Some(d) = desc {
            c.args(["--desc", d]);
        }
        let mut child = c.spawn().ok()?;
        let err = child.stderr.take();
        let reader = std::thread::spawn(move || {
            let mut s = Vec::new();
            if let Some(mut e) = err {
                let _ = std::io::Read::read_to_end(&mut e, &mut s);
            }
            String::from_utf8_lossy(&s).into_owned()
        });
        let t0 = Instant::now();
        let status = loop {
            if let Some(s) = child.try_wait().ok()? {
                break s;
            }
            if t0.elapsed() > Duration::from_secs(slow * if hang { 5 } else { 10 }) {
                let _ = child.kill();
                let s = child.wait().ok()?;
                if hang {
                    break s;
                }
                return None;
            }
            std::thread::sleep(Duration::from_millis(1));
        };
        let err = reader.join().unwrap_or_default();
        if status.success() || (hang && std::os::unix::process::ExitStatusExt::signal(&status) != Some(9)) {
            return None;
        }
        let m = std::fs::read(&mirror).ok()?;
        let rec = m.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let err = if hang { "(it does not end)".into() } else { err };
        Some((Failing { tape: rec, vecs: Vec::new() }, format!("the process ended with {status}: {}", err.trim())))
    };
    let Some((start, _)) = run(&tape, None) else {
        println!("not reproduced");
        return ExitCode::SUCCESS;
    };
    let (best, runs) = shrink(start, Duration::from_secs(slow * 40), 1500, |t| run(t, None).map(|x| x.0));
    let _ = std::fs::remove_file(&desc);
    let m = run(&best.tape, Some(&desc)).map(|x| x.1).unwrap_or_default();
    let d = std::fs::read_to_string(&desc).unwrap_or_default();
    let m: String = m.chars().take(3000).collect();
    let j = format!(
        "{{\"property\":{},\"message\":{},\"case\":{},\"shrink_runs\":{runs},\"tape\":{}}}\n",
        jstr(p.id), jstr(&m), jstr(&d), jtape(&best.tape)
    );
    std::fs::write(arg("--out").unwrap_or_else(|| "/dev/stdout".into()), j).expect("write");
    for f in [cand, mirror, desc] {
        let _ = std::fs::remove_file(f);
    }
    ExitCode::from(1)
}

pub fn thorough_factor() -> u64 {
    std::env::var("VH_FACTOR").ok().and_then(|x| x.parse().ok()).unwrap_or(1)
}

pub fn timeit<T>(label: &str, f: impl FnOnce() -> T) -> T {
    let t = Instant::now();
    let r = f();
    if std::env::var_os("VH_TIME").is_some() {
        let _ = writeln!(std::io::stderr(), "{label}: {:?}", t.elapsed());
    }
    r
}

// ---------------------------------------------------------------------------------------------- coverage guidance

/// Chooses tapes by what earlier ones reached: those that reached something new are kept, and changed a little.
mod guided {
    use super::{dict, Rng};

    /// What is drawn anew, like anything which does not fit, so that values are as usual as ever.
    pub const ANEW: u64 = u64::MAX;

    pub struct Guide {
        rng: Rng,
        kept: Vec<Vec<u64>>,
    }

    impl Guide {
        pub fn new(rng: Rng) -> Self {
            Self { rng, kept: Vec::new() }
        }

        /// A tape to start with, and a seed for what it does not say.
        pub fn next(&mut self) -> (Vec<u64>, u64) {
            let s = self.rng.next();
            if self.kept.is_empty() || self.rng.upto(9) < 2 {
                return (Vec::new(), s);
            }
            let mut t = self.choose().clone();
            for _ in 0..=self.rng.upto(3) {
                self.change(&mut t);
            }
            (t, s)
        }

        fn choose(&mut self) -> &Vec<u64> {
            let n = self.kept.len() as u64;
            // half of the time one of the latest; the shortest of some, as those take the least time
            let latest = self.rng.upto(1) == 0;
            let some = (0..4).map(|_| if latest { n - 1 - self.rng.upto(n.min(32) - 1) } else { self.rng.upto(n - 1) } as usize);
            some.min_by_key(|i| self.kept[*i].len()).map(|i| &self.kept[i]).expect("some")
        }

        fn change(&mut self, t: &mut Vec<u64>) {
            let n = t.len() as u64;
            if n == 0 {
                return;
            }
            let at = self.rng.upto(n - 1) as usize;
            let upto = at + (1 + self.rng.upto(15) as usize).min(t.len() - at);
            match self.rng.upto(9) {
                0 | 1 => {
                    t[at] = match self.rng.upto(3) {
                        0 => t[at].wrapping_add(1),
                        1 => t[at].wrapping_sub(1),
                        2 => self.rng.upto(16),
                        _ => dict().get(self.rng.upto(199) as usize).copied().unwrap_or(0),
                    }
                }
                2 => t[at] = ANEW,
                3 => t[at] = t[self.rng.upto(n - 1) as usize],
                4 => drop(t.drain(at..upto)),
                5 => {
                    let piece = t[at..upto].to_vec();
                    let to = self.rng.upto(n) as usize;
                    t.splice(to..to, piece);
                }
                6 => {
                    let piece = t[at..upto].to_vec();
                    let to = self.rng.upto(n - piece.len() as u64) as usize;
                    t[to..to + piece.len()].copy_from_slice(&piece);
                }
                7 => t.truncate(at),
                8 => {
                    let other = self.choose().clone();
                    if !other.is_empty() {
                        let from = (at).min(other.len() - 1);
                        t.truncate(at);
                        t.extend_from_slice(&other[from..]);
                    }
                }
                _ => t[at..upto].fill(ANEW),
            }
        }

        /// Whether the case reached something new.
        pub fn done(&mut self, rec: &[u64]) -> bool {
            let new = super::reach::new();
            if new && rec.len() < 1 << 16 {
                self.kept.push(rec.to_vec());
            }
            new
        }
    }

    pub fn write(f: &std::fs::File, tape: &[u64], s: u64) {
        use std::os::unix::fs::FileExt;
        let words: Vec<u8> = [s, tape.len() as u64].iter().chain(tape).flat_map(|x| x.to_le_bytes()).collect();
        let _ = f.write_all_at(&words, 8);
    }

    pub fn read(b: &[u8]) -> (Vec<u64>, u64) {
        let w: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().expect("8"))).collect();
        (w[3..3 + w[2] as usize].to_vec(), w[1])
    }
}

/// What the last case reached: how often each piece of code ran.
#[cfg(vh_cov)]
mod reach {
    use std::sync::Mutex;

    static REGIONS: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());
    static SEEN: Mutex<Vec<u8>> = Mutex::new(Vec::new());
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, end: *mut u8) {
        if start != end {
            let mut r = REGIONS.lock().unwrap();
            if !r.contains(&(start as usize, end as usize)) {
                r.push((start as usize, end as usize));
            }
        }
    }

    pub fn clear() {
        for (a, b) in REGIONS.lock().unwrap().iter() {
            // SAFETY: the counters the compiler laid out
            unsafe { std::ptr::write_bytes(*a as *mut u8, 0, b - a) };
        }
    }

    pub fn new() -> bool {
        let (regions, mut seen) = (REGIONS.lock().unwrap(), SEEN.lock().unwrap());
        let (mut at, mut new) = (0, false);
        seen.resize(regions.iter().map(|(a, b)| b - a).sum(), 0);
        for (a, b) in regions.iter() {
            // SAFETY: the counters the compiler laid out; nothing of the case is running any more
            let counts = unsafe { std::slice::from_raw_parts(*a as *const u8, b - a) };
            for (k, c) in counts.chunks(64).enumerate() {
                // most of them are zero
                if c == &[0; 64][..c.len()] {
                    continue;
                }
                for (j, n) in c.iter().enumerate().filter(|x| *x.1 != 0) {
                    let bit = match n {
                        1..=2 => n - 1,
                        3..=15 => 2,
                        _ => 3,
                    };
                    let s = &mut seen[at + k * 64 + j];
                    new |= *s & 1 << bit == 0;
                    *s |= 1 << bit;
                }
            }
            at += counts.len();
        }
        if std::env::var("VH_DBG").is_ok() { eprintln!("{at}"); }
        new
    }
}

#[cfg(not(vh_cov))]
mod reach {
    pub fn clear() {}
    pub fn new() -> bool {
        false
    }
}
