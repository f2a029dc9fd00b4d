//! C14: what `frozen_map!` makes of its arguments is the map written in them.
//!
//! The expansion is computed in this process and, where it has the form of a specialized map built from a list,
//! carried out here: the map it names is built from the entries it lists. An expansion of any other form is only
//! required to be one. (Programs with invocations are compiled and run as well, by macros.py.)

use frozen_collections_core::macros::frozen_map_macro;
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::process::ExitCode;
use syn::{Expr, Lit};
use vh::checks::{absent_of, map_reads};
use vh::engine::{catch, Cx, Prop, Src, R};
use vh::ensure;
use vh::family::{Family, Kind, Spec};
use vh::hashers::Bh;
use vh::keys::{gen_size, Key, HUGE_A};
use vh::maps::{Cap, Ctor};

// ---------------------------------------------------------------------------------------------- spelling

/// How the keys of a case are written.
#[derive(Clone, Copy, Debug)]
struct Style {
    /// 2, 8, 10, 16, or 0 for any of them
    base: u32,
    pad: usize,
    /// underscores: none, after so many digits, or anywhere
    cut: usize,
    suffix: u8,
    upper: bool,
    text: usize,
}

impl Style {
    fn gen(src: &mut Src) -> Self {
        Self {
            base: *src.pick(&[10, 10, 16, 8, 2, 0]),
            pad: *src.pick(&[0, 0, 2, 3, 12, 70]),
            cut: *src.pick(&[0, 0, 1, 2, 99]),
            suffix: src.below(4) as u8,
            upper: src.flag(),
            text: src.idx(6),
        }
    }
}

trait Written: Key {
    const TYPE: &'static str;
    fn write(&self, s: Style, rng: &mut vh::engine::Rng) -> String;
    /// The key a literal stands for.
    fn read(e: &Expr) -> Option<Self>;
    /// Keys whose spelling can be misread.
    fn deceptive(_: &mut Src, _: usize, _: Style) -> Option<Vec<Self>> {
        None
    }
}

fn digits(mut v: u128, base: u32) -> String {
    let mut s = Vec::new();
    loop {
        s.push(char::from_digit((v % u128::from(base)) as u32, base).unwrap());
        v /= u128::from(base);
        if v == 0 {
            break;
        }
    }
    s.iter().rev().collect()
}

fn write_int(neg: bool, v: u128, ty: &str, s: Style, rng: &mut vh::engine::Rng) -> String {
    if ty == "u8" && s.text == 0 && rng.upto(3) == 0 {
        return format!("b'\\x{v:02x}'");
    }
    let base = if s.base == 0 { [2, 8, 10, 10, 16][rng.upto(4) as usize] } else { s.base };
    let mut d = digits(v, base);
    if s.upper {
        d = d.to_uppercase();
    }
    if s.pad > 0 {
        d = format!("{d:0>w$}", w = s.pad);
    }
    if s.cut == 99 {
        d = d.chars().enumerate().map(|(i, c)| if i > 0 && rng.upto(3) == 0 { format!("_{c}") } else { c.to_string() }).collect();
    } else if s.cut > 0 && d.len() > s.cut {
        d.insert(s.cut, '_');
    }
    let prefix = match base {
        2 => "0b",
        8 => "0o",
        16 => "0x",
        _ => "",
    };
    let suffix = match s.suffix {
        1 => ty.to_string(),
        2 => format!("_{ty}"),
        3 if rng.upto(1) == 0 => ty.to_string(),
        _ => String::new(),
    };
    format!("{}{prefix}{d}{suffix}", if neg { "-" } else { "" })
}

fn int_lit(e: &Expr) -> Option<(bool, u128)> {
    match e {
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Neg(_)) => int_lit(&u.expr).map(|(n, v)| (!n, v)),
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => i.base10_parse::<u128>().ok().map(|v| (false, v)),
            Lit::Byte(b) => Some((false, u128::from(b.value()))),
            _ => None,
        },
        Expr::Group(g) => int_lit(&g.expr),
        Expr::Paren(g) => int_lit(&g.expr),
        _ => None,
    }
}

macro_rules! ints {
    ($($t:ty)*) => {$(
        impl Written for $t {
            const TYPE: &'static str = stringify!($t);
            #[allow(unused_comparisons)]
            fn write(&self, s: Style, rng: &mut vh::engine::Rng) -> String {
                write_int(*self < 0, (*self as i128).unsigned_abs().max(if *self > 0 { *self as u128 } else { 0 }), Self::TYPE, s, rng)
            }
            #[allow(irrefutable_let_patterns)]
            fn read(e: &Expr) -> Option<Self> {
                let (neg, v) = int_lit(e)?;
                if neg { Self::try_from(0i128.checked_sub_unsigned(v)?).ok() } else { Self::try_from(v).ok() }
            }
            fn deceptive(src: &mut Src, n: usize, s: Style) -> Option<Vec<Self>> {
                let base = if s.base == 0 { return None } else { s.base };
                let as_base = *src.pick(&[10u32, 16, 8]);
                let start = src.biased(0, 2000, &[0, 1, 7, 8, 9, 10, 90, 98, 99]) as u128;
                let neg = Self::MIN != 0 && src.chance(1, 3);
                let mut out = Vec::new();
                for v in (start..).take(40 * n + 200) {
                    let Ok(x) = u128::from_str_radix(&digits(v, as_base), base) else { continue };
                    let Ok(x) = Self::try_from(x) else { break };
                    let x = if neg { (0 as Self).wrapping_sub(x) } else { x };
                    if !out.contains(&x) {
                        out.push(x);
                    }
                    if out.len() == n {
                        break;
                    }
                }
                src.reorder(&mut out);
                Some(out)
            }
        }
    )*};
}
ints!(u8 u16 u32 u64 usize u128 i8 i16 i32 i64 isize i128);

impl Written for String {
    const TYPE: &'static str = "&str";
    fn write(&self, s: Style, rng: &mut vh::engine::Rng) -> String {
        if s.text == 0 && !self.contains(['"', '\r', '\0']) {
            return format!("r#\"{self}\"#");
        }
        let mut out = String::from("\"");
        for c in self.chars() {
            match s.text {
                1 => out += &format!("\\u{{{:x}}}", u32::from(c)),
                2 if u32::from(c) < 128 => out += &format!("\\x{:02x}", u32::from(c)),
                3 if rng.upto(2) == 0 => out += &format!("\\u{{{:06x}}}", u32::from(c)),
                4 if rng.upto(8) == 0 && !c.is_whitespace() => {
                    out += "\\\n   ";
                    out.extend(c.escape_debug());
                }
                _ => out.extend(c.escape_debug()),
            }
        }
        out.push('"');
        out
    }
    fn read(e: &Expr) -> Option<Self> {
        match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Str(s) => Some(s.value()),
                _ => None,
            },
            Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string().replace(' ', "").ends_with("String::from") => Self::read(&c.args[0]),
            Expr::Group(g) => Self::read(&g.expr),
            _ => None,
        }
    }
}

// ---------------------------------------------------------------------------------------------- carrying out

/// The map an expansion builds, if it has the form known here: how to build it, and of what.
fn understand<K: Written>(out: &TokenStream) -> Option<(Spec, Vec<(K, u64)>)> {
    let block: syn::Block = syn::parse2(out.clone()).ok()?;
    let [syn::Stmt::Local(local), syn::Stmt::Expr(Expr::Path(_), None)] = &block.stmts[..] else { return None };
    let syn::Pat::Type(pt) = &local.pat else { return None };
    let syn::Type::Path(tp) = &*pt.ty else { return None };
    let seg = tp.path.segments.last()?;
    let syn::PathArguments::AngleBracketed(ga) = &seg.arguments else { return None };
    let cap = match ga.args.iter().nth(2).map(|a| a.to_token_stream().to_string()).as_deref() {
        Some("u8") => Cap::U8,
        Some("u16") => Cap::U16,
        Some("u32") => Cap::U32,
        Some("usize") | None => Cap::Usize,
        _ => return None,
    };
    let kind = match &seg.ident.to_string()[..] {
        "ScanningMap" => Kind::Scanning,
        "IntegerRangeMap" => Kind::Range,
        "IntegerMap" => Kind::Integer,
        "CommonMap" => Kind::Common,
        "LengthMap" => Kind::Length,
        "LeftSliceMap" => Kind::Left,
        "RightSliceMap" => Kind::Right,
        _ => return None,
    };
    let Expr::Call(call) = &*local.init.as_ref()?.expr else { return None };
    let f = call.func.to_token_stream().to_string().replace(' ', "");
    if !f.ends_with(&format!("{}::from_vec", seg.ident)) {
        return None;
    }
    let Expr::Macro(v) = call.args.first()? else { return None };
    let items = v.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok()?;
    let mut payload = Vec::new();
    for i in &items {
        let Expr::Tuple(t) = i else { return None };
        if t.elems.len() != 2 {
            return None;
        }
        payload.push((K::read(&t.elems[0])?, int_lit(&t.elems[1])?.1 as u64));
    }
    let bound = |e: &Option<Box<Expr>>| -> Option<usize> {
        fn sum(e: &Expr) -> Option<usize> {
            match e {
                Expr::Binary(b) if matches!(b.op, syn::BinOp::Add(_)) => Some(sum(&b.left)? + sum(&b.right)?),
                e => int_lit(e).map(|x| x.1 as usize),
            }
        }
        sum(e.as_ref()?)
    };
    let range = match call.args.iter().nth(1) {
        None => 0..0,
        Some(Expr::Range(r)) => bound(&r.start)?..bound(&r.end)?,
        Some(_) => return None,
    };
    Some((Spec { kind, ctor: Ctor::Vec, cap, bh: Bh::default(), range }, payload))
}

fn case<K: Written + Family>(src: &mut Src, cx: &mut Cx, max: usize) -> R {
    let n = gen_size(src, max);
    let style = Style::gen(src);
    let (keys, fam) = if src.chance(1, 4) {
        match K::deceptive(src, n.min(300), style) {
            Some(k) => (k, "deceptive"),
            None => K::gen(src, n),
        }
    } else {
        K::gen(src, n)
    };
    let n = keys.len();
    let absent = absent_of(&keys, K::probes(src, &keys));
    let mut rng = src.bulk();
    let mut text = format!("{}, ", if K::TYPE == "&str" && src.chance(1, 4) { "& str" } else { K::TYPE });
    for (i, k) in keys.iter().enumerate() {
        text += &format!("{}: {}", k.write(style, &mut rng), i * 3 + 1);
        if i + 1 < n || src_trailing(style) {
            text += ", ";
        }
    }
    cx.describe(|| format!("frozen_map!({}), family {fam}", text.chars().take(900).collect::<String>()));
    cx.label(format!("key type {}", K::TYPE));
    let Ok(tokens) = text.parse::<TokenStream>() else { return Err(format!("harness: does not lex: {text}")) };
    let again = tokens.clone();
    let out = match catch(|| frozen_map_macro(tokens)) {
        Ok(o) => o,
        Err(e) => return Err(format!("the macro panics: {e}")),
    };
    cx.nontrivial(n >= 3 && !absent.is_empty());
    let shown = out.to_string();
    ensure!(!shown.contains("compile_error"), "the macro rejects its arguments: {}", shown.chars().take(300).collect::<String>());
    // what a program is compiled to is not left to chance
    let again = catch(|| frozen_map_macro(again).to_string());
    ensure!(again.as_deref() == Ok(&shown[..]), "expanded once more, the invocation becomes\n{:.600}\nand not\n{shown:.600}", again.unwrap_or_else(|e| e));
    let Some((spec, listed)) = understand::<K>(&out) else {
        cx.label("expansion of another form");
        return Ok(());
    };
    cx.label(format!("{:?}", spec.kind));
    ensure!(listed.len() as u64 <= spec.cap.max(), "the expansion lists {} entries for a map of at most {}", listed.len(), spec.cap.max());
    let name = format!("{:?}<{:?}>[{:?}]", spec.kind, spec.cap, spec.range);
    let payload: Vec<(K, u64)> = keys.into_iter().zip((0..).map(|i| i * 3 + 1)).collect();
    let made = catch(|| K::build_map(&spec, listed));
    let mut m = match made {
        Ok(m) => m,
        Err(e) => return Err(format!("the expansion's {name} cannot be built: {e}")),
    };
    map_reads(&mut *m, &payload, K::alias, &absent, cx, src).map_err(|e| format!("in the expansion's {name}: {e}"))
}

fn src_trailing(s: Style) -> bool {
    s.upper
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    if src.chance(1, 20_000) {
        cx.label("huge");
        return if src.flag() { case::<u32>(src, cx, HUGE_A) } else { case::<String>(src, cx, HUGE_A) };
    }
    match src.weighted(&[3, 3, 3, 3, 1, 3, 3, 3, 3, 3, 1, 3, 18]) {
        0 => case::<u8>(src, cx, 256),
        1 => case::<u16>(src, cx, 300),
        2 => case::<u32>(src, cx, 600),
        3 => case::<u64>(src, cx, 300),
        4 => case::<usize>(src, cx, 300),
        5 => case::<u128>(src, cx, 300),
        6 => case::<i8>(src, cx, 256),
        7 => case::<i16>(src, cx, 300),
        8 => case::<i32>(src, cx, 300),
        9 => case::<i64>(src, cx, 300),
        10 => case::<isize>(src, cx, 300),
        11 => case::<i128>(src, cx, 300),
        _ => case::<String>(src, cx, 600),
    }
}

fn main() -> ExitCode {
    vh::engine::main(Prop {
        id: "C14",
        rule: "a frozen_map! invocation with at least three entries, expanded, with at least one absent key probed; distinct by the choices drawn",
        run,
    })
}
