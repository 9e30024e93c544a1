//! C11: the published patterns of the standard types cover what those types parse.
#![allow(dead_code, non_camel_case_types)]
use parse_display::{FromStr, FromStrRegex};
use regex::Regex;
use std::ffi::OsString;
use std::num::NonZero;
use std::path::PathBuf;
use symlib::re::*;
use symlib::*;

fn num<T: std::str::FromStr>(s: &str) -> Option<T> {
    s.parse().ok()
}
fn st(s: &str, c: &Caps, i: usize) -> String {
    text(s, c, i).into()
}
fn dig(c: char) -> bool {
    c.is_ascii_digit()
}
fn n() -> usize {
    param(0)
}
/// Every string of `s`'s kind that T parses is matched as a whole.
fn cover<T: FromStrRegex>(s: fn(usize) -> String) {
    let re = Regex::new(&format!("^(?:{})$", T::from_str_regex())).unwrap();
    let _ = re.is_match("1");
    let s = s(n());
    let ok = s.parse::<T>().is_ok();
    let m = re.is_match(&s);
    obs(ok as u64 | (m as u64) << 1);
    if ok {
        reach(1);
        check(m, 1);
    } else {
        reach(2);
        check(true, 2);
    }
}
fn any(n: usize) -> String {
    utf8(n)
}
fn numeral(n: usize) -> String {
    from_set(n, b"+-0123456789")
}
/// A long numeral: `zeros` zeros, then nothing, or the smallest or largest number; sign and end symbolic.
fn long(zeros: usize, min: &str, max: &str) -> String {
    let mut s = from_set_upto(1, b"+-");
    s.extend(std::iter::repeat_n('0', zeros));
    let digits = [min, max][choose(2) as usize].trim_start_matches('-');
    if bool() {
        s.push_str(&digits[..digits.len() - 1]);
    }
    s.push_str(&numeral(1));
    s
}
fn long_float(n: usize) -> String {
    let zeros = "0".repeat(n);
    let mut s = from_set_upto(1, b"+-");
    s.push_str(&match choose(5) {
        0 => zeros,
        1 => format!("1{zeros}."),
        2 => format!(".{zeros}1"),
        3 => format!("1e{zeros}"),
        _ => format!("7.{zeros}E-{zeros}"),
    });
    s.push_str(&from_set(1, b"+-.019eEn_ "));
    s
}
fn float(n: usize) -> String {
    from_set(n, b"+-.019eEinfatyINFATY_ ")
}
/// What the standard library documents as the grammar of floats.
fn float_grammar() -> R {
    fn i(a: &'static str) -> R {
        let f = |c: u8| -> fn(char) -> bool {
            match c {
                b'i' => |c| c == 'i' || c == 'I',
                b'n' => |c| c == 'n' || c == 'N',
                b'f' => |c| c == 'f' || c == 'F',
                b't' => |c| c == 't' || c == 'T',
                b'y' => |c| c == 'y' || c == 'Y',
                b'e' => |c| c == 'e' || c == 'E',
                _ => |c| c == 'a' || c == 'A',
            }
        };
        seq(a.bytes().map(|c| set(f(c))).collect())
    }
    let sign = || opt(set(|c| c == '+' || c == '-'));
    let digits = || plus(set(dig));
    seq(vec![
        sign(),
        alt(vec![
            seq(vec![
                alt(vec![
                    seq(vec![digits(), lit("."), star(set(dig))]),
                    seq(vec![lit("."), digits()]),
                    digits(),
                ]),
                opt(seq(vec![i("e"), sign(), digits()])),
            ]),
            i("infinity"),
            i("inf"),
            i("nan"),
        ]),
    ])
}
/// The text of a T, whatever it is.
macro_rules! texts {
    ($($w:ident $t:ty;)*) => { $(
        #[derive(PartialEq, Debug)]
        struct $w(String);
        impl std::str::FromStr for $w {
            type Err = ();
            fn from_str(s: &str) -> Result<Self, ()> { Ok($w(s.into())) }
        }
        impl FromStrRegex for $w {
            fn from_str_regex() -> String { <$t>::from_str_regex() }
        }
    )* };
}
texts! {
    F64 f64;
    F32 f32;
    U8 u8;
    I64 i64;
}
// followed by free text
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex_infer)]
#[display("{0}{1}")]
struct Float(F64, String);
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex_infer)]
#[display("<{a}{b}")]
struct Float32 {
    a: F32,
    b: String,
}
/// Longest prefix that is a numeral; then the rest.
fn longest(s: &str, from: usize, ok: &dyn Fn(&str) -> bool) -> Option<usize> {
    (from..=s.len()).rev().find(|&e| s.is_char_boundary(e) && ok(&s[from..e]))
}
fn o_float(s: &str) -> Option<Float> {
    let g = float_grammar();
    let e = longest(s, 0, &|t| full(&g, t).is_some())?;
    Some(Float(F64(s[..e].into()), s[e..].into()))
}
fn o_float32(s: &str) -> Option<Float32> {
    if !s.starts_with('<') {
        return None;
    }
    let g = float_grammar();
    let e = longest(s, 1, &|t| full(&g, t).is_some())?;
    Some(Float32 { a: F32(s[1..e].into()), b: s[e..].into() })
}
fn int_len(s: &[u8], minus: bool) -> Option<usize> {
    let sign = !s.is_empty() && (s[0] == b'+' || minus && s[0] == b'-');
    let mut e = sign as usize;
    while e < s.len() && s[e].is_ascii_digit() {
        e += 1;
    }
    (e > sign as usize).then_some(e)
}
macro_rules! ints {
    ($($s:ident $f:ident $t:ty, $minus:expr;)*) => { $(
        #[derive(FromStr, PartialEq, Debug)]
        #[display("{0}{1}")]
        struct $s(#[from_str(regex_infer)] $t, String);
        fn $f(s: &str) -> Option<$s> {
            let e = int_len(s.as_bytes(), $minus)?;
            Some($s(num(&s[..e])?, s[e..].into()))
        }
    )* };
}
ints! {
    TU8 o_u8 u8, false;
    TU16 o_u16 u16, false;
    TU32 o_u32 u32, false;
    TU64 o_u64 u64, false;
    TU128 o_u128 u128, false;
    TUsize o_usize usize, false;
    TI8 o_i8 i8, true;
    TI16 o_i16 i16, true;
    TI32 o_i32 i32, true;
    TI64 o_i64 i64, true;
    TI128 o_i128 i128, true;
    TIsize o_isize isize, true;
    TNU8 o_nu8 NonZero<u8>, false;
    TNI16 o_ni16 NonZero<i16>, true;
}
// text before, another numeral after, optional
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex_infer)]
#[display("{a}:{b}{c}{d}")]
struct Mix {
    a: bool,
    #[display(opt)]
    b: Option<i8>,
    c: char,
    d: String,
}
fn o_mix(s: &str) -> Option<Mix> {
    let r = seq(vec![
        cap(0, alt(vec![lit("true"), lit("false")])),
        lit(":"),
        R::Rep(0, 1, false, Box::new(cap(1, seq(vec![opt(set(|c| c == '+' || c == '-')), plus(set(dig))])))),
        cap(2, R::Any),
        field(3),
    ]);
    let c = full(&r, s)?;
    Some(Mix {
        a: num(text(s, &c, 0))?,
        b: match get(s, &c, 1) {
            Some(t) => Some(num(t)?),
            None => None,
        },
        c: num(text(s, &c, 2))?,
        d: st(s, &c, 3),
    })
}
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex_infer)]
#[display("{0}{1}/{2}")]
struct Two(i16, u8, PathBuf);
fn o_two(s: &str) -> Option<Two> {
    let i = |m: fn(char) -> bool| seq(vec![opt(set(m)), plus(set(dig))]);
    let c = full(&seq(vec![cap(0, i(|c| c == '+' || c == '-')), cap(1, i(|c| c == '+')), lit("/"), field(2)]), s)?;
    Some(Two(num(text(s, &c, 0))?, num(text(s, &c, 1))?, num(text(s, &c, 2))?))
}
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex_infer)]
enum En {
    #[display("{0}")]
    C(char),
    #[display("{0}x")]
    N(NonZero<i8>),
    #[display("{0},{1}")]
    S(OsString, String),
    #[display("{0}{1}")]
    B(bool, bool),
}
fn o_en(s: &str) -> Option<En> {
    if let Some(c) = num(s) {
        return Some(En::C(c));
    }
    let b = s.as_bytes();
    if b.last() == Some(&b'x') && int_len(b, true) == Some(b.len() - 1) {
        if let Some(v) = num(&s[..s.len() - 1]) {
            return Some(En::N(v));
        }
    }
    if let Some(c) = full(&seq(vec![field(0), lit(","), field(1)]), s) {
        return Some(En::S(num(text(s, &c, 0))?, st(s, &c, 1)));
    }
    match s {
        "truetrue" => Some(En::B(true, true)),
        "truefalse" => Some(En::B(true, false)),
        "falsetrue" => Some(En::B(false, true)),
        "falsefalse" => Some(En::B(false, false)),
        _ => None,
    }
}
macro_rules! table {
    ($($c:ident $m:ident $l:ident $t:ty;)*; $($h:ident $s:ident $f:ident;)*; $($hl:ident $sl:ident $fl:ident $tl:ty;)*) => {
        harness! {
            $(
                $c => { cover::<$t>(any); }
                $m => { cover::<$t>(numeral); }
                $l => { cover::<$t>(|k| long(k, &<$t>::MIN.to_string(), &<$t>::MAX.to_string())); }
            )*
            $($h => { warm::<$s>(); let s = utf8(n()); parses::<$s>(&s, $f(&s)); })*
            $($hl => {
                warm::<$sl>();
                let s = long(n(), &<$tl>::MIN.to_string(), &<$tl>::MAX.to_string()) + &ascii(1);
                parses::<$sl>(&s, $fl(&s));
            })*
            l_f64 => { cover::<f64>(long_float); }
            l_f32 => { cover::<f32>(long_float); }
            c_bool => { cover::<bool>(any); }
            c_char => { cover::<char>(any); }
            c_string => { cover::<String>(any); }
            c_path => { cover::<PathBuf>(any); }
            c_os => { cover::<OsString>(any); }
            c_f64 => { cover::<f64>(float); }
            c_f32 => { cover::<f32>(float); }
            // the grammar used as the oracle, against the pattern
            g_f64 => {
                let re = Regex::new(&format!("^(?:{})$", f64::from_str_regex())).unwrap();
                let g = float_grammar();
                let s = from_set(n(), b"+-.05eEinfatyINFATY");
                let v = full(&g, &s).is_some();
                if v { reach(1); }
                check(!v || re.is_match(&s), 1);
            }
            w_float => { warm::<Float>(); let s = from_set(n(), b"+-.05eEinfatyIx"); parses::<Float>(&s, o_float(&s)); }
            w_float32 => { warm::<Float32>(); let s = from_set(n(), b"<+-.05eENx"); parses::<Float32>(&s, o_float32(&s)); }
            w_inf => {
                // inf, infinity, nan with any letter in the other case, cut anywhere, followed by anything
                warm::<Float>();
                let mut s = String::from(["", "-"][param(1)]);
                let t = ["infinity", "nan"][param(2)];
                let (at, cut) = (choose(t.len() as u8) as usize, choose(t.len() as u8 + 1) as usize);
                s.extend(t.chars().take(cut).enumerate().map(|(i, c)| if i == at { c.to_ascii_uppercase() } else { c }));
                s.push_str(&ascii(n()));
                parses::<Float>(&s, o_float(&s));
            }
        }
    };
}
table! {
    c_u8 m_u8 l_u8 u8;
    c_u16 m_u16 l_u16 u16;
    c_u32 m_u32 l_u32 u32;
    c_u64 m_u64 l_u64 u64;
    c_u128 m_u128 l_u128 u128;
    c_usize m_usize l_usize usize;
    c_i8 m_i8 l_i8 i8;
    c_i16 m_i16 l_i16 i16;
    c_i32 m_i32 l_i32 i32;
    c_i64 m_i64 l_i64 i64;
    c_i128 m_i128 l_i128 i128;
    c_isize m_isize l_isize isize;
    c_nu8 m_nu8 l_nu8 NonZero<u8>;
    c_nu16 m_nu16 l_nu16 NonZero<u16>;
    c_nu32 m_nu32 l_nu32 NonZero<u32>;
    c_nu64 m_nu64 l_nu64 NonZero<u64>;
    c_nu128 m_nu128 l_nu128 NonZero<u128>;
    c_nusize m_nusize l_nusize NonZero<usize>;
    c_ni8 m_ni8 l_ni8 NonZero<i8>;
    c_ni16 m_ni16 l_ni16 NonZero<i16>;
    c_ni32 m_ni32 l_ni32 NonZero<i32>;
    c_ni64 m_ni64 l_ni64 NonZero<i64>;
    c_ni128 m_ni128 l_ni128 NonZero<i128>;
    c_nisize m_nisize l_nisize NonZero<isize>;
    ;
    t_u8 TU8 o_u8;
    t_u16 TU16 o_u16;
    t_u32 TU32 o_u32;
    t_u64 TU64 o_u64;
    t_u128 TU128 o_u128;
    t_usize TUsize o_usize;
    t_i8 TI8 o_i8;
    t_i16 TI16 o_i16;
    t_i32 TI32 o_i32;
    t_i64 TI64 o_i64;
    t_i128 TI128 o_i128;
    t_isize TIsize o_isize;
    t_nu8 TNU8 o_nu8;
    t_ni16 TNI16 o_ni16;
    t_mix Mix o_mix;
    t_two Two o_two;
    t_en En o_en;
    ;
    e_u8 TU8 o_u8 u8;
    e_u16 TU16 o_u16 u16;
    e_u32 TU32 o_u32 u32;
    e_u64 TU64 o_u64 u64;
    e_u128 TU128 o_u128 u128;
    e_usize TUsize o_usize usize;
    e_i8 TI8 o_i8 i8;
    e_i16 TI16 o_i16 i16;
    e_i32 TI32 o_i32 i32;
    e_i64 TI64 o_i64 i64;
    e_i128 TI128 o_i128 i128;
    e_isize TIsize o_isize isize;
    e_nu8 TNU8 o_nu8 NonZero<u8>;
    e_ni16 TNI16 o_ni16 NonZero<i16>;
}
