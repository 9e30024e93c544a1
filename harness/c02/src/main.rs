//! C02: FromStr of a struct accepts exactly the strings that match its format, as a whole, and
//! routes each captured text to the right field.
#![allow(dead_code, non_camel_case_types)]
use parse_display::{Display, FromStr};
use symlib::re::*;
use symlib::*;

fn num<T: std::str::FromStr>(s: &str) -> Option<T> {
    s.parse().ok()
}

// ---- one integer, one string
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}-{b}")]
struct IntDashStr {
    a: u8,
    b: String,
}
fn o_int_dash_str(s: &str) -> Option<IntDashStr> {
    let (x, y) = s.split_once('-')?;
    Some(IntDashStr { a: num(x)?, b: y.to_string() })
}

// ---- fields written in another order than declared
#[derive(FromStr, PartialEq, Debug)]
#[display("{c};{a};{b}")]
struct Reordered {
    a: String,
    b: String,
    c: String,
}
fn o_reordered(s: &str) -> Option<Reordered> {
    let r = seq(vec![field(2), lit(";"), field(0), lit(";"), field(1)]);
    let c = full(&r, s)?;
    Some(Reordered { a: text(s, &c, 0).into(), b: text(s, &c, 1).into(), c: text(s, &c, 2).into() })
}

// ---- tuple struct, multi-character and metacharacter literals
#[derive(FromStr, PartialEq, Debug)]
#[display("{0}.*{1}")]
struct TupleMeta(String, u8);
fn o_tuple_meta(s: &str) -> Option<TupleMeta> {
    // first place where the rest is wholly a number
    let b = s.as_bytes();
    let mut i = 0;
    while i + 2 <= b.len() {
        if b[i] == b'.' && b[i + 1] == b'*' {
            return Some(TupleMeta(s[..i].to_string(), num(&s[i + 2..])?));
        }
        i += 1;
    }
    None
}
// every regex metacharacter as literal text around a field
#[derive(FromStr, PartialEq, Debug)]
#[display("^(a|b){0}")]
struct Metas1(String);
fn o_metas1(s: &str) -> Option<Metas1> {
    Some(Metas1(s.strip_prefix("^(a|b)")?.to_string()))
}
#[derive(FromStr, PartialEq, Debug)]
#[display("[c]${0}\\d+?")]
struct Metas2(String);
fn o_metas2(s: &str) -> Option<Metas2> {
    Some(Metas2(s.strip_prefix("[c]$")?.strip_suffix("\\d+?")?.to_string()))
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{0}.&&~{1}#- {{1}}")]
struct Metas3(String, u8);
fn o_metas3(s: &str) -> Option<Metas3> {
    let (x, y) = s.strip_suffix("#- {1}")?.split_once(".&&~")?;
    Some(Metas3(x.to_string(), num(y)?))
}
#[derive(FromStr, PartialEq, Debug)]
#[display("(?i)a{0}(?<x>)")]
struct Metas4(String);
fn o_metas4(s: &str) -> Option<Metas4> {
    Some(Metas4(s.strip_prefix("(?i)a")?.strip_suffix("(?<x>)")?.to_string()))
}
// all-literal struct and unit struct
#[derive(FromStr, PartialEq, Debug)]
#[display("a.b{{}}|c")]
struct UnitLit;
fn o_unit_lit(s: &str) -> Option<UnitLit> {
    (s == "a.b{}|c").then_some(UnitLit)
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{{{0}}}")]
struct Braces(u8);
fn o_braces(s: &str) -> Option<Braces> {
    Some(Braces(num(s.strip_prefix('{')?.strip_suffix('}')?)?))
}
#[derive(FromStr, PartialEq, Debug)]
#[display("}}{0}{{{1}")]
struct Braces2(String, String);
fn o_braces2(s: &str) -> Option<Braces2> {
    let (x, y) = s.strip_prefix('}')?.split_once('{')?;
    Some(Braces2(x.into(), y.into()))
}

// ---- newtype without a format; must accept any text the field does, newlines included
#[derive(FromStr, PartialEq, Debug)]
struct NewStr(String);
fn o_new_str(s: &str) -> Option<NewStr> {
    Some(NewStr(s.into()))
}
#[derive(FromStr, PartialEq, Debug)]
struct NewU16 {
    v: u16,
}
fn o_new_u16(s: &str) -> Option<NewU16> {
    Some(NewU16 { v: num(s)? })
}
#[derive(FromStr, PartialEq, Debug)]
struct NewI8(i8);
fn o_new_i8(s: &str) -> Option<NewI8> {
    Some(NewI8(num(s)?))
}
#[derive(FromStr, PartialEq, Debug)]
struct NewChar(char);
fn o_new_char(s: &str) -> Option<NewChar> {
    Some(NewChar(num(s)?))
}

// ---- adjacent fields
#[derive(FromStr, PartialEq, Debug)]
#[display("{a}{b}")]
struct Adjacent {
    a: String,
    b: String,
}
fn o_adjacent(s: &str) -> Option<Adjacent> {
    Some(Adjacent { a: String::new(), b: s.into() })
}
// ---- same delimiter repeated, several ways to split
#[derive(FromStr, PartialEq, Debug)]
#[display("{a},{b},{c}")]
struct Three {
    a: String,
    b: String,
    c: String,
}
fn o_three(s: &str) -> Option<Three> {
    let mut it = s.splitn(3, ',');
    Some(Three { a: it.next()?.into(), b: it.next()?.into(), c: it.next()?.into() })
}
// ---- literal at both ends, overlapping delimiter
#[derive(FromStr, PartialEq, Debug)]
#[display("aa{0}aa{1}a")]
struct Overlap(String, String);
fn o_overlap(s: &str) -> Option<Overlap> {
    let r = seq(vec![lit("aa"), field(0), lit("aa"), field(1), lit("a")]);
    let c = full(&r, s)?;
    Some(Overlap(text(s, &c, 0).into(), text(s, &c, 1).into()))
}
// ---- field formats
#[derive(FromStr, PartialEq, Debug)]
#[display("{a}/{b}")]
struct FieldFmt {
    #[display("<{}>")]
    a: String,
    #[display("[{}")]
    b: u8,
}
fn o_field_fmt(s: &str) -> Option<FieldFmt> {
    let r = seq(vec![lit("<"), field(0), lit(">/["), field(1)]);
    let c = full(&r, s)?;
    Some(FieldFmt { a: text(s, &c, 0).into(), b: num(text(s, &c, 1))? })
}
// newtype whose field has its own format
#[derive(FromStr, PartialEq, Debug)]
struct NewFmt(#[display("({})")] String);
fn o_new_fmt(s: &str) -> Option<NewFmt> {
    Some(NewFmt(s.strip_prefix('(')?.strip_suffix(')')?.into()))
}
// ---- newline and non-ASCII literals
#[derive(FromStr, PartialEq, Debug)]
#[display("{0}\n{1}")]
struct Lines(String, String);
fn o_lines(s: &str) -> Option<Lines> {
    let (x, y) = s.split_once('\n')?;
    Some(Lines(x.into(), y.into()))
}
#[derive(FromStr, PartialEq, Debug)]
#[display("é{0}→")]
struct Uni(String);
fn o_uni(s: &str) -> Option<Uni> {
    Some(Uni(s.strip_prefix('é')?.strip_suffix('→')?.into()))
}
// ---- raw identifiers as field names
#[derive(FromStr, PartialEq, Debug)]
#[display("{type}:{r#fn}")]
struct RawNames {
    r#type: String,
    r#fn: u8,
}
fn o_raw_names(s: &str) -> Option<RawNames> {
    let (x, y) = s.split_once(':')?;
    Some(RawNames { r#type: x.into(), r#fn: num(y)? })
}
// ---- nested fields, the rest from Default
#[derive(PartialEq, Debug, Default)]
struct P {
    x: u8,
    y: String,
    z: Q,
}
#[derive(PartialEq, Debug, Default)]
struct Q(u8, u8);
#[derive(FromStr, PartialEq, Debug)]
#[display("{p.y}|{p.x}|{p.z.1}")]
struct Nested {
    #[from_str(default)]
    p: P,
}
fn o_nested(s: &str) -> Option<Nested> {
    let r = seq(vec![field(0), lit("|"), field(1), lit("|"), field(2)]);
    let c = full(&r, s)?;
    Some(Nested { p: P { y: text(s, &c, 0).into(), x: num(text(s, &c, 1))?, z: Q(0, num(text(s, &c, 2))?) } })
}
// nested and whole use of different fields
#[derive(FromStr, PartialEq, Debug)]
#[display("{b}={p.x}")]
struct NestedAndPlain {
    #[from_str(default)]
    p: P,
    b: String,
}
fn o_nested_and_plain(s: &str) -> Option<NestedAndPlain> {
    let (x, y) = s.split_once('=')?;
    Some(NestedAndPlain { p: P { x: num(y)?, ..P::default() }, b: x.into() })
}
// ---- more than ten fields: positions are numbers, not text
#[derive(FromStr, PartialEq, Debug)]
#[display("{11}{10},{2};{1}")]
struct Twelve2(
    #[from_str(default)] u8,
    String,
    u8,
    #[from_str(default)] u8,
    #[from_str(default)] u8,
    #[from_str(default)] u8,
    #[from_str(default)] u8,
    #[from_str(default)] u8,
    #[from_str(default)] u8,
    #[from_str(default)] u8,
    #[from_str(regex = "[0-9]*")] String,
    #[from_str(regex = "[a-z]*")] String,
);
fn o_twelve2(s: &str) -> Option<Twelve2> {
    let r = seq(vec![
        cap(3, star(set(|c| c.is_ascii_lowercase()))),
        cap(2, star(set(|c| c.is_ascii_digit()))),
        lit(","),
        field(1),
        lit(";"),
        field(0),
    ]);
    let c = full(&r, s)?;
    let t = |i| text(s, &c, i);
    Some(Twelve2(0, t(0).into(), num(t(1))?, 0, 0, 0, 0, 0, 0, 0, t(2).into(), t(3).into()))
}
// ---- a generic struct and a nested derived type
#[derive(FromStr, PartialEq, Debug)]
#[display("({0};{1})")]
struct Pair<A, B>(A, B);
fn o_pair(s: &str) -> Option<Pair<u8, String>> {
    let (x, y) = s.strip_prefix('(')?.strip_suffix(')')?.split_once(';')?;
    Some(Pair(num(x)?, y.into()))
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{l}&{r}")]
struct Outer {
    l: IntDashStr,
    r: Pair<String, String>,
}
fn o_outer(s: &str) -> Option<Outer> {
    let (x, y) = s.split_once('&')?;
    let (p, q) = y.strip_prefix('(')?.strip_suffix(')')?.split_once(';')?;
    Some(Outer { l: o_int_dash_str(x)?, r: Pair(p.into(), q.into()) })
}
// ---- where only the leading / trailing part is a literal: the whole string must match
#[derive(FromStr, PartialEq, Debug)]
#[display("ab{0}")]
struct Prefix(u8);
fn o_prefix(s: &str) -> Option<Prefix> {
    Some(Prefix(num(s.strip_prefix("ab")?)?))
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{0}%")]
struct Suffix(i8);
fn o_suffix(s: &str) -> Option<Suffix> {
    Some(Suffix(num(s.strip_suffix('%')?)?))
}

// ---- long texts and many fields
const LONG: &str = "000.*é(→)[|]-001.*é(→)[|]-002.*é(→)[|]-003.*é(→)[|]-004.*é(→)[|]-005.*é(→)[|]-006.*é(→)[|]-007.*é(→)[|]-008.*é(→)[|]-009.*é(→)[|]-010.*é(→)[|]-011.*é(→)[|]-012.*é(→)[|]-013.*é(→)[|]-014.*é(→)[|]-015.*é(→)[|]-016.*é(→)[|]-017.*é(→)[|]-018.*é(→)[|]-019.*é(→)[|]-020.*é(→)[|]-021.*é(→)[|]-022.*é(→)[|]-023.*é(→)[|]-024.*é(→)[|]-025.*é(→)[|]-";
#[derive(FromStr, PartialEq, Debug)]
#[display("{0}000.*é(→)[|]-001.*é(→)[|]-002.*é(→)[|]-003.*é(→)[|]-004.*é(→)[|]-005.*é(→)[|]-006.*é(→)[|]-007.*é(→)[|]-008.*é(→)[|]-009.*é(→)[|]-010.*é(→)[|]-011.*é(→)[|]-012.*é(→)[|]-013.*é(→)[|]-014.*é(→)[|]-015.*é(→)[|]-016.*é(→)[|]-017.*é(→)[|]-018.*é(→)[|]-019.*é(→)[|]-020.*é(→)[|]-021.*é(→)[|]-022.*é(→)[|]-023.*é(→)[|]-024.*é(→)[|]-025.*é(→)[|]-{1}")]
struct LongLit(u8, String);
fn o_long_lit(s: &str) -> Option<LongLit> {
    let (x, y) = s.split_once(LONG)?;
    Some(LongLit(num(x)?, y.into()))
}
#[derive(FromStr, PartialEq, Debug)]
#[display("000.*é(→)[|]-001.*é(→)[|]-002.*é(→)[|]-003.*é(→)[|]-004.*é(→)[|]-005.*é(→)[|]-006.*é(→)[|]-007.*é(→)[|]-008.*é(→)[|]-009.*é(→)[|]-010.*é(→)[|]-011.*é(→)[|]-012.*é(→)[|]-013.*é(→)[|]-014.*é(→)[|]-015.*é(→)[|]-016.*é(→)[|]-017.*é(→)[|]-018.*é(→)[|]-019.*é(→)[|]-020.*é(→)[|]-021.*é(→)[|]-022.*é(→)[|]-023.*é(→)[|]-024.*é(→)[|]-025.*é(→)[|]-")]
struct LongUnit;
fn o_long_unit(s: &str) -> Option<LongUnit> {
    (s == LONG).then_some(LongUnit)
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{0}a{1}b{2}c{3}d{4}e{5}f{6}g{7}h{8}i{9}j{10}k{11}l{12}m{13}n{14}o{15}p{16}q{17}r{18}s{19}t{20}u{21}v{22}w{23}x{24}y{25}z{26}0{27}1{28}2{29}3")]
struct Thirty(
    String,
    String,
    String,
    u8,
    String,
    String,
    String,
    String,
    String,
    String,
    u8,
    String,
    String,
    String,
    String,
    String,
    String,
    u8,
    String,
    String,
    String,
    String,
    String,
    String,
    u8,
    String,
    String,
    String,
    String,
    String,
);
const THIRTY: &str = "0a1b2c7d4e5f6g7h8i9j7kBlCmDnEoFpGq7rIsJtKuLvMwNx7yPzQ0R1S2T3";
fn o_thirty(s: &str) -> Option<Thirty> {
    let mut p = vec![];
    let mut rest = s;
    for (i, c) in "abcdefghijklmnopqrstuvwxyz0123".chars().enumerate() {
        // the last one is the last text there is; any other ends at the first mark (shortest text)
        let (x, y) = if i < 29 { rest.split_once(c)? } else { (rest.strip_suffix(c)?, "") };
        p.push(x);
        rest = y;
    }
    Some(Thirty(
        p[0].into(),
        p[1].into(),
        p[2].into(),
        num(p[3])?,
        p[4].into(),
        p[5].into(),
        p[6].into(),
        p[7].into(),
        p[8].into(),
        p[9].into(),
        num(p[10])?,
        p[11].into(),
        p[12].into(),
        p[13].into(),
        p[14].into(),
        p[15].into(),
        p[16].into(),
        num(p[17])?,
        p[18].into(),
        p[19].into(),
        p[20].into(),
        p[21].into(),
        p[22].into(),
        p[23].into(),
        num(p[24])?,
        p[25].into(),
        p[26].into(),
        p[27].into(),
        p[28].into(),
        p[29].into(),
    ))
}

macro_rules! cases {
    ($($h:ident $u:ident $t:ty, $o:ident;)*) => {
        harness! { $(
            $h => { warm::<$t>(); let s = ascii(param(0)); parses::<$t>(&s, $o(&s)); }
            $u => { warm::<$t>(); let s = utf8(param(0)); parses::<$t>(&s, $o(&s)); }
        )*
            l_lit => { warm::<LongLit>(); let s = touched(&format!("7{LONG}x"), 0); parses::<LongLit>(&s, o_long_lit(&s)); }
            l_unit => { warm::<LongUnit>(); let s = touched(LONG, 0); parses::<LongUnit>(&s, o_long_unit(&s)); }
            l_thirty => { warm::<Thirty>(); let s = touched(THIRTY, 0); parses::<Thirty>(&s, o_thirty(&s)); }
        }
    };
}
cases! {
    h_int_dash_str u_int_dash_str IntDashStr, o_int_dash_str;
    h_reordered u_reordered Reordered, o_reordered;
    h_tuple_meta u_tuple_meta TupleMeta, o_tuple_meta;
    h_metas1 u_metas1 Metas1, o_metas1;
    h_metas2 u_metas2 Metas2, o_metas2;
    h_metas3 u_metas3 Metas3, o_metas3;
    h_metas4 u_metas4 Metas4, o_metas4;
    h_unit_lit u_unit_lit UnitLit, o_unit_lit;
    h_braces u_braces Braces, o_braces;
    h_braces2 u_braces2 Braces2, o_braces2;
    h_new_str u_new_str NewStr, o_new_str;
    h_new_u16 u_new_u16 NewU16, o_new_u16;
    h_new_i8 u_new_i8 NewI8, o_new_i8;
    h_new_char u_new_char NewChar, o_new_char;
    h_adjacent u_adjacent Adjacent, o_adjacent;
    h_three u_three Three, o_three;
    h_overlap u_overlap Overlap, o_overlap;
    h_field_fmt u_field_fmt FieldFmt, o_field_fmt;
    h_new_fmt u_new_fmt NewFmt, o_new_fmt;
    h_lines u_lines Lines, o_lines;
    h_uni u_uni Uni, o_uni;
    h_raw_names u_raw_names RawNames, o_raw_names;
    h_nested u_nested Nested, o_nested;
    h_nested_and_plain u_nested_and_plain NestedAndPlain, o_nested_and_plain;
    h_twelve2 u_twelve2 Twelve2, o_twelve2;
    h_pair u_pair Pair<u8, String>, o_pair;
    h_outer u_outer Outer, o_outer;
    h_prefix u_prefix Prefix, o_prefix;
    h_suffix u_suffix Suffix, o_suffix;
}
