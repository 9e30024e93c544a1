//! C09: `opt` fields, both directions.
#![allow(dead_code)]
use parse_display::{Display, DisplayFormat, FromStr, FromStrFormat};
use std::fmt::Write as _;
use symlib::re::*;
use symlib::*;

fn num<T: std::str::FromStr>(s: &str) -> Option<T> {
    s.parse().ok()
}
fn lazy_opt(r: R) -> R {
    R::Rep(0, 1, false, Box::new(r))
}
/// text of a group that took part -> inner value; no part -> None
fn val<T: std::str::FromStr>(s: &str, c: &Caps, i: usize) -> Option<Option<T>> {
    match get(s, c, i) {
        None => Some(None),
        Some(t) => t.parse().ok().map(Some),
    }
}
fn dig(c: char) -> bool {
    c.is_ascii_digit()
}

#[derive(Display, FromStr, PartialEq, Debug)]
struct New {
    #[display("a={}", opt)]
    a: Option<u8>,
}
fn o_new(s: &str) -> Option<New> {
    if s.is_empty() {
        return Some(New { a: None });
    }
    Some(New { a: Some(num(s.strip_prefix("a=")?)?) })
}
fn d_new(v: &New) -> String {
    v.a.map_or(String::new(), |a| format!("a={a}"))
}

#[derive(Display, FromStr, PartialEq, Debug)]
struct Plain(#[display(opt)] Option<String>);
fn o_plain(s: &str) -> Option<Plain> {
    Some(Plain(if s.is_empty() { None } else { Some(s.into()) }))
}
fn d_plain(v: &Plain) -> String {
    v.0.clone().unwrap_or_default()
}

// two optional fields next to each other, one with a prefix that is also text of the other
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}{b}")]
struct Two {
    #[display("+{}", opt)]
    a: Option<String>,
    #[display("-{}", opt)]
    b: Option<i8>,
}
fn o_two(s: &str) -> Option<Two> {
    let r = seq(vec![lazy_opt(seq(vec![lit("+"), field(0)])), lazy_opt(seq(vec![lit("-"), field(1)]))]);
    let c = full(&r, s)?;
    Some(Two { a: val(s, &c, 0)?, b: val(s, &c, 1)? })
}
fn d_two(v: &Two) -> String {
    v.a.as_ref().map_or(String::new(), |a| format!("+{a}")) + &v.b.map_or(String::new(), |b| format!("-{b}"))
}

// separators stay when the field is absent
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("[{x},{y},{z}]")]
struct Sep {
    #[display(opt)]
    x: Option<u8>,
    #[display("({})", opt)]
    y: std::option::Option<String>,
    #[display(opt)]
    z: core::option::Option<char>,
}
fn o_sep(s: &str) -> Option<Sep> {
    let r = seq(vec![
        lit("["),
        lazy_opt(field(0)),
        lit(","),
        lazy_opt(seq(vec![lit("("), field(1), lit(")")])),
        lit(","),
        lazy_opt(field(2)),
        lit("]"),
    ]);
    let c = full(&r, s)?;
    Some(Sep { x: val(s, &c, 0)?, y: val(s, &c, 1)?, z: val(s, &c, 2)? })
}
fn d_sep(v: &Sep) -> String {
    let mut o = String::from("[");
    if let Some(x) = v.x {
        write!(o, "{x}").unwrap();
    }
    o.push(',');
    if let Some(y) = &v.y {
        o.push('(');
        o.push_str(y);
        o.push(')');
    }
    o.push(',');
    if let Some(z) = v.z {
        o.push(z);
    }
    o.push(']');
    o
}

// with an expression of its own
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0}{1}{2}")]
struct Rx(
    #[display(opt)]
    #[from_str(regex = "[0-9]+|n")]
    Option<u8>,
    #[display("{}!", opt)]
    #[from_str(regex = "[a-z]|")]
    Option<String>,
    #[display(opt)]
    #[from_str(regex = "<(?<>.)>?")]
    Option<char>,
);
fn o_rx(s: &str) -> Option<Rx> {
    let r = seq(vec![
        lazy_opt(cap(0, alt(vec![plus(set(dig)), lit("n")]))),
        lazy_opt(seq(vec![cap(1, alt(vec![set(|c| c.is_ascii_lowercase()), lit("")])), lit("!")])),
        lazy_opt(seq(vec![lit("<"), cap(2, R::Dot), opt(lit(">"))])),
    ]);
    let c = full(&r, s)?;
    Some(Rx(val(s, &c, 0)?, val(s, &c, 1)?, val(s, &c, 2)?))
}
fn d_rx(v: &Rx) -> String {
    v.0.map_or(String::new(), |a| a.to_string()) + &v.1.as_ref().map_or(String::new(), |b| format!("{b}!")) + &v.2.map_or(String::new(), |b| b.to_string())
}

// custom format and inferred pattern on the inner type
struct Hex;
impl DisplayFormat<u8> for Hex {
    fn write(&self, f: &mut std::fmt::Formatter, v: &u8) -> std::fmt::Result {
        write!(f, "{v:x}")
    }
}
impl FromStrFormat<u8> for Hex {
    type Err = std::num::ParseIntError;
    fn parse(&self, s: &str) -> Result<u8, Self::Err> {
        u8::from_str_radix(s, 16)
    }
    fn regex_pattern(&self) -> String {
        "[0-9a-f]+".into()
    }
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}{b}{c}")]
struct With {
    #[display("#{}", opt, with = Hex)]
    a: Option<u8>,
    #[display("/{}", opt)]
    #[from_str(regex_infer)]
    b: Option<i8>,
    c: String,
}
fn o_with(s: &str) -> Option<With> {
    let r = seq(vec![
        lazy_opt(seq(vec![lit("#"), cap(0, plus(set(|c| c.is_ascii_digit() || ('a'..='f').contains(&c))))])),
        lazy_opt(seq(vec![lit("/"), cap(1, seq(vec![opt(set(|c| c == '+' || c == '-')), plus(set(dig))]))])),
        field(2),
    ]);
    let c = full(&r, s)?;
    let a = match get(s, &c, 0) {
        None => None,
        Some(t) => Some(u8::from_str_radix(t, 16).ok()?),
    };
    Some(With { a, b: val(s, &c, 1)?, c: text(s, &c, 2).into() })
}
fn d_with(v: &With) -> String {
    v.a.map_or(String::new(), |a| format!("#{a:x}")) + &v.b.map_or(String::new(), |b| format!("/{b}")) + &v.c
}

// in enum variants
#[derive(Display, FromStr, PartialEq, Debug)]
enum E {
    #[display("a{0}")]
    A(#[display("={}", opt)] Option<u8>),
    #[display("b{x}{y}")]
    B {
        #[display("+{}", opt)]
        x: Option<char>,
        #[display(opt)]
        y: Option<u8>,
    },
    #[display("{0}{1}")]
    C(#[display(opt)] Option<bool>, #[display("?{}", opt)] Option<String>),
}
fn o_e(s: &str) -> Option<E> {
    let a = seq(vec![lit("a"), lazy_opt(seq(vec![lit("="), field(0)]))]);
    if let Some(c) = full(&a, s) {
        if let Some(v) = val(s, &c, 0) {
            return Some(E::A(v));
        }
    }
    let b = seq(vec![lit("b"), lazy_opt(seq(vec![lit("+"), field(0)])), lazy_opt(field(1))]);
    if let Some(c) = full(&b, s) {
        if let (Some(x), Some(y)) = (val(s, &c, 0), val(s, &c, 1)) {
            return Some(E::B { x, y });
        }
    }
    let c = full(&seq(vec![lazy_opt(field(0)), lazy_opt(seq(vec![lit("?"), field(1)]))]), s)?;
    Some(E::C(val(s, &c, 0)?, val(s, &c, 1)?))
}
fn d_e(v: &E) -> String {
    match v {
        E::A(None) => "a".into(),
        E::A(Some(a)) => format!("a={a}"),
        E::B { x, y } => {
            let mut o = String::from("b");
            if let Some(x) = x {
                o.push('+');
                o.push(*x);
            }
            if let Some(y) = y {
                write!(o, "{y}").unwrap();
            }
            o
        }
        E::C(x, y) => {
            let mut o = String::new();
            if let Some(x) = x {
                write!(o, "{x}").unwrap();
            }
            if let Some(y) = y {
                o.push('?');
                o.push_str(y);
            }
            o
        }
    }
}

// derived inner type, generic outer type
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{k}:{v}")]
struct Kv {
    k: char,
    v: u8,
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("<{0}>{1}")]
struct Gen<T, U>(#[display(opt)] Option<T>, #[display("/{}", opt)] Option<U>);
fn o_kv(s: &str) -> Option<Kv> {
    let (a, b) = s.split_once(':')?;
    let mut k = num(a);
    let mut b = b;
    // ':' itself may be the key only if the rest still parses: shortest key first, and "" is no key
    if a.is_empty() {
        let (_, r) = s.split_at(1);
        k = None;
        let _ = r;
        b = &s[1..];
    }
    Some(Kv { k: k?, v: num(b)? })
}
fn o_gen(s: &str) -> Option<Gen<Kv, u8>> {
    let r = seq(vec![lit("<"), lazy_opt(field(0)), lit(">"), lazy_opt(seq(vec![lit("/"), field(1)]))]);
    let c = full(&r, s)?;
    let a = match get(s, &c, 0) {
        None => None,
        Some(t) => Some(o_kv(t)?),
    };
    Some(Gen(a, val(s, &c, 1)?))
}
fn d_gen(v: &Gen<Kv, u8>) -> String {
    let mut o = String::from("<");
    if let Some(k) = &v.0 {
        write!(o, "{}:{}", k.k, k.v).unwrap();
    }
    o.push('>');
    if let Some(k) = &v.1 {
        write!(o, "/{k}").unwrap();
    }
    o
}

// absent beats the type's default; a field not in the format keeps it
#[derive(FromStr, PartialEq, Debug)]
#[display("{a};{b}")]
#[from_str(default)]
struct Def {
    #[display("a{}", opt)]
    a: Option<u8>,
    b: String,
    c: Option<u8>,
}
impl Default for Def {
    fn default() -> Self {
        Def { a: Some(77), b: "dd".into(), c: Some(9) }
    }
}
fn o_def(s: &str) -> Option<Def> {
    let c = full(&seq(vec![lazy_opt(seq(vec![lit("a"), field(0)])), lit(";"), field(1)]), s)?;
    Some(Def { a: val(s, &c, 0)?, b: text(s, &c, 1).into(), c: Some(9) })
}

// a constructor; a derived inner type with an optional part of its own, by its inferred pattern
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0}{1}")]
#[from_str(regex_infer)]
struct In(char, #[display(":{}", opt)] Option<u8>);
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{1}{2}{0}")]
#[from_str(regex_infer, new = (_0 != Some(7)).then_some(Self(_0, _1, _2)))]
struct Con(
    #[display("={}", opt)] Option<u8>,
    #[display("<{}>", opt)] Option<In>,
    #[display(opt)]
    #[from_str(default)]
    Option<bool>,
);
fn uint() -> R {
    seq(vec![opt(lit("+")), plus(set(dig))])
}
fn o_con(s: &str) -> Option<Con> {
    let inner = seq(vec![cap(2, R::Any), lazy_opt(seq(vec![lit(":"), cap(3, uint())]))]);
    let r = seq(vec![
        lazy_opt(seq(vec![lit("<"), cap(1, inner), lit(">")])),
        lazy_opt(cap(4, alt(vec![lit("true"), lit("false")]))),
        lazy_opt(seq(vec![lit("="), cap(0, uint())])),
    ]);
    let c = full(&r, s)?;
    let i = match get(s, &c, 1) {
        None => None,
        Some(t) => {
            // the inner type parses the captured text by itself
            let c = full(&seq(vec![cap(0, R::Any), lazy_opt(seq(vec![lit(":"), cap(1, uint())]))]), t)?;
            Some(In(num(text(t, &c, 0))?, val(t, &c, 1)?))
        }
    };
    let v = Con(val(s, &c, 0)?, i, val(s, &c, 4)?);
    (v.0 != Some(7)).then_some(v)
}
fn d_con(v: &Con) -> String {
    let mut o = String::new();
    if let Some(i) = &v.1 {
        write!(o, "<{}", i.0).unwrap();
        if let Some(k) = i.1 {
            write!(o, ":{k}").unwrap();
        }
        o.push('>');
    }
    if let Some(b) = v.2 {
        write!(o, "{b}").unwrap();
    }
    if let Some(a) = v.0 {
        write!(o, "={a}").unwrap();
    }
    o
}
// the format of the enum; a variant that fails to convert leaves the text to the next
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{}{0}", style = "lowercase")]
enum Com {
    A(#[display("{}", opt)] Option<u8>),
    #[display("{}{k}")]
    Ab {
        #[display("={}", opt)]
        k: Option<char>,
    },
    #[display("a{0}{1}")]
    #[from_str(new = _0.is_some().then_some(Self::N(_0, _1)).ok_or(()))]
    N(
        #[display("({})", opt)]
        #[from_str(regex = "[a-z]*")]
        Option<String>,
        #[display(opt)] Option<String>,
    ),
}
fn o_com(s: &str) -> Option<Com> {
    if let Some(t) = s.strip_prefix('a') {
        if t.is_empty() {
            return Some(Com::A(None));
        }
        if let Some(v) = num(t) {
            return Some(Com::A(Some(v)));
        }
    }
    if let Some(t) = s.strip_prefix("ab") {
        if t.is_empty() {
            return Some(Com::Ab { k: None });
        }
        if let Some(v) = t.strip_prefix('=').and_then(num) {
            return Some(Com::Ab { k: Some(v) });
        }
    }
    let r = seq(vec![lit("a"), lazy_opt(seq(vec![lit("("), cap(0, star(set(|c| c.is_ascii_lowercase()))), lit(")")])), lazy_opt(field(1))]);
    let c = full(&r, s)?;
    let v: Option<String> = val(s, &c, 0)?;
    v.is_some().then_some(Com::N(v, val(s, &c, 1)?))
}
fn d_com(v: &Com) -> String {
    match v {
        Com::A(v) => format!("a{}", v.map_or(String::new(), |v| v.to_string())),
        Com::Ab { k } => format!("ab{}", k.map_or(String::new(), |v| format!("={v}"))),
        Com::N(a, b) => format!("a{}{}", a.as_ref().map_or(String::new(), |v| format!("({v})")), b.as_ref().map_or("", |v| v)),
    }
}
// several times in one display, through different formats
#[derive(Display)]
#[display("{a}{a:>3}{b}|{a:?<2}")]
struct Twice {
    #[display(opt)]
    a: Option<u8>,
    #[display("[{0:x};{0:+}]", opt)]
    b: Option<(u8,)>,
}

// display only: format parameters reach the inner value, None is nothing at all
#[derive(Display)]
#[display("{a:>4}|{b:05}|{c:*^5}|{d:.1}|{e:+}")]
struct Params {
    #[display(opt)]
    a: Option<i8>,
    #[display(opt)]
    b: Option<u8>,
    #[display(opt)]
    c: Option<char>,
    #[display(opt)]
    d: Option<String>,
    #[display("<{:#06x}>", opt)]
    e: Option<u8>,
}
#[derive(Clone)]
struct P {
    x: u8,
    y: (u8, bool),
}
#[derive(Display)]
#[display("{p}{q}")]
struct NestedD {
    #[display("{x:>3}/{y.1}", opt)]
    p: Option<P>,
    #[display("{y.0:02}", opt)]
    q: Option<P>,
}
#[derive(Display)]
enum EParams {
    #[display("{0:<3}{1:>3}.")]
    A(#[display(opt)] Option<u8>, #[display(opt, with = Hex)] Option<u8>),
    #[display("{x:3}{y:#?}.")]
    B {
        #[display("{:?}", opt)]
        x: Option<char>,
        y: Option<bool>,
    },
}
// a borrowed inner type
#[derive(Display)]
#[display("{0:>3}{1}")]
struct Bor<'a>(#[display(opt)] Option<&'a str>, #[display("~{}", opt)] Option<&'a u8>);

fn n() -> usize {
    param(0)
}
macro_rules! cases {
    ($($h:ident $d:ident $t:ty, $o:ident, $do:ident, $v:expr;)*) => {
        harness! {
            $(
                $h => { warm::<$t>(); let s = utf8(n()); parses::<$t>(&s, $o(&s)); }
                $d => { let v: $t = $v; shows(&v, &$do(&v)); }
            )*
            h_def => { warm::<Def>(); let s = utf8(n()); parses::<Def>(&s, o_def(&s)); }
            d_params => {
                let v = Params { a: option(i8), b: option(byte), c: option(ascii_ch), d: option(|| ascii_upto(2)), e: option(byte) };
                let mut o = String::new();
                if let Some(a) = &v.a { write!(o, "{a:>4}").unwrap(); } o.push('|');
                if let Some(b) = &v.b { write!(o, "{b:05}").unwrap(); } o.push('|');
                if let Some(c) = &v.c { write!(o, "{c:*^5}").unwrap(); } o.push('|');
                if let Some(d) = &v.d { write!(o, "{d:.1}").unwrap(); } o.push('|');
                if let Some(e) = &v.e { write!(o, "<{e:#06x}>").unwrap(); }
                shows(&v, &o);
            }
            d_twice => {
                let v = Twice { a: option(byte), b: option(|| (byte(),)) };
                let mut o = String::new();
                if let Some(a) = v.a { write!(o, "{a}{a:>3}").unwrap(); }
                if let Some(b) = v.b { write!(o, "[{:x};{:+}]", b.0, b.0).unwrap(); }
                o.push('|');
                if let Some(a) = v.a { write!(o, "{a:?<2}").unwrap(); }
                shows_fully(&v, &o);
            }
            d_nested => {
                let p = |()| P { x: byte(), y: (byte(), bool()) };
                let v = NestedD { p: option(|| p(())), q: option(|| p(())) };
                let mut o = String::new();
                if let Some(p) = &v.p { write!(o, "{:>3}/{}", p.x, p.y.1).unwrap(); }
                if let Some(q) = &v.q { write!(o, "{:02}", q.y.0).unwrap(); }
                shows(&v, &o);
            }
            d_eparams => {
                let v = if choose(2) == 0 { EParams::A(option(byte), option(byte)) } else { EParams::B { x: option(ascii_ch), y: option(bool) } };
                let mut o = String::new();
                match &v {
                    EParams::A(a, b) => {
                        if let Some(a) = a { write!(o, "{a:<3}").unwrap(); }
                        if let Some(b) = b { write!(o, "{b:x}").unwrap(); }
                    }
                    EParams::B { x, y } => {
                        if let Some(x) = x { write!(o, "{x:?}").unwrap(); }
                        write!(o, "{y:#?}").unwrap();
                    }
                }
                o.push('.');
                shows(&v, &o);
            }
            d_bor => {
                let t = ascii(2);
                let k = byte();
                let v = Bor(option(|| &t[..]), option(|| &k));
                let mut o = String::new();
                if v.0.is_some() { write!(o, "{t:>3}").unwrap(); }
                if v.1.is_some() { write!(o, "~{k}").unwrap(); }
                shows(&v, &o);
            }
        }
    };
}
cases! {
    h_new d_new_ New, o_new, d_new, New { a: option(byte) };
    h_plain d_plain_ Plain, o_plain, d_plain, Plain(option(|| utf8_upto(n())));
    h_two d_two_ Two, o_two, d_two, Two { a: option(|| utf8_upto(n())), b: option(i8) };
    h_sep d_sep_ Sep, o_sep, d_sep, Sep { x: option(byte), y: option(|| utf8_upto(n())), z: option(ch) };
    h_rx d_rx_ Rx, o_rx, d_rx, Rx(option(byte), option(|| utf8_upto(n())), option(ch));
    h_with d_with_ With, o_with, d_with, With { a: option(byte), b: option(i8), c: utf8_upto(n()) };
    h_e d_e_ E, o_e, d_e, match choose(3) { 0 => E::A(option(byte)), 1 => E::B { x: option(ch), y: option(byte) }, _ => E::C(option(bool), option(|| utf8_upto(n()))) };
    h_con d_con_ Con, o_con, d_con, Con(option(byte), option(|| In(ascii_ch(), option(byte))), option(bool));
    h_com d_com_ Com, o_com, d_com, match choose(3) { 0 => Com::A(option(byte)), 1 => Com::Ab { k: option(ch) }, _ => Com::N(option(|| utf8_upto(n())), option(|| ascii(1))) };
    h_gen d_gen_ Gen<Kv, u8>, o_gen, d_gen, Gen(option(|| Kv { k: ch(), v: byte() }), option(byte));
}
