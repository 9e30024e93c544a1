//! C16: which format, expression and style applies at a place.
#![allow(dead_code, non_camel_case_types)]
use parse_display::{Display, DisplayFormat, FromStr, FromStrFormat};
use std::fmt;
use symlib::re::*;
use symlib::*;

fn num<T: std::str::FromStr>(s: &str) -> Option<T> {
    s.parse().ok()
}
fn st(s: &str, c: &Caps, i: usize) -> String {
    text(s, c, i).into()
}
fn dig(c: char) -> bool {
    c.is_ascii_digit()
}
fn low(c: char) -> bool {
    c.is_ascii_lowercase()
}
struct Hex;
impl DisplayFormat<u8> for Hex {
    fn write(&self, f: &mut fmt::Formatter, v: &u8) -> fmt::Result {
        write!(f, "{v:x}")
    }
}
impl FromStrFormat<u8> for Hex {
    type Err = std::num::ParseIntError;
    fn parse(&self, s: &str) -> Result<u8, Self::Err> {
        u8::from_str_radix(s, 16)
    }
}
fn hex(s: &str) -> Option<u8> {
    u8::from_str_radix(s, 16).ok()
}
struct Dec;
impl DisplayFormat<u8> for Dec {
    fn write(&self, f: &mut fmt::Formatter, v: &u8) -> fmt::Result {
        write!(f, "d{v}")
    }
}
impl FromStrFormat<u8> for Dec {
    type Err = ();
    fn parse(&self, s: &str) -> Result<u8, ()> {
        s.strip_prefix('d').ok_or(())?.parse().map_err(|_| ())
    }
}

// ---------------------------------------------------------------- enum format, variants override
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("<{}:{0}>", style = "snake_case")]
enum A {
    OneTwo(u8),
    #[display("{0}!{}")]
    XxYy(u8),
    #[display(style = "UPPERCASE")]
    YyZz(#[display("f{}")] u8),
    #[display("{}{0}", style = "Title Case")]
    TtUu(#[display(with = Hex)] u8),
    #[from_str(regex = "(?<>)=(?<0>[0-9])")]
    QqRr(u8),
    #[display("({0})")]
    #[from_str(regex = "\\((?<0>[0-9]*);(?<>)?", regex_infer)]
    #[display(style = "kebab-case")]
    KkLl(u8),
}
fn p_a(s: &str) -> Option<A> {
    let c = full(&seq(vec![lit("<one_two:"), field(0), lit(">")]), s);
    if let Some(v) = c.and_then(|c| num(text(s, &c, 0))) {
        return Some(A::OneTwo(v));
    }
    let c = full(&seq(vec![field(0), lit("!xx_yy")]), s);
    if let Some(v) = c.and_then(|c| num(text(s, &c, 0))) {
        return Some(A::XxYy(v));
    }
    let c = full(&seq(vec![lit("<YYZZ:f"), field(0), lit(">")]), s);
    if let Some(v) = c.and_then(|c| num(text(s, &c, 0))) {
        return Some(A::YyZz(v));
    }
    let c = full(&seq(vec![lit("Tt Uu"), field(0)]), s);
    if let Some(v) = c.and_then(|c| hex(text(s, &c, 0))) {
        return Some(A::TtUu(v));
    }
    let c = full(&seq(vec![lit("qq_rr="), cap(0, set(dig))]), s);
    if let Some(v) = c.and_then(|c| num(text(s, &c, 0))) {
        return Some(A::QqRr(v));
    }
    let c = full(&seq(vec![lit("("), cap(0, star(set(dig))), lit(";"), opt(lit("kk-ll"))]), s);
    c.and_then(|c| num(text(s, &c, 0))).map(A::KkLl)
}
fn d_a(v: &A) -> String {
    match v {
        A::OneTwo(x) => format!("<one_two:{x}>"),
        A::XxYy(x) => format!("{x}!xx_yy"),
        A::YyZz(x) => format!("<YYZZ:f{x}>"),
        A::TtUu(x) => format!("Tt Uu{x:x}"),
        A::QqRr(x) => format!("<qq_rr:{x}>"),
        A::KkLl(x) => format!("({x})"),
    }
}
// ---------------------------------------------------------------- a variant's format over the enum's expression
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("[{}]")]
#[from_str(regex = "(?<>)\\.*")]
#[display(style = "lowercase")]
enum B {
    Ab,
    #[display("x{}")]
    Cd,
    #[from_str(regex = "y(?<>)?")]
    Ef,
    #[display("z")]
    #[from_str(regex = "w+")]
    Gh,
    #[display("{0}")]
    #[from_str(regex = "n(?<0>.)")]
    Ij(char),
    #[display("m{0}")]
    Kl(#[from_str(regex = "a|b")] char),
    #[display(style = "none")]
    Mn,
    #[display(style = "UPPERCASE")]
    #[display("{}{}")]
    Op,
}
fn p_b(s: &str) -> Option<B> {
    // fixed text first
    if s == "xcd" {
        return Some(B::Cd);
    }
    if s == "OPOP" {
        return Some(B::Op);
    }
    if s.trim_end_matches('.') == "ab" {
        return Some(B::Ab);
    }
    if s == "y" || s == "yef" {
        return Some(B::Ef);
    }
    if !s.is_empty() && s.bytes().all(|c| c == b'w') {
        return Some(B::Gh);
    }
    if let Some(c) = full(&seq(vec![lit("n"), cap(0, R::Dot)]), s) {
        return Some(B::Ij(num(text(s, &c, 0))?));
    }
    if s == "ma" || s == "mb" {
        return Some(B::Kl(s.as_bytes()[1] as char));
    }
    if s.trim_end_matches('.') == "Mn" {
        return Some(B::Mn);
    }
    None
}
fn d_b(v: &B) -> String {
    match v {
        B::Ab => "[ab]".into(),
        B::Cd => "xcd".into(),
        B::Ef => "[ef]".into(),
        B::Gh => "z".into(),
        B::Ij(c) => c.to_string(),
        B::Kl(c) => format!("m{c}"),
        B::Mn => "[Mn]".into(),
        B::Op => "OPOP".into(),
    }
}
// ---------------------------------------------------------------- neither: names and single fields
#[derive(Display, FromStr, PartialEq, Debug)]
enum C {
    #[display(style = "snake_case")]
    AbCd,
    ABCd,
    Ab_,
    #[display("{0}")]
    F(u8),
    #[from_str(regex = "k(?<>)")]
    Kk,
}
fn p_c(s: &str) -> Option<C> {
    match s {
        "ab_cd" => Some(C::AbCd),
        "ABCd" => Some(C::ABCd),
        "Ab_" => Some(C::Ab_),
        "kKk" => Some(C::Kk),
        _ => num(s).map(C::F),
    }
}
fn d_c(v: &C) -> String {
    match v {
        C::AbCd => "ab_cd".into(),
        C::ABCd => "ABCd".into(),
        C::Ab_ => "Ab_".into(),
        C::F(x) => x.to_string(),
        C::Kk => "Kk".into(),
    }
}
#[derive(Display, FromStr, PartialEq, Debug)]
struct N1(#[display("<{}>", with = Hex)] u8);
fn p_n1(s: &str) -> Option<N1> {
    Some(N1(hex(s.strip_prefix('<')?.strip_suffix('>')?)?))
}
fn d_n1(v: &N1) -> String {
    format!("<{:x}>", v.0)
}
#[derive(Display, FromStr, PartialEq, Debug)]
struct N2 {
    #[from_str(regex = "[a-z]+")]
    r#type: String,
}
fn p_n2(s: &str) -> Option<N2> {
    full(&plus(set(low)), s).map(|_| N2 { r#type: s.into() })
}
fn d_n2(v: &N2) -> String {
    v.r#type.clone()
}
#[derive(Display, FromStr, PartialEq, Debug)]
struct N3(N1);
fn p_n3(s: &str) -> Option<N3> {
    p_n1(s).map(N3)
}
fn d_n3(v: &N3) -> String {
    d_n1(&v.0)
}
// a type's own expression over everything, a type's format over the newtype rule
#[derive(Display, FromStr, PartialEq, Debug)]
#[from_str(regex = "-(?<0>[a-z]*)")]
struct N4(#[display("<{}>")] String);
fn p_n4(s: &str) -> Option<N4> {
    let c = full(&seq(vec![lit("-"), cap(0, star(set(low)))]), s)?;
    Some(N4(st(s, &c, 0)))
}
fn d_n4(v: &N4) -> String {
    format!("<{}>", v.0)
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("+{0}+")]
struct N5(#[display("<{}>")] String);
fn p_n5(s: &str) -> Option<N5> {
    let c = full(&seq(vec![lit("+<"), field(0), lit(">+")]), s)?;
    Some(N5(st(s, &c, 0)))
}
fn d_n5(v: &N5) -> String {
    format!("+<{}>+", v.0)
}
// ---------------------------------------------------------------- attributes for parsing never show
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}|{b}|{c}")]
#[from_str(regex_infer)]
struct P1 {
    #[from_str(regex = "[0-9]?")]
    a: String,
    #[from_str(with = Hex)]
    b: u8,
    #[from_str(regex = "c(?<>.*)")]
    #[display("c={}")]
    c: String,
}
fn p_p1(s: &str) -> Option<P1> {
    let r = seq(vec![cap(0, opt(set(dig))), lit("|"), field(1), lit("|"), lit("c"), cap(2, star(R::Dot))]);
    let c = full(&r, s)?;
    Some(P1 { a: st(s, &c, 0), b: hex(text(s, &c, 1))?, c: st(s, &c, 2) })
}
fn d_p1(v: &P1) -> String {
    format!("{}|{}|c={}", v.a, v.b, v.c)
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("<{}>")]
enum P2 {
    #[from_str(ignore)]
    Aa,
    #[from_str(regex = "b+")]
    Bb,
    #[from_str(new = None::<P2>)]
    Cc,
    #[from_str(new = P2::Cc)]
    Dd,
    #[display("e{0}{}")]
    #[from_str(regex_infer)]
    Ee(u8),
}
fn p_p2(s: &str) -> Option<P2> {
    if s == "<Dd>" {
        return Some(P2::Cc);
    }
    if !s.is_empty() && s.bytes().all(|c| c == b'b') {
        return Some(P2::Bb);
    }
    let c = full(&seq(vec![lit("e"), cap(0, seq(vec![opt(lit("+")), plus(set(dig))])), lit("Ee")]), s)?;
    Some(P2::Ee(num(text(s, &c, 0))?))
}
fn d_p2(v: &P2) -> String {
    match v {
        P2::Aa => "<Aa>".into(),
        P2::Bb => "<Bb>".into(),
        P2::Cc => "<Cc>".into(),
        P2::Dd => "<Dd>".into(),
        P2::Ee(x) => format!("e{x}Ee"),
    }
}
// only FromStr derived: display formats count for parsing
#[derive(FromStr, PartialEq, Debug)]
#[display("{}-{0}", style = "kebab-case")]
enum F1 {
    AaBb(#[display("[{}]")] u8),
    #[display("{0}")]
    Cc(#[from_str(regex = "[a-z]")] char),
}
fn p_f1(s: &str) -> Option<F1> {
    let c = full(&seq(vec![lit("aa-bb-["), field(0), lit("]")]), s);
    if let Some(v) = c.and_then(|c| num(text(s, &c, 0))) {
        return Some(F1::AaBb(v));
    }
    full(&set(low), s).map(|_| F1::Cc(s.as_bytes()[0] as char))
}
// ---------------------------------------------------------------- repeated attributes
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("1{a}")]
#[display("2{a}{b}")]
#[from_str(regex_infer)]
struct R1 {
    #[display("x{}")]
    #[display("y{}")]
    a: u8,
    #[from_str(regex = "[a-z]")]
    #[from_str(regex = "[a-z]*z")]
    b: String,
}
fn p_r1(s: &str) -> Option<R1> {
    let r = seq(vec![lit("2y"), cap(0, seq(vec![opt(lit("+")), plus(set(dig))])), cap(1, seq(vec![star(set(low)), lit("z")]))]);
    let c = full(&r, s)?;
    Some(R1 { a: num(text(s, &c, 0))?, b: st(s, &c, 1) })
}
fn d_r1(v: &R1) -> String {
    format!("2y{}{}", v.a, v.b)
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[display(style = "UPPERCASE")]
#[display("<{}>")]
#[display(style = "snake_case")]
enum R2 {
    AaBb,
    #[display(style = "kebab-case")]
    #[display("({})")]
    #[display(style = "Title Case")]
    CcDd,
    #[display("({})")]
    #[display("[{}]", style = "camelCase")]
    EeFf,
    #[from_str(regex = "q(?<>)")]
    #[from_str(regex = "r(?<>)?")]
    GgHh,
    #[display("1{0}")]
    #[display("2{0}")]
    I(#[display(with = Hex)] #[display(with = Dec)] u8),
}
fn p_r2(s: &str) -> Option<R2> {
    match s {
        "<aa_bb>" => Some(R2::AaBb),
        "(Cc Dd)" => Some(R2::CcDd),
        "[eeFf]" => Some(R2::EeFf),
        "r" | "rgg_hh" => Some(R2::GgHh),
        _ => num(s.strip_prefix("2d")?).map(R2::I),
    }
}
fn d_r2(v: &R2) -> String {
    match v {
        R2::AaBb => "<aa_bb>".into(),
        R2::CcDd => "(Cc Dd)".into(),
        R2::EeFf => "[eeFf]".into(),
        R2::GgHh => "<gg_hh>".into(),
        R2::I(x) => format!("2d{x}"),
    }
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}{b}")]
#[from_str(regex = "(?<a>a)(?<b>.)")]
#[from_str(regex = "(?<b>.),(?<a>.)")]
#[from_str(new = Some(Self { a: b, b: a }))]
#[from_str(new = Ok::<Self, ()>(Self { a, b }))]
struct R3 {
    a: char,
    b: char,
}
fn p_r3(s: &str) -> Option<R3> {
    let c = full(&seq(vec![cap(1, R::Dot), lit(","), cap(0, R::Dot)]), s)?;
    Some(R3 { a: num(text(s, &c, 0))?, b: num(text(s, &c, 1))? })
}
fn d_r3(v: &R3) -> String {
    format!("{}{}", v.a, v.b)
}
// attributes of one kind leave those of another alone
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{x}/{y}")]
struct I1 {
    #[display(with = Hex)]
    #[display("#{}")]
    #[from_str(regex = "[0-9a-f]{2}")]
    x: u8,
    #[display("{}!")]
    #[from_str(with = Hex)]
    #[display(opt)]
    y: Option<u8>,
}
fn p_i1(s: &str) -> Option<I1> {
    let h = |c: char| c.is_ascii_digit() || ('a'..='f').contains(&c);
    let r = seq(vec![
        lit("#"),
        cap(0, R::Rep(2, 2, true, Box::new(set(h)))),
        lit("/"),
        R::Rep(0, 1, false, Box::new(seq(vec![field(1), lit("!")]))),
    ]);
    let c = full(&r, s)?;
    Some(I1 {
        x: hex(text(s, &c, 0))?,
        y: match get(s, &c, 1) {
            Some(t) => Some(hex(t)?),
            None => None,
        },
    })
}
fn d_i1(v: &I1) -> String {
    match v.y {
        Some(y) => format!("#{:x}/{}!", v.x, y),
        None => format!("#{:x}/", v.x),
    }
}
// the enum's regex_infer and the variant's
#[derive(FromStr, PartialEq, Debug)]
enum Inf1 {
    #[display("{0}{1}")]
    A(u8, String),
    #[from_str(regex_infer)]
    #[display("-{0}{1}")]
    B(u8, String),
    #[display("={0}{1}")]
    C(#[from_str(regex_infer)] u8, String),
}
fn uint() -> R {
    seq(vec![opt(lit("+")), plus(set(dig))])
}
fn p_inf1(s: &str) -> Option<Inf1> {
    // A: the first field is always empty, so it never converts
    for (l, k) in [("-", 0), ("=", 1)] {
        if let Some(c) = full(&seq(vec![lit(l), cap(0, uint()), field(1)]), s) {
            let v: u8 = num(text(s, &c, 0))?;
            return Some(if k == 0 { Inf1::B(v, st(s, &c, 1)) } else { Inf1::C(v, st(s, &c, 1)) });
        }
    }
    None
}
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex_infer)]
#[display("{}{0}{1}")]
enum Inf2 {
    A(u8, String),
    #[display("-{0}{1}")]
    B(#[from_str(regex = "")] String, char),
    C(#[from_str(regex = "x+")] String, bool),
}
fn p_inf2(s: &str) -> Option<Inf2> {
    if let Some(c) = full(&seq(vec![lit("A"), cap(0, uint()), field(1)]), s) {
        if let Some(v) = num(text(s, &c, 0)) {
            return Some(Inf2::A(v, st(s, &c, 1)));
        }
    }
    if let Some(c) = full(&seq(vec![lit("-"), cap(1, R::Any)]), s) {
        return Some(Inf2::B(String::new(), num(text(s, &c, 1))?));
    }
    let c = full(&seq(vec![lit("C"), cap(0, plus(lit("x"))), cap(1, alt(vec![lit("true"), lit("false")]))]), s)?;
    Some(Inf2::C(st(s, &c, 0), num(text(s, &c, 1))?))
}

fn n() -> usize {
    param(0)
}
fn t() -> String {
    utf8_upto(n())
}
macro_rules! cases {
    ($($h:ident $d:ident $t:ty, $o:ident, $do:ident, $v:expr;)*) => {
        harness! {
            $(
                $h => { warm::<$t>(); let s = utf8(n()); parses::<$t>(&s, $o(&s)); }
                $d => { let v: $t = $v; shows(&v, &$do(&v)); }
            )*
            h_f1 => { warm::<F1>(); let s = utf8(n()); parses::<F1>(&s, p_f1(&s)); }
            h_inf1 => { warm::<Inf1>(); let s = utf8(n()); parses::<Inf1>(&s, p_inf1(&s)); }
            h_inf2 => { warm::<Inf2>(); let s = utf8(n()); parses::<Inf2>(&s, p_inf2(&s)); }
        }
    };
}
cases! {
    h_a d_a_ A, p_a, d_a, match choose(6) { 0 => A::OneTwo(byte()), 1 => A::XxYy(byte()), 2 => A::YyZz(byte()), 3 => A::TtUu(byte()), 4 => A::QqRr(byte()), _ => A::KkLl(byte()) };
    h_b d_b_ B, p_b, d_b, match choose(8) { 0 => B::Ab, 1 => B::Cd, 2 => B::Ef, 3 => B::Gh, 4 => B::Ij(ch()), 5 => B::Kl(ch()), 6 => B::Mn, _ => B::Op };
    h_c d_c_ C, p_c, d_c, match choose(5) { 0 => C::AbCd, 1 => C::ABCd, 2 => C::Ab_, 3 => C::F(byte()), _ => C::Kk };
    h_n1 d_n1_ N1, p_n1, d_n1, N1(byte());
    h_n2 d_n2_ N2, p_n2, d_n2, N2 { r#type: t() };
    h_n3 d_n3_ N3, p_n3, d_n3, N3(N1(byte()));
    h_n4 d_n4_ N4, p_n4, d_n4, N4(t());
    h_n5 d_n5_ N5, p_n5, d_n5, N5(t());
    h_p1 d_p1_ P1, p_p1, d_p1, P1 { a: t(), b: byte(), c: t() };
    h_p2 d_p2_ P2, p_p2, d_p2, match choose(5) { 0 => P2::Aa, 1 => P2::Bb, 2 => P2::Cc, 3 => P2::Dd, _ => P2::Ee(byte()) };
    h_r1 d_r1_ R1, p_r1, d_r1, R1 { a: byte(), b: t() };
    h_r2 d_r2_ R2, p_r2, d_r2, match choose(5) { 0 => R2::AaBb, 1 => R2::CcDd, 2 => R2::EeFf, 3 => R2::GgHh, _ => R2::I(byte()) };
    h_r3 d_r3_ R3, p_r3, d_r3, R3 { a: ch(), b: ch() };
    h_i1 d_i1_ I1, p_i1, d_i1, I1 { x: byte(), y: option(byte) };
}
