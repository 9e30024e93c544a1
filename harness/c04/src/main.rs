//! C04: FromStr of an enum. Exact-literal variants first, then the others in declaration order; a
//! variant whose captured text does not convert gives way to the next; ignored variants never come
//! out; Err exactly when no variant accepts.
#![allow(dead_code, unreachable_patterns, non_camel_case_types)]
use parse_display::FromStr;
use symlib::re::*;
use symlib::*;

fn num<T: std::str::FromStr>(s: &str) -> Option<T> {
    s.parse().ok()
}

#[derive(FromStr, PartialEq, Debug)]
enum Lits {
    #[display("aaa")]
    A,
    #[display("ab")]
    B,
    C,
    #[display("a.b")]
    Meta,
    #[display("{{}}")]
    Braces,
    Long1,
}
fn o_lits(s: &str) -> Option<Lits> {
    use Lits::*;
    Some(if s == "aaa" { A } else if s == "ab" { B } else if s == "C" { C } else if s == "a.b" { Meta } else if s == "{}" { Braces } else if s == "Long1" { Long1 } else { return None })
}

#[derive(FromStr, PartialEq, Debug)]
enum Fall {
    #[display("{0}")]
    Num(u8),
    #[display("-{0}")]
    Neg(u8),
    #[display("{0}")]
    Ch(char),
    #[display("t{0}")]
    Tail(String),
}
fn o_fall(s: &str) -> Option<Fall> {
    if let Some(x) = num(s) {
        return Some(Fall::Num(x));
    }
    if let Some(x) = s.strip_prefix('-').and_then(num) {
        return Some(Fall::Neg(x));
    }
    if let Some(x) = num(s) {
        return Some(Fall::Ch(x));
    }
    Some(Fall::Tail(s.strip_prefix('t')?.into()))
}

#[derive(FromStr, PartialEq, Debug)]
enum Order {
    #[display("{0}")]
    Any(String),
    #[display("x")]
    Lit,
    #[display("{0}")]
    Never(u8),
}
fn o_order(s: &str) -> Option<Order> {
    Some(if s == "x" { Order::Lit } else { Order::Any(s.into()) })
}

#[derive(FromStr, PartialEq, Debug)]
enum Overlap {
    #[display("{x},{y}")]
    Two { y: String, x: u8 },
    #[display("{0},{1},{2}")]
    Three(String, u8, String),
    #[display("a{0}")]
    A(String),
    #[display("{0},b")]
    B(String),
}
fn o_overlap(s: &str) -> Option<Overlap> {
    if let Some((a, b)) = s.split_once(',') {
        if let Some(x) = num(a) {
            return Some(Overlap::Two { x, y: b.into() });
        }
        if let Some((c, d)) = b.split_once(',') {
            if let Some(c) = num(c) {
                return Some(Overlap::Three(a.into(), c, d.into()));
            }
        }
    }
    if let Some(x) = s.strip_prefix('a') {
        return Some(Overlap::A(x.into()));
    }
    Some(Overlap::B(s.strip_suffix(",b")?.into()))
}

#[derive(PartialEq, Debug)]
struct NoFromStr;
#[derive(FromStr, PartialEq, Debug)]
enum Ignoring {
    #[from_str(ignore)]
    #[display("a")]
    A,
    #[from_str(ignore)]
    B(NoFromStr),
    #[display("{0}")]
    N(u8),
    #[from_str(ignore)]
    #[display("{0}")]
    S(String),
    #[display("b")]
    Bb,
    #[from_str(ignore)]
    C,
}
fn o_ignoring(s: &str) -> Option<Ignoring> {
    if s == "b" { Some(Ignoring::Bb) } else { Some(Ignoring::N(num(s)?)) }
}
#[derive(FromStr, PartialEq, Debug)]
enum AllIgnored {
    #[from_str(ignore)]
    A,
    #[from_str(ignore)]
    #[display("{0}")]
    B(String),
}

#[derive(FromStr, PartialEq, Debug)]
#[display("{}:{0}")]
enum Shared {
    A(u8),
    Ab(String),
    #[display("{0}")]
    Own(char),
    #[display("{}")]
    Unit,
}
fn o_shared(s: &str) -> Option<Shared> {
    if s == "Unit" {
        return Some(Shared::Unit);
    }
    if let Some(x) = s.strip_prefix("A:").and_then(num) {
        return Some(Shared::A(x));
    }
    if let Some(x) = s.strip_prefix("Ab:") {
        return Some(Shared::Ab(x.into()));
    }
    Some(Shared::Own(num(s)?))
}

#[derive(FromStr, PartialEq, Debug)]
enum Rx {
    #[from_str(regex = "(?<0>[0-9]+)")]
    Digits(u8),
    #[from_str(regex = "(?<0>[0-9a-f]+)|#(?<1>.)")]
    Hex(String, String),
    #[from_str(regex = "r(?<>)+")]
    Rep,
    #[display("{0}")]
    Other(i8),
}
fn o_rx(s: &str) -> Option<Rx> {
    let dig = |c: char| c.is_ascii_digit();
    if !s.is_empty() && s.chars().all(dig) {
        if let Some(x) = num(s) {
            return Some(Rx::Digits(x));
        }
    }
    if !s.is_empty() && s.chars().all(|c| c.is_ascii_digit() || ('a'..='f').contains(&c)) {
        return Some(Rx::Hex(s.into(), String::new()));
    }
    if let Some(r) = s.strip_prefix('#') {
        let mut c = r.chars();
        if let (Some(x), None) = (c.next(), c.next()) {
            if x != '\n' {
                return Some(Rx::Hex(String::new(), r.into()));
            }
        }
    }
    if let Some(mut r) = s.strip_prefix('r') {
        let mut n = 0;
        while let Some(x) = r.strip_prefix("Rep") {
            r = x;
            n += 1;
        }
        if n > 0 && r.is_empty() {
            return Some(Rx::Rep);
        }
    }
    Some(Rx::Other(num(s)?))
}

#[derive(FromStr, PartialEq, Debug)]
enum News {
    #[display("{0}")]
    #[from_str(new = Self::odd(_0))]
    Odd(u8),
    #[display("{v}")]
    #[from_str(new = Self::big(v))]
    Big { v: u8 },
    #[display("u")]
    #[from_str(new = None)]
    NeverUnit,
    #[display("{0}")]
    Rest(String),
}
impl News {
    fn odd(v: u8) -> Option<Self> {
        (v % 2 == 1).then_some(Self::Odd(v))
    }
    fn big(v: u8) -> Result<Self, &'static str> {
        if v > 100 { Ok(Self::Big { v }) } else { Err("small") }
    }
}
fn o_news(s: &str) -> Option<News> {
    Some(match num::<u8>(s) {
        Some(v) if v % 2 == 1 => News::Odd(v),
        Some(v) if v > 100 => News::Big { v },
        _ => News::Rest(s.into()),
    })
}

#[derive(FromStr, PartialEq, Debug)]
enum Gen<T> {
    #[display("<{0}>")]
    A(T),
    #[display("{b}")]
    B { b: char },
    #[display("<>")]
    Nil,
}
fn o_gen(s: &str) -> Option<Gen<u8>> {
    if s == "<>" {
        return Some(Gen::Nil);
    }
    if let Some(x) = s.strip_prefix('<').and_then(|s| s.strip_suffix('>')).and_then(num) {
        return Some(Gen::A(x));
    }
    Some(Gen::B { b: num(s)? })
}
fn o_gen_s(s: &str) -> Option<Gen<String>> {
    if s == "<>" {
        return Some(Gen::Nil);
    }
    if let Some(x) = s.strip_prefix('<').and_then(|s| s.strip_suffix('>')) {
        return Some(Gen::A(x.into()));
    }
    Some(Gen::B { b: num(s)? })
}

#[derive(FromStr, PartialEq, Debug)]
enum In {
    #[display("i{0}")]
    I(u8),
    J,
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{a}/{b}")]
struct InStruct {
    a: In,
    b: Out,
}
#[derive(FromStr, PartialEq, Debug)]
enum Out {
    #[display("{0}")]
    In(In),
    #[display("o{0}")]
    O(In),
}
fn o_in(s: &str) -> Option<In> {
    if s == "J" { Some(In::J) } else { Some(In::I(num(s.strip_prefix('i')?)?)) }
}
fn o_out(s: &str) -> Option<Out> {
    if let Some(x) = o_in(s) {
        return Some(Out::In(x));
    }
    Some(Out::O(o_in(s.strip_prefix('o')?)?))
}
fn o_in_struct(s: &str) -> Option<InStruct> {
    let (a, b) = s.split_once('/')?;
    Some(InStruct { a: o_in(a)?, b: o_out(b)? })
}

// same text for several variants: the first declared
#[derive(FromStr, PartialEq, Debug)]
enum Same {
    #[display("q")]
    A,
    #[display("q")]
    B,
    #[display("q{0}")]
    C(u8),
    #[display("q{0}")]
    D(u8),
    #[display("q{0}")]
    E(String),
    #[display("q{0}")]
    F(String),
}
fn o_same(s: &str) -> Option<Same> {
    if s == "q" {
        return Some(Same::A);
    }
    let r = s.strip_prefix('q')?;
    Some(match num(r) {
        Some(x) => Same::C(x),
        None => Same::E(r.into()),
    })
}
// a variant with several fields where a later field fails
#[derive(FromStr, PartialEq, Debug)]
enum LateFail {
    #[display("{a}{b}{c}")]
    V {
        #[from_str(regex = "[a-z]*")]
        a: String,
        #[from_str(regex = "[0-9]*")]
        b: u8,
        c: String,
    },
    #[display("{b}{a}")]
    W {
        #[from_str(regex = "[0-9]")]
        a: u8,
        b: String,
    },
}
fn o_late(s: &str) -> Option<LateFail> {
    let r = seq(vec![cap(0, star(set(|c| c.is_ascii_lowercase()))), cap(1, star(set(|c| c.is_ascii_digit()))), field(2)]);
    if let Some(c) = full(&r, s) {
        if let Some(b) = num(text(s, &c, 1)) {
            return Some(LateFail::V { a: text(s, &c, 0).into(), b, c: text(s, &c, 2).into() });
        }
    }
    let c = s.chars().last()?;
    if !c.is_ascii_digit() {
        return None;
    }
    Some(LateFail::W { a: c as u8 - b'0', b: s[..s.len() - 1].into() })
}

// ---- ignored variants with the text of a later one: by name, by format, by pattern, by style
#[derive(FromStr, PartialEq, Debug)]
#[display(style = "lowercase")]
enum Hidden {
    #[from_str(ignore)]
    Off,
    #[display("off")]
    No,
    #[from_str(ignore)]
    #[display("{0}")]
    Any(String),
    #[from_str(ignore)]
    #[from_str(regex = "o[a-z]")]
    Rx,
    #[display("on")]
    On(#[from_str(default)] u8),
    #[from_str(ignore)]
    #[display("=")]
    Eq,
    #[display("={0}")]
    Val(String),
    #[from_str(ignore)]
    OffOff,
    #[display("{0}")]
    Rest(char),
}
fn o_hidden(s: &str) -> Option<Hidden> {
    Some(match s {
        "off" => Hidden::No,
        "on" => Hidden::On(0),
        _ => match s.strip_prefix('=') {
            Some(v) => Hidden::Val(v.into()),
            None => Hidden::Rest(num(s)?),
        },
    })
}
#[derive(FromStr, PartialEq, Debug)]
#[display("<{}>")]
enum HiddenFmt {
    #[from_str(ignore)]
    A,
    #[display("<A>")]
    B,
    #[from_str(ignore)]
    #[display("{0}!")]
    C(u8),
    #[display("{0}")]
    D(String),
}
fn o_hidden_fmt(s: &str) -> Option<HiddenFmt> {
    Some(if s == "<A>" { HiddenFmt::B } else { HiddenFmt::D(s.into()) })
}
// ---- many variants of both kinds, mixed
#[derive(FromStr, PartialEq, Debug)]
enum Many {
    #[display("a{0}")]
    P0(i8),
    #[display("a0")]
    K0,
    #[display("a{0}A")]
    Q0(String),
    #[display("b{0}")]
    P1(u8),
    #[display("b1")]
    K1,
    #[display("b{0}B")]
    Q1(String),
    #[display("c{0}")]
    P2(u8),
    #[display("c2")]
    K2,
    #[display("c{0}C")]
    Q2(String),
    #[display("d{0}")]
    P3(i8),
    #[display("d3")]
    K3,
    #[display("d{0}D")]
    Q3(String),
    #[display("e{0}")]
    P4(u8),
    #[display("e4")]
    K4,
    #[display("e{0}E")]
    Q4(String),
    #[display("f{0}")]
    P5(u8),
    #[display("f5")]
    K5,
    #[display("f{0}F")]
    Q5(String),
    #[display("g{0}")]
    P6(i8),
    #[display("g6")]
    K6,
    #[display("g{0}G")]
    Q6(String),
    #[display("h{0}")]
    P7(u8),
    #[display("h7")]
    K7,
    #[display("h{0}H")]
    Q7(String),
    #[display("i{0}")]
    P8(u8),
    #[display("i8")]
    K8,
    #[display("i{0}I")]
    Q8(String),
    #[display("j{0}")]
    P9(i8),
    #[display("j9")]
    K9,
    #[display("j{0}J")]
    Q9(String),
    #[display("a{0}")]
    P10(u8),
    #[display("a10")]
    K10,
    #[display("a{0}K")]
    Q10(String),
    #[display("b{0}")]
    P11(u8),
    #[display("b11")]
    K11,
    #[display("b{0}L")]
    Q11(String),
    #[display("c{0}")]
    P12(i8),
    #[display("c12")]
    K12,
    #[display("c{0}M")]
    Q12(String),
    #[display("d{0}")]
    P13(u8),
    #[display("d13")]
    K13,
    #[display("d{0}N")]
    Q13(String),
    #[display("e{0}")]
    P14(u8),
    #[display("e14")]
    K14,
    #[display("e{0}O")]
    Q14(String),
    #[display("f{0}")]
    P15(i8),
    #[display("f15")]
    K15,
    #[display("f{0}P")]
    Q15(String),
    #[display("g{0}")]
    P16(u8),
    #[display("g16")]
    K16,
    #[display("g{0}Q")]
    Q16(String),
    #[display("h{0}")]
    P17(u8),
    #[display("h17")]
    K17,
    #[display("h{0}R")]
    Q17(String),
    #[display("i{0}")]
    P18(i8),
    #[display("i18")]
    K18,
    #[display("i{0}S")]
    Q18(String),
    #[display("j{0}")]
    P19(u8),
    #[display("j19")]
    K19,
    #[display("j{0}T")]
    Q19(String),
    #[display("a{0}")]
    P20(u8),
    #[display("a20")]
    K20,
    #[display("a{0}U")]
    Q20(String),
    #[display("b{0}")]
    P21(i8),
    #[display("b21")]
    K21,
    #[display("b{0}V")]
    Q21(String),
    #[display("c{0}")]
    P22(u8),
    #[display("c22")]
    K22,
    #[display("c{0}W")]
    Q22(String),
    #[display("d{0}")]
    P23(u8),
    #[display("d23")]
    K23,
    #[display("d{0}X")]
    Q23(String),
}
fn o_many(s: &str) -> Option<Many> {
    if s == "a0" {
        return Some(Many::K0);
    }
    if s == "b1" {
        return Some(Many::K1);
    }
    if s == "c2" {
        return Some(Many::K2);
    }
    if s == "d3" {
        return Some(Many::K3);
    }
    if s == "e4" {
        return Some(Many::K4);
    }
    if s == "f5" {
        return Some(Many::K5);
    }
    if s == "g6" {
        return Some(Many::K6);
    }
    if s == "h7" {
        return Some(Many::K7);
    }
    if s == "i8" {
        return Some(Many::K8);
    }
    if s == "j9" {
        return Some(Many::K9);
    }
    if s == "a10" {
        return Some(Many::K10);
    }
    if s == "b11" {
        return Some(Many::K11);
    }
    if s == "c12" {
        return Some(Many::K12);
    }
    if s == "d13" {
        return Some(Many::K13);
    }
    if s == "e14" {
        return Some(Many::K14);
    }
    if s == "f15" {
        return Some(Many::K15);
    }
    if s == "g16" {
        return Some(Many::K16);
    }
    if s == "h17" {
        return Some(Many::K17);
    }
    if s == "i18" {
        return Some(Many::K18);
    }
    if s == "j19" {
        return Some(Many::K19);
    }
    if s == "a20" {
        return Some(Many::K20);
    }
    if s == "b21" {
        return Some(Many::K21);
    }
    if s == "c22" {
        return Some(Many::K22);
    }
    if s == "d23" {
        return Some(Many::K23);
    }
    if let Some(v) = s.strip_prefix('a').and_then(num) {
        return Some(Many::P0(v));
    }
    if let Some(v) = s.strip_prefix('a').and_then(|s| s.strip_suffix('A')) {
        return Some(Many::Q0(v.into()));
    }
    if let Some(v) = s.strip_prefix('b').and_then(num) {
        return Some(Many::P1(v));
    }
    if let Some(v) = s.strip_prefix('b').and_then(|s| s.strip_suffix('B')) {
        return Some(Many::Q1(v.into()));
    }
    if let Some(v) = s.strip_prefix('c').and_then(num) {
        return Some(Many::P2(v));
    }
    if let Some(v) = s.strip_prefix('c').and_then(|s| s.strip_suffix('C')) {
        return Some(Many::Q2(v.into()));
    }
    if let Some(v) = s.strip_prefix('d').and_then(num) {
        return Some(Many::P3(v));
    }
    if let Some(v) = s.strip_prefix('d').and_then(|s| s.strip_suffix('D')) {
        return Some(Many::Q3(v.into()));
    }
    if let Some(v) = s.strip_prefix('e').and_then(num) {
        return Some(Many::P4(v));
    }
    if let Some(v) = s.strip_prefix('e').and_then(|s| s.strip_suffix('E')) {
        return Some(Many::Q4(v.into()));
    }
    if let Some(v) = s.strip_prefix('f').and_then(num) {
        return Some(Many::P5(v));
    }
    if let Some(v) = s.strip_prefix('f').and_then(|s| s.strip_suffix('F')) {
        return Some(Many::Q5(v.into()));
    }
    if let Some(v) = s.strip_prefix('g').and_then(num) {
        return Some(Many::P6(v));
    }
    if let Some(v) = s.strip_prefix('g').and_then(|s| s.strip_suffix('G')) {
        return Some(Many::Q6(v.into()));
    }
    if let Some(v) = s.strip_prefix('h').and_then(num) {
        return Some(Many::P7(v));
    }
    if let Some(v) = s.strip_prefix('h').and_then(|s| s.strip_suffix('H')) {
        return Some(Many::Q7(v.into()));
    }
    if let Some(v) = s.strip_prefix('i').and_then(num) {
        return Some(Many::P8(v));
    }
    if let Some(v) = s.strip_prefix('i').and_then(|s| s.strip_suffix('I')) {
        return Some(Many::Q8(v.into()));
    }
    if let Some(v) = s.strip_prefix('j').and_then(num) {
        return Some(Many::P9(v));
    }
    if let Some(v) = s.strip_prefix('j').and_then(|s| s.strip_suffix('J')) {
        return Some(Many::Q9(v.into()));
    }
    if let Some(v) = s.strip_prefix('a').and_then(num) {
        return Some(Many::P10(v));
    }
    if let Some(v) = s.strip_prefix('a').and_then(|s| s.strip_suffix('K')) {
        return Some(Many::Q10(v.into()));
    }
    if let Some(v) = s.strip_prefix('b').and_then(num) {
        return Some(Many::P11(v));
    }
    if let Some(v) = s.strip_prefix('b').and_then(|s| s.strip_suffix('L')) {
        return Some(Many::Q11(v.into()));
    }
    if let Some(v) = s.strip_prefix('c').and_then(num) {
        return Some(Many::P12(v));
    }
    if let Some(v) = s.strip_prefix('c').and_then(|s| s.strip_suffix('M')) {
        return Some(Many::Q12(v.into()));
    }
    if let Some(v) = s.strip_prefix('d').and_then(num) {
        return Some(Many::P13(v));
    }
    if let Some(v) = s.strip_prefix('d').and_then(|s| s.strip_suffix('N')) {
        return Some(Many::Q13(v.into()));
    }
    if let Some(v) = s.strip_prefix('e').and_then(num) {
        return Some(Many::P14(v));
    }
    if let Some(v) = s.strip_prefix('e').and_then(|s| s.strip_suffix('O')) {
        return Some(Many::Q14(v.into()));
    }
    if let Some(v) = s.strip_prefix('f').and_then(num) {
        return Some(Many::P15(v));
    }
    if let Some(v) = s.strip_prefix('f').and_then(|s| s.strip_suffix('P')) {
        return Some(Many::Q15(v.into()));
    }
    if let Some(v) = s.strip_prefix('g').and_then(num) {
        return Some(Many::P16(v));
    }
    if let Some(v) = s.strip_prefix('g').and_then(|s| s.strip_suffix('Q')) {
        return Some(Many::Q16(v.into()));
    }
    if let Some(v) = s.strip_prefix('h').and_then(num) {
        return Some(Many::P17(v));
    }
    if let Some(v) = s.strip_prefix('h').and_then(|s| s.strip_suffix('R')) {
        return Some(Many::Q17(v.into()));
    }
    if let Some(v) = s.strip_prefix('i').and_then(num) {
        return Some(Many::P18(v));
    }
    if let Some(v) = s.strip_prefix('i').and_then(|s| s.strip_suffix('S')) {
        return Some(Many::Q18(v.into()));
    }
    if let Some(v) = s.strip_prefix('j').and_then(num) {
        return Some(Many::P19(v));
    }
    if let Some(v) = s.strip_prefix('j').and_then(|s| s.strip_suffix('T')) {
        return Some(Many::Q19(v.into()));
    }
    if let Some(v) = s.strip_prefix('a').and_then(num) {
        return Some(Many::P20(v));
    }
    if let Some(v) = s.strip_prefix('a').and_then(|s| s.strip_suffix('U')) {
        return Some(Many::Q20(v.into()));
    }
    if let Some(v) = s.strip_prefix('b').and_then(num) {
        return Some(Many::P21(v));
    }
    if let Some(v) = s.strip_prefix('b').and_then(|s| s.strip_suffix('V')) {
        return Some(Many::Q21(v.into()));
    }
    if let Some(v) = s.strip_prefix('c').and_then(num) {
        return Some(Many::P22(v));
    }
    if let Some(v) = s.strip_prefix('c').and_then(|s| s.strip_suffix('W')) {
        return Some(Many::Q22(v.into()));
    }
    if let Some(v) = s.strip_prefix('d').and_then(num) {
        return Some(Many::P23(v));
    }
    if let Some(v) = s.strip_prefix('d').and_then(|s| s.strip_suffix('X')) {
        return Some(Many::Q23(v.into()));
    }
    None
}

macro_rules! cases {
    ($($h:ident $u:ident $t:ty, $o:expr;)*) => {
        harness! { $(
            $h => { warm::<$t>(); let s = ascii(param(0)); parses::<$t>(&s, $o(&s)); }
            $u => { warm::<$t>(); let s = utf8(param(0)); parses::<$t>(&s, $o(&s)); }
        )* }
    };
}
cases! {
    h_lits u_lits Lits, o_lits;
    h_fall u_fall Fall, o_fall;
    h_order u_order Order, o_order;
    h_overlap u_overlap Overlap, o_overlap;
    h_ignoring u_ignoring Ignoring, o_ignoring;
    h_all_ignored u_all_ignored AllIgnored, (|_s: &str| None);
    h_shared u_shared Shared, o_shared;
    h_rx u_rx Rx, o_rx;
    h_news u_news News, o_news;
    h_gen u_gen Gen<u8>, o_gen;
    h_gen_s u_gen_s Gen<String>, o_gen_s;
    h_in_struct u_in_struct InStruct, o_in_struct;
    h_same u_same Same, o_same;
    h_late u_late LateFail, o_late;
    h_hidden u_hidden Hidden, o_hidden;
    h_hidden_fmt u_hidden_fmt HiddenFmt, o_hidden_fmt;
    h_many u_many Many, o_many;
}
