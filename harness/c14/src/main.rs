//! C14: `with` formats display and parse the field they are put on, and decide what it captures.
#![allow(dead_code, non_camel_case_types, deprecated)]
use parse_display::{ANY_REGEX, Display, DisplayFormat, FromStr, FromStrFormat};
use std::fmt;
use std::fmt::Write as _;
use symlib::re::*;
use symlib::*;

fn num<T: std::str::FromStr>(s: &str) -> Option<T> {
    s.parse().ok()
}
fn st(s: &str, c: &Caps, i: usize) -> String {
    text(s, c, i).into()
}
fn dig(c: char) -> bool {
    c.is_ascii_digit()
}
fn low(c: char) -> bool {
    c.is_ascii_lowercase()
}
fn hexd(c: char) -> bool {
    c.is_ascii_digit() || ('a'..='f').contains(&c)
}
fn lazy_opt(r: R) -> R {
    R::Rep(0, 1, false, Box::new(r))
}

// ---------------------------------------------------------------- formats
/// hexadecimal, no pattern of its own
struct Hex;
impl DisplayFormat<u8> for Hex {
    fn write(&self, f: &mut fmt::Formatter, v: &u8) -> fmt::Result {
        write!(f, "{v:x}")
    }
}
impl FromStrFormat<u8> for Hex {
    type Err = std::num::ParseIntError;
    fn parse(&self, s: &str) -> Result<u8, Self::Err> {
        u8::from_str_radix(s, 16)
    }
}
fn hex(s: &str) -> Option<u8> {
    u8::from_str_radix(s, 16).ok()
}
/// one or two hexadecimal digits
struct HexR;
impl DisplayFormat<u8> for HexR {
    fn write(&self, f: &mut fmt::Formatter, v: &u8) -> fmt::Result {
        write!(f, "{v:02x}")
    }
}
impl FromStrFormat<u8> for HexR {
    type Err = std::num::ParseIntError;
    fn parse(&self, s: &str) -> Result<u8, Self::Err> {
        u8::from_str_radix(s, 16)
    }
    fn regex_pattern(&self) -> String {
        "[0-9a-f]{1,2}".into()
    }
}
fn hexr() -> R {
    R::Rep(1, 2, true, Box::new(set(hexd)))
}
/// quotes the text; what it was given shows in the result
struct Quote(char, Option<&'static str>);
impl<T: AsRef<str>> DisplayFormat<T> for Quote {
    fn write(&self, f: &mut fmt::Formatter, v: &T) -> fmt::Result {
        f.write_char(self.0)?;
        f.write_str(v.as_ref())?;
        f.write_char(self.0)
    }
}
impl FromStrFormat<String> for Quote {
    type Err = ();
    fn parse(&self, s: &str) -> Result<String, ()> {
        Ok(format!("{}{}", self.0, s))
    }
    fn regex(&self) -> Option<String> {
        self.1.map(|s| s.into())
    }
}
/// numbered groups inside the pattern
const GRP: Quote = Quote('g', Some("(a(b)?|(c))+"));
fn grp() -> R {
    plus(alt(vec![seq(vec![lit("a"), opt(lit("b"))]), lit("c")]))
}
const ALT: Quote = Quote('|', Some("x|xy|"));
fn alt_() -> R {
    alt(vec![lit("x"), lit("xy"), lit("")])
}
const FLAG: Quote = Quote('i', Some("(?i)q+"));
fn flag() -> R {
    plus(set(|c| c == 'q' || c == 'Q'))
}
const PLAIN: Quote = Quote('\'', None);
const LAZY: Quote = Quote('l', Some("[a-z]*?"));
const DOTS: Quote = Quote('.', Some("."));
const ANYP: Quote = Quote('*', Some(ANY_REGEX));
fn q(c: char, s: &str) -> String {
    format!("{c}{s}")
}
/// a type without Display and FromStr
#[derive(PartialEq, Debug, Clone)]
struct Bare(u8);
struct BareF {
    base: u8,
}
impl DisplayFormat<Bare> for BareF {
    fn write(&self, f: &mut fmt::Formatter, v: &Bare) -> fmt::Result {
        write!(f, "B{}", v.0.wrapping_sub(self.base))
    }
}
impl FromStrFormat<Bare> for BareF {
    type Err = ();
    fn parse(&self, s: &str) -> Result<Bare, ()> {
        let v: u8 = s.strip_prefix('B').ok_or(())?.parse().map_err(|_| ())?;
        Ok(Bare(v.wrapping_add(self.base)))
    }
}
fn bare(s: &str, base: u8) -> Option<Bare> {
    Some(Bare(num::<u8>(s.strip_prefix('B')?)?.wrapping_add(base)))
}

// ---------------------------------------------------------------- types
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}-{b}")]
struct S1 {
    #[display(with = Hex)]
    a: u8,
    b: u8,
}
fn p_s1(s: &str) -> Option<S1> {
    let c = full(&seq(vec![field(0), lit("-"), field(1)]), s)?;
    Some(S1 { a: hex(text(s, &c, 0))?, b: num(text(s, &c, 1))? })
}
fn d_s1(v: &S1) -> String {
    format!("{:x}-{}", v.a, v.b)
}
// newtype; the exact text reaches the format
#[derive(Display, FromStr, PartialEq, Debug)]
struct New(#[display(with = PLAIN)] String);
fn p_new(s: &str) -> Option<New> {
    Some(New(q('\'', s)))
}
fn d_new(v: &New) -> String {
    format!("'{}'", v.0)
}
#[derive(Display, FromStr, PartialEq, Debug)]
struct NewBare {
    #[display(with = BareF { base: 7 })]
    x: Bare,
}
fn p_new_bare(s: &str) -> Option<NewBare> {
    Some(NewBare { x: bare(s, 7)? })
}
fn d_new_bare(v: &NewBare) -> String {
    format!("B{}", v.x.0.wrapping_sub(7))
}
// patterns decide who gets what; tuple fields out of order
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{2}{0}{1}")]
struct Adj(#[display(with = HexR)] u8, String, #[display(with = LAZY)] String);
fn p_adj(s: &str) -> Option<Adj> {
    let c = full(&seq(vec![cap(2, R::Rep(0, usize::MAX, false, Box::new(set(low)))), cap(0, hexr()), field(1)]), s)?;
    Some(Adj(hex(text(s, &c, 0))?, st(s, &c, 1), q('l', text(s, &c, 2))))
}
fn d_adj(v: &Adj) -> String {
    format!("l{}l{:02x}{}", v.2, v.0, v.1)
}
// groups inside the patterns leave the other fields alone
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}{b};{c}{d}")]
struct Groups {
    #[display(with = GRP)]
    a: String,
    #[from_str(regex = "(b|(?<>c*))d?")]
    b: String,
    #[display(with = GRP)]
    c: String,
    d: char,
}
fn p_groups(s: &str) -> Option<Groups> {
    let r = seq(vec![
        cap(0, grp()),
        alt(vec![lit("b"), cap(1, star(lit("c")))]),
        opt(lit("d")),
        lit(";"),
        cap(2, grp()),
        field(3),
    ]);
    let c = full(&r, s)?;
    Some(Groups { a: q('g', text(s, &c, 0)), b: st(s, &c, 1), c: q('g', text(s, &c, 2)), d: num(text(s, &c, 3))? })
}
fn d_groups(v: &Groups) -> String {
    format!("g{}g{};g{}g{}", v.a, v.b, v.c, v.d)
}
// alternatives and flags stay inside
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}{b}y{c}{d}")]
struct Inside {
    #[display(with = ALT)]
    a: String,
    #[display(with = FLAG)]
    b: String,
    #[display(with = ALT)]
    c: String,
    #[display(with = DOTS)]
    d: String,
}
fn p_inside(s: &str) -> Option<Inside> {
    let c = full(&seq(vec![cap(0, alt_()), cap(1, flag()), lit("y"), cap(2, alt_()), cap(3, R::Dot)]), s)?;
    Some(Inside { a: q('|', text(s, &c, 0)), b: q('i', text(s, &c, 1)), c: q('|', text(s, &c, 2)), d: q('.', text(s, &c, 3)) })
}
fn d_inside(v: &Inside) -> String {
    format!("|{}|i{}iy|{}|.{}.", v.a, v.b, v.c, v.d)
}
// a format of the field around it
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a},{b}")]
struct FieldFmt {
    #[display("<{}>", with = ALT)]
    a: String,
    #[display("({{{}", with = Hex)]
    b: u8,
}
fn p_field_fmt(s: &str) -> Option<FieldFmt> {
    let c = full(&seq(vec![lit("<"), cap(0, alt_()), lit(">,({"), field(1)]), s)?;
    Some(FieldFmt { a: q('|', text(s, &c, 0)), b: hex(text(s, &c, 1))? })
}
fn d_field_fmt(v: &FieldFmt) -> String {
    format!("<|{}|>,({{{:x}", v.a, v.b)
}
// opt
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}:{b}")]
struct Opt {
    #[display(opt, with = HexR)]
    a: Option<u8>,
    #[display("={}", opt, with = ALT)]
    b: Option<String>,
}
fn p_opt(s: &str) -> Option<Opt> {
    let c = full(&seq(vec![lazy_opt(cap(0, hexr())), lit(":"), lazy_opt(seq(vec![lit("="), cap(1, alt_())]))]), s)?;
    Some(Opt {
        a: match get(s, &c, 0) {
            Some(t) => Some(hex(t)?),
            None => None,
        },
        b: get(s, &c, 1).map(|t| q('|', t)),
    })
}
fn d_opt(v: &Opt) -> String {
    let mut o = String::new();
    if let Some(a) = v.a {
        write!(o, "{a:02x}").unwrap();
    }
    o.push(':');
    if let Some(b) = &v.b {
        write!(o, "=|{b}|").unwrap();
    }
    o
}
// parsing only
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}/{b}/{c}")]
struct ParseOnly {
    #[from_str(with = HexR)]
    a: u8,
    #[display("#{:03}")]
    #[from_str(with = Hex)]
    b: u8,
    #[display(with = PLAIN)]
    #[from_str(with = ALT)]
    c: String,
}
fn p_parse_only(s: &str) -> Option<ParseOnly> {
    let c = full(&seq(vec![cap(0, hexr()), lit("/#"), field(1), lit("/"), cap(2, alt_())]), s)?;
    Some(ParseOnly { a: hex(text(s, &c, 0))?, b: hex(text(s, &c, 1))?, c: q('|', text(s, &c, 2)) })
}
fn d_parse_only(v: &ParseOnly) -> String {
    format!("{}/#{:03}/'{}'", v.a, v.b, v.c)
}
// `from_str` has priority when parsing, whatever the order of the attributes
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}/{c}{d}{e}")]
struct FromFirst {
    #[from_str(with = HexR)]
    #[display(with = Hex)]
    a: u8,
    #[from_str(with = ALT)]
    #[display(with = PLAIN)]
    c: String,
    #[from_str(with = FLAG)]
    #[display("<{}>", with = PLAIN, opt)]
    d: Option<String>,
    #[from_str(with = PLAIN)]
    #[display(".{}")]
    #[from_str(with = GRP)]
    #[display(with = PLAIN)]
    e: String,
}
fn p_from_first(s: &str) -> Option<FromFirst> {
    let r = seq(vec![
        cap(0, hexr()),
        lit("/"),
        cap(1, alt_()),
        lazy_opt(seq(vec![lit("<"), cap(2, flag()), lit(">")])),
        lit("."),
        cap(3, grp()),
    ]);
    let c = full(&r, s)?;
    Some(FromFirst {
        a: hex(text(s, &c, 0))?,
        c: q('|', text(s, &c, 1)),
        d: get(s, &c, 2).map(|t| q('i', t)),
        e: q('g', text(s, &c, 3)),
    })
}
fn d_from_first(v: &FromFirst) -> String {
    let mut o = format!("{:x}/'{}'", v.a, v.c);
    if let Some(d) = &v.d {
        write!(o, "<'{d}'>").unwrap();
    }
    write!(o, ".'{}'", v.e).unwrap();
    o
}
#[derive(Display, FromStr, PartialEq, Debug)]
enum FromFirstE {
    #[display("{0}:{1}")]
    A(
        #[from_str(with = HexR)]
        #[display(with = Hex)]
        u8,
        #[from_str(with = ALT)]
        #[display(with = PLAIN)]
        String,
    ),
}
fn p_from_first_e(s: &str) -> Option<FromFirstE> {
    let c = full(&seq(vec![cap(0, hexr()), lit(":"), cap(1, alt_())]), s)?;
    Some(FromFirstE::A(hex(text(s, &c, 0))?, q('|', text(s, &c, 1))))
}
fn d_from_first_e(v: &FromFirstE) -> String {
    let FromFirstE::A(a, b) = v;
    format!("{a:x}:'{b}'")
}
// own regex, then the format's pattern, then the inferred one, then the shortest text
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}{b}{c}{d}")]
#[from_str(regex_infer)]
struct Prio {
    #[display(with = HexR)]
    #[from_str(regex = "[0-9]|z(?<>a*)")]
    a: u8,
    #[display(with = GRP)]
    b: String,
    c: u8,
    #[display(with = PLAIN)]
    d: String,
}
fn p_prio(s: &str) -> Option<Prio> {
    let r = seq(vec![
        alt(vec![set(dig), seq(vec![lit("z"), cap(0, star(lit("a")))])]),
        cap(1, grp()),
        cap(2, seq(vec![opt(lit("+")), plus(set(dig))])),
        field(3),
    ]);
    let c = full(&r, s)?;
    Some(Prio { a: hex(text(s, &c, 0))?, b: q('g', text(s, &c, 1)), c: num(text(s, &c, 2))?, d: q('\'', text(s, &c, 3)) })
}
fn d_prio(v: &Prio) -> String {
    format!("{:02x}g{}g{}'{}'", v.a, v.b, v.c, v.d)
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0}{1}{2}")]
struct Prio2(
    #[display(with = ALT)]
    #[from_str(regex_infer)]
    String,
    #[display(with = ANYP)]
    #[from_str(regex_infer)]
    String,
    #[from_str(regex = "[a-z]?", regex_infer)] String,
);
fn p_prio2(s: &str) -> Option<Prio2> {
    let c = full(&seq(vec![cap(0, alt_()), field(1), cap(2, opt(set(low)))]), s)?;
    Some(Prio2(q('|', text(s, &c, 0)), q('*', text(s, &c, 1)), st(s, &c, 2)))
}
fn d_prio2(v: &Prio2) -> String {
    format!("|{}|*{}*{}", v.0, v.1, v.2)
}
// regex and format of the field and with, all together
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0}{1}")]
struct All3(
    #[display("[{}]", with = ALT)]
    #[from_str(regex = "(?:a|b)c?")]
    String,
    #[display("{}!", with = Hex)] u8,
);
fn p_all3(s: &str) -> Option<All3> {
    let r = seq(vec![
        lit("["),
        cap(0, seq(vec![alt(vec![lit("a"), lit("b")]), opt(lit("c"))])),
        lit("]"),
        field(1),
        lit("!"),
    ]);
    let c = full(&r, s)?;
    Some(All3(q('|', text(s, &c, 0)), hex(text(s, &c, 1))?))
}
fn d_all3(v: &All3) -> String {
    format!("[|{}|]{:x}!", v.0, v.1)
}
// enums
#[derive(Display, FromStr, PartialEq, Debug)]
enum E {
    #[display("h{0}")]
    A(#[display(with = HexR)] u8),
    #[display("{x}{y}")]
    B {
        #[display(with = ALT)]
        x: String,
        #[display("-{}", with = BareF { base: 1 })]
        y: Bare,
    },
    #[display("{}={0}{1}")]
    C(#[display(with = GRP)] String, #[display(with = Hex)] u8),
    #[from_str(regex = "r(?<0>[0-9a-z]?)")]
    #[display("r{0}")]
    D(#[display(with = Hex)] u8),
}
fn p_e(s: &str) -> Option<E> {
    if let Some(c) = full(&seq(vec![lit("h"), cap(0, hexr())]), s) {
        if let Some(v) = hex(text(s, &c, 0)) {
            return Some(E::A(v));
        }
    }
    if let Some(c) = full(&seq(vec![cap(0, alt_()), lit("-"), field(1)]), s) {
        if let Some(y) = bare(text(s, &c, 1), 1) {
            return Some(E::B { x: q('|', text(s, &c, 0)), y });
        }
    }
    if let Some(c) = full(&seq(vec![lit("C="), cap(0, grp()), field(1)]), s) {
        if let Some(y) = hex(text(s, &c, 1)) {
            return Some(E::C(q('g', text(s, &c, 0)), y));
        }
    }
    let c = full(&seq(vec![lit("r"), cap(0, opt(set(|c| c.is_ascii_digit() || c.is_ascii_lowercase())))]), s)?;
    Some(E::D(hex(text(s, &c, 0))?))
}
fn d_e(v: &E) -> String {
    match v {
        E::A(x) => format!("h{x:02x}"),
        E::B { x, y } => format!("|{x}|-B{}", y.0.wrapping_sub(1)),
        E::C(a, b) => format!("C=g{a}g{b:x}"),
        E::D(x) => format!("r{x:x}"),
    }
}
// types: a regex of the type names the field, with still converts
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}.{b}")]
#[from_str(regex = "(?<b>[a-c]*)~(?<a>.*)")]
struct TypeRegex {
    #[display(with = Hex)]
    a: u8,
    #[display(with = ALT)]
    b: String,
}
fn p_type_regex(s: &str) -> Option<TypeRegex> {
    let c = full(&seq(vec![cap(1, star(set(|c| ('a'..='c').contains(&c)))), lit("~"), cap(0, star(R::Dot))]), s)?;
    Some(TypeRegex { a: hex(text(s, &c, 0))?, b: q('|', text(s, &c, 1)) })
}
fn d_type_regex(v: &TypeRegex) -> String {
    format!("{:x}.|{}|", v.a, v.b)
}
// default and new
#[derive(Display, FromStr, PartialEq, Debug, Default)]
#[display("{a}")]
#[from_str(default)]
struct Def {
    #[display(with = HexR)]
    a: u8,
    #[display(with = HexR)]
    b: u8,
}
fn p_def(s: &str) -> Option<Def> {
    let c = full(&cap(0, hexr()), s)?;
    Some(Def { a: hex(text(s, &c, 0))?, b: 0 })
}
fn d_def(v: &Def) -> String {
    format!("{:02x}", v.a)
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0}{1}")]
#[from_str(new = Some(Self(_1, _0)))]
struct NewE(#[display(with = GRP)] String, #[display(with = ALT)] String);
fn p_new_e(s: &str) -> Option<NewE> {
    let c = full(&seq(vec![cap(0, grp()), cap(1, alt_())]), s)?;
    Some(NewE(q('|', text(s, &c, 1)), q('g', text(s, &c, 0))))
}
fn d_new_e(v: &NewE) -> String {
    format!("g{}g|{}|", v.0, v.1)
}
// generic and unsized-behind-a-reference uses
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0}:{1}", bound(T: Code))]
struct Gen<T>(#[display(with = Id)] T, #[display(with = Hex)] u8);
struct Id;
trait Code: Sized {
    fn enc(&self) -> u8;
    fn dec(c: char) -> Self;
}
impl Code for Bare {
    fn enc(&self) -> u8 {
        self.0 & 31
    }
    fn dec(c: char) -> Self {
        Bare(c as u32 as u8)
    }
}
impl Code for bool {
    fn enc(&self) -> u8 {
        *self as u8
    }
    fn dec(c: char) -> Self {
        c == 'a'
    }
}
impl<T: Code> DisplayFormat<T> for Id {
    fn write(&self, f: &mut fmt::Formatter, v: &T) -> fmt::Result {
        f.write_char((b'a' + v.enc()) as char)
    }
}
impl<T: Code> FromStrFormat<T> for Id {
    type Err = ();
    fn parse(&self, s: &str) -> Result<T, ()> {
        s.chars().next().map(T::dec).ok_or(())
    }
    fn regex_pattern(&self) -> String {
        "(?s:.)".into()
    }
}
fn p_gen<T: Code>(s: &str) -> Option<Gen<T>> {
    let c = full(&seq(vec![cap(0, R::Any), lit(":"), field(1)]), s)?;
    Some(Gen(T::dec(text(s, &c, 0).chars().next()?), hex(text(s, &c, 1))?))
}
fn d_gen<T: Code>(v: &Gen<T>) -> String {
    format!("{}:{:x}", (b'a' + v.0.enc()) as char, v.1)
}
#[derive(Display)]
#[display("{a:>9}{b}{c:?}{d}{e:4}{g}")]
struct Refs<'a> {
    #[display(with = LEN)]
    e: &'a &'a str,
    #[display("{}!", with = LEN)]
    g: &'a &'a &'a str,
    #[display(with = PLAIN)]
    a: &'a String,
    #[display("{}{}", with = Hex)]
    b: u8,
    c: u8,
    #[display(with = LEN)]
    d: &'a str,
}
struct Len;
const LEN: Len = Len;
impl DisplayFormat<str> for Len {
    fn write(&self, f: &mut fmt::Formatter, v: &str) -> fmt::Result {
        write!(f, "{}", v.len())
    }
}
// an error of the format comes back
struct Fails;
impl DisplayFormat<u8> for Fails {
    fn write(&self, f: &mut fmt::Formatter, v: &u8) -> fmt::Result {
        if *v == 77 { Err(fmt::Error) } else { write!(f, "{v}") }
    }
}
#[derive(Display)]
enum Failing {
    #[display("<{0}>")]
    A(#[display(with = Fails)] u8),
    #[display("{x}")]
    B {
        #[display("[{}]", with = Fails, opt)]
        x: Option<u8>,
    },
}

// the format is one for the whole Option: `opt` is not given
struct Maybe;
impl DisplayFormat<Option<u8>> for Maybe {
    fn write(&self, f: &mut fmt::Formatter, v: &Option<u8>) -> fmt::Result {
        match v {
            Some(v) => write!(f, "!{v}"),
            None => f.write_str("no"),
        }
    }
}
impl FromStrFormat<Option<u8>> for Maybe {
    type Err = ();
    fn parse(&self, s: &str) -> Result<Option<u8>, ()> {
        if s == "no" { Ok(None) } else { s.strip_prefix('!').and_then(num).map(Some).ok_or(()) }
    }
    fn regex(&self) -> Option<String> {
        Some("no|![0-9]*".into())
    }
}
fn maybe(s: &str) -> Option<Option<u8>> {
    Maybe.parse(s).ok()
}
fn d_maybe(v: &Option<u8>) -> String {
    v.map_or("no".into(), |v| format!("!{v}"))
}
fn maybe_r() -> R {
    alt(vec![lit("no"), seq(vec![lit("!"), star(set(dig))])])
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{b}{a}{c}")]
struct WholeOpt {
    #[display(with = Maybe)]
    a: Option<u8>,
    #[display("{}.", with = Maybe)]
    b: Option<u8>,
    #[display("{}", opt)]
    c: Option<String>,
}
fn p_whole_opt(s: &str) -> Option<WholeOpt> {
    let c = full(&seq(vec![cap(1, maybe_r()), lit("."), cap(0, maybe_r()), lazy_opt(field(2))]), s)?;
    Some(WholeOpt { a: maybe(text(s, &c, 0))?, b: maybe(text(s, &c, 1))?, c: get(s, &c, 2).map(|t| t.into()) })
}
fn d_whole_opt(v: &WholeOpt) -> String {
    format!("{}.{}{}", d_maybe(&v.b), d_maybe(&v.a), v.c.clone().unwrap_or_default())
}
// the field itself by the format, and a part of it beside
#[derive(PartialEq, Debug)]
struct Pt {
    x: u8,
    y: (u8, char),
}
struct PtF;
impl DisplayFormat<Pt> for PtF {
    fn write(&self, f: &mut fmt::Formatter, v: &Pt) -> fmt::Result {
        write!(f, "P{}", v.y.0)
    }
}
impl FromStrFormat<Pt> for PtF {
    type Err = ();
    fn parse(&self, s: &str) -> Result<Pt, ()> {
        Ok(Pt { x: 200, y: (s.strip_prefix('P').and_then(num).ok_or(())?, 'd') })
    }
    fn regex(&self) -> Option<String> {
        Some("P(.)?".into())
    }
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{q}{p}")]
struct Beside {
    #[display("{}~{x}", with = PtF)]
    p: Pt,
    #[display("{y.1}{}", with = PtF)]
    q: Pt,
}
fn p_beside(s: &str) -> Option<Beside> {
    let pt = || seq(vec![lit("P"), opt(R::Dot)]);
    let c = full(&seq(vec![field(0), cap(1, pt()), cap(2, pt()), lit("~"), field(3)]), s)?;
    let (mut q, mut p) = (PtF.parse(text(s, &c, 1)).ok()?, PtF.parse(text(s, &c, 2)).ok()?);
    q.y.1 = num(text(s, &c, 0))?;
    p.x = num(text(s, &c, 3))?;
    Some(Beside { p, q })
}
fn d_beside(v: &Beside) -> String {
    format!("{}P{}P{}~{}", v.q.y.1, v.q.y.0, v.p.y.0, v.p.x)
}
// a format of the enum, with constructors, opt, ignored variants and later ones
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{}{0}", style = "lowercase")]
#[from_str(regex_infer)]
enum Common {
    Aa(#[display("={}", with = HexR, opt)] Option<u8>),
    #[from_str(ignore)]
    Ba(#[display(with = Hex)] u8),
    #[from_str(new = (_0 != 10).then_some(Self::Cc(_0)))]
    Cc(#[display("/{}", with = Hex)] u8),
    #[display("{x}{}")]
    Cc2 {
        #[display(with = GRP)]
        #[from_str(with = ALT)]
        x: String,
    },
    #[display(style = "UPPERCASE")]
    Cc3(#[from_str(with = HexR)] u8),
}
fn p_common(s: &str) -> Option<Common> {
    if let Some(c) = full(&seq(vec![lit("aa"), lazy_opt(seq(vec![lit("="), cap(0, hexr())]))]), s) {
        match get(s, &c, 0) {
            None => return Some(Common::Aa(None)),
            Some(t) => if let Some(v) = hex(t) { return Some(Common::Aa(Some(v))) },
        }
    }
    if let Some(t) = s.strip_prefix("cc/") {
        if let Some(v) = hex(t) {
            if v != 10 {
                return Some(Common::Cc(v));
            }
        }
    }
    if let Some(c) = full(&seq(vec![cap(0, alt_()), lit("cc2")]), s) {
        return Some(Common::Cc2 { x: q('|', text(s, &c, 0)) });
    }
    let c = full(&seq(vec![lit("CC3"), cap(0, hexr())]), s)?;
    Some(Common::Cc3(hex(text(s, &c, 0))?))
}
fn d_common(v: &Common) -> String {
    match v {
        Common::Aa(v) => format!("aa{}", v.map_or(String::new(), |v| format!("={v:02x}"))),
        Common::Ba(v) => format!("ba{v:x}"),
        Common::Cc(v) => format!("cc/{v:x}"),
        Common::Cc2 { x } => format!("g{x}gcc2"),
        Common::Cc3(v) => format!("CC3{v}"),
    }
}
// expressions of every kind as formats; the last of two counts
const fn mk(c: char) -> Quote {
    Quote(c, Some("[^,]{0,3}"))
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{r#type},{b},{c}")]
struct Exprs {
    #[display(with = mk('m'))]
    r#type: String,
    #[display(with = PLAIN)]
    #[display(with = Quote { 0: '"', 1: Some("(?s).{2}") })]
    b: String,
    #[display(with = Hex)]
    #[display(with = &HexR)]
    c: u8,
}
impl DisplayFormat<u8> for &HexR {
    fn write(&self, f: &mut fmt::Formatter, v: &u8) -> fmt::Result {
        write!(f, "{v:03x}")
    }
}
impl FromStrFormat<u8> for &HexR {
    type Err = ();
    fn parse(&self, s: &str) -> Result<u8, ()> {
        hex(s).ok_or(())
    }
}
fn p_exprs(s: &str) -> Option<Exprs> {
    let not = R::Rep(0, 3, true, Box::new(set(|c| c != ',')));
    let c = full(&seq(vec![cap(0, not), lit(","), cap(1, seq(vec![R::Any, R::Any])), lit(","), field(2)]), s)?;
    Some(Exprs { r#type: q('m', text(s, &c, 0)), b: q('"', text(s, &c, 1)), c: hex(text(s, &c, 2))? })
}
fn d_exprs(v: &Exprs) -> String {
    format!("m{}m,\"{}\",{:03x}", v.r#type, v.b, v.c)
}

// many values of one format type, with patterns of one length; and of one type and no size
const fn qp(c: char, p: &'static str) -> Quote {
    Quote(c, Some(p))
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{x_1}{x_2}{x_3}{x_10}")]
struct SameType {
    #[display(with = qp('1', "[a-f]*"))]
    x_1: String,
    #[display(with = qp('2', "[0-9]+"))]
    x_2: String,
    #[display(with = qp('3', "[g-z]?"))]
    x_3: String,
    #[display(with = qp('4', "[A-Z]+"))]
    x_10: String,
}
fn p_same_type(s: &str) -> Option<SameType> {
    let r = seq(vec![
        cap(0, star(set(|c| ('a'..='f').contains(&c)))),
        cap(1, plus(set(dig))),
        cap(2, opt(set(|c| ('g'..='z').contains(&c)))),
        cap(3, plus(set(|c| c.is_ascii_uppercase()))),
    ]);
    let c = full(&r, s)?;
    Some(SameType { x_1: q('1', text(s, &c, 0)), x_2: q('2', text(s, &c, 1)), x_3: q('3', text(s, &c, 2)), x_10: q('4', text(s, &c, 3)) })
}
fn d_same_type(v: &SameType) -> String {
    format!("1{}12{}23{}34{}4", v.x_1, v.x_2, v.x_3, v.x_10)
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{11}{0}{1}{2}{3}{10}")]
struct TwelveW(
    #[display(with = qp('0', "[0]?"))] String,
    #[display(with = qp('1', "[1]+"))] String,
    #[display(with = qp('2', "[2]*"))] String,
    #[display(with = Hex)] u8,
    #[from_str(default)] u8,
    #[from_str(default)] u8,
    #[from_str(default)] u8,
    #[from_str(default)] u8,
    #[from_str(default)] u8,
    #[from_str(default)] u8,
    #[display(with = qp('a', "[,;]"))] String,
    #[display(with = HexR)] u8,
);
fn p_twelve_w(s: &str) -> Option<TwelveW> {
    let r = seq(vec![
        cap(5, hexr()),
        cap(0, opt(lit("0"))),
        cap(1, plus(lit("1"))),
        cap(2, star(lit("2"))),
        field(3),
        cap(4, set(|c| c == ',' || c == ';')),
    ]);
    let c = full(&r, s)?;
    let t = |i| text(s, &c, i);
    Some(TwelveW(q('0', t(0)), q('1', t(1)), q('2', t(2)), hex(t(3))?, 0, 0, 0, 0, 0, 0, q('a', t(4)), hex(t(5))?))
}
fn d_twelve_w(v: &TwelveW) -> String {
    format!("{:02x}0{}01{}12{}2{:x}a{}a", v.11, v.0, v.1, v.2, v.3, v.10)
}
// an inferred pattern by the variant or the enum, formats at either and at the fields
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0}{1}")]
enum InferV {
    #[from_str(regex_infer)]
    A(u8, String),
    #[from_str(regex = "[a-z]")]
    #[from_str(regex_infer)]
    #[from_str(ignore)]
    No(String, String),
    B(String, char),
    #[display("-{1}{0}")]
    #[from_str(regex_infer)]
    C(#[display("<{}", with = ALT)] String, i8),
}
fn p_infer_v(s: &str) -> Option<InferV> {
    let n_ = seq(vec![opt(lit("+")), plus(set(dig))]);
    if let Some(c) = full(&seq(vec![cap(0, n_), field(1)]), s) {
        if let Some(x) = num(text(s, &c, 0)) {
            return Some(InferV::A(x, st(s, &c, 1)));
        }
    }
    // the shortest text for the first
    if let Some(c) = full(&seq(vec![field(0), field(1)]), s) {
        if let Some(x) = num(text(s, &c, 1)) {
            return Some(InferV::B(st(s, &c, 0), x));
        }
    }
    let i_ = seq(vec![opt(set(|c| c == '+' || c == '-')), plus(set(dig))]);
    let c = full(&seq(vec![lit("-"), cap(1, i_), lit("<"), cap(0, alt_())]), s)?;
    Some(InferV::C(q('|', text(s, &c, 0)), num(text(s, &c, 1))?))
}
fn d_infer_v(v: &InferV) -> String {
    match v {
        InferV::A(x, y) => format!("{x}{y}"),
        InferV::No(x, y) => format!("{x}{y}"),
        InferV::B(x, y) => format!("{x}{y}"),
        InferV::C(x, y) => format!("-{y}<|{x}|"),
    }
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[from_str(regex_infer)]
enum InferE {
    #[display("{a}{b}{c}")]
    A {
        a: u8,
        #[display("[{}]", with = Hex)]
        b: u8,
        #[display("{}?", opt)]
        c: Option<u8>,
    },
    #[display("{1}{0}")]
    B(#[from_str(regex = "[a-c]*")] String, i8),
}
fn p_infer_e(s: &str) -> Option<InferE> {
    let n_ = || seq(vec![opt(lit("+")), plus(set(dig))]);
    let r = seq(vec![cap(0, n_()), lit("["), field(1), lit("]"), opt(seq(vec![cap(2, n_()), lit("?")]))]);
    if let Some(c) = full(&r, s) {
        if let (Some(a), Some(b)) = (num(text(s, &c, 0)), hex(text(s, &c, 1))) {
            let c = match get(s, &c, 2) {
                None => Some(None),
                Some(t) => num(t).map(Some),
            };
            if let Some(c) = c {
                return Some(InferE::A { a, b, c });
            }
        }
    }
    let i_ = seq(vec![opt(set(|c| c == '+' || c == '-')), plus(set(dig))]);
    let c = full(&seq(vec![cap(1, i_), cap(0, star(set(|c| ('a'..='c').contains(&c))))]), s)?;
    Some(InferE::B(st(s, &c, 0), num(text(s, &c, 1))?))
}
fn d_infer_e(v: &InferE) -> String {
    match v {
        InferE::A { a, b, c } => format!("{a}[{b:x}]{}", c.map_or(String::new(), |c| format!("{c}?"))),
        InferE::B(x, y) => format!("{y}{x}"),
    }
}

fn n() -> usize {
    param(0)
}
macro_rules! cases {
    ($($h:ident $d:ident $t:ty, $o:ident, $do:ident, $v:expr;)*) => {
        harness! {
            $(
                $h => { warm::<$t>(); let s = utf8(n()); parses::<$t>(&s, $o(&s)); }
                $d => { let v: $t = $v; shows(&v, &$do(&v)); }
            )*
            x_refs => {
                let t = utf8(n());
                let v = Refs { a: &t, b: byte(), c: byte(), d: &t, e: &&t[..], g: &&&t[..] };
                shows(&v, &format!("'{t}'{:x}{:x}{:?}{}{}{}!", v.b, v.b, v.c, n(), n(), n()));
            }
            x_failing => {
                let v = if bool() { Failing::A(byte()) } else { Failing::B { x: option(byte) } };
                let mut o = String::new();
                let got = write!(o, "{v}").is_ok();
                let (want, ok) = match &v {
                    Failing::A(77) => ("<".to_string(), false),
                    Failing::A(x) => (format!("<{x}>"), true),
                    Failing::B { x: Some(77) } => ("[".to_string(), false),
                    Failing::B { x: Some(x) } => (format!("[{x}]"), true),
                    Failing::B { x: None } => (String::new(), true),
                };
                reach(3);
                check(got == ok, 10);
                check(o == want, 11);
            }
        }
    };
}
fn t() -> String {
    utf8_upto(n())
}
cases! {
    h_s1 d_s1_ S1, p_s1, d_s1, S1 { a: byte(), b: byte() };
    h_new d_new_ New, p_new, d_new, New(t());
    h_new_bare d_new_bare_ NewBare, p_new_bare, d_new_bare, NewBare { x: Bare(byte()) };
    h_adj d_adj_ Adj, p_adj, d_adj, Adj(byte(), t(), t());
    h_groups d_groups_ Groups, p_groups, d_groups, Groups { a: t(), b: t(), c: t(), d: ascii_ch() };
    h_inside d_inside_ Inside, p_inside, d_inside, Inside { a: t(), b: t(), c: t(), d: t() };
    h_field_fmt d_field_fmt_ FieldFmt, p_field_fmt, d_field_fmt, FieldFmt { a: t(), b: byte() };
    h_opt d_opt_ Opt, p_opt, d_opt, Opt { a: option(byte), b: option(t) };
    h_from_first d_from_first_ FromFirst, p_from_first, d_from_first, FromFirst { a: byte(), c: t(), d: option(t), e: t() };
    h_from_first_e d_from_first_e_ FromFirstE, p_from_first_e, d_from_first_e, FromFirstE::A(byte(), t());
    h_parse_only d_parse_only_ ParseOnly, p_parse_only, d_parse_only, ParseOnly { a: byte(), b: byte(), c: t() };
    h_prio d_prio_ Prio, p_prio, d_prio, Prio { a: byte(), b: t(), c: byte(), d: t() };
    h_prio2 d_prio2_ Prio2, p_prio2, d_prio2, Prio2(t(), t(), t());
    h_all3 d_all3_ All3, p_all3, d_all3, All3(t(), byte());
    h_e d_e_ E, p_e, d_e, match choose(4) { 0 => E::A(byte()), 1 => E::B { x: t(), y: Bare(byte()) }, 2 => E::C(t(), byte()), _ => E::D(byte()) };
    h_type_regex d_type_regex_ TypeRegex, p_type_regex, d_type_regex, TypeRegex { a: byte(), b: t() };
    h_def d_def_ Def, p_def, d_def, Def { a: byte(), b: byte() };
    h_new_e d_new_e_ NewE, p_new_e, d_new_e, NewE(t(), t());
    h_whole_opt d_whole_opt_ WholeOpt, p_whole_opt, d_whole_opt, WholeOpt { a: option(byte), b: option(byte), c: option(t) };
    h_beside d_beside_ Beside, p_beside, d_beside, Beside { p: Pt { x: byte(), y: (byte(), 'z') }, q: Pt { x: 1, y: (byte(), ascii_ch()) } };
    h_common d_common_ Common, p_common, d_common, match choose(5) { 0 => Common::Aa(option(byte)), 1 => Common::Ba(byte()), 2 => Common::Cc(byte()), 3 => Common::Cc2 { x: t() }, _ => Common::Cc3(byte()) };
    h_exprs d_exprs_ Exprs, p_exprs, d_exprs, Exprs { r#type: t(), b: t(), c: byte() };
    h_same_type d_same_type_ SameType, p_same_type, d_same_type, SameType { x_1: t(), x_2: "0".into(), x_3: t(), x_10: t() };
    h_twelve_w d_twelve_w_ TwelveW, p_twelve_w, d_twelve_w, TwelveW(t(), "1".into(), t(), byte(), 0, 0, 0, 0, 0, 0, t(), byte());
    h_infer_v d_infer_v_ InferV, p_infer_v, d_infer_v, match choose(4) { 0 => InferV::A(byte(), t()), 1 => InferV::No(t(), t()), 2 => InferV::B(t(), ascii_ch()), _ => InferV::C(t(), byte() as i8) };
    h_infer_e d_infer_e_ InferE, p_infer_e, d_infer_e, if bool() { InferE::A { a: byte(), b: byte(), c: option(byte) } } else { InferE::B(t(), byte() as i8) };
    h_gen d_gen_ Gen<Bare>, p_gen, d_gen, Gen(Bare(byte()), byte());
    h_gen2 d_gen2_ Gen<bool>, p_gen, d_gen, Gen(bool(), byte());
}
