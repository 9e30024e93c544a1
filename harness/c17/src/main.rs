//! C17: what a parse error says.
#![allow(dead_code, non_camel_case_types)]
use parse_display::{FromStr, FromStrFormat, ParseError};
use symlib::re::*;
use symlib::*;

fn ok<T: std::str::FromStr>(s: &str) -> bool {
    s.parse::<T>().is_ok()
}
fn dig(c: char) -> bool {
    c.is_ascii_digit()
}
fn lazy_opt(r: R) -> R {
    R::Rep(0, 1, false, Box::new(r))
}
fn uint() -> R {
    seq(vec![opt(lit("+")), plus(set(dig))])
}
struct Hex;
impl FromStrFormat<u8> for Hex {
    type Err = ();
    fn parse(&self, s: &str) -> Result<u8, ()> {
        u8::from_str_radix(s, 16).map_err(|_| ())
    }
}

/// What must come out: a value, "no match", or one of the named fields.
enum Want {
    Value,
    NoMatch,
    Fields(Vec<&'static str>),
}
use Want::*;
fn fields(v: &[(&'static str, bool)]) -> Want {
    let bad: Vec<_> = v.iter().filter(|x| !x.1).map(|x| x.0).collect();
    if bad.is_empty() { Value } else { Fields(bad) }
}

#[derive(FromStr)]
#[display("{a}-{b}")]
struct S1 {
    b: u8,
    a: char,
}
fn o_s1(s: &str) -> Want {
    let Some(c) = full(&seq(vec![field(0), lit("-"), field(1)]), s) else { return NoMatch };
    fields(&[("a", ok::<char>(text(s, &c, 0))), ("b", ok::<u8>(text(s, &c, 1)))])
}
#[derive(FromStr)]
#[display("{2},{0},{1}")]
struct T1(u8, String, char);
fn o_t1(s: &str) -> Want {
    let Some(c) = full(&seq(vec![field(2), lit(","), field(0), lit(","), field(1)]), s) else { return NoMatch };
    fields(&[("0", ok::<u8>(text(s, &c, 0))), ("2", ok::<char>(text(s, &c, 2)))])
}
#[derive(FromStr)]
struct New(u8);
fn o_new(s: &str) -> Want {
    fields(&[("0", ok::<u8>(s))])
}
#[derive(FromStr)]
struct NewR {
    r#type: bool,
}
fn o_new_r(s: &str) -> Want {
    fields(&[("type", ok::<bool>(s))])
}
#[derive(FromStr)]
#[display("{0}.{1}.{2}.{3}.{4}.{5}.{6}.{7}.{8}.{9}.{10}")]
struct T11(char, char, char, char, char, char, char, char, char, char, u8);
fn o_t11(s: &str) -> Want {
    const N: [&str; 11] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10"];
    // shortest text for each field: up to the next dot; the last takes the rest
    let p: Vec<&str> = s.splitn(11, '.').collect();
    if p.len() < 11 {
        return NoMatch;
    }
    let mut v = vec![];
    for i in 0..11 {
        v.push((N[i], if i == 10 { ok::<u8>(p[i]) } else { ok::<char>(p[i]) }));
    }
    fields(&v)
}
#[derive(FromStr)]
#[display("<{x}|{yy}>")]
struct With {
    #[from_str(with = Hex)]
    x: u8,
    #[display("={}", opt)]
    yy: Option<u8>,
}
fn o_with(s: &str) -> Want {
    let r = seq(vec![lit("<"), field(0), lit("|"), lazy_opt(seq(vec![lit("="), field(1)])), lit(">")]);
    let Some(c) = full(&r, s) else { return NoMatch };
    fields(&[("x", u8::from_str_radix(text(s, &c, 0), 16).is_ok()), ("yy", get(s, &c, 1).is_none_or(ok::<u8>))])
}
#[derive(FromStr)]
#[display("{a}{b}")]
#[from_str(regex_infer)]
struct Inf {
    a: u8,
    #[from_str(regex = "[a-c]*")]
    b: char,
}
fn o_inf(s: &str) -> Want {
    let Some(c) = full(&seq(vec![cap(0, uint()), cap(1, star(set(|c| ('a'..='c').contains(&c))))]), s) else { return NoMatch };
    fields(&[("a", ok::<u8>(text(s, &c, 0))), ("b", ok::<char>(text(s, &c, 1)))])
}
#[derive(FromStr)]
#[from_str(regex = "(?<b>.*)/(?<a>.*)|z(?<a2>.)")]
struct Rx {
    a: u8,
    a2: String,
    b: char,
}
fn o_rx(s: &str) -> Want {
    let r = alt(vec![
        seq(vec![cap(0, star(R::Dot)), lit("/"), cap(1, star(R::Dot))]),
        seq(vec![lit("z"), R::Dot]),
    ]);
    let Some(c) = full(&r, s) else { return NoMatch };
    fields(&[("a", ok::<u8>(text(s, &c, 1))), ("b", ok::<char>(text(s, &c, 0)))])
}
// nested
#[derive(Default)]
struct P {
    x: u8,
    y: (char, u8),
}
#[derive(FromStr)]
#[display("{p.x}/{q}")]
struct Nest {
    #[from_str(default)]
    #[display("unused")]
    p: P,
    #[from_str(default)]
    #[display("{y.1}:{y.0}")]
    q: P,
}
fn o_nest(s: &str) -> Want {
    let Some(c) = full(&seq(vec![field(0), lit("/"), field(1), lit(":"), field(2)]), s) else { return NoMatch };
    fields(&[
        ("p.x", ok::<u8>(text(s, &c, 0))),
        ("q.y.1", ok::<u8>(text(s, &c, 1))),
        ("q.y.0", ok::<char>(text(s, &c, 2))),
    ])
}
#[derive(FromStr, Default)]
#[display("{0.y.0};{1}")]
#[from_str(default)]
struct NestT(P, u8, u8);
fn o_nest_t(s: &str) -> Want {
    let Some(c) = full(&seq(vec![field(0), lit(";"), field(1)]), s) else { return NoMatch };
    fields(&[("0.y.0", ok::<char>(text(s, &c, 0))), ("1", ok::<u8>(text(s, &c, 1)))])
}
// a constructor that refuses
#[derive(FromStr)]
#[from_str(new = (a > b).then_some(Self { a, b }))]
#[display("{a}:{b}")]
struct NewE {
    a: u8,
    b: u8,
}
fn o_new_e(s: &str) -> Want {
    let Some(c) = full(&seq(vec![field(0), lit(":"), field(1)]), s) else { return NoMatch };
    let (a, b) = (text(s, &c, 0).parse::<u8>(), text(s, &c, 1).parse::<u8>());
    match (&a, &b) {
        (Ok(a), Ok(b)) => if a > b { Value } else { NoMatch },
        _ => fields(&[("a", a.is_ok()), ("b", b.is_ok())]),
    }
}
// a failing inner type is the failing field; its own message does not matter
#[derive(FromStr)]
#[display("({i})")]
struct Outer {
    i: S1,
}
fn o_outer(s: &str) -> Want {
    let Some(c) = full(&seq(vec![lit("("), field(0), lit(")")]), s) else { return NoMatch };
    fields(&[("i", matches!(o_s1(text(s, &c, 0)), Value))])
}
#[derive(FromStr)]
#[display("x[{{y")]
struct Fixed;
fn o_fixed(s: &str) -> Want {
    if s == "x[{y" { Value } else { NoMatch }
}
#[derive(FromStr)]
#[display("{0}")]
struct Gen<T>(T);
fn o_gen(s: &str) -> Want {
    fields(&[("0", ok::<char>(s))])
}
// opt fields beside uncaptured ones, starting from defaults
#[derive(FromStr)]
#[display("{q}{z}")]
#[from_str(default)]
struct DefOpt {
    a: u8,
    b: char,
    #[display("-{}", opt)]
    z: Option<u8>,
    #[from_str(default)]
    #[display("={}", opt, with = Hex2)]
    q: Option<u8>,
}
impl Default for DefOpt {
    fn default() -> Self {
        DefOpt { a: 1, b: 'x', z: Some(2), q: None }
    }
}
struct Hex2;
impl FromStrFormat<u8> for Hex2 {
    type Err = ();
    fn parse(&self, s: &str) -> Result<u8, ()> {
        Hex.parse(s)
    }
    fn regex(&self) -> Option<String> {
        Some("[^-]+".into())
    }
}
impl parse_display::DisplayFormat<u8> for Hex2 {
    fn write(&self, f: &mut std::fmt::Formatter, v: &u8) -> std::fmt::Result {
        write!(f, "{v:x}")
    }
}
fn o_def_opt(s: &str) -> Want {
    let r = seq(vec![
        lazy_opt(seq(vec![lit("="), cap(0, plus(set(|c| c != '-')))])),
        lazy_opt(seq(vec![lit("-"), field(1)])),
    ]);
    let Some(c) = full(&r, s) else { return NoMatch };
    fields(&[("q", get(s, &c, 0).is_none_or(|t| u8::from_str_radix(t, 16).is_ok())), ("z", get(s, &c, 1).is_none_or(ok::<u8>))])
}
// tuple with a default, out of order, opt, own regex
#[derive(FromStr)]
#[display("{3}{1}")]
#[from_str(default)]
struct DefT(u8, #[from_str(regex = "[0-9x]*")] u8, char, #[display("{},", opt)] Option<char>);
impl Default for DefT {
    fn default() -> Self {
        DefT(0, 1, 'c', None)
    }
}
fn o_def_t(s: &str) -> Want {
    let r = seq(vec![lazy_opt(seq(vec![field(0), lit(",")])), cap(1, star(set(|c| c == 'x' || c.is_ascii_digit())))]);
    let Some(c) = full(&r, s) else { return NoMatch };
    fields(&[("3", get(s, &c, 0).is_none_or(ok::<char>)), ("1", ok::<u8>(text(s, &c, 1)))])
}
// the fields of a constructor, opt, nested and raw
#[derive(FromStr)]
#[display("{r#fn}:{o}{d}")]
#[from_str(new = Ok::<_, ()>(NewO { o, r#fn, d }))]
struct NewO {
    r#fn: u8,
    #[display("[{}]", opt)]
    o: Option<u8>,
    #[from_str(default)]
    #[display("{y.1}", )]
    d: P,
}
fn o_new_o(s: &str) -> Want {
    let r = seq(vec![field(0), lit(":"), lazy_opt(seq(vec![lit("["), field(1), lit("]")])), field(2)]);
    let Some(c) = full(&r, s) else { return NoMatch };
    fields(&[
        ("fn", ok::<u8>(text(s, &c, 0))),
        ("o", get(s, &c, 1).is_none_or(ok::<u8>)),
        ("d.y.1", ok::<u8>(text(s, &c, 2))),
    ])
}
// whole field and a part of it, both captured
#[derive(FromStr)]
#[display("{p}~{p.x}~{p.y.0}")]
struct Both {
    #[from_str(with = Pf)]
    p: P,
}
struct Pf;
impl FromStrFormat<P> for Pf {
    type Err = ();
    fn parse(&self, s: &str) -> Result<P, ()> {
        if s.is_empty() { Ok(P::default()) } else { Err(()) }
    }
}
fn o_both(s: &str) -> Want {
    let Some(c) = full(&seq(vec![field(0), lit("~"), field(1), lit("~"), field(2)]), s) else { return NoMatch };
    fields(&[
        ("p", text(s, &c, 0).is_empty()),
        ("p.x", ok::<u8>(text(s, &c, 1))),
        ("p.y.0", ok::<char>(text(s, &c, 2))),
    ])
}
// a pattern for the whole type, unmatched groups
#[derive(FromStr)]
#[from_str(regex = "(?<a>x|y)?(?<b>[0-9]{3})|(?<c>.)(?<b2>..)")]
struct Alts {
    #[from_str(with = Opt1)]
    a: u8,
    #[from_str(with = Opt1)]
    c: u8,
    b: Num,
    b2: Num,
}
struct Num(Option<u8>);
impl std::str::FromStr for Num {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        if s.is_empty() { Ok(Num(None)) } else { s.parse().map(|v| Num(Some(v))).map_err(|_| ()) }
    }
}
struct Opt1;
impl FromStrFormat<u8> for Opt1 {
    type Err = ();
    fn parse(&self, s: &str) -> Result<u8, ()> {
        if s == "y" || s == "!" { Err(()) } else { Ok(0) }
    }
}
fn o_alts(s: &str) -> Want {
    let d = || set(dig);
    let r = alt(vec![
        seq(vec![R::Rep(0, 1, true, Box::new(cap(0, set(|c| c == 'x' || c == 'y')))), cap(1, seq(vec![d(), d(), d()]))]),
        seq(vec![cap(2, R::Dot), cap(3, seq(vec![R::Dot, R::Dot]))]),
    ]);
    let Some(c) = full(&r, s) else { return NoMatch };
    let t = |i| get(s, &c, i).unwrap_or("");
    let num = |t: &str| t.is_empty() || ok::<u8>(t);
    fields(&[("a", t(0) != "y"), ("b", num(t(1))), ("c", t(2) != "!" && t(2) != "y"), ("b2", num(t(3)))])
}
// enums never name a field
#[derive(FromStr)]
#[from_str(regex_infer)]
enum E4 {
    #[display("{0}{1}")]
    A(#[display("{},", opt)] Option<u8>, u8),
    #[display("{}{a}", style = "lowercase")]
    Bee {
        #[from_str(regex = "[a-z]+")]
        a: char,
        #[from_str(default)]
        b: u8,
    },
    #[from_str(new = (p == '7').then_some(E4::N { p }))]
    #[display("n{p}")]
    N {
        p: char,
    },
}
impl Default for E4 {
    fn default() -> Self {
        E4::N { p: '7' }
    }
}
fn o_e4(s: &str) -> Want {
    let r = seq(vec![lazy_opt(seq(vec![cap(0, uint()), lit(",")])), cap(1, uint())]);
    if let Some(c) = full(&r, s) {
        if get(s, &c, 0).is_none_or(ok::<u8>) && ok::<u8>(text(s, &c, 1)) {
            return Value;
        }
    }
    if s == "n7" || s.len() == 4 && s.starts_with("bee") && s.as_bytes()[3].is_ascii_lowercase() { Value } else { NoMatch }
}
#[derive(FromStr)]
enum E1 {
    Aa,
    #[display("<{0}>")]
    B(u8),
    #[display("-{x}{y}")]
    C {
        x: char,
        y: u8,
    },
    #[from_str(ignore)]
    D,
}
fn o_e1(s: &str) -> Want {
    if s == "Aa" {
        return Value;
    }
    if let Some(c) = full(&seq(vec![lit("<"), field(0), lit(">")]), s) {
        if ok::<u8>(text(s, &c, 0)) {
            return Value;
        }
    }
    NoMatch
}
#[derive(FromStr)]
enum E2 {
    #[display("{0}")]
    A(u8),
}
fn o_e2(s: &str) -> Want {
    if ok::<u8>(s) { Value } else { NoMatch }
}
#[derive(FromStr)]
enum E3 {
    #[from_str(new = None::<E3>)]
    A,
}
fn o_e3(_: &str) -> Want {
    NoMatch
}
#[derive(FromStr)]
struct WrapE(E2);
fn o_wrap_e(s: &str) -> Want {
    fields(&[("0", ok::<u8>(s))])
}

fn judge<T: std::str::FromStr<Err = ParseError>>(s: &str, want: Want) {
    match (T::from_str(s), want) {
        (Ok(_), Value) => {
            reach(1);
            check(true, 1);
        }
        (Err(e), NoMatch) => {
            reach(2);
            let m = e.to_string();
            obs_str(&m);
            check(m == "parse failed.", 2);
        }
        (Err(e), Fields(f)) => {
            reach(3);
            let m = e.to_string();
            obs_str(&m);
            let mut found = false;
            for x in f {
                found |= m == format!("field `{x}` parse failed.");
            }
            check(found, 3);
        }
        _ => check(false, 4),
    }
}
macro_rules! cases {
    ($($h:ident $t:ty, $o:ident;)*) => {
        harness! {
            $( $h => { warm::<$t>(); let s = utf8(param(0)); judge::<$t>(&s, $o(&s)); } )*
            // eleven fields: any one of them with any text
            h_t11 => {
                warm::<T11>();
                let k = choose(11);
                let mut s = String::new();
                for i in 0..11 {
                    if i > 0 {
                        s.push('.');
                    }
                    if i == k {
                        s.push_str(&utf8_upto(param(0)));
                    } else {
                        s.push(if i == 10 { '7' } else { 'a' });
                    }
                }
                judge::<T11>(&s, o_t11(&s));
            }
        }
    };
}
cases! {
    h_s1 S1, o_s1;
    h_t1 T1, o_t1;
    h_new New, o_new;
    h_new_r NewR, o_new_r;
    h_with With, o_with;
    h_inf Inf, o_inf;
    h_rx Rx, o_rx;
    h_nest Nest, o_nest;
    h_nest_t NestT, o_nest_t;
    h_new_e NewE, o_new_e;
    h_outer Outer, o_outer;
    h_fixed Fixed, o_fixed;
    h_gen Gen<char>, o_gen;
    h_e1 E1, o_e1;
    h_e2 E2, o_e2;
    h_e3 E3, o_e3;
    h_wrap_e WrapE, o_wrap_e;
    h_def_opt DefOpt, o_def_opt;
    h_def_t DefT, o_def_t;
    h_new_o NewO, o_new_o;
    h_both Both, o_both;
    h_alts Alts, o_alts;
    h_e4 E4, o_e4;
}
