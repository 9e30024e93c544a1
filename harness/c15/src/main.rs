//! C15: no panic, and nothing but the argument decides the result.
#![allow(dead_code, non_camel_case_types)]
use parse_display::{Display, DisplayFormat, FromStr, FromStrFormat, FromStrRegex};
use parse_display_with::formats::{delimiter, join};
use std::fmt;
use std::fmt::Write as _;
use std::str::FromStr as _;
use symlib::re::*;
use symlib::*;

fn num<T: std::str::FromStr>(s: &str) -> Option<T> {
    s.parse().ok()
}
fn st(s: &str, c: &Caps, i: usize) -> String {
    text(s, c, i).into()
}
fn dig(c: char) -> bool {
    c.is_ascii_digit()
}
fn lazy_opt(r: R) -> R {
    R::Rep(0, 1, false, Box::new(r))
}

// ---------------------------------------------------------------- types
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}:{b}")]
struct S {
    a: i8,
    b: String,
}
fn o_s(s: &str) -> Option<S> {
    let c = full(&seq(vec![field(0), lit(":"), field(1)]), s)?;
    Some(S { a: num(text(s, &c, 0))?, b: st(s, &c, 1) })
}
#[derive(Display, FromStr, PartialEq, Debug)]
enum E {
    A,
    #[display("{0}")]
    N(u8),
    #[display("{x}-{y}")]
    P {
        x: char,
        #[display("<{}>", opt)]
        y: Option<char>,
    },
    #[from_str(regex = "(?<0>[a-z]*)(?:é|\\.)?(?<>)?")]
    #[display("{0}")]
    R(String),
}
fn o_e(s: &str) -> Option<E> {
    if s == "A" {
        return Some(E::A);
    }
    if let Some(v) = num(s) {
        return Some(E::N(v));
    }
    if let Some(c) = full(&seq(vec![field(0), lit("-"), lazy_opt(seq(vec![lit("<"), field(1), lit(">")]))]), s) {
        let y = match get(s, &c, 1) {
            Some(t) => num::<char>(t).map(Some),
            None => Some(None),
        };
        if let (Some(x), Some(y)) = (num(text(s, &c, 0)), y) {
            return Some(E::P { x, y });
        }
    }
    let r = seq(vec![cap(0, star(set(|c| c.is_ascii_lowercase()))), opt(alt(vec![lit("é"), lit(".")])), opt(lit("R"))]);
    let c = full(&r, s)?;
    Some(E::R(st(s, &c, 0)))
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0}{1}")]
#[from_str(regex_infer)]
struct Inf(u16, E);
fn o_inf(s: &str) -> Option<Inf> {
    let e = alt(vec![
        lit("A"),
        R::Rep(0, usize::MAX, false, Box::new(R::Any)),
        // every text is matched by the second alternative
    ]);
    let c = full(&seq(vec![cap(0, seq(vec![opt(lit("+")), plus(set(dig))])), cap(1, e)]), s)?;
    Some(Inf(num(text(s, &c, 0))?, o_e(text(s, &c, 1))?))
}
// one parser for all instantiations of a generic type
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("<{0}>{1}")]
struct G<T>(T, T);
fn o_g<T: std::str::FromStr>(s: &str) -> Option<G<T>> {
    let c = full(&seq(vec![lit("<"), field(0), lit(">"), field(1)]), s)?;
    Some(G(num(text(s, &c, 0))?, num(text(s, &c, 1))?))
}
#[derive(Display, FromStr, PartialEq, Debug)]
enum GE<T> {
    #[display("({0})")]
    A(T),
    #[display("{x}")]
    B {
        #[from_str(regex = "[0-9a]+")]
        x: T,
    },
}
fn o_ge<T: std::str::FromStr>(s: &str) -> Option<GE<T>> {
    if let Some(c) = full(&seq(vec![lit("("), field(0), lit(")")]), s) {
        if let Some(v) = num(text(s, &c, 0)) {
            return Some(GE::A(v));
        }
    }
    full(&plus(set(|c| c.is_ascii_digit() || c == 'a')), s)?;
    Some(GE::B { x: num(s)? })
}
// constructor and default
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}/{b}")]
#[from_str(new = n_new(a, b))]
struct N {
    a: u8,
    b: u8,
}
fn n_new(a: u8, b: u8) -> Option<N> {
    a.checked_sub(b).map(|_| N { a, b })
}
fn o_n(s: &str) -> Option<N> {
    let c = full(&seq(vec![field(0), lit("/"), field(1)]), s)?;
    let (a, b): (u8, u8) = (num(text(s, &c, 0))?, num(text(s, &c, 1))?);
    (a >= b).then_some(N { a, b })
}
#[derive(Default, PartialEq, Debug)]
struct Q {
    k: String,
    v: u8,
}
#[derive(FromStr, PartialEq, Debug, Default)]
#[from_str(default)]
#[display("{q.k}={q.v}")]
struct D {
    q: Q,
    z: u8,
}
fn o_d(s: &str) -> Option<D> {
    let c = full(&seq(vec![field(0), lit("="), field(1)]), s)?;
    Some(D { q: Q { k: st(s, &c, 0), v: num(text(s, &c, 1))? }, z: 0 })
}
#[derive(Display, FromStr, PartialEq, Debug)]
struct L(#[display(with = delimiter(";"))] Vec<S>);
fn o_l(s: &str) -> Option<L> {
    s.split(';').map(o_s).collect::<Option<Vec<_>>>().map(L)
}
#[derive(Display, FromStr, PartialEq, Debug)]
struct J {
    #[display(with = join(Cut, "é"))]
    v: Vec<String>,
}
/// drops the first character
struct Cut;
impl DisplayFormat<String> for Cut {
    fn write(&self, f: &mut fmt::Formatter, v: &String) -> fmt::Result {
        write!(f, "!{v:?}")
    }
}
impl FromStrFormat<String> for Cut {
    type Err = ();
    fn parse(&self, s: &str) -> Result<String, ()> {
        let mut c = s.chars();
        c.next().ok_or(())?;
        Ok(c.as_str().into())
    }
}
fn o_j(s: &str) -> Option<J> {
    let mut v = vec![];
    for p in s.split("é") {
        let mut c = p.chars();
        c.next()?;
        v.push(c.as_str().to_string());
    }
    Some(J { v })
}
// the same local names and formats twice
mod twin {
    #[derive(parse_display::Display, parse_display::FromStr, PartialEq, Debug)]
    #[display("{b};{a}")]
    pub struct S {
        pub a: i8,
        pub b: String,
    }
}
fn o_twin(s: &str) -> Option<twin::S> {
    let c = full(&seq(vec![field(0), lit(";"), field(1)]), s)?;
    Some(twin::S { b: st(s, &c, 0), a: num(text(s, &c, 1))? })
}
// every integer and character type, all parameters
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0} {1} {2} {3} {4} {5}")]
struct Ints(u64, i64, i32, u32, usize, char);

/// Whatever was parsed before (`s1`, of up to param 1 bytes), `s2` gives what it alone gives.
fn hist<A: std::str::FromStr, T: std::str::FromStr + PartialEq>(o: fn(&str) -> Option<T>) {
    let s1 = utf8(param(1));
    let _ = A::from_str(&s1);
    let s2 = utf8(param(0));
    parses::<T>(&s2, o(&s2));
}
macro_rules! types {
    ($($p:ident $h:ident $t:ty, $o:ident;)*) => {
        harness! {
            // the parser is built on the parsed string itself, and used again
            $($p => {
                let s = utf8(param(0));
                let a = <$t>::from_str(&s);
                let b = <$t>::from_str(&s);
                check(a.is_ok() == b.is_ok(), 30);
                parses::<$t>(&s, $o(&s));
                if let (Ok(a), Ok(b)) = (a, b) {
                    reach(5);
                    check(a == b, 31);
                }
            }
            $h => { hist::<$t, $t>($o); })*
            // other types and other instantiations before
            x_e_s => { hist::<E, S>(o_s); }
            x_s_e => { hist::<S, E>(o_e); }
            x_s_twin => { hist::<S, twin::S>(o_twin); }
            x_twin_s => { hist::<twin::S, S>(o_s); }
            x_l_s => { hist::<L, S>(o_s); }
            x_inf_e => { hist::<Inf, E>(o_e); }
            g_u8_str => { hist::<G<u8>, G<String>>(o_g); }
            g_str_u8 => { hist::<G<String>, G<u8>>(o_g); }
            g_char_e => { hist::<G<char>, G<E>>(o_g); }
            ge_u8_str => { hist::<GE<u8>, GE<String>>(o_ge); }
            ge_str_u8 => { hist::<GE<String>, GE<u8>>(o_ge); }
            // the published pattern asked for before or in between
            r_s => { let _ = S::from_str_regex(); hist::<S, S>(o_s); }
            r_e => { warm::<E>(); let a = E::from_str_regex(); hist::<E, E>(o_e); check(a == E::from_str_regex(), 32); }
            r_ge => { let _ = GE::<u8>::from_str_regex(); hist::<GE<String>, GE<u8>>(o_ge); }
            // formatting leaves parsing alone, and the other way round
            f_s => {
                let v = S { a: i8(), b: utf8_upto(param(1)) };
                let before = v.to_string();
                let s = utf8(param(0));
                parses::<S>(&s, o_s(&s));
                check(before == v.to_string(), 33);
                check(before == format!("{}:{}", v.a, v.b), 34);
            }
            f_e => {
                let v = match choose(4) { 0 => E::A, 1 => E::N(byte()), 2 => E::P { x: ascii_ch(), y: option(ascii_ch) }, _ => E::R(utf8_upto(param(0))) };
                let a = v.to_string();
                let _ = E::from_str(&a);
                check(a == v.to_string(), 35);
            }
            f_j => {
                let v = J { v: (0..choose(3)).map(|_| ascii_upto(param(0))).collect() };
                let a = v.to_string();
                let b = v.to_string();
                check(a == b, 36);
            }
            d_ints => {
                let v = match choose(4) {
                    0 => Ints(byte() as u64 + (1 << 56), 0, 0, 0, 0, 'x'),
                    1 => Ints(0, i8() as i64 * -1, 0, 0, 0, 'x'),
                    2 => Ints(0, 0, i8() as i32, byte() as u32, 0, 'x'),
                    _ => Ints(0, 0, 0, 0, 0, ch()),
                };
                let mut o = String::new();
                check(write!(o, "{v}").is_ok(), 37);
            }
            // numerals of every size, too long ones included
            p_ints => {
                warm::<Ints>();
                let k = choose(6);
                let long = param(0);
                let mut s = String::new();
                for i in 0..6 {
                    if i > 0 { s.push(' '); }
                    if i == k { s.push_str(&from_set(long, b"+-0189")); } else { s.push('0'); }
                }
                let w = { let p: Vec<&str> = s.split(' ').collect(); (p[0].parse(), p[1].parse(), p[2].parse(), p[3].parse(), p[4].parse(), p[5].parse()) };
                let w = match w {
                    (Ok(a), Ok(b), Ok(c), Ok(d), Ok(e), Ok(f)) => Some(Ints(a, b, c, d, e, f)),
                    _ => None,
                };
                parses::<Ints>(&s, w);
            }
        }
    };
}
types! {
    p_s h_s S, o_s;
    p_e h_e E, o_e;
    p_inf h_inf Inf, o_inf;
    p_g h_g G<u8>, o_g;
    p_ge h_ge GE<char>, o_ge;
    p_n h_n N, o_n;
    p_d h_d D, o_d;
    p_l h_l L, o_l;
    p_j h_j J, o_j;
    p_twin h_twin twin::S, o_twin;
}
