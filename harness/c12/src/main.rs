//! C12: the pattern a derived type publishes covers what it parses, and can be embedded.
#![allow(dead_code, non_camel_case_types)]
use parse_display::{FromStr, FromStrFormat, FromStrRegex};
use std::str::FromStr as _;
use regex::Regex;
use symlib::re::*;
use symlib::*;

fn num<T: std::str::FromStr>(s: &str) -> Option<T> {
    s.parse().ok()
}
fn st(s: &str, c: &Caps, i: usize) -> String {
    text(s, c, i).into()
}
fn dig(c: char) -> bool {
    c.is_ascii_digit()
}
fn low(c: char) -> bool {
    c.is_ascii_lowercase()
}
fn uint() -> R {
    seq(vec![opt(lit("+")), plus(set(dig))])
}
fn sint() -> R {
    seq(vec![opt(set(|c| c == '+' || c == '-')), plus(set(dig))])
}
fn any() -> R {
    R::Rep(0, usize::MAX, false, Box::new(R::Any))
}
fn lazy_opt(r: R) -> R {
    R::Rep(0, 1, false, Box::new(r))
}
struct Grp;
impl FromStrFormat<String> for Grp {
    type Err = ();
    fn parse(&self, s: &str) -> Result<String, ()> {
        Ok(s.into())
    }
    fn regex_pattern(&self) -> String {
        "(x)|(y)z|".into()
    }
}
fn grp() -> R {
    alt(vec![lit("x"), lit("yz"), lit("")])
}

// ---------------------------------------------------------------- inner types, each with its pattern
trait Inner: FromStrRegex + PartialEq {
    fn pat() -> R;
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{a}:{b}")]
#[from_str(regex_infer)]
struct I1 {
    a: u8,
    b: i8,
}
impl Inner for I1 {
    fn pat() -> R {
        seq(vec![uint(), lit(":"), sint()])
    }
}
// fixed texts only, metacharacters in them
#[derive(FromStr, PartialEq, Debug)]
#[display(style = "kebab-case")]
enum I2 {
    A,
    AB,
    AaBb,
    #[display("a.b")]
    Dot,
    #[display("c|d(")]
    Pipe,
    #[display("{{}}")]
    Brace,
    #[display("")]
    Empty,
    #[from_str(ignore)]
    Gone,
}
impl Inner for I2 {
    fn pat() -> R {
        alt(vec![lit("a"), lit("ab"), lit("aa-bb"), lit("a.b"), lit("c|d("), lit("{}"), lit("")])
    }
}
// fixed and other variants
#[derive(FromStr, PartialEq, Debug)]
enum I3 {
    Aa,
    #[display("n{0}")]
    #[from_str(regex_infer)]
    N(u8),
    #[display("{{{0}}}")]
    S(#[from_str(regex = "[a-z]|--")] String),
    #[display("{{x|}}")]
    Fx,
    #[from_str(regex = "p|q+")]
    P,
    #[from_str(ignore)]
    #[display("z{0}")]
    Gone(u8),
}
impl Inner for I3 {
    fn pat() -> R {
        alt(vec![
            lit("Aa"),
            seq(vec![lit("n"), uint()]),
            seq(vec![lit("{"), alt(vec![set(low), lit("--")]), lit("}")]),
            lit("{x|}"),
            alt(vec![lit("p"), plus(lit("q"))]),
        ])
    }
}
// alternatives at the top of the type's own expression
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex = "x(?<a>[0-9]*)|(?<b>y)z|")]
struct I4 {
    a: String,
    b: String,
}
impl Inner for I4 {
    fn pat() -> R {
        alt(vec![seq(vec![lit("x"), star(set(dig))]), lit("yz"), lit("")])
    }
}
#[derive(FromStr, PartialEq, Debug)]
struct I5(#[from_str(regex = "a|b(?<>.)|c")] String);
impl Inner for I5 {
    fn pat() -> R {
        alt(vec![lit("a"), seq(vec![lit("b"), R::Dot]), lit("c")])
    }
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{0}{1}")]
struct I6(#[from_str(with = Grp)] String, #[from_str(with = Grp)] String);
impl Inner for I6 {
    fn pat() -> R {
        seq(vec![grp(), grp()])
    }
}
// opt, default, lazily matched text
#[derive(FromStr, PartialEq, Debug, Default)]
#[display("{a}{b}-")]
#[from_str(default)]
struct I7 {
    #[display("<{}>", opt)]
    #[from_str(regex_infer)]
    a: Option<u8>,
    b: String,
    c: bool,
}
impl Inner for I7 {
    fn pat() -> R {
        seq(vec![lazy_opt(seq(vec![lit("<"), uint(), lit(">")])), any(), lit("-")])
    }
}
#[derive(FromStr, PartialEq, Debug)]
#[display("x|y{{(")]
struct I8;
impl Inner for I8 {
    fn pat() -> R {
        lit("x|y{(")
    }
}
#[derive(FromStr, PartialEq, Debug)]
#[display(style = "Title Case")]
#[from_str(regex = "x|\\.?(?i)(?<>)")]
enum I9 {
    AB,
    AaBb,
}
impl Inner for I9 {
    fn pat() -> R {
        const A: fn(char) -> bool = |c| c == 'a' || c == 'A';
        const B: fn(char) -> bool = |c| c == 'b' || c == 'B';
        alt(vec![
            lit("x"),
            seq(vec![opt(lit(".")), set(A), set(B)]),
            lit("x"),
            seq(vec![opt(lit(".")), set(A), set(A), lit(" "), set(B), set(B)]),
        ])
    }
}
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex = "(?i)a(?<0>[ab]*)(?s).")]
struct I10(String);
impl Inner for I10 {
    fn pat() -> R {
        seq(vec![set(|c| c == 'a' || c == 'A'), star(set(|c| "abAB".contains(c))), R::Any])
    }
}
// three levels
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex_infer)]
enum I11 {
    #[display("({0})")]
    A(I3),
    #[display("{0};{1}")]
    B(I4, I5),
    C,
}
impl Inner for I11 {
    fn pat() -> R {
        alt(vec![
            seq(vec![lit("("), I3::pat(), lit(")")]),
            seq(vec![I4::pat(), lit(";"), I5::pat()]),
            lit("C"),
        ])
    }
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{0}{1}")]
#[from_str(regex_infer)]
struct I12(I11, #[display("!{}", opt)] Option<I2>);
impl Inner for I12 {
    fn pat() -> R {
        seq(vec![I11::pat(), lazy_opt(seq(vec![lit("!"), I2::pat()]))])
    }
}
#[derive(FromStr, PartialEq, Debug)]
#[from_str(bound(T: FromStrRegex), regex_infer)]
#[display("g{0}")]
struct I13<T>(T);
impl<T: Inner> Inner for I13<T> {
    fn pat() -> R {
        seq(vec![lit("g"), T::pat()])
    }
}
// one variant only, of each kind
#[derive(FromStr, PartialEq, Debug)]
enum I14 {
    #[display("a|b")]
    A,
}
impl Inner for I14 {
    fn pat() -> R {
        lit("a|b")
    }
}
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex_infer)]
enum I15 {
    #[display("{0}")]
    B(bool),
    #[display("{0}{1}")]
    D(bool, char),
}
fn tf() -> R {
    alt(vec![lit("true"), lit("false")])
}
impl Inner for I15 {
    fn pat() -> R {
        alt(vec![tf(), seq(vec![tf(), R::Any])])
    }
}
// nested captures
#[derive(PartialEq, Debug, Default)]
struct P {
    x: String,
    y: u8,
}
#[derive(FromStr, PartialEq, Debug, Default)]
#[from_str(default)]
#[display("{p.x}.{p.y}/{q}")]
struct I16 {
    p: P,
    #[from_str(regex = "(?<x>a|b)(?<y>[0-9])?")]
    q: P,
}
impl Inner for I16 {
    fn pat() -> R {
        seq(vec![any(), lit("."), any(), lit("/"), alt(vec![lit("a"), lit("b")]), opt(set(dig))])
    }
}

// groups of fields inside groups of fields
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex = "(?<a>x(?<b>[0-9]))?(?<c>((?<d>y)|z)*)")]
struct I17 {
    a: String,
    b: String,
    c: String,
    d: String,
}
impl Inner for I17 {
    fn pat() -> R {
        seq(vec![opt(seq(vec![lit("x"), set(dig)])), star(set(|c| c == 'y' || c == 'z'))])
    }
}

// ---------------------------------------------------------------- outer types
// a generic type whose parser is shared by its instantiations: one instantiation each
#[derive(FromStr, PartialEq, Debug)]
#[from_str(bound(T: FromStrRegex))]
#[display("<{0}>{1}")]
struct G1<T>(#[from_str(regex_infer)] T, String);
#[derive(FromStr, PartialEq, Debug)]
#[from_str(bound(T: FromStrRegex))]
enum G3<T> {
    #[display("<{0}>{1}")]
    A(#[from_str(regex_infer)] T, String),
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{a}{b}")]
struct O2 {
    a: String,
    #[from_str(regex_infer)]
    b: I3,
}

fn n() -> usize {
    param(0)
}
/// Every parsed text is matched as a whole; the pattern is the one of the format.
fn cover<T: Inner>() {
    let re = Regex::new(&format!("^(?:{})$", T::from_str_regex())).unwrap();
    warm::<T>();
    let r = T::pat();
    let s = utf8(n());
    let parsed = T::from_str(&s).is_ok();
    let covered = re.is_match(&s);
    obs(parsed as u64 | (covered as u64) << 1);
    if parsed {
        reach(1);
        check(covered, 20);
    } else {
        reach(2);
    }
    check(covered == full(&r, &s).is_some(), 21);
}
macro_rules! types {
    ($($c:ident $e:ident $a:ident $o:ident $b:ident $t:ty, $O1:ident, $O2:ident, $O3:ident;)*) => {
        $(
            // alone between other text
            #[derive(FromStr, PartialEq)]
            #[display("<{0}>{1}")]
            struct $O1(#[from_str(regex_infer)] $t, String);
            // next to other fields of the type, and text on both sides
            #[derive(FromStr, PartialEq)]
            #[display("{x}{y}{z}")]
            struct $O2 {
                x: String,
                #[from_str(regex_infer)]
                y: $t,
                #[from_str(regex_infer)]
                z: $t,
            }
            // optional, in an enum
            #[derive(FromStr, PartialEq)]
            enum $O3 {
                #[display("{0}.{1}")]
                A(#[display("={}", opt)] #[from_str(regex_infer)] Option<$t>, #[from_str(regex = "(?<>[a-z])?(0)?")] String),
                #[display("~{0}")]
                #[from_str(regex_infer)]
                B($t),
            }
        )*
        harness! {
            $(
                $c => { cover::<$t>(); }
                // whatever the inner type parses is parsed between other text
                $b => { between::<$t, $O1>($O1); }
                $e => {
                    warm::<$O1>();
                    let r = seq(vec![lit("<"), cap(0, <$t>::pat()), lit(">"), field(1)]);
                    let s = utf8(n());
                    let w = full(&r, &s).and_then(|c| Some($O1(num(text(&s, &c, 0))?, st(&s, &c, 1))));
                    parses::<$O1>(&s, w);
                }
                $a => {
                    warm::<$O2>();
                    let r = seq(vec![field(0), cap(1, <$t>::pat()), cap(2, <$t>::pat())]);
                    let s = utf8(n());
                    let w = full(&r, &s).and_then(|c| Some($O2 { x: st(&s, &c, 0), y: num(text(&s, &c, 1))?, z: num(text(&s, &c, 2))? }));
                    parses::<$O2>(&s, w);
                }
                $o => {
                    warm::<$O3>();
                    let ra = seq(vec![lazy_opt(seq(vec![lit("="), cap(0, <$t>::pat())])), lit("."), opt(cap(1, set(low))), opt(lit("0"))]);
                    let rb = seq(vec![lit("~"), cap(0, <$t>::pat())]);
                    let s = utf8(n());
                    let a = full(&ra, &s).and_then(|c| Some($O3::A(match get(&s, &c, 0) { Some(t) => Some(num(t)?), None => None }, st(&s, &c, 1))));
                    let w = a.or_else(|| full(&rb, &s).and_then(|c| Some($O3::B(num(text(&s, &c, 0))?))));
                    parses::<$O3>(&s, w);
                }
            )*
            g_i1 => { generic::<I1, G1<I1>>(G1); }
            g_i3 => { generic::<I3, G3<I3>>(G3::A); }
            t_o2 => {
                warm::<O2>();
                let r = seq(vec![field(0), cap(1, I3::pat())]);
                let s = utf8(n());
                let w = full(&r, &s).and_then(|c| Some(O2 { a: st(&s, &c, 0), b: num(text(&s, &c, 1))? }));
                parses::<O2>(&s, w);
            }
        }
    };
}
fn generic<T: Inner, G: std::str::FromStr + PartialEq>(f: fn(T, String) -> G) {
    warm::<G>();
    let r = seq(vec![lit("<"), cap(0, T::pat()), lit(">"), field(1)]);
    let s = utf8(n());
    let w = full(&r, &s).and_then(|c| Some(f(num::<T>(text(&s, &c, 0))?, st(&s, &c, 1))));
    parses::<G>(&s, w);
}
fn between<T: Inner, O: std::str::FromStr + PartialEq>(f: fn(T, String) -> O) {
    warm::<T>();
    warm::<O>();
    let s = utf8(n());
    if let Ok(v) = T::from_str(&s) {
        assume(!s.contains('>'));
        reach(1);
        match O::from_str(&format!("<{s}>|>")) {
            Ok(o) => check(o == f(v, "|>".into()), 22),
            Err(_) => check(false, 23),
        }
    } else {
        check(true, 24);
    }
}
types! {
    c_i1 e_i1 a_i1 o_i1 b_i1 I1, I1A, I1B, I1C;
    c_i2 e_i2 a_i2 o_i2 b_i2 I2, I2A, I2B, I2C;
    c_i3 e_i3 a_i3 o_i3 b_i3 I3, I3A, I3B, I3C;
    c_i4 e_i4 a_i4 o_i4 b_i4 I4, I4A, I4B, I4C;
    c_i5 e_i5 a_i5 o_i5 b_i5 I5, I5A, I5B, I5C;
    c_i6 e_i6 a_i6 o_i6 b_i6 I6, I6A, I6B, I6C;
    c_i7 e_i7 a_i7 o_i7 b_i7 I7, I7A, I7B, I7C;
    c_i8 e_i8 a_i8 o_i8 b_i8 I8, I8A, I8B, I8C;
    c_i9 e_i9 a_i9 o_i9 b_i9 I9, I9A, I9B, I9C;
    c_i10 e_i10 a_i10 o_i10 b_i10 I10, I10A, I10B, I10C;
    c_i11 e_i11 a_i11 o_i11 b_i11 I11, I11A, I11B, I11C;
    c_i12 e_i12 a_i12 o_i12 b_i12 I12, I12A, I12B, I12C;
    c_i13 e_i13 a_i13 o_i13 b_i13 I13<I4>, I13A, I13B, I13C;
    c_i14 e_i14 a_i14 o_i14 b_i14 I14, I14A, I14B, I14C;
    c_i15 e_i15 a_i15 o_i15 b_i15 I15, I15A, I15B, I15C;
    c_i16 e_i16 a_i16 o_i16 b_i16 I16, I16A, I16B, I16C;
    c_i17 e_i17 a_i17 o_i17 b_i17 I17, I17A, I17B, I17C;
}
