//! C01: Display writes the format string: literal text verbatim, every placeholder replaced by the
//! text of exactly the value it names under exactly the parameters it gives.
//! Oracle: the same thing written out with std's `format!`.
#![allow(dead_code, non_camel_case_types)]
use parse_display::{Display, DisplayFormat};
use std::fmt;
use symlib::*;

// ---- structs
#[derive(Display)]
#[display("{a}-{b}")]
struct S1 {
    a: u8,
    b: String,
}
#[derive(Display)]
#[display("<{c}{a}|{b}{a}>")]
struct S2 {
    a: u8,
    b: i8,
    c: char,
}
#[derive(Display)]
#[display("{1}+{0}")]
struct T1(String, u8);
#[derive(Display)]
#[display("{{{0}}}}}{{")]
struct T2(String);
#[derive(Display)]
#[display("a{{b}}\n\"\\%{{}}é")]
struct Lit;
#[derive(Display)]
#[display("")]
struct EmptyFmt(u8);
#[derive(Display)]
struct New1(String);
#[derive(Display)]
struct New2 {
    x: i8,
}
#[derive(Display)]
struct NewFmt(#[display("[{}]")] u8);
#[derive(Display)]
#[display("{a}, {b}")]
struct FieldFmt {
    #[display("a is {}")]
    a: u8,
    #[display("{{{}}}{}")]
    b: String,
}
// ---- parameters
#[derive(Display)]
#[display("{a:>5}|{a:<5}|{a:^5}|{a:*^5}|{a:05}|{a:+}")]
struct ParInt {
    a: i8,
}
#[derive(Display)]
#[display("{0:#x}|{0:X}|{0:#b}|{0:o}|{0:08b}|{0:#06X}|{0:e}|{0:E}")]
struct ParRadix(u8);
#[derive(Display)]
#[display("{a:.1}|{a:>3.2}|{a:-<3}|{a:é^4}")]
struct ParStr {
    a: String,
}
#[derive(Display)]
#[display("{a:?}|{b:?}|{b:#?}|{c:x?}|{c:X?}|{a:>4?}")]
struct ParDebug {
    a: u8,
    b: (bool, char),
    c: [u8; 1],
}
#[derive(Display)]
#[display("{a}{b}")]
struct FieldPar {
    #[display("{:>4}")]
    a: u8,
    #[display("x{:02x}{:?}y")]
    b: u8,
}
#[derive(Display)]
#[display("{a}")]
struct Own<T> {
    #[display("<{:?}>")]
    a: T,
}
// ---- whole value under another trait
#[derive(Display, Debug)]
#[display("{:?}/{a}/{:x}")]
struct SelfDbg {
    a: u8,
}
impl fmt::LowerHex for SelfDbg {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "hex{:x}", self.a)
    }
}
// ---- nested fields
struct In {
    x: u8,
    y: (String, i8),
}
#[derive(Display)]
#[display("{a.y.1}:{a.x}:{a.y.0}:{t.0}:{t.1.x:>3}")]
struct Nest {
    a: In,
    t: (u8, In),
}
#[derive(Display)]
#[display("{0.x}{1.y.0}")]
struct NestT(In, In);
#[derive(Display)]
#[display("{a}~{b}")]
struct NestField {
    #[display("({x};{y.1};{y.0})")]
    a: In,
    b: u8,
}
#[derive(Display)]
#[display("{type}{r#fn}{r#type.r#mod}")]
struct Raw {
    r#type: RawIn,
    r#fn: u8,
}
struct RawIn {
    r#mod: u8,
}
impl fmt::Display for RawIn {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "mod{}", self.r#mod)
    }
}
// ---- many fields
#[derive(Display)]
#[display("{10}{9}{2}{1}{0}{11}{3}{4}{5}{6}{7}{8}")]
struct Twelve(u8, bool, bool, bool, bool, bool, bool, bool, bool, char, bool, u8);
// ---- generic, references, derived inside derived
#[derive(Display)]
#[display("{0};{1}")]
struct Gen<A, B>(A, B);
#[derive(Display)]
#[display("{a}{b}")]
struct Refs<'a> {
    a: &'a str,
    b: &'a u8,
}
// ---- enums
#[derive(Display)]
enum Units {
    Alpha,
    BetaGamma,
    #[display("c-{{}}")]
    Lit,
}
#[derive(Display)]
#[display("e:{}")]
enum Common {
    VarA,
    #[display("own")]
    VarB,
    #[display("own-{}-{0}")]
    VarC(u8),
    VarD(u8),
}
#[derive(Display)]
enum Data {
    #[display("{0}")]
    One(u8),
    #[display("{1}/{0}")]
    Two(String, i8),
    #[display("{y}={x}")]
    Named { x: u8, y: String },
    #[display("{0.x}.{0.y.1}")]
    Nested(In),
    #[display("{}:{0:>3}")]
    Name(u8),
    #[display("<{}{}>")]
    NameTwice(u8),
    #[display("{0}")]
    Inner(#[display("in[{}]")] u8),
    #[display("{value}{_value_0}{f}{s}")]
    Hygiene { f: u8, s: u8, value: u8, _value_0: u8 },
    #[display("z")]
    NoFields,
}
#[derive(Display)]
#[display(style = "snake_case")]
enum Styled {
    #[display("{}:{0}")]
    FooBar(u8),
    #[display("{:>9}|")]
    PadName,
    #[display("{:.2}|", style = "UPPERCASE")]
    CutName,
}
#[derive(Display, Debug)]
#[display("{:?}")]
enum Dbg {
    A,
    B(u8),
    C { x: u8 },
}
#[derive(Display, Debug)]
enum Mixed {
    #[display("{:?}-{}-{0}")]
    B(u8),
}

struct Quoted;
impl<T: fmt::Display + ?Sized> DisplayFormat<T> for Quoted {
    fn write(&self, f: &mut fmt::Formatter, v: &T) -> fmt::Result {
        write!(f, "'{}'", v)
    }
}
#[derive(Display)]
#[display("{a}{b}")]
struct Withs<'a> {
    #[display(with = Quoted)]
    a: u8,
    #[display("[{}]", with = Quoted)]
    b: &'a str,
}

fn inn() -> In {
    In { x: byte(), y: (ascii(1), i8()) }
}

// what the formatter is asked for reaches the value's own impl, once and with the given parameters
struct Probe(u8);
macro_rules! probe {
    ($($t:ident $n:literal),*) => { $( impl fmt::$t for Probe {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, concat!($n, "{:?}/{:?}/{:?}/{}/{}/{}/{}"), f.width(), f.precision(), f.fill(), f.sign_plus(), f.alternate(), f.sign_aware_zero_pad(), self.0)
        }
    } )* }
}
probe!(Display "D", LowerHex "x", UpperHex "X", Octal "o", Binary "b", LowerExp "e", UpperExp "E");
impl fmt::Debug for Probe {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "?{:?}/{:?}/{:?}/{}/{}/{}/{}", f.width(), f.precision(), f.fill(), f.sign_plus(), f.alternate(), f.sign_aware_zero_pad(), self.0)
    }
}
#[derive(Display)]
#[display("{0:+}{0:#}{0:07}{0:.3}{0:x>9.4}{0:-^+#012.1}")]
struct Probes1(Probe);
#[derive(Display)]
#[display("{0:x}{0:#X}{0:o}{0:<4b}{0:e}{0:E}{0:?}{0:+4.2?}{0:#?}{0:02x?}")]
struct Probes2(Probe);
// a field that fails
struct Fails(u8);
impl fmt::Display for Fails {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.0 < 100 { write!(f, "{}", self.0) } else { f.write_str("!")?; Err(fmt::Error) }
    }
}
impl fmt::LowerHex for Fails {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl DisplayFormat<Fails> for Quoted2 {
    fn write(&self, f: &mut fmt::Formatter, v: &Fails) -> fmt::Result {
        write!(f, "'{v}'")
    }
}
struct Quoted2;
#[derive(Display)]
enum Fail {
    #[display("{0};")]
    Plain(Fails),
    #[display("{0:x}")]
    Hex(Fails),
    #[display("{0}")]
    Own(#[display("<{}>")] Fails),
    #[display("{0}{1}")]
    Opt(#[display(opt)] Option<Fails>, #[display("-{}", opt)] Option<Fails>),
    #[display("{0}.")]
    With(#[display(with = Quoted2)] Fails),
    #[display("{0}{1}")]
    OptWith(#[display("<{}>", opt, with = Quoted2)] Option<Fails>, u8),
    #[display("{0.1}{1}")]
    Deep((u8, Fails), #[display("[{1}]")] (u8, Fails)),
    #[display("{0}")]
    Inner(NewFails),
}
#[derive(Display)]
struct NewFails(Fails);
fn fails(x: Fail, bad: bool, want: &str) {
    if bad {
        use std::fmt::Write;
        let mut s = String::new();
        let r = write!(s, "{x}");
        reach(5);
        check(r.is_err(), 12);
    } else {
        shows_fully(&x, want);
    }
}
// opt fields in every place
#[derive(Display)]
#[display("a{a}b{b}c{c:>3}")]
struct Opts<'a> {
    #[display(opt)]
    a: Option<u8>,
    #[display("({}/{})", opt)]
    b: Option<&'a str>,
    #[display(opt)]
    c: Option<u8>,
}
#[derive(Display)]
enum Probes3 {
    #[display("{a:5}{b:>#x}{c}")]
    V {
        a: Probe,
        b: Probe,
        #[display("{:^3}{:+?}")]
        c: Probe,
    },
}

harness! {
    h_s1 => { let x = S1 { a: byte(), b: utf8_upto(param(0)) }; shows_fully(&x, &format!("{}-{}", x.a, x.b)); }
    h_s2 => { let x = S2 { a: byte(), b: i8(), c: ch() }; shows_fully(&x, &format!("<{}{}|{}{}>", x.c, x.a, x.b, x.a)); }
    h_t1 => { let x = T1(utf8_upto(param(0)), byte()); shows_fully(&x, &format!("{}+{}", x.1, x.0)); }
    h_t2 => { let x = T2(ascii_upto(param(0))); shows_fully(&x, &format!("{}{}{}", "{", x.0, "}}{")); }
    h_lit => { shows_fully(&Lit, "a{b}\n\"\\%{}\u{e9}"); shows_fully(&EmptyFmt(byte()), ""); }
    h_new => { let x = New1(utf8_upto(param(0))); shows_fully(&x, &x.0); let y = New2 { x: i8() }; shows_fully(&y, &format!("{}", y.x)); let z = NewFmt(byte()); shows_fully(&z, &format!("[{}]", z.0)); }
    h_field_fmt => { let x = FieldFmt { a: byte(), b: ascii_upto(param(0)) }; shows_fully(&x, &format!("a is {}, {}{}{}{}", x.a, "{", x.b, "}", x.b)); }
    h_par_int => { let a = i8(); shows_fully(&ParInt { a }, &format!("{a:>5}|{a:<5}|{a:^5}|{a:*^5}|{a:05}|{a:+}")); }
    h_par_radix => { let a = byte(); shows_fully(&ParRadix(a), &format!("{0:#x}|{0:X}|{0:#b}|{0:o}|{0:08b}|{0:#06X}|{0:e}|{0:E}", a)); }
    h_par_str => { let a = utf8_upto(param(0)); let w = format!("{a:.1}|{a:>3.2}|{a:-<3}|{a:é^4}"); shows_fully(&ParStr { a }, &w); }
    h_par_debug => { let x = ParDebug { a: byte(), b: (symlib::bool(), ascii_ch()), c: [byte()] }; shows_fully(&x, &format!("{:?}|{:?}|{:#?}|{:x?}|{:X?}|{:>4?}", x.a, x.b, x.b, x.c, x.c, x.a)); }
    h_field_par => { let x = FieldPar { a: byte(), b: byte() }; shows_fully(&x, &format!("{:>4}x{:02x}{:?}y", x.a, x.b, x.b)); }
    h_own => { let x = Own { a: ascii_ch() }; shows_fully(&x, &format!("<{:?}>", x.a)); }
    h_self_dbg => { let x = SelfDbg { a: byte() }; shows_fully(&x, &format!("{:?}/{}/{:x}", x, x.a, x)); }
    h_nest => { let x = Nest { a: inn(), t: (byte(), In { x: byte(), y: (String::new(), 0) }) }; shows_fully(&x, &format!("{}:{}:{}:{}:{:>3}", x.a.y.1, x.a.x, x.a.y.0, x.t.0, x.t.1.x)); }
    h_nest_t => { let x = NestT(inn(), inn()); shows_fully(&x, &format!("{}{}", x.0.x, x.1.y.0)); }
    h_nest_field => { let x = NestField { a: inn(), b: byte() }; shows_fully(&x, &format!("({};{};{})~{}", x.a.x, x.a.y.1, x.a.y.0, x.b)); }
    h_raw => { let x = Raw { r#type: RawIn { r#mod: byte() }, r#fn: byte() }; shows_fully(&x, &format!("mod{}{}{}", x.r#type.r#mod, x.r#fn, x.r#type.r#mod)); }
    h_twelve => {
        let b = symlib::bool;
        let x = Twelve(byte(), b(), b(), true, false, true, true, false, true, ascii_ch(), b(), byte());
        shows_fully(&x, &format!("{}{}{}{}{}{}truefalsetruetruefalsetrue", x.10, x.9, x.2, x.1, x.0, x.11));
    }
    h_gen => { let x = Gen(Gen(byte(), ascii_ch()), Units::BetaGamma); shows_fully(&x, &format!("{};{};BetaGamma", x.0.0, x.0.1)); }
    h_refs => { let s = utf8_upto(param(0)); let b = byte(); shows_fully(&Refs { a: &s, b: &b }, &format!("{s}{b}")); }
    h_units => { shows_fully(&Units::Alpha, "Alpha"); shows_fully(&Units::BetaGamma, "BetaGamma"); shows_fully(&Units::Lit, "c-{}"); let b = byte(); shows_fully(&Common::VarD(b), "e:VarD"); }
    h_common => {
        let b = byte();
        let (x, w) = match choose(4) { 0 => (Common::VarA, "e:VarA".to_string()), 1 => (Common::VarB, "own".into()), 2 => (Common::VarC(b), format!("own-VarC-{b}")), _ => (Common::VarD(b), "e:VarD".into()) };
        shows_fully(&x, &w);
    }
    h_data => {
        let (b, i) = (byte(), i8());
        let (x, w) = match choose(9) {
            0 => (Data::One(b), format!("{b}")),
            1 => { let s = ascii_upto(2); let w = format!("{i}/{s}"); (Data::Two(s, i), w) }
            2 => { let s = ascii_upto(2); let w = format!("{s}={b}"); (Data::Named { x: b, y: s }, w) }
            3 => (Data::Nested(In { x: b, y: (String::new(), i) }), format!("{b}.{i}")),
            4 => (Data::Name(b), format!("Name:{b:>3}")),
            5 => (Data::NameTwice(b), "<NameTwiceNameTwice>".into()),
            6 => (Data::Inner(b), format!("in[{b}]")),
            7 => { let (c, d, e) = (byte(), byte(), byte()); (Data::Hygiene { f: b, s: c, value: d, _value_0: e }, format!("{d}{e}{b}{c}")) }
            _ => (Data::NoFields, "z".into()),
        };
        shows_fully(&x, &w);
    }
    h_styled => { let b = byte(); shows_fully(&Styled::FooBar(b), &format!("foo_bar:{b}")); shows_fully(&Styled::PadName, " pad_name|"); shows_fully(&Styled::CutName, "CU|"); }
    h_dbg => { let b = byte(); shows_fully(&Dbg::A, "A"); shows_fully(&Dbg::B(b), &format!("B({b})")); shows_fully(&Dbg::C { x: b }, &format!("C {} x: {b} {}", "{", "}")); shows_fully(&Mixed::B(b), &format!("B({b})-B-{b}")); }
    h_with => { let b = byte(); let s = ascii_upto(param(0)); shows_fully(&Withs { a: b, b: &s }, &format!("'{b}'['{s}']")); }
    h_fails => {
        let (a, b) = (byte(), byte());
        let (fa, fb) = (Fails(a), Fails(b));
        let (bad, bad2) = (a >= 100, a >= 100 || b >= 100);
        match choose(9) {
            0 => fails(Fail::Plain(fa), bad, &format!("{a};")),
            1 => fails(Fail::Hex(fa), bad, &format!("{a}")),
            2 => fails(Fail::Own(fa), bad, &format!("<{a}>")),
            3 => fails(Fail::Opt(Some(fa), Some(fb)), bad2, &format!("{a}-{b}")),
            4 => fails(Fail::Opt(None, Some(fa)), bad, &format!("-{a}")),
            5 => fails(Fail::With(fa), bad, &format!("'{a}'.")),
            6 => fails(Fail::OptWith(Some(fa), b), bad, &format!("<'{a}'>{b}")),
            7 => fails(Fail::Deep((b, fa), (b, fb)), bad2, &format!("{a}[{b}]")),
            _ => fails(Fail::Inner(NewFails(fa)), bad, &format!("{a}")),
        }
    }
    h_opts => {
        let s = utf8_upto(param(0));
        let (a, c) = (option(byte), option(byte));
        let b = option(|| &s[..]);
        let o = |v: &Option<u8>| v.map_or(String::new(), |v| v.to_string());
        let w = format!("a{}b{}c{}", o(&a), b.map_or(String::new(), |b| format!("({b}/{b})")), c.map_or(String::new(), |v| format!("{v:>3}")));
        shows_fully(&Opts { a, b, c }, &w);
    }
    h_probes => {
        let b = byte(); let p = Probe(b);
        shows(&Probes1(Probe(b)), &format!("{0:+}{0:#}{0:07}{0:.3}{0:x>9.4}{0:-^+#012.1}", p));
        shows(&Probes2(Probe(b)), &format!("{0:x}{0:#X}{0:o}{0:<4b}{0:e}{0:E}{0:?}{0:+4.2?}{0:#?}{0:02x?}", p));
        let (c, d) = (byte(), byte());
        shows(&Probes3::V { a: Probe(b), b: Probe(c), c: Probe(d) }, &format!("{:5}{:>#x}{:^3}{:+?}", Probe(b), Probe(c), Probe(d), Probe(d)));
    }
}
