//! C07: every kind of format parameter, in every place, against the standard library's own format.
#![allow(dead_code, non_camel_case_types)]
use parse_display::{Display, FromStr};
use std::fmt;
use symlib::*;

fn n() -> usize {
    param(0)
}
/// Struct, tuple index, field format, enum variant and opt field with the same parameters.
macro_rules! at {
    ($name:ident, $want:expr, $v:ident) => {
        let want = $want;
        let v = &$v;
        match choose(6) {
            0 => shows(&ty::$name::T(v), &want),
            1 => shows(&ty::$name::S { a: v }, &want),
            2 => shows(&ty::$name::F { a: v }, &format!("[{want}]")),
            3 => shows(&ty::$name::O { a: Some(v) }, &want),
            4 => shows(&ty::$name::E::V(v), &want),
            _ => shows(&ty::$name::E::W { a: v }, &want),
        }
    };
}
#[derive(Debug, Display)]
enum V {
    #[display("{:>7}|{:?}")]
    Alpha,
    #[display("{:*^4.1}|{:?}")]
    Be(u8),
}
#[derive(Debug, Display)]
#[display("{:?}")]
struct Whole { a: u8, b: bool }
#[derive(Display)]
#[display("{0:p} {1:#20p}")]
struct Ptr<'a>(&'a u8, &'a u8);
#[derive(Display)]
#[display("{0:>9}")]
struct Outer<T>(T);
#[derive(FromStr, Display, PartialEq, Debug)]
#[display("<{0:>5}>")]
struct P(u8);

#[derive(Display)]
#[display("{0}")]
struct K0(Call);
fn k0(c: Call) -> String { format!("{}", K0(c)) }
fn s0(c: Call) -> String { format!("{0}", c) }
#[derive(Display)]
#[display("{0:*<5.2}")]
struct K1(Call);
fn k1(c: Call) -> String { format!("{}", K1(c)) }
fn s1(c: Call) -> String { format!("{0:*<5.2}", c) }
#[derive(Display)]
#[display("{0:+?}")]
struct K2(Call);
fn k2(c: Call) -> String { format!("{}", K2(c)) }
fn s2(c: Call) -> String { format!("{0:+?}", c) }
#[derive(Display)]
#[display("{0:#x}")]
struct K3(Call);
fn k3(c: Call) -> String { format!("{}", K3(c)) }
fn s3(c: Call) -> String { format!("{0:#x}", c) }
#[derive(Display)]
#[display("{0:0X}")]
struct K4(Call);
fn k4(c: Call) -> String { format!("{}", K4(c)) }
fn s4(c: Call) -> String { format!("{0:0X}", c) }
#[derive(Display)]
#[display("{0:3o}")]
struct K5(Call);
fn k5(c: Call) -> String { format!("{}", K5(c)) }
fn s5(c: Call) -> String { format!("{0:3o}", c) }
#[derive(Display)]
#[display("{0:-.4b}")]
struct K6(Call);
fn k6(c: Call) -> String { format!("{}", K6(c)) }
fn s6(c: Call) -> String { format!("{0:-.4b}", c) }
#[derive(Display)]
#[display("{0:e}")]
struct K7(Call);
fn k7(c: Call) -> String { format!("{}", K7(c)) }
fn s7(c: Call) -> String { format!("{0:e}", c) }
#[derive(Display)]
#[display("{0:é>+#01.0E}")]
struct K8(Call);
fn k8(c: Call) -> String { format!("{}", K8(c)) }
fn s8(c: Call) -> String { format!("{0:é>+#01.0E}", c) }
#[derive(Display)]
#[display("{0:p}")]
struct K9(Call);
fn k9(c: Call) -> String { format!("{}", K9(c)) }
fn s9(c: Call) -> String { format!("{0:p}", c) }
#[derive(Display)]
#[display("{0:x?}")]
struct K10(Call);
fn k10(c: Call) -> String { format!("{}", K10(c)) }
fn s10(c: Call) -> String { format!("{0:x?}", c) }
#[derive(Display)]
#[display("{0:X?}")]
struct K11(Call);
fn k11(c: Call) -> String { format!("{}", K11(c)) }
fn s11(c: Call) -> String { format!("{0:X?}", c) }
#[derive(Display)]
#[display("{0:\n^7}")]
struct K12(Call);
fn k12(c: Call) -> String { format!("{}", K12(c)) }
fn s12(c: Call) -> String { format!("{0:\n^7}", c) }
#[derive(Display)]
#[display("{0:>300.256}")]
struct K13(Call);
fn k13(c: Call) -> String { format!("{}", K13(c)) }
fn s13(c: Call) -> String { format!("{0:>300.256}", c) }
#[derive(Display)]
#[display("{0:065535.65535}")]
struct K14(Call);
fn k14(c: Call) -> String { format!("{}", K14(c)) }
fn s14(c: Call) -> String { format!("{0:065535.65535}", c) }
#[derive(Display)]
#[display("{a.0:+05}|{a.1:*^7.2}|{b.c.d:#x?}")]
struct Nested { a: (i8, String), b: B }
struct B { c: C }
struct C { d: [u8; 1] }
/// Reports the trait that was called and the parameters it was called with.
#[derive(Clone, Copy)]
struct Call(u8);
fn report(f: &mut fmt::Formatter, t: &str) -> fmt::Result {
    use fmt::Alignment::*;
    let num = |x: Option<usize>| x.map_or("-".to_string(), |x| x.to_string());
    let mut s = format!("{t};f{}{},w{},p{},s", if f.fill() == ' ' && f.align().is_none() { "=" .to_string() } else { f.fill().to_string() }, match f.align() { None => " ", Some(Left) => "<", Some(Right) => ">", Some(Center) => "^" }, num(f.width()), num(f.precision()));
    if f.sign_plus() { s.push('+') }
    if f.sign_minus() { s.push('-') }
    if f.alternate() { s.push('#') }
    if f.sign_aware_zero_pad() { s.push('0') }
    f.write_str(&s)
}
macro_rules! traits { ($($t:ident $n:literal;)*) => { $(impl fmt::$t for Call { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { report(f, $n) } })* } }
traits! { Display "d"; Debug "?"; LowerHex "x"; UpperHex "X"; Octal "o"; Binary "b"; LowerExp "e"; UpperExp "E"; Pointer "p"; }

mod ty {
    use parse_display::Display;
    pub mod int_width {
        use super::*;
        #[derive(Display)]
        #[display("{0:5}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:5}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:5}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:5}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:5}")] V(X), #[display("{a:5}")] W { a: X } }
    }
    pub mod int_zero {
        use super::*;
        #[derive(Display)]
        #[display("{0:05}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:05}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:05}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:05}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:05}")] V(X), #[display("{a:05}")] W { a: X } }
    }
    pub mod int_left {
        use super::*;
        #[derive(Display)]
        #[display("{0:<5}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:<5}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:<5}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:<5}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:<5}")] V(X), #[display("{a:<5}")] W { a: X } }
    }
    pub mod int_right {
        use super::*;
        #[derive(Display)]
        #[display("{0:>5}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:>5}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:>5}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:>5}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:>5}")] V(X), #[display("{a:>5}")] W { a: X } }
    }
    pub mod int_center {
        use super::*;
        #[derive(Display)]
        #[display("{0:^6}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:^6}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:^6}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:^6}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:^6}")] V(X), #[display("{a:^6}")] W { a: X } }
    }
    pub mod int_fill {
        use super::*;
        #[derive(Display)]
        #[display("{0:*<5}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:*<5}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:*<5}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:*<5}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:*<5}")] V(X), #[display("{a:*<5}")] W { a: X } }
    }
    pub mod int_fill_wide {
        use super::*;
        #[derive(Display)]
        #[display("{0:é^6}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:é^6}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:é^6}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:é^6}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:é^6}")] V(X), #[display("{a:é^6}")] W { a: X } }
    }
    pub mod int_fill_nl {
        use super::*;
        #[derive(Display)]
        #[display("{0:\n>4}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:\n>4}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:\n>4}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:\n>4}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:\n>4}")] V(X), #[display("{a:\n>4}")] W { a: X } }
    }
    pub mod int_fill_brace {
        use super::*;
        #[derive(Display)]
        #[display("{0:{<4}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:{<4}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:{<4}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:{<4}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:{<4}")] V(X), #[display("{a:{<4}")] W { a: X } }
    }
    pub mod int_fill_colon {
        use super::*;
        #[derive(Display)]
        #[display("{0::>4}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a::>4}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{::>4}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{::>4}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0::>4}")] V(X), #[display("{a::>4}")] W { a: X } }
    }
    pub mod int_fill_zero {
        use super::*;
        #[derive(Display)]
        #[display("{0:0<5}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:0<5}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:0<5}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:0<5}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:0<5}")] V(X), #[display("{a:0<5}")] W { a: X } }
    }
    pub mod int_fill_lt {
        use super::*;
        #[derive(Display)]
        #[display("{0:<<5}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:<<5}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:<<5}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:<<5}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:<<5}")] V(X), #[display("{a:<<5}")] W { a: X } }
    }
    pub mod int_fill_plus {
        use super::*;
        #[derive(Display)]
        #[display("{0:+>5}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:+>5}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:+>5}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:+>5}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:+>5}")] V(X), #[display("{a:+>5}")] W { a: X } }
    }
    pub mod int_fill_hash {
        use super::*;
        #[derive(Display)]
        #[display("{0:#^5}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:#^5}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:#^5}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:#^5}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:#^5}")] V(X), #[display("{a:#^5}")] W { a: X } }
    }
    pub mod int_plus {
        use super::*;
        #[derive(Display)]
        #[display("{0:+}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:+}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:+}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:+}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:+}")] V(X), #[display("{a:+}")] W { a: X } }
    }
    pub mod int_minus {
        use super::*;
        #[derive(Display)]
        #[display("{0:-}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:-}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:-}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:-}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:-}")] V(X), #[display("{a:-}")] W { a: X } }
    }
    pub mod int_plus_zero {
        use super::*;
        #[derive(Display)]
        #[display("{0:+05}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:+05}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:+05}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:+05}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:+05}")] V(X), #[display("{a:+05}")] W { a: X } }
    }
    pub mod int_all {
        use super::*;
        #[derive(Display)]
        #[display("{0:_^+#7}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:_^+#7}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:_^+#7}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:_^+#7}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:_^+#7}")] V(X), #[display("{a:_^+#7}")] W { a: X } }
    }
    pub mod hex {
        use super::*;
        #[derive(Display)]
        #[display("{0:x}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:x}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:x}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:x}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:x}")] V(X), #[display("{a:x}")] W { a: X } }
    }
    pub mod hex_up {
        use super::*;
        #[derive(Display)]
        #[display("{0:X}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:X}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:X}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:X}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:X}")] V(X), #[display("{a:X}")] W { a: X } }
    }
    pub mod hex_alt {
        use super::*;
        #[derive(Display)]
        #[display("{0:#x}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:#x}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:#x}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:#x}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:#x}")] V(X), #[display("{a:#x}")] W { a: X } }
    }
    pub mod hex_alt_zero {
        use super::*;
        #[derive(Display)]
        #[display("{0:#06X}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:#06X}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:#06X}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:#06X}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:#06X}")] V(X), #[display("{a:#06X}")] W { a: X } }
    }
    pub mod bin {
        use super::*;
        #[derive(Display)]
        #[display("{0:b}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:b}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:b}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:b}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:b}")] V(X), #[display("{a:b}")] W { a: X } }
    }
    pub mod bin_alt {
        use super::*;
        #[derive(Display)]
        #[display("{0:#012b}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:#012b}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:#012b}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:#012b}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:#012b}")] V(X), #[display("{a:#012b}")] W { a: X } }
    }
    pub mod oct {
        use super::*;
        #[derive(Display)]
        #[display("{0:o}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:o}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:o}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:o}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:o}")] V(X), #[display("{a:o}")] W { a: X } }
    }
    pub mod oct_alt {
        use super::*;
        #[derive(Display)]
        #[display("{0:#o}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:#o}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:#o}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:#o}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:#o}")] V(X), #[display("{a:#o}")] W { a: X } }
    }
    pub mod exp {
        use super::*;
        #[derive(Display)]
        #[display("{0:e}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:e}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:e}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:e}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:e}")] V(X), #[display("{a:e}")] W { a: X } }
    }
    pub mod exp_up {
        use super::*;
        #[derive(Display)]
        #[display("{0:>9E}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:>9E}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:>9E}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:>9E}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:>9E}")] V(X), #[display("{a:>9E}")] W { a: X } }
    }
    pub mod str_width {
        use super::*;
        #[derive(Display)]
        #[display("{0:4}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:4}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:4}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:4}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:4}")] V(X), #[display("{a:4}")] W { a: X } }
    }
    pub mod str_prec {
        use super::*;
        #[derive(Display)]
        #[display("{0:.2}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:.2}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:.2}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:.2}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:.2}")] V(X), #[display("{a:.2}")] W { a: X } }
    }
    pub mod str_prec0 {
        use super::*;
        #[derive(Display)]
        #[display("{0:.0}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:.0}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:.0}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:.0}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:.0}")] V(X), #[display("{a:.0}")] W { a: X } }
    }
    pub mod str_both {
        use super::*;
        #[derive(Display)]
        #[display("{0:5.1}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:5.1}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:5.1}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:5.1}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:5.1}")] V(X), #[display("{a:5.1}")] W { a: X } }
    }
    pub mod str_fill {
        use super::*;
        #[derive(Display)]
        #[display("{0:*^7.2}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:*^7.2}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:*^7.2}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:*^7.2}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:*^7.2}")] V(X), #[display("{a:*^7.2}")] W { a: X } }
    }
    pub mod str_right {
        use super::*;
        #[derive(Display)]
        #[display("{0:>3.3}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:>3.3}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:>3.3}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:>3.3}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:>3.3}")] V(X), #[display("{a:>3.3}")] W { a: X } }
    }
    pub mod ch_width {
        use super::*;
        #[derive(Display)]
        #[display("{0:-^3}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:-^3}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:-^3}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:-^3}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:-^3}")] V(X), #[display("{a:-^3}")] W { a: X } }
    }
    pub mod bool_width {
        use super::*;
        #[derive(Display)]
        #[display("{0:7}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:7}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:7}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:7}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:7}")] V(X), #[display("{a:7}")] W { a: X } }
    }
    pub mod bool_prec {
        use super::*;
        #[derive(Display)]
        #[display("{0:.1}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:.1}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:.1}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:.1}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:.1}")] V(X), #[display("{a:.1}")] W { a: X } }
    }
    pub mod dbg_int {
        use super::*;
        #[derive(Display)]
        #[display("{0:?}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:?}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:?}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:?}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:?}")] V(X), #[display("{a:?}")] W { a: X } }
    }
    pub mod dbg_zero {
        use super::*;
        #[derive(Display)]
        #[display("{0:04?}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:04?}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:04?}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:04?}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:04?}")] V(X), #[display("{a:04?}")] W { a: X } }
    }
    pub mod dbg_alt {
        use super::*;
        #[derive(Display)]
        #[display("{0:#?}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:#?}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:#?}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:#?}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:#?}")] V(X), #[display("{a:#?}")] W { a: X } }
    }
    pub mod dbg_hex {
        use super::*;
        #[derive(Display)]
        #[display("{0:x?}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:x?}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:x?}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:x?}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:x?}")] V(X), #[display("{a:x?}")] W { a: X } }
    }
    pub mod dbg_hex_alt {
        use super::*;
        #[derive(Display)]
        #[display("{0:#X?}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:#X?}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:#X?}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:#X?}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:#X?}")] V(X), #[display("{a:#X?}")] W { a: X } }
    }
    pub mod dbg_hex_pad {
        use super::*;
        #[derive(Display)]
        #[display("{0:02x?}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:02x?}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:02x?}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:02x?}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:02x?}")] V(X), #[display("{a:02x?}")] W { a: X } }
    }
    pub mod dbg_str {
        use super::*;
        #[derive(Display)]
        #[display("{0:?}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:?}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:?}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:?}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:?}")] V(X), #[display("{a:?}")] W { a: X } }
    }
    pub mod zero_dollar {
        use super::*;
        #[derive(Display)]
        #[display("{0:00}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:00}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:00}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:00}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:00}")] V(X), #[display("{a:00}")] W { a: X } }
    }
    pub mod float {
        use super::*;
        #[derive(Display)]
        #[display("{0:8.2}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:8.2}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:8.2}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:8.2}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:8.2}")] V(X), #[display("{a:8.2}")] W { a: X } }
    }
    pub mod float_plus {
        use super::*;
        #[derive(Display)]
        #[display("{0:+08.1}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:+08.1}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:+08.1}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:+08.1}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:+08.1}")] V(X), #[display("{a:+08.1}")] W { a: X } }
    }
    pub mod float_exp {
        use super::*;
        #[derive(Display)]
        #[display("{0:.1e}")]
        pub struct T<X>(pub X);
        #[derive(Display)]
        #[display("{a:.1e}")]
        pub struct S<X> { pub a: X }
        #[derive(Display)]
        #[display("[{a}]")]
        pub struct F<X> { #[display("{:.1e}")] pub a: X }
        #[derive(Display)]
        #[display("{a}")]
        pub struct O<X> { #[display("{:.1e}", opt)] pub a: Option<X> }
        #[derive(Display)]
        pub enum E<X> { #[display("{0:.1e}")] V(X), #[display("{a:.1e}")] W { a: X } }
    }
}
harness! {
    nested => { let x = Nested { a: (i8(), ascii(n())), b: B { c: C { d: [byte()] } } }; shows(&x, &format!("{:+05}|{:*^7.2}|{:#x?}", x.a.0, x.a.1, x.b.c.d)); }
    int_width => { let v = byte(); at!(int_width, format!("{:5}", v), v); }
    int_zero => { let v = byte(); at!(int_zero, format!("{:05}", v), v); }
    int_left => { let v = byte(); at!(int_left, format!("{:<5}", v), v); }
    int_right => { let v = i8(); at!(int_right, format!("{:>5}", v), v); }
    int_center => { let v = i8(); at!(int_center, format!("{:^6}", v), v); }
    int_fill => { let v = byte(); at!(int_fill, format!("{:*<5}", v), v); }
    int_fill_wide => { let v = byte(); at!(int_fill_wide, format!("{:é^6}", v), v); }
    int_fill_nl => { let v = byte(); at!(int_fill_nl, format!("{:\n>4}", v), v); }
    int_fill_brace => { let v = byte(); at!(int_fill_brace, format!("{:{<4}", v), v); }
    int_fill_colon => { let v = byte(); at!(int_fill_colon, format!("{::>4}", v), v); }
    int_fill_zero => { let v = byte(); at!(int_fill_zero, format!("{:0<5}", v), v); }
    int_fill_lt => { let v = byte(); at!(int_fill_lt, format!("{:<<5}", v), v); }
    int_fill_plus => { let v = i8(); at!(int_fill_plus, format!("{:+>5}", v), v); }
    int_fill_hash => { let v = i8(); at!(int_fill_hash, format!("{:#^5}", v), v); }
    int_plus => { let v = i8(); at!(int_plus, format!("{:+}", v), v); }
    int_minus => { let v = i8(); at!(int_minus, format!("{:-}", v), v); }
    int_plus_zero => { let v = i8(); at!(int_plus_zero, format!("{:+05}", v), v); }
    int_all => { let v = i8(); at!(int_all, format!("{:_^+#7}", v), v); }
    hex => { let v = byte(); at!(hex, format!("{:x}", v), v); }
    hex_up => { let v = byte(); at!(hex_up, format!("{:X}", v), v); }
    hex_alt => { let v = i8(); at!(hex_alt, format!("{:#x}", v), v); }
    hex_alt_zero => { let v = byte(); at!(hex_alt_zero, format!("{:#06X}", v), v); }
    bin => { let v = byte(); at!(bin, format!("{:b}", v), v); }
    bin_alt => { let v = byte(); at!(bin_alt, format!("{:#012b}", v), v); }
    oct => { let v = byte(); at!(oct, format!("{:o}", v), v); }
    oct_alt => { let v = byte(); at!(oct_alt, format!("{:#o}", v), v); }
    exp => { let v = byte(); at!(exp, format!("{:e}", v), v); }
    exp_up => { let v = byte(); at!(exp_up, format!("{:>9E}", v), v); }
    str_width => { let v = utf8(n()); at!(str_width, format!("{:4}", v), v); }
    str_prec => { let v = utf8(n()); at!(str_prec, format!("{:.2}", v), v); }
    str_prec0 => { let v = utf8(n()); at!(str_prec0, format!("{:.0}", v), v); }
    str_both => { let v = utf8(n()); at!(str_both, format!("{:5.1}", v), v); }
    str_fill => { let v = utf8(n()); at!(str_fill, format!("{:*^7.2}", v), v); }
    str_right => { let v = utf8(n()); at!(str_right, format!("{:>3.3}", v), v); }
    ch_width => { let v = ascii_ch(); at!(ch_width, format!("{:-^3}", v), v); }
    bool_width => { let v = bool(); at!(bool_width, format!("{:7}", v), v); }
    bool_prec => { let v = bool(); at!(bool_prec, format!("{:.1}", v), v); }
    dbg_int => { let v = byte(); at!(dbg_int, format!("{:?}", v), v); }
    dbg_zero => { let v = byte(); at!(dbg_zero, format!("{:04?}", v), v); }
    dbg_alt => { let v = (byte(), bool()); at!(dbg_alt, format!("{:#?}", v), v); }
    dbg_hex => { let v = [byte()]; at!(dbg_hex, format!("{:x?}", v), v); }
    dbg_hex_alt => { let v = [byte()]; at!(dbg_hex_alt, format!("{:#X?}", v), v); }
    dbg_hex_pad => { let v = [byte()]; at!(dbg_hex_pad, format!("{:02x?}", v), v); }
    dbg_str => { let v = from_set(n(), b"a\"\n\\"); at!(dbg_str, format!("{:?}", v), v); }
    zero_dollar => { let v = byte(); at!(zero_dollar, format!("{:00}", v), v); }
    float => { let v = [0.0, 1.5, -2.25, f64::NAN][choose(4) as usize]; at!(float, format!("{:8.2}", v), v); }
    float_plus => { let v = [0.0, 1.5, -2.25, f64::INFINITY][choose(4) as usize]; at!(float_plus, format!("{:+08.1}", v), v); }
    float_exp => { let v = [0.0, 1.5, -2.25][choose(3) as usize]; at!(float_exp, format!("{:.1e}", v), v); }
    variant => { let (a, b) = (V::Alpha, V::Be(byte())); shows(&a, &format!("{:>7}|{:?}", "Alpha", V::Alpha)); shows(&b, &format!("{:*^4.1}|{:?}", "Be", b)); }
    whole => { let x = Whole { a: byte(), b: bool() }; shows(&x, &format!("{x:?}")); }
    pointer => { let b = [byte(), byte()]; let x = Ptr(&b[0], &b[1]); reach(3); check(x.to_string() == format!("{:p} {:#20p}", &b[0], &b[1]), 5); }
    outer => {
        // the parameters given to a value of a derived type do not reach its fields
        let b = byte();
        shows(&Outer(ty::int_zero::T(b)), &format!("{b:05}"));
    }
    calls => {
        let k = choose(15);
        let c = Call(k);
        let got = match k { 0 => k0(c), 1 => k1(c), 2 => k2(c), 3 => k3(c), 4 => k4(c), 5 => k5(c), 6 => k6(c), 7 => k7(c), 8 => k8(c), 9 => k9(c), 10 => k10(c), 11 => k11(c), 12 => k12(c), 13 => k13(c), _ => k14(c) };
        let want = match k { 0 => s0(c), 1 => s1(c), 2 => s2(c), 3 => s3(c), 4 => s4(c), 5 => s5(c), 6 => s6(c), 7 => s7(c), 8 => s8(c), 9 => s9(c), 10 => s10(c), 11 => s11(c), 12 => s12(c), 13 => s13(c), _ => s14(c) };
        obs_str(&got);
        reach(3);
        check(got == want, 5);
    }
    parse => {
        // parameters do not change what is parsed
        warm::<P>();
        let s = ascii(n());
        let b = s.as_bytes();
        let want = match s.strip_prefix('<') {
            Some(t) if b.len() > 1 && b[b.len() - 1] == b'>' => t[..t.len() - 1].parse().ok().map(P),
            _ => None,
        };
        parses::<P>(&s, want);
    }
}
