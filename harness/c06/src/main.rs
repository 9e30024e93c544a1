//! C06: derived types whose formats cover the format grammar.
#![allow(dead_code, non_camel_case_types, mixed_script_confusables, uncommon_codepoints)]
use parse_display::{Display, FromStr};
use symlib::re::*;
use symlib::*;

fn n() -> usize {
    param(0)
}
fn st(s: &str, c: &Caps, i: usize) -> String {
    text(s, c, i).into()
}
fn pat(s: &str, r: Vec<R>) -> Option<Caps> {
    full(&seq(r), s)
}
/// A type of string fields: how its value is written, and how text is split into its fields.
macro_rules! types {
    ($($h:ident $d:ident $t:ident = $build:expr, [$($p:tt)*], $show:expr;)*) => {
        harness! {
            $(
                $h => {
                    warm::<$t>();
                    let s = utf8(n());
                    let r = pat(&s, parts!([] $($p)*));
                    let f: fn(&dyn Fn(usize) -> String) -> $t = $build;
                    let w = match &r { Some(c) => Some(f(&|i| st(&s, c, i))), None => None };
                    parses::<$t>(&s, w);
                }
                $d => {
                    let k = n();
                    let v: Vec<String> = (0..3).map(|i| utf8(if i == 0 { k } else { k.min(1) })).collect();
                    let f: fn(&dyn Fn(usize) -> String) -> $t = $build;
                    let x = f(&|i| v[i].clone());
                    let g: fn(&str, &str, &str) -> String = $show;
                    shows(&x, &g(&v[0], &v[1], &v[2]));
                }
            )*
            // only displayed
            d_twice => { let x = Twice { a: utf8(n()), b: byte() }; shows(&x, &format!("{}{}{}{}", x.a, x.b, x.a, x.b)); }
            d_fill => { let x = Fill(byte(), byte()); shows(&x, &format!("{:{<4}|{:}", x.0, x.1)); }
            d_fill_colon => { let x = FillColon { a: byte() }; shows(&x, &format!("{::>4}:", x.a)); }
            d_braced_name => { let x = if bool() { Braced::One(utf8(n())) } else { Braced::TwoWords }; let t = match &x { Braced::One(s) => format!("{{One}}{{}}{s}"), _ => "}TwoWords{".into() }; shows(&x, &t); }
            d_own => { let x = Own(byte()); shows(&x, &format!("}}{}{{|{{}}", x.0)); }
        }
    };
}
macro_rules! parts {
    ([$($o:tt)*]) => { vec![$($o)*] };
    ([$($o:tt)*] $l:literal $($r:tt)*) => { parts!([$($o)* lit($l),] $($r)*) };
    ([$($o:tt)*] ($i:literal) $($r:tt)*) => { parts!([$($o)* field($i),] $($r)*) };
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{{{0}}}")]
struct Braces(String);
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{{0}}{0}{{}}")]
struct Literal(String);
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("}}{{{a}}}{{{b}}}")]
struct Mixed { a: String, b: String }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{{{{{a}}}}}")]
struct Twofold { a: String }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("a:b{a}:{b:}c")]
struct Colon { a: String, b: String }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("")]
struct Empty;
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{1}")]
struct Second(#[from_str(default)] String, String);
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{r#type}-{fn}")]
struct RawNames { r#type: String, r#fn: String }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("→{é}\t\"\\{名前}\r\n")]
struct Foreign { é: String, 名前: String }
#[derive(PartialEq, Debug, Default)]
struct Leaf { x: String, r#in: (String, String) }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{p.x}/{p.in.1}.{p.r#in.0}")]
struct Paths { #[from_str(default)] p: Leaf }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0.0}.{0.1.0}.")]
struct Indexes(#[from_str(default)] (String, (String, u8)));
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a10}{a1}{_x}")]
struct Similar { #[from_str(regex = "[a-c]*")] a1: String, #[from_str(regex = "[0-9]?")] a10: String, _x: String }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{10},{1}")]
struct Eleven(#[from_str(default)] u8, String, #[from_str(default)] u8, #[from_str(default)] u8, #[from_str(default)] u8, #[from_str(default)] u8, #[from_str(default)] u8, #[from_str(default)] u8, #[from_str(default)] u8, #[from_str(default)] u8, String);
// a format on the field, braces in it
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}{b}")]
struct Field { #[display("{{{}}}")] a: String, #[display("}}{}{{")] b: String }

#[derive(Display)]
#[display("{a}{b}{a}{b}")]
struct Twice { a: String, b: u8 }
#[derive(Display)]
#[display("{0:{<4}|{1:}")]
struct Fill(u8, u8);
#[derive(Display)]
#[display("{a::>4}:")]
struct FillColon { a: u8 }
#[derive(Display)]
enum Braced {
    #[display("{{{}}}{{}}{0}")]
    One(String),
    #[display("}}{}{{")]
    TwoWords,
}
#[derive(Display)]
#[display("}}{0}{{|{{}}")]
struct Own(u8);

types! {
    p_braces d_braces Braces = |f| Braces(f(0)), ["{" (0) "}"], |a, _, _| format!("{{{a}}}");
    p_literal d_literal Literal = |f| Literal(f(0)), ["{0}" (0) "{}"], |a, _, _| format!("{{0}}{a}{{}}");
    p_mixed d_mixed Mixed = |f| Mixed { a: f(0), b: f(1) }, ["}{" (0) "}{" (1) "}"], |a, b, _| format!("}}{{{a}}}{{{b}}}");
    p_twofold d_twofold Twofold = |f| Twofold { a: f(0) }, ["{{" (0) "}}"], |a, _, _| format!("{{{{{a}}}}}");
    p_colon d_colon Colon = |f| Colon { a: f(0), b: f(1) }, ["a:b" (0) ":" (1) "c"], |a, b, _| format!("a:b{a}:{b}c");
    p_empty d_empty Empty = |_| Empty, [""], |_, _, _| String::new();
    p_second d_second Second = |f| Second(String::new(), f(0)), [(0)], |a, _, _| a.into();
    p_raw d_raw RawNames = |f| RawNames { r#type: f(0), r#fn: f(1) }, [(0) "-" (1)], |a, b, _| format!("{a}-{b}");
    p_foreign d_foreign Foreign = |f| Foreign { é: f(0), 名前: f(1) }, ["→" (0) "\t\"\\" (1) "\r\n"], |a, b, _| format!("→{a}\t\"\\{b}\r\n");
    p_paths d_paths Paths = |f| Paths { p: Leaf { x: f(0), r#in: (f(2), f(1)) } }, [(0) "/" (1) "." (2)], |a, b, c| format!("{a}/{b}.{c}");
    p_indexes d_indexes Indexes = |f| Indexes((f(0), (f(1), 0))), [(0) "." (1) "."], |a, b, _| format!("{a}.{b}.");
    p_eleven d_eleven Eleven = |f| Eleven(0, f(1), 0, 0, 0, 0, 0, 0, 0, 0, f(0)), [(0) "," (1)], |a, b, _| format!("{a},{b}");
    p_field d_field Field = |f| Field { a: f(0), b: f(1) }, ["{" (0) "}}" (1) "{"], |a, b, _| format!("{{{a}}}}}{b}{{");
}
