//! C05: the text of a unit variant is its identifier rendered in the selected style, for Display and
//! FromStr alike.
#![allow(dead_code, non_camel_case_types, non_snake_case, unreachable_patterns)]
use parse_display::{Display, FromStr};
use symlib::*;

/// The style rule, written over a word list.
fn styled(style: &str, ident: &str) -> String {
    if style == "none" {
        return ident.to_string();
    }
    let mut words: Vec<String> = vec![];
    let mut open = false;
    let mut prev_upper = false;
    for c in ident.chars() {
        if !c.is_alphanumeric() {
            open = false;
            continue;
        }
        if !open || (c.is_ascii_uppercase() && !prev_upper) {
            words.push(String::new());
        }
        words.last_mut().unwrap().push(c);
        open = true;
        prev_upper = c.is_ascii_uppercase();
    }
    let up = |w: &str| w.to_ascii_uppercase();
    let low = |w: &str| w.to_ascii_lowercase();
    let cap = |w: &str| {
        let n = w.chars().next().unwrap().len_utf8();
        up(&w[..n]) + &low(&w[n..])
    };
    let n = |f: &dyn Fn(usize, &str) -> String, sep: &str| words.iter().enumerate().map(|(i, w)| f(i, w)).collect::<Vec<_>>().join(sep);
    match style {
        "lowercase" => n(&|_, w| low(w), ""),
        "UPPERCASE" => n(&|_, w| up(w), ""),
        "snake_case" => n(&|_, w| low(w), "_"),
        "SNAKE_CASE" => n(&|_, w| up(w), "_"),
        "camelCase" => n(&|i, w| if i == 0 { low(w) } else { cap(w) }, ""),
        "CamelCase" => n(&|_, w| cap(w), ""),
        "kebab-case" => n(&|_, w| low(w), "-"),
        "KEBAB-CASE" => n(&|_, w| up(w), "-"),
        "Title Case" => n(&|_, w| cap(w), " "),
        "Title case" => n(&|i, w| if i == 0 { cap(w) } else { low(w) }, " "),
        "title case" => n(&|_, w| low(w), " "),
        "TITLE CASE" => n(&|_, w| up(w), " "),
        _ => panic!("style"),
    }
}

macro_rules! def {
    ($(#[$m:meta])* $t:ident, $style:tt: $($v:ident $n:literal),*) => {
        #[derive(Display, FromStr, PartialEq, Debug, Clone, Copy)]
        #[display(style = $style)]
        enum $t { $($v),* }
        impl $t {
            fn table() -> Vec<($t, String)> { vec![$(($t::$v, styled($style, $n))),*] }
        }
    };
}
macro_rules! names {
    ($t:ident, $style:tt) => {
        def!($t, $style: A "A", VarA "VarA", fooBar "fooBar", HTTPServer "HTTPServer", ABc "ABc", Foo_Bar "Foo_Bar", FOO_BAR "FOO_BAR",
            foo_bar "foo_bar", _Lead "_Lead", Trail_ "Trail_", Two__Us "Two__Us", X86_64 "X86_64", Foo1Bar "Foo1Bar", Foo1bar "Foo1bar",
            V2X "V2X", aB_cD9Z "aB_cD9Z", z "z", Éclair "Éclair", FooÉtatA "FooÉtatA", ñandúBar "ñandúBar", AbCdEf "AbCdEf", ABCDef "ABCDef",
            _1x "_1x", a1 "a1", r#type "type", r#Box_r "Box_r", col·laB "col·laB", q̃Tat "q̃Tat", Ünd‿erÜA "Ünd‿erÜA", ⅷItems "ⅷItems", İtemſA "İtemſA");
    };
}
names!(None_, "none");
names!(Lower, "lowercase");
names!(Upper, "UPPERCASE");
names!(Snake, "snake_case");
names!(USnake, "SNAKE_CASE");
names!(Camel, "camelCase");
names!(UCamel, "CamelCase");
names!(Kebab, "kebab-case");
names!(UKebab, "KEBAB-CASE");
names!(TitleW, "Title Case");
names!(TitleH, "Title case");
names!(TitleL, "title case");
names!(TitleU, "TITLE CASE");

// no style at all: as written
#[derive(Display, FromStr, PartialEq, Debug, Clone, Copy)]
enum Plain {
    FooBar,
    foo_BAR,
    HTTPServer,
    r#fn,
}
impl Plain {
    fn table() -> Vec<(Plain, String)> {
        vec![(Plain::FooBar, "FooBar".into()), (Plain::foo_BAR, "foo_BAR".into()), (Plain::HTTPServer, "HTTPServer".into()), (Plain::r#fn, "fn".into())]
    }
}
// variant style over enum style; a variant without one keeps the enum's
#[derive(Display, FromStr, PartialEq, Debug, Clone, Copy)]
#[display(style = "kebab-case")]
enum Over {
    FooBar,
    #[display(style = "UPPERCASE")]
    BarBaz,
    #[display(style = "none")]
    QuxQ,
    #[display("<{}>", style = "Title case")]
    DoReMi,
    #[display("lit")]
    Lit,
    LastOne,
}
impl Over {
    fn table() -> Vec<(Over, String)> {
        vec![
            (Over::FooBar, "foo-bar".into()),
            (Over::BarBaz, "BARBAZ".into()),
            (Over::QuxQ, "QuxQ".into()),
            (Over::DoReMi, "<Do re mi>".into()),
            (Over::Lit, "lit".into()),
            (Over::LastOne, "last-one".into()),
        ]
    }
}
// the name inside other text, in a format shared by all variants, with the name in front of data
#[derive(Display, FromStr, PartialEq, Debug, Clone, Copy)]
#[display("a.{}+{}*", style = "SNAKE_CASE")]
enum Shared {
    FooBar,
    #[display(style = "camelCase")]
    BarBaz,
    #[display(style = "lowercase")]
    Q,
}
impl Shared {
    fn table() -> Vec<(Shared, String)> {
        vec![(Shared::FooBar, "a.FOO_BAR+FOO_BAR*".into()), (Shared::BarBaz, "a.barBaz+barBaz*".into()), (Shared::Q, "a.q+q*".into())]
    }
}
#[derive(Display, FromStr, PartialEq, Debug, Clone)]
#[display("{}:{0}", style = "snake_case")]
enum WithData {
    FooBar(char),
    #[display(style = "Title Case")]
    BarBaz(char),
    HTTPGet(char),
}
// the name inside a regular expression
#[derive(Display, FromStr, PartialEq, Debug, Clone, Copy)]
#[display(style = "snake_case")]
#[from_str(regex = "x(?<>)y*")]
enum InRegex {
    FooBar,
    #[display(style = "Title case")]
    BarBaz,
    #[from_str(regex = "(?P<>)+")]
    Q1,
}

fn parse_any<T: std::str::FromStr + PartialEq + Clone>(table: Vec<(T, String)>) {
    let s = utf8(param(0));
    let mut want = None;
    for (v, n) in &table {
        if want.is_none() && s == *n {
            want = Some(v.clone());
        }
    }
    parses::<T>(&s, want);
}
fn show_all<T: std::fmt::Display>(table: Vec<(T, String)>) {
    for (v, n) in &table {
        shows(v, n);
    }
}
macro_rules! cases {
    ($($h:ident $d:ident $t:ident;)*) => {
        harness! {
            $( $h => { warm::<$t>(); parse_any::<$t>($t::table()); } $d => { show_all($t::table()); } )*
            h_with_data => {
                warm::<WithData>();
                let s = ascii(param(0));
                let one = |s: &str| { let mut c = s.chars(); match (c.next(), c.next()) { (Some(x), None) => Some(x), _ => None } };
                let want = if let Some(c) = s.strip_prefix("foo_bar:").and_then(one) { Some(WithData::FooBar(c)) }
                    else if let Some(c) = s.strip_prefix("Bar Baz:").and_then(one) { Some(WithData::BarBaz(c)) }
                    else if let Some(c) = s.strip_prefix("httpget:").and_then(one) { Some(WithData::HTTPGet(c)) } else { None };
                if let Some(w) = &want { shows(w, &s) }
                parses::<WithData>(&s, want);
            }
            h_in_regex => {
                warm::<InRegex>();
                let s = ascii(param(0));
                let ys = |p: &str| s.strip_prefix(p).is_some_and(|r| r.bytes().all(|c| c == b'y'));
                let want = if ys("xfoo_bar") { Some(InRegex::FooBar) } else if ys("xBar baz") { Some(InRegex::BarBaz) }
                    else if !s.is_empty() && s.len() % 2 == 0 && s == "q1".repeat(s.len() / 2) { Some(InRegex::Q1) } else { None };
                parses::<InRegex>(&s, want);
            }
        }
    };
}
cases! {
    h_none d_none None_; h_lower d_lower Lower; h_upper d_upper Upper; h_snake d_snake Snake; h_usnake d_usnake USnake;
    h_camel d_camel Camel; h_ucamel d_ucamel UCamel; h_kebab d_kebab Kebab; h_ukebab d_ukebab UKebab; h_titlew d_titlew TitleW;
    h_titleh d_titleh TitleH; h_titlel d_titlel TitleL; h_titleu d_titleu TitleU; h_plain d_plain Plain; h_over d_over Over; h_shared d_shared Shared;
}
