//! C08: a regular expression given by the user decides, as a whole, what is accepted and what each field gets.
#![allow(dead_code, non_camel_case_types)]
use parse_display::{Display, FromStr};
use symlib::re::*;
use symlib::*;

fn num<T: std::str::FromStr>(s: &str) -> Option<T> {
    s.parse().ok()
}
fn st(s: &str, c: &Caps, i: usize) -> String {
    text(s, c, i).into()
}
fn dig(c: char) -> bool {
    c.is_ascii_digit()
}
fn low(c: char) -> bool {
    c.is_ascii_lowercase()
}
fn word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}
fn any0() -> R {
    Rep0(R::Any)
}
#[allow(non_snake_case)]
fn Rep0(r: R) -> R {
    R::Rep(0, usize::MAX, false, Box::new(r))
}
fn lazy_opt(r: R) -> R {
    R::Rep(0, 1, false, Box::new(r))
}
fn times(n: usize, m: usize, r: R) -> R {
    R::Rep(n, m, true, Box::new(r))
}
fn icase(a: char, b: char) -> R {
    match (a, b) {
        ('a', 'A') => set(|c| c == 'a' || c == 'A'),
        ('b', 'B') => set(|c| c == 'b' || c == 'B'),
        ('k', 'K') => set(|c| c == 'k' || c == 'K' || c == '\u{212a}'),
        _ => panic!(),
    }
}

// ---------------------------------------------------------------- expression on the type
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex = "(?<a>[0-9]+)__(?<b>[0-9]+)")]
struct Doc {
    a: u8,
    b: u8,
}
fn o_doc(s: &str) -> Option<Doc> {
    let c = full(&seq(vec![cap(0, plus(set(dig))), lit("__"), cap(1, plus(set(dig)))]), s)?;
    Some(Doc { a: num(text(s, &c, 0))?, b: num(text(s, &c, 1))? })
}
// top-level alternatives are anchored on both sides; a group without part in the match is empty text
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex = "(?<a>x+)|y(?<b>[a-z]*)z")]
struct TopAlt {
    a: String,
    b: String,
}
fn o_top_alt(s: &str) -> Option<TopAlt> {
    let r = alt(vec![cap(0, plus(lit("x"))), seq(vec![lit("y"), cap(1, star(set(low))), lit("z")])]);
    let c = full(&r, s)?;
    Some(TopAlt { a: st(s, &c, 0), b: st(s, &c, 1) })
}
// a group outside the match that must convert
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex = "n(?<a>[0-9]*)|(?<b>[a-z]+)")]
struct AltConv {
    a: String,
    b: char,
}
fn o_alt_conv(s: &str) -> Option<AltConv> {
    let r = alt(vec![seq(vec![lit("n"), cap(0, star(set(dig)))]), cap(1, plus(set(low)))]);
    let c = full(&r, s)?;
    Some(AltConv { a: st(s, &c, 0), b: num(text(s, &c, 1))? })
}
// numbered groups do not disturb the named ones
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex = "((p)|(q))(?<b>(a|(b))*)(-)?(?P<a>(c+))?")]
struct Numbered {
    a: String,
    b: String,
}
fn o_numbered(s: &str) -> Option<Numbered> {
    let r = seq(vec![
        alt(vec![lit("p"), lit("q")]),
        cap(1, star(alt(vec![lit("a"), lit("b")]))),
        opt(lit("-")),
        opt(cap(0, plus(lit("c")))),
    ]);
    let c = full(&r, s)?;
    Some(Numbered { a: st(s, &c, 0), b: st(s, &c, 1) })
}
// a group inside a repetition keeps its last text
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex = "(?:(?<a>[ab]+)c)*(?<b>.?)")]
struct Repeated {
    a: String,
    b: String,
}
fn o_repeated(s: &str) -> Option<Repeated> {
    let r = seq(vec![star(seq(vec![cap(0, plus(set(|c| c == 'a' || c == 'b'))), lit("c")])), cap(1, opt(R::Dot))]);
    let c = full(&r, s)?;
    Some(Repeated { a: st(s, &c, 0), b: st(s, &c, 1) })
}
// greedy and lazy
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex = "(?<0>x*?)(?<2>x*)(?<1>(?s:.*))")]
struct Greedy(String, String, String);
fn o_greedy(s: &str) -> Option<Greedy> {
    let c = full(&seq(vec![cap(0, Rep0(lit("x"))), cap(2, star(lit("x"))), cap(1, star(R::Any))]), s)?;
    Some(Greedy(st(s, &c, 0), st(s, &c, 1), st(s, &c, 2)))
}
// `.` is not a line break unless the expression says so
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex = "(?<a>.*)\\n(?<b>.*)")]
struct Dots {
    a: String,
    b: String,
}
fn o_dots(s: &str) -> Option<Dots> {
    let c = full(&seq(vec![cap(0, star(R::Dot)), lit("\n"), cap(1, star(R::Dot))]), s)?;
    Some(Dots { a: st(s, &c, 0), b: st(s, &c, 1) })
}
// escaped parentheses are text; an escaped backslash before a group is a backslash
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex = r"\(?<a>\\(?<a>x*)[(?]+\)")]
struct Escapes {
    a: String,
}
fn o_escapes(s: &str) -> Option<Escapes> {
    let r = seq(vec![opt(lit("(")), lit("<a>\\"), cap(0, star(lit("x"))), plus(set(|c| c == '(' || c == '?')), lit(")")]);
    let c = full(&r, s)?;
    Some(Escapes { a: st(s, &c, 0) })
}
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex = r"\\\(?<a>-(?<a>[a-z]*)")]
struct Escapes2 {
    a: String,
}
fn o_escapes2(s: &str) -> Option<Escapes2> {
    let c = full(&seq(vec![lit("\\"), opt(lit("(")), lit("<a>-"), cap(0, star(set(low)))]), s)?;
    Some(Escapes2 { a: st(s, &c, 0) })
}
// counted repetitions
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex = "(?<a>[a-c]{2,3})(?<b>\\d{2})x{0,1}")]
struct Counted {
    a: String,
    b: u8,
}
fn o_counted(s: &str) -> Option<Counted> {
    let r = seq(vec![cap(0, times(2, 3, set(|c| ('a'..='c').contains(&c)))), cap(1, times(2, 2, set(dig))), times(0, 1, lit("x"))]);
    let c = full(&r, s)?;
    Some(Counted { a: st(s, &c, 0), b: num(text(s, &c, 1))? })
}
// an expression on the type replaces its format (which still shows values)
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("<{0}>")]
#[from_str(regex = "(?<0>[a-z]+);?")]
struct Replaces(String);
fn o_replaces(s: &str) -> Option<Replaces> {
    let c = full(&seq(vec![cap(0, plus(set(low))), opt(lit(";"))]), s)?;
    Some(Replaces(st(s, &c, 0)))
}
// groups for nested fields
#[derive(PartialEq, Debug, Default)]
struct Q {
    a: u8,
    b: String,
    t: (u8, u8),
}
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex = "_(?<q.b>[a-z]*)(?<q.a>[0-9]+)/(?<q.t.1>[0-9])")]
struct Nested {
    #[from_str(default)]
    q: Q,
}
fn o_nested(s: &str) -> Option<Nested> {
    let c = full(&seq(vec![lit("_"), cap(0, star(set(low))), cap(1, plus(set(dig))), lit("/"), cap(2, set(dig))]), s)?;
    Some(Nested { q: Q { b: st(s, &c, 0), a: num(text(s, &c, 1))?, t: (0, num(text(s, &c, 2))?) } })
}
// anchors and word boundaries written by the user
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex = r"^(?<a>(?:ab|c)*?)\b(?<b>.*)$")]
struct Anchors {
    a: String,
    b: String,
}
fn o_anchors(s: &str) -> Option<Anchors> {
    // first boundary between a word character and another (ASCII inputs)
    let b = s.as_bytes();
    let isw = |i: usize| i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_');
    let mut i = 0;
    loop {
        let before = i > 0 && isw(i - 1);
        if before != isw(i) && !s[i..].contains('\n') {
            return Some(Anchors { a: s[..i].into(), b: s[i..].into() });
        }
        if s[i..].starts_with("ab") {
            i += 2;
        } else if s[i..].starts_with('c') {
            i += 1;
        } else {
            return None;
        }
    }
}
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex = "(?i)k(?<a>[ab]*)(?-i)A")]
struct Flags {
    a: String,
}
fn o_flags(s: &str) -> Option<Flags> {
    let c = full(&seq(vec![icase('k', 'K'), cap(0, star(set(|c| "abAB".contains(c)))), lit("A")]), s)?;
    Some(Flags { a: st(s, &c, 0) })
}

// ---------------------------------------------------------------- expression on a field
// no format on the field: the whole match is the text; alternatives stay inside
#[derive(FromStr, PartialEq, Debug)]
#[display("{a}{b}c")]
struct FieldAlt {
    #[from_str(regex = "x|xy|")]
    a: String,
    #[from_str(regex = "y*|z")]
    b: String,
}
fn o_field_alt(s: &str) -> Option<FieldAlt> {
    let r = seq(vec![cap(0, alt(vec![lit("x"), lit("xy"), lit("")])), cap(1, alt(vec![star(lit("y")), lit("z")])), lit("c")]);
    let c = full(&r, s)?;
    Some(FieldAlt { a: st(s, &c, 0), b: st(s, &c, 1) })
}
// newtype: the expression is anchored although it stands alone
#[derive(FromStr, PartialEq, Debug)]
struct NewAlt(#[from_str(regex = "a|b+|[0-9]c")] String);
fn o_new_alt(s: &str) -> Option<NewAlt> {
    let r = cap(0, alt(vec![lit("a"), plus(lit("b")), seq(vec![set(dig), lit("c")])]));
    let c = full(&r, s)?;
    Some(NewAlt(st(s, &c, 0)))
}
// the unnamed group selects the text
#[derive(FromStr, PartialEq, Debug)]
#[display("[{0},{1}]")]
struct Inner(#[from_str(regex = " *(?<>[0-9]+) *")] u8, #[from_str(regex = "'(?P<>[^']*)'|(?:-)")] String);
fn o_inner(s: &str) -> Option<Inner> {
    let r = seq(vec![
        lit("["),
        star(lit(" ")),
        cap(0, plus(set(dig))),
        star(lit(" ")),
        lit(","),
        alt(vec![seq(vec![lit("'"), cap(1, star(set(|c| c != '\''))), lit("'")]), lit("-")]),
        lit("]"),
    ]);
    let c = full(&r, s)?;
    Some(Inner(num(text(s, &c, 0))?, st(s, &c, 1)))
}
// with a format on the field the expression stands at its `{}`
#[derive(FromStr, PartialEq, Debug)]
#[display("{b}|{a}")]
struct WithFormat {
    #[display("a={}!")]
    #[from_str(regex = "[0-9]+|q")]
    a: String,
    #[display("<{}>")]
    #[from_str(regex = ".|..")]
    b: String,
}
fn o_with_format(s: &str) -> Option<WithFormat> {
    let r = seq(vec![
        lit("<"),
        cap(1, alt(vec![R::Dot, seq(vec![R::Dot, R::Dot])])),
        lit(">|a="),
        cap(0, alt(vec![plus(set(dig)), lit("q")])),
        lit("!"),
    ]);
    let c = full(&r, s)?;
    Some(WithFormat { a: st(s, &c, 0), b: st(s, &c, 1) })
}
// ... unless it has a group of its own: then the format does not count
#[derive(FromStr, PartialEq, Debug)]
struct OwnGroup {
    #[display("a = {}")]
    #[from_str(regex = "a: ?(?<>[0-9]+)")]
    a: u8,
}
fn o_own_group(s: &str) -> Option<OwnGroup> {
    let c = full(&seq(vec![lit("a:"), opt(lit(" ")), cap(0, plus(set(dig)))]), s)?;
    Some(OwnGroup { a: num(text(s, &c, 0))? })
}
// flags of one field end with it
#[derive(FromStr, PartialEq, Debug)]
#[display("{a}b{b}")]
struct FieldFlags {
    #[from_str(regex = "(?i)a+")]
    a: String,
    #[from_str(regex = "[a-b]*")]
    b: String,
}
fn o_field_flags(s: &str) -> Option<FieldFlags> {
    let c = full(&seq(vec![cap(0, plus(icase('a', 'A'))), lit("b"), cap(1, star(set(|c| c == 'a' || c == 'b')))]), s)?;
    Some(FieldFlags { a: st(s, &c, 0), b: st(s, &c, 1) })
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{a}.{b}")]
struct FieldFlags2 {
    #[from_str(regex = "(?s).?")]
    a: String,
    #[from_str(regex = ".?")]
    b: String,
}
fn o_field_flags2(s: &str) -> Option<FieldFlags2> {
    let c = full(&seq(vec![cap(0, opt(R::Any)), lit("."), cap(1, opt(R::Dot))]), s)?;
    Some(FieldFlags2 { a: st(s, &c, 0), b: st(s, &c, 1) })
}
// named groups inside a field's expression are fields of that field
#[derive(FromStr, PartialEq, Debug)]
#[display("{q}.{n}")]
struct FieldNested {
    #[from_str(default, regex = "(?<b>[a-z]*)/(?<a>[0-9]*)")]
    q: Q,
    #[from_str(regex = "(?:x(?<>.)y)?")]
    n: String,
}
fn o_field_nested(s: &str) -> Option<FieldNested> {
    let r = seq(vec![
        cap(0, star(set(low))),
        lit("/"),
        cap(1, star(set(dig))),
        lit("."),
        opt(seq(vec![lit("x"), cap(2, R::Dot), lit("y")])),
    ]);
    let c = full(&r, s)?;
    Some(FieldNested { q: Q { b: st(s, &c, 0), a: num(text(s, &c, 1))?, t: (0, 0) }, n: st(s, &c, 2) })
}
// plain field next to expressions: shortest text that lets the rest match
#[derive(FromStr, PartialEq, Debug)]
#[display("{0}{1}{2}")]
struct Mixed(String, #[from_str(regex = "-?[0-9]+")] i8, String);
fn o_mixed(s: &str) -> Option<Mixed> {
    let c = full(&seq(vec![field(0), cap(1, seq(vec![opt(lit("-")), plus(set(dig))])), field(2)]), s)?;
    Some(Mixed(st(s, &c, 0), num(text(s, &c, 1))?, st(s, &c, 2)))
}
// the same group names and numbered groups in two fields
#[derive(FromStr, PartialEq, Debug)]
#[display("{0}+{1}")]
struct TwoGroups(#[from_str(regex = "(a)(?<>b?)(c)?")] String, #[from_str(regex = "((?<>b|c)a?)+")] String);
fn o_two_groups(s: &str) -> Option<TwoGroups> {
    let r = seq(vec![
        lit("a"),
        cap(0, opt(lit("b"))),
        opt(lit("c")),
        lit("+"),
        plus(seq(vec![cap(1, alt(vec![lit("b"), lit("c")])), opt(lit("a"))])),
    ]);
    let c = full(&r, s)?;
    Some(TwoGroups(st(s, &c, 0), st(s, &c, 1)))
}

// ---------------------------------------------------------------- enums
#[derive(FromStr, PartialEq, Debug)]
#[from_str(regex = "_(?<>)_|(?:[0-9]!)")]
enum E1 {
    Ab,
    #[from_str(regex = "x(?<>)x?")]
    Cd,
    Ef,
}
fn o_e1(s: &str) -> Option<E1> {
    let bang = s.len() == 2 && s.as_bytes()[0].is_ascii_digit() && s.as_bytes()[1] == b'!';
    if s == "_Ab_" || bang {
        Some(E1::Ab)
    } else if s == "xCd" || s == "xCdx" {
        Some(E1::Cd)
    } else if s == "_Ef_" {
        Some(E1::Ef)
    } else {
        None
    }
}
// name and data groups together, style applied
#[derive(FromStr, PartialEq, Debug)]
#[display(style = "kebab-case")]
#[from_str(regex = "(?<>)(?:=(?<0>[a-z]*))?")]
enum E2 {
    AB(String),
    CdEf(String),
    #[from_str(regex = "(?<0>[0-9])+")]
    N(u8),
}
fn o_e2(s: &str) -> Option<E2> {
    for (n, k) in [("ab", 0), ("cd-ef", 1)] {
        if let Some(r) = s.strip_prefix(n) {
            let v = if r.is_empty() {
                Some("")
            } else {
                r.strip_prefix('=').filter(|t| t.bytes().all(|c| c.is_ascii_lowercase()))
            };
            if let Some(v) = v {
                return Some(if k == 0 { E2::AB(v.into()) } else { E2::CdEf(v.into()) });
            }
        }
    }
    (!s.is_empty() && s.bytes().all(|c| c.is_ascii_digit())).then(|| E2::N(s.as_bytes()[s.len() - 1] - b'0'))
}
// the name is text, not an expression; flags apply to it as to any text
#[derive(FromStr, PartialEq, Debug)]
#[display(style = "Title Case")]
enum E3 {
    #[from_str(regex = "(?x) (?<>) # comment")]
    AB1,
    #[from_str(regex = "(?x: a (?<>) ) (?<>)?")]
    #[from_str(regex = "(?i)(?<>)b")]
    Ab,
    #[from_str(regex = "(?<>)*z")]
    AbA,
}
fn o_e3(s: &str) -> Option<E3> {
    if s == "AB1" || s == "Ab1" {
        return (s == "Ab1").then_some(E3::AB1);
    }
    if s.eq_ignore_ascii_case("Abb") {
        return Some(E3::Ab);
    }
    let r = seq(vec![star(lit("Ab A")), lit("z")]);
    full(&r, s).map(|_| E3::AbA)
}
// field expressions in variants, alternatives in every place
#[derive(FromStr, PartialEq, Debug)]
enum E4 {
    #[display("{0}{1}")]
    A(#[from_str(regex = "a|ab")] String, #[from_str(regex = "b?|c")] String),
    #[display("{x}:{y}")]
    B {
        #[from_str(regex = "[0-9]|(?<>z)z*")]
        x: char,
        #[display("({})")]
        #[from_str(regex = "p|q")]
        y: char,
    },
    #[from_str(regex = "(?<x>w)|v(?<y>w)")]
    C { x: String, y: String },
}
fn o_e4(s: &str) -> Option<E4> {
    let a = seq(vec![cap(0, alt(vec![lit("a"), lit("ab")])), cap(1, alt(vec![opt(lit("b")), lit("c")]))]);
    if let Some(c) = full(&a, s) {
        return Some(E4::A(st(s, &c, 0), st(s, &c, 1)));
    }
    let b = seq(vec![alt(vec![set(dig), seq(vec![cap(0, lit("z")), star(lit("z"))])]), lit(":("), cap(1, alt(vec![lit("p"), lit("q")])), lit(")")]);
    if let Some(c) = full(&b, s) {
        if let (Some(x), Some(y)) = (num(text(s, &c, 0)), num(text(s, &c, 1))) {
            return Some(E4::B { x, y });
        }
    }
    let r = alt(vec![cap(0, lit("w")), seq(vec![lit("v"), cap(1, lit("w"))])]);
    let c = full(&r, s)?;
    Some(E4::C { x: st(s, &c, 0), y: st(s, &c, 1) })
}

// the field itself by its expression, and a part of it beside
#[derive(PartialEq, Debug)]
struct Pq {
    x: u8,
    y: String,
}
impl std::str::FromStr for Pq {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        Ok(Pq { x: 200, y: s.into() })
    }
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{p}{q}")]
struct Beside {
    #[display("{}~{x}")]
    #[from_str(regex = "a|[b-c]{2}")]
    p: Pq,
    #[from_str(regex = "/(?<y>(?:[a-z]:)*)(?<>[0-9]?)(?<x>[0-9])")]
    q: Pq,
}
fn o_beside(s: &str) -> Option<Beside> {
    let r = seq(vec![
        cap(0, alt(vec![lit("a"), times(2, 2, set(|c| c == 'b' || c == 'c'))])),
        lit("~"),
        field(1),
        lit("/"),
        cap(2, star(seq(vec![set(low), lit(":")]))),
        cap(3, opt(set(dig))),
        cap(4, set(dig)),
    ]);
    let c = full(&r, s)?;
    Some(Beside {
        p: Pq { x: num(text(s, &c, 1))?, y: st(s, &c, 0) },
        q: Pq { x: num(text(s, &c, 4))?, y: st(s, &c, 2) },
    })
}
// nested fields and raw names in expressions of variants; both spellings of a group
#[derive(FromStr, PartialEq, Debug)]
enum E5 {
    #[from_str(regex = "(?P<0.x>[0-9]{1,3})(?<1>[a-z]*?)(?P<0.y>[a-z]?)")]
    A(#[from_str(default)] Pz, String),
    #[from_str(regex = r"(?<>)\((?P<r_1>.)\)|\\(?<type>[(]\?<)>?")]
    B_c {
        r#type: String,
        r_1: String,
    },
    #[from_str(regex = "(?<_x>(?<y_>-)?\u{2192})+")]
    C { _x: String, y_: String },
}
#[derive(PartialEq, Debug, Default)]
struct Pz {
    x: u8,
    y: String,
}
fn o_e5(s: &str) -> Option<E5> {
    let r = seq(vec![cap(0, times(1, 3, set(dig))), cap(1, Rep0(set(low))), cap(2, opt(set(low)))]);
    if let Some(c) = full(&r, s) {
        if let Some(x) = num(text(s, &c, 0)) {
            return Some(E5::A(Pz { x, y: st(s, &c, 2) }, st(s, &c, 1)));
        }
    }
    let r = alt(vec![seq(vec![lit("B_c("), cap(0, R::Dot), lit(")")]), seq(vec![lit("\\"), cap(1, lit("(?<")), opt(lit(">"))])]);
    if let Some(c) = full(&r, s) {
        return Some(E5::B_c { r#type: st(s, &c, 1), r_1: st(s, &c, 0) });
    }
    let c = full(&plus(cap(0, seq(vec![opt(cap(1, lit("-"))), lit("\u{2192}")]))), s)?;
    Some(E5::C { _x: st(s, &c, 0), y_: st(s, &c, 1) })
}

macro_rules! cases {
    ($($h:ident $u:ident $t:ty, $o:ident;)*) => {
        harness! { $(
            $h => { warm::<$t>(); let s = ascii(param(0)); parses::<$t>(&s, $o(&s)); }
            $u => { warm::<$t>(); let s = utf8(param(0)); parses::<$t>(&s, $o(&s)); }
        )* }
    };
}
cases! {
    h_doc u_doc Doc, o_doc;
    h_top_alt u_top_alt TopAlt, o_top_alt;
    h_alt_conv u_alt_conv AltConv, o_alt_conv;
    h_numbered u_numbered Numbered, o_numbered;
    h_repeated u_repeated Repeated, o_repeated;
    h_greedy u_greedy Greedy, o_greedy;
    h_dots u_dots Dots, o_dots;
    h_escapes u_escapes Escapes, o_escapes;
    h_escapes2 u_escapes2 Escapes2, o_escapes2;
    h_counted u_counted Counted, o_counted;
    h_replaces u_replaces Replaces, o_replaces;
    h_nested u_nested Nested, o_nested;
    h_anchors u_anchors Anchors, o_anchors;
    h_flags u_flags Flags, o_flags;
    h_field_alt u_field_alt FieldAlt, o_field_alt;
    h_new_alt u_new_alt NewAlt, o_new_alt;
    h_inner u_inner Inner, o_inner;
    h_with_format u_with_format WithFormat, o_with_format;
    h_own_group u_own_group OwnGroup, o_own_group;
    h_field_flags u_field_flags FieldFlags, o_field_flags;
    h_field_flags2 u_field_flags2 FieldFlags2, o_field_flags2;
    h_field_nested u_field_nested FieldNested, o_field_nested;
    h_mixed u_mixed Mixed, o_mixed;
    h_two_groups u_two_groups TwoGroups, o_two_groups;
    h_e1 u_e1 E1, o_e1;
    h_e2 u_e2 E2, o_e2;
    h_e3 u_e3 E3, o_e3;
    h_e4 u_e4 E4, o_e4;
    h_beside u_beside Beside, o_beside;
    h_e5 u_e5 E5, o_e5;
}
