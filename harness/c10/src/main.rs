//! C10: how the value is built from the captured fields.
#![allow(dead_code)]
use parse_display::{FromStr, IntoResult, ParseError};
use symlib::re::*;
use symlib::*;

fn num<T: std::str::FromStr>(s: &str) -> Option<T> {
    s.parse().ok()
}
fn st(s: &str, c: &Caps, i: usize) -> String {
    text(s, c, i).into()
}
fn low(c: char) -> bool {
    c.is_ascii_lowercase()
}

// ---- new on a struct: Self, Option, Result; variables by field name, whatever their order
#[derive(FromStr, PartialEq, Debug)]
#[display("{b}-{a}")]
#[from_str(new = Self::make(a, b))]
struct NewOpt {
    a: u8,
    b: u8,
}
impl NewOpt {
    fn make(a: u8, b: u8) -> Option<NewOpt> {
        (a < b).then_some(NewOpt { a: a + 1, b })
    }
}
fn o_new_opt(s: &str) -> Option<NewOpt> {
    let (x, y) = s.split_once('-')?;
    let (b, a): (u8, u8) = (num(x)?, num(y)?);
    (a < b).then(|| NewOpt { a: a + 1, b })
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{1}/{0}")]
#[from_str(new = mk_res(_1, _0))]
struct NewRes(String, u8);
fn mk_res(n: u8, t: String) -> Result<NewRes, ParseError> {
    if t.len() as u8 == n { Ok(NewRes(t, n ^ 1)) } else { Err(ParseError::with_message("no")) }
}
fn o_new_res(s: &str) -> Option<NewRes> {
    let (x, y) = s.split_once('/')?;
    let n: u8 = num(x)?;
    (y.len() as u8 == n).then(|| NewRes(y.into(), n ^ 1))
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{type}:{fn}")]
#[from_str(new = Self::mk(r#fn, r#type))]
struct NewSelf {
    r#type: char,
    r#fn: String,
}
impl NewSelf {
    fn mk(f: String, t: char) -> Self {
        NewSelf { r#type: t, r#fn: f + "!" }
    }
}
fn o_new_self(s: &str) -> Option<NewSelf> {
    // the first ':' for which the text before is a char and anything after
    let r = seq(vec![field(0), lit(":"), field(1)]);
    let c = full(&r, s)?;
    Some(NewSelf { r#type: num(text(s, &c, 0))?, r#fn: st(s, &c, 1) + "!" })
}
// a result type of the user's own
struct Outcome(Option<u8>);
impl IntoResult<Custom> for Outcome {
    type Err = &'static str;
    fn into_result(self) -> Result<Custom, &'static str> {
        self.0.map(Custom).ok_or("none")
    }
}
#[derive(FromStr, PartialEq, Debug)]
#[display("<{0}>")]
#[from_str(new = Outcome(u8::checked_sub(_0, 5)))]
struct Custom(u8);
fn o_custom(s: &str) -> Option<Custom> {
    Some(Custom(num::<u8>(s.strip_prefix('<')?.strip_suffix('>')?)?.checked_sub(5)?))
}
// default on a field next to new: the variable has the default
#[derive(FromStr, PartialEq, Debug)]
#[display("{a}")]
#[from_str(new = Self::mk(a, b, c))]
struct NewDef {
    a: u8,
    #[from_str(default)]
    b: String,
    #[from_str(default)]
    c: Nine,
}
#[derive(PartialEq, Debug, Clone)]
struct Nine(u8);
impl Default for Nine {
    fn default() -> Self {
        Nine(9)
    }
}
impl NewDef {
    fn mk(a: u8, b: String, c: Nine) -> Option<Self> {
        (a != 3 && b.is_empty()).then_some(Self { a, b: "set".into(), c })
    }
}
fn o_new_def(s: &str) -> Option<NewDef> {
    let a: u8 = num(s)?;
    (a != 3).then(|| NewDef { a, b: "set".into(), c: Nine(9) })
}

// ---- new on enum variants: a failing one lets the next variant try
#[derive(FromStr, PartialEq, Debug)]
enum E {
    #[display("{0}")]
    #[from_str(new = even(_0))]
    Even(u8),
    #[display("{x}{y}")]
    #[from_str(new = Self::small(y, x))]
    Small {
        #[from_str(regex = "[0-9]")]
        x: u8,
        y: u8,
    },
    #[from_str(new = if_never())]
    Never,
    #[display("{0}")]
    Text(String),
}
fn even(a: u8) -> Option<E> {
    (a % 2 == 0).then_some(E::Even(a))
}
fn if_never() -> Option<E> {
    None
}
impl E {
    fn small(y: u8, x: u8) -> Result<Self, u8> {
        if y < 10 { Ok(E::Small { x: y, y: x }) } else { Err(y) }
    }
}
fn o_e(s: &str) -> Option<E> {
    if let Some(n) = num::<u8>(s) {
        if n % 2 == 0 {
            return Some(E::Even(n));
        }
    }
    let r = seq(vec![cap(0, set(|c| c.is_ascii_digit())), field(1)]);
    if let Some(c) = full(&r, s) {
        if let (Some(x), Some(y)) = (num::<u8>(text(s, &c, 0)), num::<u8>(text(s, &c, 1))) {
            if y < 10 {
                return Some(E::Small { x: y, y: x });
            }
        }
    }
    Some(E::Text(s.into()))
}
// a literal variant whose new fails; another variant has the same text
#[derive(FromStr, PartialEq, Debug)]
enum E2 {
    #[display("ab")]
    #[from_str(new = none())]
    A,
    #[display("cd")]
    #[from_str(new = other())]
    C,
    #[display("{0}b")]
    D(char),
}
fn none() -> Option<E2> {
    None
}
fn other() -> E2 {
    E2::D('z')
}
fn o_e2(s: &str) -> Option<E2> {
    if s == "cd" {
        return Some(E2::D('z'));
    }
    Some(E2::D(num(s.strip_suffix('b')?)?))
}

// ---- default on the type
#[derive(PartialEq, Debug, Default, Clone)]
struct P {
    x: u8,
    y: Q,
    z: String,
}
#[derive(PartialEq, Debug, Default, Clone)]
struct Q {
    a: u8,
    b: (u8, String),
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{c},{a}")]
#[from_str(default)]
struct Def {
    a: u8,
    b: u8,
    c: String,
    d: Nine,
}
impl Default for Def {
    fn default() -> Self {
        Def { a: 91, b: 92, c: "dflt".into(), d: Nine(1) }
    }
}
fn o_def(s: &str) -> Option<Def> {
    let r = seq(vec![field(0), lit(","), field(1)]);
    let c = full(&r, s)?;
    Some(Def { c: st(s, &c, 0), a: num(text(s, &c, 1))?, ..Def::default() })
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{2}.{0}")]
#[from_str(default)]
struct DefT(u8, u8, String);
impl Default for DefT {
    fn default() -> Self {
        DefT(1, 2, "3".into())
    }
}
fn o_def_t(s: &str) -> Option<DefT> {
    let (x, y) = s.split_once('.')?;
    Some(DefT(num(y)?, 2, x.into()))
}
// default on the type and on a field that the type's default sets to something else
#[derive(FromStr, PartialEq, Debug)]
#[display("{a}")]
#[from_str(default)]
struct DefBoth {
    a: u8,
    #[from_str(default)]
    b: u8,
    c: u8,
}
impl Default for DefBoth {
    fn default() -> Self {
        DefBoth { a: 7, b: 8, c: 9 }
    }
}
fn o_def_both(s: &str) -> Option<DefBoth> {
    Some(DefBoth { a: num(s)?, b: 0, c: 9 })
}
// ---- default on the type with nested captures: the rest of the nested value stays
#[derive(FromStr, PartialEq, Debug)]
#[display("{p.y.b.0}|{p.x}|{k}")]
#[from_str(default)]
struct DefNested {
    k: String,
    p: P,
    q: P,
}
impl Default for DefNested {
    fn default() -> Self {
        let p = P { x: 11, y: Q { a: 12, b: (13, "e".into()) }, z: "z".into() };
        DefNested { k: "k".into(), p: p.clone(), q: p }
    }
}
fn o_def_nested(s: &str) -> Option<DefNested> {
    let c = full(&seq(vec![field(0), lit("|"), field(1), lit("|"), field(2)]), s)?;
    let mut d = DefNested::default();
    d.p.y.b.0 = num(text(s, &c, 0))?;
    d.p.x = num(text(s, &c, 1))?;
    d.k = st(s, &c, 2);
    Some(d)
}
// ---- default on fields with nested captures
#[derive(FromStr, PartialEq, Debug)]
#[display("{n.y.a}-{m.z}-{m.y.b.1}")]
struct FieldNested {
    #[from_str(default)]
    m: PD,
    #[from_str(default)]
    n: PD,
    #[from_str(default)]
    o: Nine,
}
#[derive(PartialEq, Debug)]
struct PD {
    x: u8,
    y: Q,
    z: String,
}
impl Default for PD {
    fn default() -> Self {
        PD { x: 5, y: Q { a: 6, b: (7, "q".into()) }, z: "w".into() }
    }
}
fn o_field_nested(s: &str) -> Option<FieldNested> {
    let c = full(&seq(vec![field(0), lit("-"), field(1), lit("-"), field(2)]), s)?;
    let mut r = FieldNested { m: PD::default(), n: PD::default(), o: Nine(9) };
    r.n.y.a = num(text(s, &c, 0))?;
    r.m.z = st(s, &c, 1);
    r.m.y.b.1 = st(s, &c, 2);
    Some(r)
}
// a whole field and parts of it: the parts overwrite the whole
#[derive(FromStr, PartialEq, Debug)]
#[display("{p}+{p.a}")]
struct WholeAndPart {
    p: Kv,
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{a}{b}")]
struct Kv {
    #[from_str(regex = "[0-9]+")]
    a: u8,
    #[from_str(regex = "[a-z]*")]
    b: String,
}
fn kv(s: &str) -> Option<Kv> {
    let c = full(&seq(vec![cap(0, plus(set(|c| c.is_ascii_digit()))), cap(1, star(set(low)))]), s)?;
    Some(Kv { a: num(text(s, &c, 0))?, b: st(s, &c, 1) })
}
fn o_whole_and_part(s: &str) -> Option<WholeAndPart> {
    let (x, y) = s.split_once('+')?;
    let mut p = kv(x)?;
    p.a = num(y)?;
    Some(WholeAndPart { p })
}
// a field format of nested fields; the names are those of the field's own fields
#[derive(FromStr, PartialEq, Debug)]
#[display("{p} {x}")]
struct FieldFmt {
    #[display("<{x}/{y.a}>")]
    #[from_str(default)]
    p: PD,
    x: u8,
}
fn o_field_fmt(s: &str) -> Option<FieldFmt> {
    let c = full(&seq(vec![lit("<"), field(0), lit("/"), field(1), lit("> "), field(2)]), s)?;
    let mut p = PD::default();
    p.x = num(text(s, &c, 0))?;
    p.y.a = num(text(s, &c, 1))?;
    Some(FieldFmt { p, x: num(text(s, &c, 2))? })
}

// default on the type and on fields of which parts are captured
#[derive(FromStr, PartialEq, Debug)]
#[display("{p.y.a}-{k}+{r.a}")]
#[from_str(default)]
struct DefDeepBoth {
    #[from_str(default)]
    p: PD,
    k: u8,
    #[from_str(default)]
    q: Nine,
    r: Q,
}
impl Default for DefDeepBoth {
    fn default() -> Self {
        let y = || Q { a: 70, b: (71, "r".into()) };
        DefDeepBoth { p: PD { x: 72, y: y(), z: "s".into() }, k: 73, q: Nine(74), r: y() }
    }
}
fn o_def_deep_both(s: &str) -> Option<DefDeepBoth> {
    let c = full(&seq(vec![field(0), lit("-"), field(1), lit("+"), field(2)]), s)?;
    let mut p = PD::default();
    p.y.a = num(text(s, &c, 0))?;
    Some(DefDeepBoth { p, k: num(text(s, &c, 1))?, q: Nine(9), r: Q { a: num(text(s, &c, 2))?, b: (71, "r".into()) } })
}
// a whole field and parts of it, with default on the type
#[derive(FromStr, PartialEq, Debug)]
#[display("{0.a}={0}/{2}")]
#[from_str(default)]
struct DefWhole(Kv, u8, u8);
impl Default for DefWhole {
    fn default() -> Self {
        DefWhole(Kv { a: 1, b: "b".into() }, 2, 3)
    }
}
fn o_def_whole(s: &str) -> Option<DefWhole> {
    let c = full(&seq(vec![field(0), lit("="), field(1), lit("/"), field(2)]), s)?;
    let mut p = kv(text(s, &c, 1))?;
    p.a = num(text(s, &c, 0))?;
    Some(DefWhole(p, 2, num(text(s, &c, 2))?))
}
// new, with variables built from parts
#[derive(FromStr, PartialEq, Debug)]
#[display("{b.y.a}:{a}:{b.x}")]
#[from_str(new = Self::mk(a, b))]
struct NewDeep {
    a: u8,
    #[from_str(default)]
    b: PD,
}
impl NewDeep {
    fn mk(a: u8, b: PD) -> Result<Self, ()> {
        if b.x > a { Ok(NewDeep { a, b }) } else { Err(()) }
    }
}
fn o_new_deep(s: &str) -> Option<NewDeep> {
    let c = full(&seq(vec![field(0), lit(":"), field(1), lit(":"), field(2)]), s)?;
    let mut b = PD::default();
    b.y.a = num(text(s, &c, 0))?;
    let a = num(text(s, &c, 1))?;
    b.x = num(text(s, &c, 2))?;
    (b.x > a).then_some(NewDeep { a, b })
}
// tuple variants: parts, defaults in between
#[derive(FromStr, PartialEq, Debug)]
enum EDeep {
    #[display("{2.y.b.0}<{0}")]
    T(u8, #[from_str(default)] Nine, #[from_str(default)] PD),
    #[display("{x.a}>{y}")]
    #[from_str(new = deep(y, x))]
    N {
        #[from_str(default)]
        x: Q,
        y: u8,
    },
}
fn deep(y: u8, x: Q) -> Option<EDeep> {
    (x.a == y).then_some(EDeep::N { x, y })
}
fn o_e_deep(s: &str) -> Option<EDeep> {
    if let Some(c) = full(&seq(vec![field(0), lit("<"), field(1)]), s) {
        let mut p = PD::default();
        p.y.b.0 = num(text(s, &c, 0))?;
        return Some(EDeep::T(num(text(s, &c, 1))?, Nine(9), p));
    }
    let (x, y) = s.split_once('>')?;
    let (a, y): (u8, u8) = (num(x)?, num(y)?);
    (a == y).then(|| EDeep::N { x: Q { a, ..Q::default() }, y })
}
// ---- default_fields (deprecated) and default in enum variants
#[allow(deprecated)]
mod dep {
    use super::*;
    #[derive(FromStr, PartialEq, Debug)]
    #[display("{a}")]
    #[from_str(default_fields("b", "c"))]
    pub struct DefFields {
        pub a: u8,
        pub b: Nine,
        pub c: String,
    }
    #[derive(FromStr, PartialEq, Debug)]
    #[from_str(default_fields(b))]
    pub enum EDef {
        #[display("x{a}")]
        X { a: u8, b: Nine },
        #[display("y{a.y.a}{b}")]
        Y {
            #[from_str(default)]
            a: PD,
            b: Nine2,
        },
        #[display("z")]
        #[from_str(default_fields(c))]
        Z { b: u8, c: Nine },
    }
}
use dep::*;
#[derive(FromStr, PartialEq, Debug, Default)]
struct Nine2(#[from_str(regex = "[a-z]?")] String);
fn o_def_fields(s: &str) -> Option<DefFields> {
    Some(DefFields { a: num(s)?, b: Nine(9), c: String::new() })
}
fn o_e_def(s: &str) -> Option<EDef> {
    if s == "z" {
        return Some(EDef::Z { b: 0, c: Nine(9) });
    }
    if let Some(r) = s.strip_prefix('x') {
        return Some(EDef::X { a: num(r)?, b: Nine(9) });
    }
    let c = full(&seq(vec![lit("y"), field(0), field(1)]), s)?;
    let mut a = PD::default();
    a.y.a = num(text(s, &c, 0))?;
    let t = text(s, &c, 1);
    let ok = t.is_empty() || (t.len() == 1 && t.as_bytes()[0].is_ascii_lowercase());
    ok.then(|| EDef::Y { a, b: Nine2(t.into()) })
}
#[derive(FromStr, PartialEq, Debug)]
enum EDef2 {
    #[display("{0}!{2}")]
    A(String, #[from_str(default)] Nine, u8),
    #[display("{y.z}?")]
    B {
        #[from_str(default)]
        x: u8,
        #[from_str(default)]
        y: PD,
    },
}
fn o_e_def2(s: &str) -> Option<EDef2> {
    if let Some(c) = full(&seq(vec![field(0), lit("!"), field(1)]), s) {
        if let Some(n) = num(text(s, &c, 1)) {
            return Some(EDef2::A(st(s, &c, 0), Nine(9), n));
        }
    }
    let mut y = PD::default();
    y.z = s.strip_suffix('?')?.into();
    Some(EDef2::B { x: 0, y })
}

macro_rules! cases {
    ($($h:ident $t:ty, $o:ident;)*) => {
        harness! { $(
            $h => { warm::<$t>(); let s = input(); parses::<$t>(&s, $o(&s)); }
        )* }
    };
}
cases! {
    h_new_opt NewOpt, o_new_opt;
    h_new_res NewRes, o_new_res;
    h_new_self NewSelf, o_new_self;
    h_custom Custom, o_custom;
    h_new_def NewDef, o_new_def;
    h_e E, o_e;
    h_e2 E2, o_e2;
    h_def Def, o_def;
    h_def_t DefT, o_def_t;
    h_def_both DefBoth, o_def_both;
    h_def_nested DefNested, o_def_nested;
    h_field_nested FieldNested, o_field_nested;
    h_whole_and_part WholeAndPart, o_whole_and_part;
    h_field_fmt FieldFmt, o_field_fmt;
    h_def_deep_both DefDeepBoth, o_def_deep_both;
    h_def_whole DefWhole, o_def_whole;
    h_new_deep NewDeep, o_new_deep;
    h_e_deep EDeep, o_e_deep;
    h_def_fields DefFields, o_def_fields;
    h_e_def EDef, o_e_def;
    h_e_def2 EDef2, o_e_def2;
}
