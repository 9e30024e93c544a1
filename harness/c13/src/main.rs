//! C13: the formats of parse-display-with.
#![allow(dead_code)]
use parse_display::{Display, DisplayFormat, FromStr, FromStrFormat};
use parse_display_with::formats::*;
use std::collections::{BTreeSet, LinkedList, VecDeque};
use std::fmt::{self, Formatter, Write as _};
use symlib::*;

/// Split at every occurrence of `d`, left to right, without overlap.
fn split<'a>(s: &'a str, d: &str) -> Vec<&'a str> {
    let (b, d) = (s.as_bytes(), d.as_bytes());
    let mut v = vec![];
    let (mut from, mut i) = (0, 0);
    while i + d.len() <= b.len() {
        if &b[i..i + d.len()] == d {
            v.push(&s[from..i]);
            i += d.len();
            from = i;
        } else {
            i += 1;
        }
    }
    v.push(&s[from..]);
    v
}
fn pieces<T>(s: &str, d: &str, f: impl Fn(&str) -> Option<T>) -> Option<Vec<T>> {
    let mut v = vec![];
    for p in split(s, d) {
        v.push(f(p)?);
    }
    Some(v)
}
fn num<T: std::str::FromStr>(s: &str) -> Option<T> {
    s.parse().ok()
}
fn joined(v: &[String], d: &str) -> String {
    let mut o = String::new();
    for (i, t) in v.iter().enumerate() {
        if i > 0 {
            o.push_str(d);
        }
        o.push_str(t);
    }
    o
}
fn list<T>(n: usize, mut f: impl FnMut() -> T) -> Vec<T> {
    let k = choose(n as u8 + 1) as usize;
    (0..k).map(|_| f()).collect()
}
fn strs<T: ToString>(v: impl IntoIterator<Item = T>) -> Vec<String> {
    v.into_iter().map(|t| t.to_string()).collect()
}

macro_rules! new {
    ($t:ident($in:ty) $with:expr) => {
        #[derive(Display, FromStr, PartialEq, Debug)]
        struct $t(#[display(with = $with)] $in);
    };
}
new!(Nums(Vec<i8>) delimiter(","));
new!(Strs(Vec<String>) delimiter("::"));
new!(Uni(Vec<String>) delimiter("→"));
new!(Meta(VecDeque<String>) delimiter(".*"));
new!(Over(Vec<String>) delimiter("aa"));
new!(Nested(Vec<Vec<u8>>) join(delimiter(","), ";"));
new!(Set(BTreeSet<u8>) delimiter(" "));
new!(Chars(String2) chars());
new!(Plain(u8) fmt());
new!(Lst(LinkedList<char>) delimiter("/"));
new!(Items(Vec<u8>) join(Hex, ", "));
const LONG: &str = "<- and then, after this one: another ->éé";
new!(LongD(Vec<String>) delimiter(LONG));

struct Hex;
impl DisplayFormat<u8> for Hex {
    fn write(&self, f: &mut Formatter, v: &u8) -> fmt::Result {
        write!(f, "{v:02x}")
    }
}
impl FromStrFormat<u8> for Hex {
    type Err = std::num::ParseIntError;
    fn parse(&self, s: &str) -> Result<u8, Self::Err> {
        u8::from_str_radix(s, 16)
    }
}
// a collection of the user's own
#[derive(PartialEq, Debug)]
struct String2(Vec<char>);
impl FromIterator<char> for String2 {
    fn from_iter<I: IntoIterator<Item = char>>(i: I) -> Self {
        String2(i.into_iter().collect())
    }
}
impl<'a> IntoIterator for &'a String2 {
    type Item = &'a char;
    type IntoIter = std::slice::Iter<'a, char>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
fn chars() -> Join<'static, char> {
    delimiter("|")
}
// around other text, with a field format, next to another list
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}={b}")]
struct Two {
    #[display("[{}]", with = delimiter(","))]
    a: Vec<String>,
    #[display(with = join(fmt(), "-"))]
    b: Vec<u8>,
}
fn o_two(s: &str) -> Option<Two> {
    // shortest text for a: the first `]=`
    let t = s.strip_prefix('[')?;
    let b = t.as_bytes();
    let mut i = 0;
    while i + 2 <= b.len() {
        if b[i] == b']' && b[i + 1] == b'=' {
            return Some(Two { a: pieces(&t[..i], ",", |p| Some(p.to_string()))?, b: pieces(&t[i + 2..], "-", num)? });
        }
        i += 1;
    }
    None
}
// functions as formats
fn show_xor(f: &mut Formatter, v: &u8) -> fmt::Result {
    write!(f, "<{}>", v ^ 1)
}
fn show_half(f: &mut Formatter, v: &str) -> fmt::Result {
    f.write_str(&v[..v.len() / 2])
}
fn binary(s: &str) -> Result<u8, std::num::ParseIntError> {
    u8::from_str_radix(s, 2)
}
fn short(s: &str) -> Result<String, ()> {
    if s.len() > 2 { Err(()) } else { Ok(s.to_string() + "+") }
}
#[derive(Display)]
#[display("{a}/{b}")]
struct Fns {
    #[display(with = fmt_display(show_xor))]
    a: u8,
    #[display("({})", with = fmt_display(show_half))]
    b: &'static str,
}
#[derive(FromStr, PartialEq, Debug)]
#[display("{a}/{b}")]
struct FnsP {
    #[from_str(with = fmt_from_str(binary))]
    a: u8,
    #[from_str(with = fmt_from_str(short))]
    b: String,
}
// display of borrowed and fixed-size sequences
#[derive(Display)]
struct Slice<'a>(#[display(with = delimiter("--"))] &'a [bool]);
#[derive(Display)]
struct Arr3(#[display(with = delimiter(", "))] [u8; 3]);

// parameters of the placeholder are for the item format; these ignore them, and the delimiter has none
#[derive(Display)]
#[display("{a:*^5.1}")]
struct Padded {
    #[display(with = join(Hex, "->"))]
    a: Vec<u8>,
}
#[derive(Display)]
struct PaddedOwn(#[display("<{:>+#09.0}>", with = join(join(Hex, ", "), "; "))] Vec<Vec<u8>>);
#[derive(Display)]
enum PaddedE {
    #[display("{0:12}|{0}")]
    V(#[display(with = join(fmt_display(show_xor), "::"))] Vec<u8>),
    #[display("{a:2.2}")]
    O {
        #[display("({})", opt, with = join(Hex, "≠≠"))]
        a: Option<Vec<u8>>,
    },
}

/// room for a number of bytes, then an error
struct Sink {
    s: String,
    room: usize,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, t: &str) -> fmt::Result {
        if self.s.len() + t.len() > self.room {
            return Err(fmt::Error);
        }
        self.s.push_str(t);
        Ok(())
    }
}
/// every room: the error of the sink is passed on, and what was written is a prefix
fn sinks(v: &dyn fmt::Display, text: &str) {
    let room = conc(byte() as u64) as usize;
    assume(room <= text.len());
    let mut k = Sink { s: String::new(), room };
    let r = write!(k, "{v}");
    reach(5);
    check(r.is_ok() == (room == text.len()), 10);
    check(text.starts_with(&k.s), 11);
}

fn n() -> usize {
    param(0)
}
harness! {
    // ---- parsing
    h_nums => { warm::<Nums>(); let s = input(); parses(&s, pieces(&s, ",", num).map(Nums)); }
    h_strs => { warm::<Strs>(); let s = input(); parses(&s, pieces(&s, "::", |p| Some(p.to_string())).map(Strs)); }
    h_uni => { warm::<Uni>(); let s = input(); parses(&s, pieces(&s, "→", |p| Some(p.to_string())).map(Uni)); }
    h_meta => { warm::<Meta>(); let s = input(); parses(&s, pieces(&s, ".*", |p| Some(p.to_string())).map(|v| Meta(v.into()))); }
    h_over => { warm::<Over>(); let s = input(); parses(&s, pieces(&s, "aa", |p| Some(p.to_string())).map(Over)); }
    h_nested => { warm::<Nested>(); let s = input(); parses(&s, pieces(&s, ";", |p| pieces(p, ",", num)).map(Nested)); }
    h_set => { warm::<Set>(); let s = input(); parses(&s, pieces(&s, " ", num).map(|v| Set(v.into_iter().collect()))); }
    h_chars => { warm::<Chars>(); let s = input(); parses(&s, pieces(&s, "|", num).map(|v| Chars(String2(v)))); }
    h_plain => { warm::<Plain>(); let s = input(); parses(&s, num(&s).map(Plain)); }
    h_lst => { warm::<Lst>(); let s = input(); parses(&s, pieces(&s, "/", num).map(|v| Lst(v.into_iter().collect()))); }
    h_items => { warm::<Items>(); let s = input(); parses(&s, pieces(&s, ", ", |p| u8::from_str_radix(p, 16).ok()).map(Items)); }
    h_two => { warm::<Two>(); let s = input(); parses(&s, o_two(&s)); }
    h_fns => {
        warm::<FnsP>();
        let s = input();
        let want = s.split_once('/').and_then(|(x, y)| {
            Some(FnsP { a: u8::from_str_radix(x, 2).ok()?, b: if y.len() > 2 { return None } else { y.to_string() + "+" } })
        });
        parses(&s, want);
    }
    // many items, long delimiters
    m_nums => {
        warm::<Nums>();
        let s = format!("{}{}{}", ascii(param(1)), "1,".repeat(param(0)), ascii(param(2)));
        parses(&s, pieces(&s, ",", num).map(Nums));
    }
    m_strs => {
        warm::<Strs>();
        let s = format!("{}{}{}", ascii(param(1)), "x::".repeat(param(0)), ascii(param(2)));
        parses(&s, pieces(&s, "::", |p| Some(p.to_string())).map(Strs));
    }
    m_nested => {
        warm::<Nested>();
        let s = format!("{}{}{}", ascii(param(1)), "1,2;".repeat(param(0)), ascii(param(2)));
        parses(&s, pieces(&s, ";", |p| pieces(p, ",", num)).map(Nested));
    }
    m_long => {
        warm::<LongD>();
        let s = touched(&format!("ab{LONG}{LONG}c{LONG}"), 0);
        parses(&s, pieces(&s, LONG, |p| Some(p.to_string())).map(LongD));
    }
    m_show => {
        let mut v = vec![1; param(0)];
        v.push(i8());
        v.extend(vec![2; param(1)]);
        let t = joined(&strs(&v), ",");
        shows(&Nums(v), &t);
    }
    // ---- displaying
    d_nums => { let v = list(n(), i8); let t = joined(&strs(&v), ","); shows_fully(&Nums(v), &t); }
    d_strs => { let v = list(n(), || ascii_upto(1)); let t = joined(&v, "::"); shows_fully(&Strs(v), &t); }
    d_uni => { let v = list(n(), || ch().to_string()); let t = joined(&v, "→"); shows_fully(&Uni(v), &t); }
    d_meta => { let v = list(n(), || ascii(1)); let t = joined(&v, ".*"); shows_fully(&Meta(v.into()), &t); }
    d_nested => {
        let v = list(2, || list(n(), byte));
        let t = joined(&v.iter().map(|w| joined(&strs(w), ",")).collect::<Vec<_>>(), ";");
        shows_fully(&Nested(v), &t);
    }
    d_set => { let v: BTreeSet<u8> = [byte(), byte()].into_iter().collect(); let t = joined(&strs(&v), " "); shows_fully(&Set(v), &t); }
    d_lst => { let v = list(n(), ch); let t = joined(&strs(&v), "/"); shows_fully(&Lst(v.into_iter().collect()), &t); }
    d_items => { let v = list(n(), byte); let t = joined(&v.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>(), ", "); shows_fully(&Items(v), &t); }
    d_plain => { let b = byte(); shows_fully(&Plain(b), &b.to_string()); }
    d_fns => { let a = byte(); shows_fully(&Fns { a, b: "abcd" }, &format!("<{}>/(ab)", a ^ 1)); }
    d_arr => { let a = [byte(), byte(), byte()]; shows_fully(&Arr3(a), &joined(&strs(a), ", ")); }
    d_slice => { let a = list(3, bool); shows_fully(&Slice(&a), &joined(&strs(&a), "--")); }
    d_padded => { let v = list(3, byte); let t = joined(&v.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>(), "->"); shows_fully(&Padded { a: v }, &t); }
    d_padded_own => {
        let v = list(2, || list(2, byte));
        let t = joined(&v.iter().map(|w| joined(&w.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>(), ", ")).collect::<Vec<_>>(), "; ");
        shows_fully(&PaddedOwn(v), &format!("<{t}>"));
    }
    d_padded_e => {
        let v = list(2, byte);
        let t = joined(&v.iter().map(|b| format!("<{}>", b ^ 1)).collect::<Vec<_>>(), "::");
        shows(&PaddedE::V(v), &format!("{t}|{t}"));
    }
    d_padded_o => {
        let v = option(|| list(2, byte));
        let t = v.as_ref().map_or(String::new(), |v| format!("({})", joined(&v.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>(), "≠≠")));
        shows_fully(&PaddedE::O { a: v }, &t);
    }
    // ---- errors of the sink and of an item
    d_sink => {
        let v = vec![format!("{}", bool()), ascii(1), String::new(), ascii(2)];
        let t = joined(&v, "::");
        sinks(&Strs(v), &t);
    }
    d_item_error => {
        struct Fails(u8);
        impl DisplayFormat<u8> for Fails {
            fn write(&self, f: &mut Formatter, v: &u8) -> fmt::Result {
                if *v == self.0 { Err(fmt::Error) } else { write!(f, ".") }
            }
        }
        struct Show(Vec<u8>, u8);
        impl fmt::Display for Show {
            fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                join(Fails(self.1), ",").write(f, &self.0)
            }
        }
        let v = list(3, byte);
        let k = byte();
        let mut o = String::new();
        let r = write!(o, "{}", Show(v.clone(), k));
        reach(5);
        let at = v.iter().position(|b| *b == k);
        check(r.is_err() == at.is_some(), 10);
        let shown = at.unwrap_or(v.len());
        let mut want = joined(&vec![".".to_string(); shown], ",");
        if at.is_some_and(|a| a > 0) { want.push(','); }
        check(o == want, 11);
    }
    // the item function sees every piece once, in order, and nothing after a failure
    p_calls => {
        use std::cell::RefCell;
        let seen = RefCell::new(Vec::<String>::new());
        let s = input();
        let f = fmt_from_str(|p: &str| { seen.borrow_mut().push(p.to_string()); if p == "!" { Err(()) } else { Ok(p.len()) } });
        let r: Result<Vec<usize>, ()> = join(f, ";").parse(&s);
        let ps = split(&s, ";");
        let bad = ps.iter().position(|p| *p == "!");
        reach(5);
        check(r.is_err() == bad.is_some(), 10);
        if let Ok(v) = &r { check(*v == ps.iter().map(|p| p.len()).collect::<Vec<_>>(), 11); }
        let want = bad.map_or(ps.len(), |b| b + 1);
        check(*seen.borrow() == ps[..want].to_vec(), 12);
    }
    // ---- both
    r_nums => { warm::<Nums>(); let v = list(n(), i8); if v.is_empty() { return } round_trips(&Nums(v)); }
    r_strs => {
        warm::<Strs>();
        let v = list(n(), || utf8_upto(2));
        if v.is_empty() || v.iter().any(|t| t.contains(':')) { return }
        round_trips(&Strs(v));
    }
    r_nested => { warm::<Nested>(); let v = list(2, || vec![byte(), byte()]); if v.is_empty() { return } round_trips(&Nested(v)); }
    r_two => {
        warm::<Two>();
        let mut a = vec![String::new()];
        for _ in 0..n() { let c = ascii_ch(); if c == ',' || c == ']' { return } a.push(c.to_string()); }
        round_trips(&Two { a, b: vec![byte(), byte()] });
    }
}
