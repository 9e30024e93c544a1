//! C03: what Display writes, FromStr reads back.
#![allow(dead_code)]
use parse_display::{Display, FromStr};
use parse_display_with::formats::*;
use std::collections::VecDeque;
use std::net::Ipv4Addr;
use std::num::NonZero;
use symlib::*;

fn n() -> usize {
    param(0)
}
/// First place where `d` occurs in `s`.
fn find(s: &str, d: &str) -> Option<usize> {
    let (s, d) = (s.as_bytes(), d.as_bytes());
    (0..(s.len() + 1).saturating_sub(d.len())).find(|&i| &s[i..i + d.len()] == d)
}
/// `a`, then `d`, then `rest`: `d` does not occur before its place.
fn clear(a: &str, d: &str, rest: &str) -> bool {
    find(&format!("{a}{d}{rest}"), d) == Some(a.len())
}
fn no(s: &str, c: char) -> bool {
    find(s, c.encode_utf8(&mut [0; 4])).is_none()
}
fn go<T: std::fmt::Display + std::str::FromStr + PartialEq + std::fmt::Debug>(t: T) {
    warm::<T>();
    round_trips(&t);
}

// -- structs
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}-{b}")]
struct Ints { a: u8, b: i8 }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{b}, {a}")]
struct Swapped { a: i16, b: u16 }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0}:{1}")]
struct Pair(String, String);
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("<{0}>:::{1}.*{2}\\")]
struct Long(String, String, String);
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{{{0}}}\n({1}|[^→{2}$")]
struct Meta(String, char, String);
#[derive(Display, FromStr, PartialEq, Debug)]
struct New(String);
#[derive(Display, FromStr, PartialEq, Debug)]
struct NewNum { v: i32 }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("")]
struct Nothing;
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("just text {{}}")]
struct Fixed;
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0}")]
struct OneChar(char);
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0}{1}{2}")]
struct Widths(#[from_str(regex = "[0-9]{3}")] #[display("{:03}")] u8, #[from_str(regex = "(?s:.)")] char, String);
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a:+}{b:+}|{c:05}|{d:<4}")]
struct Signs { a: i8, #[from_str(regex = "[+-][0-9]+")] b: i16, c: u8, #[from_str(regex = "(?<>.*?) *")] d: u16 }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{r#type} {r#fn}")]
struct Raw { r#type: u8, r#fn: bool }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}:{b}:{c}:{d}:{e}")]
struct Std { a: bool, b: char, c: NonZero<u8>, d: Ipv4Addr, e: usize }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}{b}")]
struct Greedy { #[from_str(regex = "[a-z]*")] a: String, #[from_str(regex = "[^a-z].*|")] b: String }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}{b}{c}")]
#[from_str(regex_infer)]
struct Infer { a: bool, b: i8, #[display(" {}")] c: u8 }
// fields of one type, in another order than they are declared
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{2}:{0}:{1}")]
struct Mixed3(u8, u8, u8);
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{c}:{a}:{b}")]
struct MixedN { a: u8, b: u8, c: u8 }
#[derive(Display, FromStr, PartialEq, Debug)]
enum MixedE { #[display("{1}:{0}")] T(u8, u8), #[display("{y}/{x}")] N { x: u8, y: u8 } }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0}{1}{2}{3}{4}{5}{6}{7}{8}{9}{10}{11}")]
#[from_str(regex_infer)]
struct Wide(char, char, char, char, char, char, char, char, char, char, char, char);
// format by field, and text around it
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}{b}{c}")]
struct Each { #[display("[{}]")] a: String, #[display("({})")] b: u8, #[display("<{}>")] c: String }
// the whole type's own expression
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}/{b}")]
#[from_str(regex = "(?<a>[^/]*)/(?<b>.*)")]
struct Expr { a: String, b: String }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}={b}")]
#[from_str(new = Self::new(a, b))]
struct Built { a: u8, b: i8 }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}>{b}")]
#[from_str(new = Checked::new(b, a))]
struct Checked { a: u8, b: u8 }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0} -> {1}")]
struct Gen<A, B>(A, B);
impl Built {
    fn new(a: u8, b: i8) -> Self {
        Built { a, b }
    }
}
impl Checked {
    fn new(b: u8, a: u8) -> Option<Self> {
        (a > b).then_some(Checked { a, b })
    }
}
#[derive(Display, FromStr, PartialEq, Debug, Default)]
#[display("{x},{y}")]
struct Point { x: i8, y: u8 }
#[derive(Display, FromStr, PartialEq, Debug, Default)]
#[display("{p.x} {p.y} {q.0.y}")]
#[from_str(default)]
struct Deep { #[from_str(default)] p: Point, q: (Point, u8), rest: u8 }
#[derive(Display, FromStr, PartialEq, Debug, Default)]
#[display("{a}")]
#[from_str(default)]
struct Partly { a: u8, b: String, c: Vec<u8> }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("({0})({1})")]
struct Outer(Point, Kind);
// -- enums
#[derive(Display, FromStr, PartialEq, Debug)]
#[display(style = "snake_case")]
enum Kind { FirstOne, SecondOne, #[display("3rd")] Third, #[display(style = "TITLE CASE")] LastOne }
#[derive(Display, FromStr, PartialEq, Debug)]
enum Shape {
    #[display("circle {r}")]
    Circle { r: u8 },
    #[display("rect {0}x{1}")]
    Rect(i8, i8),
    #[display("point")]
    Point,
    #[display("poly {0}")]
    Poly(#[display(with = delimiter(" "))] Vec<u8>),
    #[display("at {0}")]
    At(Point),
    #[from_str(ignore)]
    Never,
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{}={0}", style = "kebab-case")]
enum Keyed { FirstKey(u8), SecondKey(String), #[display("{}:{0}:{1}", style = "UPPERCASE")] Both(char, bool) }
// a later variant takes what the earlier ones cannot
#[derive(Display, FromStr, PartialEq, Debug)]
enum Layered {
    #[display("{0}")]
    Num(u8),
    #[display("{0}")]
    Bool(bool),
    #[display("{0}%")]
    Percent(u8),
    None,
    #[display("{0}{1}")]
    Split(#[from_str(regex = "[A-Z]")] char, #[from_str(regex = "[0-9]*")] String),
}
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("<{0}>")]
enum Wrap<T> { A(T), #[display("<{0};{1}>")] B(T, T) }
// -- opt
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}{b}{c}")]
struct Opts { a: u8, #[display("@{}", opt)] b: Option<String>, #[display("#{}", opt)] c: Option<i8> }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("[{a}]{b}")]
struct OptIn { #[display(opt)] a: Option<u8>, #[display(" {}", opt)] b: Option<Point> }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0}{1}")]
struct OptWith(#[display("{}!", opt, with = delimiter("+"))] Option<Vec<u8>>, #[from_str(regex = "[^!]*")] String);
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0}")]
#[from_str(regex_infer)]
enum OptE { A(#[display("a{}", opt)] Option<u8>), #[display("-{0}")] B(#[display("{}", opt)] Option<bool>) }
// -- with
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a};{b}")]
struct Lists { #[display(with = delimiter(","))] a: Vec<String>, #[display("<{}>", with = join(delimiter("."), "/"))] b: VecDeque<Vec<u8>> }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}..{b}")]
struct With { #[display(with = fmt())] a: u8, #[display(with = Dash)] b: i16 }
// -- other types inside, any depth
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{a}|{b}")]
struct Both { a: Shape, #[display("{}!")] b: Layered }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("{0}")]
enum Rec { #[display("leaf {0}")] Leaf(u8), #[display("({0})")] Node(Box2) }
/// Formats of the user's own, and a type of the user's own.
struct Dash;
impl parse_display::DisplayFormat<i16> for Dash {
    fn write(&self, f: &mut std::fmt::Formatter, v: &i16) -> std::fmt::Result {
        write!(f, "{}~", v)
    }
}
impl parse_display::FromStrFormat<i16> for Dash {
    type Err = std::num::ParseIntError;
    fn parse(&self, s: &str) -> Result<i16, Self::Err> {
        s.strip_suffix('~').unwrap_or("").parse()
    }
}
#[derive(PartialEq, Debug)]
struct Box2(Box<Rec>);
impl std::fmt::Display for Box2 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::str::FromStr for Box2 {
    type Err = parse_display::ParseError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Ok(Box2(Box::new(s.parse()?)))
    }
}
fn point() -> Point {
    Point { x: i8(), y: byte() }
}
fn kind() -> Kind {
    match choose(4) {
        0 => Kind::FirstOne,
        1 => Kind::SecondOne,
        2 => Kind::Third,
        _ => Kind::LastOne,
    }
}
fn list<T>(k: usize, mut f: impl FnMut() -> T) -> Vec<T> {
    (0..k).map(|_| f()).collect()
}
fn digits(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_digit())
}
fn two(n: usize) -> (String, String) {
    let a = utf8_upto(n);
    let b = utf8(n - a.len());
    (a, b)
}

harness! {
    ints => { go(Ints { a: byte(), b: i8() }); }
    swapped => { go(Swapped { a: i8() as i16, b: byte() as u16 }); }
    mixed => { go(Mixed3(byte(), byte(), 7)); }
    mixed_n => { go(MixedN { a: byte(), b: byte(), c: 7 }); }
    mixed_e => { go(if bool() { MixedE::T(byte(), byte()) } else { MixedE::N { x: byte(), y: byte() } }); }
    wide => {
        let c = ascii_ch;
        go(Wide(c(), c(), c(), c(), c(), c(), c(), c(), c(), c(), c(), c()));
    }
    pair => {
        let (a, b) = two(n());
        assume(no(&a, ':'));
        go(Pair(a, b));
    }
    long => {
        let (a, b) = two(n());
        let c = ascii(param(1));
        assume(clear(&a, ">:::", &b) && clear(&b, ".*", &c));
        go(Long(a, b, c));
    }
    meta => {
        let (a, b) = two(n());
        let c = ascii_ch();
        assume(clear(&a, "}\n(", "") && no(&a, '}'));
        go(Meta(a, c, b));
    }
    new => { go(New(utf8(n()))); }
    new_num => { go(NewNum { v: i8() as i32 }); }
    fixed => { go(Fixed); go(Nothing); }
    one_char => { go(OneChar(utf8_ch())); }
    widths => { go(Widths(byte(), utf8_ch(), utf8(n()))); }
    signs => { go(Signs { a: i8(), b: i8() as i16, c: byte(), d: byte() as u16 }); }
    raw => { go(Raw { r#type: byte(), r#fn: bool() }); }
    std => {
        let v = NonZero::new(byte());
        assume(v.is_some());
        let b = utf8_ch();
        assume(b != ':');
        go(Std { a: bool(), b, c: v.unwrap(), d: Ipv4Addr::new(127, 0, byte() & 1, 255), e: byte() as usize });
    }
    greedy => {
        let a = from_set(n(), b"abz");
        let b = utf8(param(1));
        assume(b.is_empty() || !b.as_bytes()[0].is_ascii_lowercase());
        assume(no(&b, '\n'));
        go(Greedy { a, b });
    }
    infer => { go(Infer { a: bool(), b: i8(), c: byte() }); }
    each => {
        let (a, c) = (utf8(n()), utf8(param(1)));
        assume(clear(&a, "](", ""));
        go(Each { a, b: byte(), c });
    }
    expr => {
        let (a, b) = two(n());
        assume(no(&a, '/') && no(&b, '\n'));
        go(Expr { a, b });
    }
    built => { let (a, b) = (byte(), i8()); go(Built { a, b }); }
    checked => { let (a, b) = (byte(), byte()); assume(a > b); go(Checked { a, b }); }
    gen_a => {
        let (a, b) = two(n());
        assume(clear(&a, " -> ", &b));
        go(Gen(a, b));
        go(Gen(byte(), true));
    }
    gen_b => { go(Gen(point(), kind())); }
    deep => { go(Deep { p: point(), q: (Point { x: 0, y: byte() }, 0), rest: 0 }); }
    partly => { go(Partly { a: byte(), b: String::new(), c: vec![] }); }
    outer => { go(Outer(point(), kind())); }
    shape => {
        let k = n();
        go(match choose(5) {
            0 => Shape::Circle { r: byte() },
            1 => Shape::Rect(i8(), i8()),
            2 => Shape::Point,
            3 => Shape::Poly(list(k + 1, byte)),
            _ => Shape::At(point()),
        });
    }
    keyed => {
        go(match choose(3) {
            0 => Keyed::FirstKey(byte()),
            1 => Keyed::SecondKey(utf8(n())),
            _ => { let c = utf8_ch(); assume(c != ':'); Keyed::Both(c, bool()) }
        });
    }
    layered => {
        go(match choose(5) {
            0 => Layered::Num(byte()),
            1 => Layered::Bool(bool()),
            2 => Layered::Percent(byte()),
            3 => Layered::None,
            _ => {
                let (c, s) = (ascii_ch(), ascii(n()));
                assume(c.is_ascii_uppercase() && digits(&s));
                Layered::Split(c, s)
            }
        });
    }
    wrap => {
        go(if bool() { Wrap::A(byte()) } else { Wrap::B(byte(), byte()) });
    }
    wrap_s => {
        let (a, b) = two(n());
        if bool() {
            go(Wrap::A(a + &b));
        } else {
            assume(no(&a, ';'));
            // `<{0}>` is tried first and takes any text
            let w = Wrap::B(a.clone(), b.clone());
            go_as(&w, &Wrap::A(format!("{a};{b}")));
        }
    }
    opts => {
        let (b, c) = (option(|| utf8(n())), option(i8));
        if let Some(b) = &b { assume(no(b, '#') && no(b, '@')); }
        go(Opts { a: byte(), b, c });
    }
    opt_in => { go(OptIn { a: option(byte), b: option(point) }); }
    opt_with => {
        let s = ascii(n());
        assume(no(&s, '!'));
        go(OptWith(option(|| list(param(1), byte)), s));
    }
    opt_e => {
        go(if bool() { OptE::A(Some(byte())) } else { OptE::B(option(bool)) });
    }
    lists => {
        let v = list(param(1), || utf8(n()));
        for s in &v { assume(no(s, ',') && no(s, ';')); }
        let k = choose(3) as usize + 1;
        let b = (0..k).map(|i| list(i % 2 + 1, bool)).map(|v| v.into_iter().map(|b| b as u8 * 99).collect()).collect();
        go(Lists { a: v, b });
    }
    with => { go(With { a: byte(), b: i8() as i16 }); }
    both => {
        let a = match choose(3) { 0 => Shape::Circle { r: byte() }, 1 => Shape::Rect(i8(), i8()), _ => Shape::Point };
        go(Both { a, b: if bool() { Layered::Percent(byte()) } else { Layered::Bool(bool()) } });
    }
    rec => {
        let mut r = Rec::Leaf(byte());
        for _ in 0..n() { r = Rec::Node(Box2(Box::new(r))); }
        go(r);
    }
}
fn go_as<T: std::fmt::Display + std::str::FromStr + PartialEq>(t: &T, want: &T) {
    warm::<T>();
    let s = t.to_string();
    obs_str(&s);
    reach(4);
    match T::from_str(&s) {
        Ok(u) => check(u == *want, 6),
        Err(_) => check(false, 7),
    }
}
