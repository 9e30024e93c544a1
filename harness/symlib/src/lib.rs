//! Interface between a harness and whatever runs it.
//!
//! Symbolic build (no feature): the `__sym_*` functions are external; the engine (symrun) gives
//! them meaning, and every byte from `byte()` is a fresh solver variable.
//! Native build (feature "native"): they are defined here, and the bytes come from a replay file.
pub mod grammar;
pub mod re;

#[cfg(feature = "native")]
mod native;
#[cfg(feature = "native")]
pub use native::run_main;

unsafe extern "C" {
    fn __sym_byte() -> u8;
    fn __sym_assume(c: u32);
    fn __sym_check(c: u32, id: u32);
    fn __sym_reach(id: u32);
    fn __sym_obs(v: u64);
    fn __sym_param(i: u32) -> u64;
    fn __sym_conc(v: u64) -> u64;
}

pub fn byte() -> u8 {
    unsafe { __sym_byte() }
}
pub fn assume(c: bool) {
    unsafe { __sym_assume(c as u32) }
}
/// The assertion: decided by the solver for every value on the current path.
pub fn check(c: bool, id: u32) {
    unsafe { __sym_check(c as u32, id) }
}
pub fn reach(id: u32) {
    unsafe { __sym_reach(id) }
}
/// For kernels that read generated code: nothing is claimed (and check.py says so) unless it has the known form.
pub fn known_form(c: bool) -> bool {
    if !c {
        reach(90);
        check(true, 90);
    }
    c
}
pub fn obs(v: u64) {
    unsafe { __sym_obs(v) }
}
pub fn param(i: u32) -> usize {
    unsafe { __sym_param(i) as usize }
}
/// Fork on every feasible value.
pub fn conc(v: u64) -> u64 {
    unsafe { __sym_conc(v) }
}
pub fn obs_str(s: &str) {
    obs(s.len() as u64);
    for b in s.bytes() {
        obs(b as u64);
    }
}
pub fn bool() -> bool {
    let b = byte();
    assume(b < 2);
    b == 1
}
/// A symbolic choice among 0..n, one path per value.
pub fn choose(n: u8) -> u8 {
    let b = byte();
    assume(b < n);
    conc(b as u64) as u8
}
pub fn u16() -> u16 {
    u16::from_le_bytes([byte(), byte()])
}
pub fn u32() -> u32 {
    u32::from_le_bytes([byte(), byte(), byte(), byte()])
}
pub fn u64() -> u64 {
    u32() as u64 | (u32() as u64) << 32
}

/// Symbolic ASCII string of exactly `n` bytes.
pub fn ascii(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = byte();
        assume(b < 128);
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Symbolic ASCII string of every length 0..=n.
pub fn ascii_upto(n: usize) -> String {
    let k = choose(n as u8 + 1) as usize;
    ascii(k)
}
/// Symbolic string whose bytes all lie in `set`, of exactly `n` bytes.
pub fn from_set(n: usize, set: &[u8]) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = byte();
        let mut ok = false;
        for &c in set {
            ok |= b == c;
        }
        assume(ok);
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn from_set_upto(n: usize, set: &[u8]) -> String {
    let k = choose(n as u8 + 1) as usize;
    from_set(k, set)
}
/// Symbolic well-formed UTF-8 of exactly `n` bytes (every byte pattern `str::from_utf8` accepts).
pub fn utf8(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(byte());
    }
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}
pub fn utf8_upto(n: usize) -> String {
    let k = choose(n as u8 + 1) as usize;
    utf8(k)
}
/// For texts too long to be symbolic as a whole: `base` with the bytes at positions param(first), param(first+1), ...
/// (counted from 1; 0: none) any byte, or, at the end, one more; of the length param(first+3) if that is not 0.
pub fn touched(base: &str, first: u32) -> String {
    let mut v = base.as_bytes().to_vec();
    let cut = param(first + 3);
    if cut > 0 {
        v.truncate(cut);
    }
    for i in 0..3 {
        let at = param(first + i);
        if at > v.len() {
            v.push(byte());
        } else if at > 0 {
            v[at - 1] = byte();
        }
    }
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}
/// The string to parse: param(0) bytes, ASCII, or any well-formed UTF-8 if param(1) is 1.
pub fn input() -> String {
    if param(1) == 1 { utf8(param(0)) } else { ascii(param(0)) }
}

/// `entries!(h_a, h_b)` : declares `main`.
#[macro_export]
macro_rules! entries {
    ($($f:ident),* $(,)?) => {
        #[cfg(feature = "native")]
        fn main() {
            $crate::run_main(&[$((stringify!($f), $f as extern "C-unwind" fn())),*]);
        }
        #[cfg(not(feature = "native"))]
        fn main() {
            let t: &[extern "C-unwind" fn()] = &[$($f),*];
            for f in t { f(); }
        }
    };
}
/// Declares an exported harness function.
#[macro_export]
macro_rules! harness {
    ($($name:ident => $body:block)*) => {
        $(
            #[unsafe(no_mangle)]
            pub extern "C-unwind" fn $name() $body
        )*
        $crate::entries!($($name),*);
    };
}

// ---- common assertions -------------------------------------------------------------------
use std::fmt::{Debug, Display};
use std::str::FromStr;

/// Build T's (lazily built) parser before any byte is symbolic.
pub fn warm<T: FromStr>() {
    let _ = T::from_str("\u{1}~");
}
/// `s` parses to exactly `want` (None: must be rejected). Checks 1..4, markers 1 (accepted), 2 (rejected).
pub fn parses<T: FromStr + PartialEq>(s: &str, want: Option<T>) {
    match (T::from_str(s), want) {
        (Ok(a), Some(b)) => {
            obs(1);
            reach(1);
            check(a == b, 1)
        }
        (Err(_), None) => {
            obs(0);
            reach(2);
            check(true, 2)
        }
        (Ok(_), None) => check(false, 3),
        (Err(_), Some(_)) => check(false, 4),
    }
}
/// Display of `t` is exactly `want`. Check 5, marker 3.
pub fn shows<T: Display>(t: &T, want: &str) {
    let got = t.to_string();
    obs_str(&got);
    reach(3);
    check(got == want, 5)
}
/// A sink that holds a limited number of bytes.
struct Sink {
    text: String,
    room: usize,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.room {
            return Err(std::fmt::Error);
        }
        self.room -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}
/// `shows`, and: parameters of the caller change nothing (check 8), and a sink that is full makes the
/// formatting fail (9), having received nothing but the beginning of the text (10), while one with room takes it all (11).
pub fn shows_fully<T: Display>(t: &T, want: &str) {
    use std::fmt::Write;
    shows(t, want);
    check(format!("{t:*^+#12.1}") == want, 8);
    let room = byte() as usize;
    assume(room <= want.len());
    let mut sink = Sink { text: String::new(), room };
    match write!(sink, "{t}") {
        Ok(()) => {
            obs(1);
            check(room == want.len(), 9);
            check(sink.text == want, 11);
        }
        Err(_) => {
            obs(2);
            check(room < want.len(), 9);
            check(want.as_bytes().starts_with(sink.text.as_bytes()), 10);
        }
    }
}
/// parse(display(t)) == t. Check 6, marker 4.
pub fn round_trips<T: Display + FromStr + PartialEq + Debug>(t: &T) {
    let s = t.to_string();
    obs_str(&s);
    reach(4);
    match T::from_str(&s) {
        Ok(u) => check(u == *t, 6),
        Err(_) => check(false, 7),
    }
}

// ---- symbolic field values ---------------------------------------------------------------
pub fn i8() -> i8 {
    byte() as i8
}
pub fn i16() -> i16 {
    u16() as i16
}
/// any Unicode scalar value
pub fn ch() -> char {
    match char::from_u32(u32()) {
        Some(c) => c,
        None => {
            assume(false);
            unreachable!()
        }
    }
}
/// any Unicode scalar value, described by its UTF-8 bytes (cheaper where it is encoded again)
pub fn utf8_ch() -> char {
    let n = choose(4) as usize + 1;
    let s = utf8(n);
    let mut i = s.chars();
    let c = i.next().unwrap();
    assume(c.len_utf8() == n);
    c
}
pub fn ascii_ch() -> char {
    let b = byte();
    assume(b < 128);
    b as char
}
pub fn option<T>(f: impl FnOnce() -> T) -> Option<T> {
    if choose(2) == 1 { Some(f()) } else { None }
}
