//! C07: the format parameters, for every string.
use pdd_mirror::verif_kernels::{Arg, Spec, spec};
use symlib::*;

const TYPES: [&str; 11] = ["", "?", "x?", "X?", "o", "x", "X", "p", "b", "e", "E"];
fn word(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_'
}
fn num(b: &[u8]) -> Option<usize> {
    let mut n = 0usize;
    for x in b {
        n = n.checked_mul(10)?.checked_add((x - b'0') as usize)?;
    }
    Some(n)
}
fn align(c: char) -> bool {
    c == '<' || c == '^' || c == '>'
}
/// A number, or a name or number followed by `$`. Outer None: a number too large.
fn count(b: &[u8], i: &mut usize) -> Option<Option<Arg>> {
    let mut e = *i;
    while e < b.len() && word(b[e]) {
        e += 1;
    }
    if e > *i && e < b.len() && b[e] == b'$' {
        let t = &b[*i..e];
        *i = e + 1;
        if t.iter().all(|x| x.is_ascii_digit()) {
            if let Some(n) = num(t) {
                return Some(Some(Arg::Index(n)));
            }
        }
        return Some(Some(Arg::Name(String::from_utf8(t.to_vec()).unwrap())));
    }
    let mut e = *i;
    while e < b.len() && b[e].is_ascii_digit() {
        e += 1;
    }
    if e == *i {
        return Some(None);
    }
    let n = num(&b[*i..e])?;
    *i = e;
    Some(Some(Arg::Value(n)))
}
fn oracle(s: &str) -> Option<Spec> {
    let mut o = Spec::default();
    let mut c = s.chars();
    let (c0, c1) = (c.next(), c.next());
    let b = s.as_bytes();
    let mut i = 0;
    if let (Some(f), Some(a)) = (c0, c1) {
        if align(a) {
            o.fill = Some(f);
            o.align = Some(a);
            i = f.len_utf8() + 1;
        }
    }
    if let (Some(a), None) = (c0, o.align) {
        if align(a) {
            o.align = Some(a);
            i = 1;
        }
    }
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    if at(i) == b'+' || at(i) == b'-' {
        o.sign = Some(at(i) as char);
        i += 1;
    }
    if at(i) == b'#' {
        o.alternate = true;
        i += 1;
    }
    if at(i) == b'0' && at(i + 1) != b'$' {
        o.zero = true;
        i += 1;
    }
    o.width = count(b, &mut i)?;
    if at(i) == b'.' {
        i += 1;
        if at(i) == b'*' {
            o.precision = Some(Arg::Input);
            i += 1;
        } else {
            o.precision = Some(count(b, &mut i)??);
        }
    }
    for t in TYPES {
        if &b[i..] == t.as_bytes() {
            o.ty = t;
            return Some(o);
        }
    }
    None
}
fn go(s: &str) {
    let got = spec(s);
    let want = oracle(s);
    match &got {
        Some(v) => {
            obs(1 | (v.zero as u64) << 1 | (v.alternate as u64) << 2 | v.fill.map_or(0, |c| c as u64) << 8);
            reach(1)
        }
        None => {
            obs(0);
            reach(2)
        }
    }
    check(got == want, 1);
}
fn warm_up() {
    let _ = (spec("x<+#05.3x?"), spec("+a$.b$"), spec("\u{1}"));
}
harness! {
    any => { warm_up(); go(&utf8(param(0))); }
    flags => { warm_up(); go(&from_set(param(0), b"<^>+-#0. ")); }
    counts => { warm_up(); go(&from_set(param(0), b"019a_$.*")); }
    types => { warm_up(); go(&from_set(param(0), b"?xXopbeE5s#")); }
    all => { warm_up(); go(&from_set(param(0), b"*<^+#05.$a?x")); }
    // a legal prefix, then anything
    after => {
        warm_up();
        let mut s = String::from(["-<", "é^+#0", "<<#", "07", "+12.", "0a$.", "#1$.*", "x>-#05.3"][param(1)]);
        s.push_str(&utf8(param(0)));
        go(&s);
    }
    large => {
        // around the largest number, and anything as long
        warm_up();
        let mut s = String::from(["", "0", ".", "+9."][param(0)]);
        s.push_str("18446744073709551");
        for _ in 0..param(1) { s.push((b'0' + choose(10)) as char); }
        if bool() { s.push('$'); }
        go(&s);
    }
}
