//! C06: the split of a format string and of a field path, for every string.
use pdd_mirror::verif_kernels::{Key, Tok, path, split};
use symlib::*;

fn o_split(s: &str) -> Option<Vec<Tok>> {
    let tok = |p| match p {
        grammar::Part::Text(t) => Tok::Text(t),
        grammar::Part::Var(n, p) => Tok::Var(n, p),
    };
    Some(grammar::split(s)?.into_iter().map(tok).collect())
}
fn go(s: &str) {
    let want = o_split(s);
    let got = split(s);
    obs(got.is_some() as u64);
    match &got {
        Some(v) => {
            obs(v.len() as u64);
            reach(1)
        }
        None => reach(2),
    }
    check(got == want, 1);
}
fn o_key(s: &str) -> Key {
    let d = s.strip_prefix('+').unwrap_or(s);
    if !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()) {
        let mut n = 0usize;
        for b in d.bytes() {
            n = n * 10 + (b - b'0') as usize;
        }
        Key::Index(n)
    } else {
        Key::Name(if s.len() >= 2 && &s.as_bytes()[..2] == b"r#" { s[2..].to_string() } else { s.to_string() })
    }
}
fn go_path(s: &str) {
    let mut want = vec![];
    let b = s.as_bytes();
    let mut from = 0;
    for i in 0..=b.len() {
        if !b.is_empty() && (i == b.len() || b[i] == b'.') {
            want.push(o_key(&s[from..i]));
            from = i + 1;
        }
    }
    let got = path(s);
    obs(got.len() as u64);
    reach(got.len().min(3) as u32);
    check(got == want, 2);
}
fn warm_up() {
    let _ = (split("a{b}{c:d}{{}}"), split("{"), path("r#a.0.b"), o_split("{}"));
}
harness! {
    split_any => { warm_up(); go(&utf8(param(0))); }
    split_braces => { warm_up(); go(&from_set(param(0), b"{}:a.\n")); }
    split_few => { warm_up(); go(&from_set(param(0), b"{}:")); }
    path_any => { warm_up(); go_path(&utf8(param(0))); }
    path_few => { warm_up(); go_path(&from_set(param(0), b".r#0a9_")); }
    path_index => { warm_up(); go_path(&from_set(param(0), b"0123456789.")); }
}
