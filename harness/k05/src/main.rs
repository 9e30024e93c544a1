//! C05: the style rule, for every identifier.
use pdd_mirror::verif_kernels::style;
use symlib::*;

const STYLES: [&str; 13] = ["none", "lowercase", "UPPERCASE", "snake_case", "SNAKE_CASE", "camelCase", "CamelCase", "kebab-case", "KEBAB-CASE", "Title Case", "Title case", "title case", "TITLE CASE"];

fn styled(style: &str, ident: &str) -> String {
    if style == "none" {
        return ident.to_string();
    }
    let mut words: Vec<String> = vec![];
    let mut open = false;
    let mut prev_upper = false;
    for c in ident.chars() {
        if !c.is_alphanumeric() {
            open = false;
            continue;
        }
        if !open || (c.is_ascii_uppercase() && !prev_upper) {
            words.push(String::new());
        }
        words.last_mut().unwrap().push(c);
        open = true;
        prev_upper = c.is_ascii_uppercase();
    }
    let up = |w: &str| w.to_ascii_uppercase();
    let low = |w: &str| w.to_ascii_lowercase();
    let cap = |w: &str| {
        let n = w.chars().next().unwrap().len_utf8();
        up(&w[..n]) + &low(&w[n..])
    };
    let n = |f: &dyn Fn(usize, &str) -> String, sep: &str| words.iter().enumerate().map(|(i, w)| f(i, w)).collect::<Vec<_>>().join(sep);
    match style {
        "lowercase" => n(&|_, w| low(w), ""),
        "UPPERCASE" => n(&|_, w| up(w), ""),
        "snake_case" => n(&|_, w| low(w), "_"),
        "SNAKE_CASE" => n(&|_, w| up(w), "_"),
        "camelCase" => n(&|i, w| if i == 0 { low(w) } else { cap(w) }, ""),
        "CamelCase" => n(&|_, w| cap(w), ""),
        "kebab-case" => n(&|_, w| low(w), "-"),
        "KEBAB-CASE" => n(&|_, w| up(w), "-"),
        "Title Case" => n(&|_, w| cap(w), " "),
        "Title case" => n(&|i, w| if i == 0 { cap(w) } else { low(w) }, " "),
        "title case" => n(&|_, w| low(w), " "),
        "TITLE CASE" => n(&|_, w| up(w), " "),
        _ => panic!("style"),
    }
}
fn go(st: &str, id: &str, name: &str) {
    let got = style(st, id);
    if let Some(s) = &got {
        obs_str(s);
        reach(1);
    }
    check(got == Some(styled(st, name)), 1);
}
/// every ASCII identifier of n bytes
fn ident(n: usize) -> String {
    let s = ascii(n);
    let b = s.as_bytes();
    assume(b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && !b[0].is_ascii_digit());
    assume(s != "_");
    s
}
/// letters with and without case outside ASCII
fn foreign(n: usize) -> String {
    let t = ["é", "É", "ß", "名", "a", "A", "_", "1", "٣", "ǅ", "·", "\u{301}", "‿", "\u{212a}", "ⅷ", "\u{130}"];
    let mut s = String::from("x");
    for _ in 0..n {
        s.push_str(t[choose(t.len() as u8) as usize]);
    }
    s
}
harness! {
    styles => { let s = ident(param(0)); go(STYLES[param(1)], &s, &s); }
    raw => { let s = ident(param(0)); let t = format!("r#{s}"); assume(s != "self" && s != "Self" && s != "super" && s != "crate"); go(STYLES[param(1)], &t, &s); }
    others => { let s = foreign(param(0)); go(STYLES[param(1)], &s, &s); }
    names => {
        // every string that is not the name of a style is rejected
        let s = ascii(param(0));
        let ok = style(&s, "aB").is_some();
        obs(ok as u64);
        reach(2);
        let mut want = false;
        for t in STYLES { want |= t == s; }
        check(ok == want, 2);
    }
}
