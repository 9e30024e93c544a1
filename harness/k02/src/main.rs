//! C02: the expression the macro makes of a format, for every text of a template.
use pdd_mirror::verif_kernels::{At, format, item, literals, pattern};
use regex_syntax::hir::Hir;
use symlib::grammar::{Part, split};
use symlib::*;
#[path = "../../kernel/meaning.rs"]
mod meaning;
use meaning::*;

const SET: &[u8] = b"{}\\.^$*+?()[]|-# \n\"'%~&a0";
/// A format string: symbolic characters (how many: param 0, of which kind: param 2) in a frame (param 1).
fn frame() -> String {
    let (x, z) = [("", ""), ("{a}", "{b}"), ("", "{b}"), ("{b}", ""), ("x", "{{"), ("{b}}}", "y{a}")][param(1)];
    let y = match param(2) {
        0 => from_set(param(0), SET),
        1 => ascii(param(0)),
        _ => utf8(param(0)),
    };
    format!("{x}{y}{z}")
}

/// Literal text verbatim, a group of the shortest text for each field.
fn want(parts: Option<Vec<Part>>, names: &[(&str, &str)], hole: impl Fn() -> Option<Hir>) -> Option<Hir> {
    let mut v = vec![];
    let mut used: Vec<String> = vec![];
    for p in parts? {
        match p {
            Part::Text(t) => v.push(lit(&t)),
            Part::Var(n, _) => {
                // which text goes to which field when one is named twice is not said
                assume(!used.contains(&n));
                if n.is_empty() {
                    v.push(hole()?);
                } else {
                    v.push(cap(names.iter().find(|x| x.0 == n)?.1, read("(?s:.*?)").unwrap()));
                }
                used.push(n);
            }
        }
    }
    Some(Hir::concat(v))
}
fn nothing() -> Option<Hir> {
    // `{}` in the format of a struct
    assume(false);
    None
}

harness! {
    structs => {
        let t = item("struct X { a: String, b: String }");
        let _ = pattern(&format(&t, At::Type, "x{a}y{b}"));
        let s = frame();
        same(pattern(&format(&t, At::Type, &s)), want(split(&s), &[("a", "a"), ("b", "b")], nothing));
    }
    fields => {
        let t = format(&item("struct X { a: Y }"), At::Type, "{a}");
        let _ = pattern(&format(&t, At::Field(0), "x{}y{b}"));
        let s = frame();
        let parts = split(&s);
        // any other name is that of a nested field, a matter of C10
        if let Some(ps) = &parts {
            assume(ps.iter().all(|p| !matches!(p, Part::Var(n, _) if !n.is_empty() && n != "a" && n != "b")));
        }
        same(pattern(&format(&t, At::Field(0), &s)), want(parts, &[("a", "a.a"), ("b", "a.b")], || Some(cap("a", read("(?s:.*?)").unwrap()))));
    }
    variants => {
        let t = item("enum X { A1 { a: String, b: String } }");
        let _ = pattern(&format(&t, At::Variant, "x{a}y{b}{}"));
        let s = frame();
        same(pattern(&format(&t, At::Variant, &s)), want(split(&s), &[("a", "a"), ("b", "b")], || Some(lit("A1"))));
    }
    // the text of a variant, as compared with the input, and as published
    constants => {
        let t = item("enum X { A1 }");
        let known = literals(&format(&t, At::Variant, "x{}"));
        if !known_form(known == Some(vec!["xA1".to_string(), "xA1".to_string()])) {
            return;
        }
        let s = frame();
        let text: Option<String> = split(&s).and_then(|ps| {
            ps.into_iter()
                .map(|p| match p {
                    Part::Text(t) => Some(t),
                    Part::Var(n, _) => n.is_empty().then(|| "A1".to_string()),
                })
                .collect()
        });
        match (literals(&format(&t, At::Variant, &s)), text) {
            (Some(v), Some(t)) => {
                reach(1);
                check(v.len() == 2 && v[0] == t, 6);
                same(v.into_iter().nth(1).map(|p| (p, vec![])), Some(lit(&t)));
            }
            (None, None) => {
                reach(2);
                check(true, 7)
            }
            (got, _) => check(got.is_none(), 8),
        }
    }
}
