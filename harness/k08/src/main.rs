//! C08: what the macro makes of a user's regular expression, for every expression of a template.
//!
//! The expression the macro puts into the generated code, read by regex-syntax, must be the user's expression, read by
//! regex-syntax, at its place. Names of groups are the macro's affair; that there is a group, where, and around what, is not.
use pdd_mirror::verif_kernels::{At, format, item, pattern, regex};
use regex_syntax::hir::{Hir, HirKind};
use symlib::*;
#[path = "../../kernel/meaning.rs"]
mod meaning;
use meaning::*;

const SET: &[u8] = b"()[]|*?\\.^a{},-:#";
fn sym(i: u32) -> String {
    from_set(param(i), SET)
}
/// Symbolic characters (how many: param 0) in a context (which: param 1).
fn within() -> String {
    let (x, z) = [
        ("", ""),
        ("(?x) a ", ""),
        ("(?x:a ", "\n)b"),
        ("(?", ")b"),
        ("[", "]"),
        ("a{", "}"),
        ("(", ")"),
        ("\\", "b"),
        ("\\x", "0"),
        ("(?i)", "|b"),
        ("(?P<", ">b)"),
    ][param(1)];
    let y = match param(2) {
        0 => from_set(param(0), SET),
        1 => ascii(param(0)),
        _ => utf8(param(0)),
    };
    format!("{x}{y}{z}")
}
/// Read by regex-syntax; expressions that parse but mean nothing (unknown Unicode classes, not UTF-8) are left aside.
fn user(s: &str) -> Option<Hir> {
    // the unnamed group is not regex-syntax's affair
    assume(!s.contains("(?<>") && !s.contains("(?P<>"));
    let h = read(s);
    assume(h.is_some() || regex_syntax::ast::parse::Parser::new().parse(s).is_err());
    h
}
fn has_group(h: &Hir) -> bool {
    match h.kind() {
        HirKind::Repetition(r) => has_group(&r.sub),
        HirKind::Capture(c) => c.name.is_some() || has_group(&c.sub),
        HirKind::Concat(hs) | HirKind::Alternation(hs) => hs.iter().any(has_group),
        _ => false,
    }
}
fn p() -> &'static str {
    ["", "P"][param(3)]
}

harness! {
    // an expression on a struct, naming its field
    whole => {
        let t = item("struct X { a: String }");
        let _ = pattern(&regex(&t, At::Type, "x(?<a>.)"));
        let s = format!("{}(?{}<a>{}){}", sym(0), p(), sym(1), sym(2));
        same(pattern(&regex(&t, At::Type, &s)), user(&s));
    }
    // many characters before the group, of few kinds
    before => {
        let t = item("struct X { a: String }");
        let _ = pattern(&regex(&t, At::Type, "x(?<a>.)"));
        let set: &[u8] = [b"\\(" as &[u8], b"\\[]", b"(?:", b"\\a"][param(1)];
        let s = format!("{}(?{}<a>.)", from_set(param(0), set), p());
        same(pattern(&regex(&t, At::Type, &s)), user(&s));
    }
    // on a field: the whole of it, or its groups
    field => {
        let t = format(&item("struct X { a: String }"), At::Type, "<{a}>");
        let _ = pattern(&regex(&t, At::Field(0), "."));
        let s = within();
        let want = user(&s).map(|h| Hir::concat(vec![lit("<"), if has_group(&h) { of("a", &h) } else { cap("a", h) }, lit(">")]));
        same(pattern(&regex(&t, At::Field(0), &s)), want);
    }
    // and beside a format
    field_format => {
        let t = format(&item("struct X { a: String }"), At::Type, "{a}>");
        let t = format(&t, At::Field(0), "({}");
        let _ = pattern(&regex(&t, At::Field(0), "."));
        let s = within();
        let want = user(&s).map(|h| if has_group(&h) { Hir::concat(vec![of("a", &h), lit(">")]) } else { Hir::concat(vec![lit("("), cap("a", h), lit(">")]) });
        same(pattern(&regex(&t, At::Field(0), &s)), want);
    }
    // a part of it
    field_part => {
        let t = format(&item("struct X { a: String }"), At::Type, "<{a}>");
        let _ = pattern(&regex(&t, At::Field(0), "x(?<>.)"));
        let (x, y, z) = (sym(0), sym(1), sym(2));
        // the name stands for the field itself
        let as_group = user(&format!("{x}(?{}<a>{y}){z}", p()));
        let want = match as_group {
            Some(h) if has_group(&h) => Some(h),
            Some(_) => read(&format!("{x}(?{}<>{y}){z}", p())).map(|h| cap("a", h)),
            None => None,
        };
        let got = pattern(&regex(&t, At::Field(0), &format!("{x}(?{}<>{y}){z}", p())));
        same(got, want.map(|h| Hir::concat(vec![lit("<"), h, lit(">")])));
    }
    // the name of a variant
    variant => {
        let t = item("enum X { A1 }");
        let _ = pattern(&regex(&t, At::Variant, "x(?<>)"));
        let (x, z) = (sym(0), sym(1));
        let as_group = user(&format!("{x}(?{}<a>){z}", p()));
        let want = match as_group {
            Some(h) if has_group(&h) => Some(read(&format!("{x}(?:A1){z}")).unwrap()),
            Some(_) => read(&format!("{x}(?{}<>){z}", p())),
            None => None,
        };
        same(pattern(&regex(&t, At::Variant, &format!("{x}(?{}<>){z}", p()))), want);
    }
}
