//! C01: what the macro makes of a format, for every text of a template.
use pdd_mirror::verif_kernels::{At, Written, format, item, written};
use symlib::grammar::{Part, split};
use symlib::*;

const SET: &[u8] = b"{}\\.^$*+?()[]|-# \n\"'%~&a0";
/// A format string: symbolic characters (how many: param 0, of which kind: param 2) in a frame (param 1).
fn frame() -> String {
    let (x, z) = [("", ""), ("{a}", "{b}"), ("", "{b}"), ("{b}", ""), ("x", "{{"), ("{b}}}", "y{a}")][param(1)];
    let y = match param(2) {
        0 => from_set(param(0), SET),
        1 => ascii(param(0)),
        _ => utf8(param(0)),
    };
    format!("{x}{y}{z}")
}

fn shown(w: &Written) -> Option<Vec<Part>> {
    match w {
        Written::Text(t) if t.is_empty() => Some(vec![]),
        Written::Text(t) => Some(vec![Part::Text(t.clone())]),
        Written::Format(f, args) => {
            // the format goes to write!, whose braces are the same
            let mut args = args.iter();
            let mut v = vec![];
            for p in split(f)? {
                v.push(match p {
                    Part::Var(n, spec) if n.is_empty() => Part::Var(args.next()?.clone(), spec),
                    p => p,
                });
            }
            args.next().is_none().then_some(v)
        }
        Written::Other => None,
    }
}
/// Nothing is claimed if the generated code has another form.
fn known(w: Option<Written>, names: &[&str]) -> bool {
    let want: Vec<Part> = [Part::Text("x}".into())].into_iter().chain(names.iter().map(|n| Part::Var(n.to_string(), String::new()))).collect();
    known_form(w.and_then(|w| shown(&w)) == Some(want))
}
/// Paths are left to c01 and k06 (a malformed one makes the macro panic, which is a rejection too).
fn plain(parts: &Option<Vec<Part>>) {
    if let Some(ps) = parts {
        assume(ps.iter().all(|p| !matches!(p, Part::Var(n, _) if n.contains('.'))));
    }
}
fn go(got: Option<Written>, want: Option<Vec<Part>>, names: &[&str]) {
    let want = want.filter(|w| {
        w.iter().all(|p| match p {
            Part::Text(_) => true,
            Part::Var(n, _) => names.contains(&&**n),
        })
    });
    obs(got.is_some() as u64);
    match (got, want) {
        (Some(w), Some(p)) => {
            reach(1);
            check(shown(&w) == Some(p), 1)
        }
        (None, None) => {
            reach(2);
            check(true, 2)
        }
        (Some(_), None) => check(false, 3),
        (None, Some(_)) => check(false, 4),
    }
}
harness! {
    structs => {
        let t = item("struct X { a: String, b: String }");
        if !known(written(&format(&t, At::Type, "x}}{a}{b}")), &["a", "b"]) || !known(written(&format(&t, At::Type, "x}}")), &[]) {
            return;
        }
        let s = frame();
        let want = split(&s);
        plain(&want);
        go(written(&format(&t, At::Type, &s)), want, &["a", "b"]);
    }
    // of a variant; `{}` is its name, as a text
    variants => {
        let t = item("enum X { A1 }");
        if !known(written(&format(&t, At::Variant, "x}}{}")), &["A1"]) || !known(written(&format(&t, At::Variant, "x}}")), &[]) {
            return;
        }
        let s = frame();
        let mut want = split(&s);
        plain(&want);
        // a unit variant has no fields
        if let Some(ps) = &mut want {
            for p in ps {
                if let Part::Var(n, _) = p {
                    *n = if n.is_empty() { "A1".into() } else { "?".into() };
                }
            }
        }
        go(written(&format(&t, At::Variant, &s)), want, &["A1"]);
    }
}
