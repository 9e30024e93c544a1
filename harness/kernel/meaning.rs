//! What a regular expression means, as far as the properties go.
use regex_syntax::hir::{Capture, Class, Hir, HirKind, Look};
use symlib::*;

#[derive(PartialEq, Debug)]
pub enum N {
    Lit(Vec<u8>),
    Class(Class),
    Look(Look),
    Rep(u32, Option<u32>, bool, Box<N>),
    /// what the text of the group is for: `a`, `a.b`, ...
    Cap(String, Box<N>),
    Cat(Vec<N>),
    Alt(Vec<N>),
}
/// The meaning of an expression: unnamed groups dropped, named groups by what they are for.
pub fn norm(h: &Hir, to: &dyn Fn(&str) -> String) -> N {
    fn put(v: &mut Vec<N>, n: N) {
        match (n, v.last_mut()) {
            (N::Cat(ns), _) => {
                for n in ns {
                    put(v, n);
                }
            }
            (N::Lit(a), Some(N::Lit(b))) => b.extend(a),
            (n, _) => v.push(n),
        }
    }
    match h.kind() {
        HirKind::Empty => N::Cat(vec![]),
        HirKind::Literal(l) => N::Lit(l.0.to_vec()),
        HirKind::Class(c) => N::Class(c.clone()),
        HirKind::Look(l) => N::Look(*l),
        HirKind::Repetition(r) => N::Rep(r.min, r.max, r.greedy, Box::new(norm(&r.sub, to))),
        HirKind::Capture(c) => match &c.name {
            None => norm(&c.sub, to),
            Some(s) => N::Cap(to(s), Box::new(norm(&c.sub, to))),
        },
        HirKind::Concat(hs) => {
            let mut v = vec![];
            for h in hs {
                let n = norm(h, to);
                put(&mut v, n);
            }
            if v.len() == 1 { v.pop().unwrap() } else { N::Cat(v) }
        }
        HirKind::Alternation(hs) => N::Alt(hs.iter().map(|h| norm(h, to)).collect()),
    }
}
pub fn read(s: &str) -> Option<Hir> {
    regex_syntax::Parser::new().parse(s).ok()
}
pub fn meaning(h: &Hir) -> N {
    // as printed and read again, since that is what becomes of the macro's
    norm(&read(&h.to_string()).unwrap(), &|n| n.to_string())
}
pub fn cap(name: &str, sub: Hir) -> Hir {
    Hir::capture(Capture { index: 1, name: Some(name.into()), sub: Box::new(sub) })
}
pub fn lit(s: &str) -> Hir {
    Hir::literal(s.as_bytes())
}
/// The groups of an expression of field `f` are for the fields of that field.
pub fn of(f: &str, h: &Hir) -> Hir {
    match h.kind() {
        HirKind::Repetition(r) => Hir::repetition(regex_syntax::hir::Repetition { sub: Box::new(of(f, &r.sub)), ..r.clone() }),
        HirKind::Capture(c) => {
            let name = c.name.as_ref().map(|n| if n.is_empty() { f.into() } else { format!("{f}.{n}").into() });
            Hir::capture(Capture { index: c.index, name, sub: Box::new(of(f, &c.sub)) })
        }
        HirKind::Concat(hs) => Hir::concat(hs.iter().map(|h| of(f, h)).collect()),
        HirKind::Alternation(hs) => Hir::alternation(hs.iter().map(|h| of(f, h)).collect()),
        _ => h.clone(),
    }
}
/// `got`: an expression, and what its groups are for.
pub fn same(got: Option<(String, Vec<(String, String)>)>, want: Option<Hir>) {
    obs(got.is_some() as u64);
    match (got, want) {
        (Some((p, groups)), Some(h)) => {
            reach(1);
            let to = |n: &str| match groups.iter().find(|g| g.0 == n) {
                Some(g) => g.1.clone(),
                None => "?".to_string(),
            };
            match read(&p) {
                Some(p) => check(norm(&p, &to) == meaning(&h), 1),
                None => check(false, 2),
            }
        }
        (None, None) => {
            reach(2);
            check(true, 3)
        }
        (Some(_), None) => check(false, 4),
        (None, Some(_)) => check(false, 5),
    }
}
