//! Reference matcher used by the oracles: a direct backtracking reading of leftmost-first
//! (Perl) matching over characters. Shares no code with the `regex` crate.
pub enum R {
    Lit(&'static str),
    /// any character, newline included
    Any,
    /// any character except `\n`
    Dot,
    Set(fn(char) -> bool),
    Seq(Vec<R>),
    Alt(Vec<R>),
    /// min, max, greedy
    Rep(usize, usize, bool, Box<R>),
    Cap(usize, Box<R>),
}
use R::*;
pub type Caps = [Option<(usize, usize)>; 8];

pub fn lit(s: &'static str) -> R {
    Lit(s)
}
/// the capture used for a plain field: shortest text that lets the rest match
pub fn field(i: usize) -> R {
    Cap(i, Box::new(Rep(0, usize::MAX, false, Box::new(Any))))
}
pub fn cap(i: usize, r: R) -> R {
    Cap(i, Box::new(r))
}
pub fn seq(v: Vec<R>) -> R {
    Seq(v)
}
pub fn alt(v: Vec<R>) -> R {
    Alt(v)
}
pub fn opt(r: R) -> R {
    Rep(0, 1, true, Box::new(r))
}
pub fn star(r: R) -> R {
    Rep(0, usize::MAX, true, Box::new(r))
}
pub fn plus(r: R) -> R {
    Rep(1, usize::MAX, true, Box::new(r))
}
pub fn set(f: fn(char) -> bool) -> R {
    Set(f)
}

fn next(s: &str, i: usize) -> Option<(char, usize)> {
    let b = s.as_bytes();
    if i >= b.len() {
        return None;
    }
    if b[i] < 128 {
        return Some((b[i] as char, i + 1));
    }
    // `s` is well-formed: the lead byte says how long the character is
    let c = |k: usize| (b[i + k] & 0x3f) as u32;
    let (v, n) = if b[i] < 0xe0 {
        ((b[i] as u32 & 0x1f) << 6 | c(1), 2)
    } else if b[i] < 0xf0 {
        ((b[i] as u32 & 0xf) << 12 | c(1) << 6 | c(2), 3)
    } else {
        ((b[i] as u32 & 7) << 18 | c(1) << 12 | c(2) << 6 | c(3), 4)
    };
    Some((unsafe { char::from_u32_unchecked(v) }, i + n))
}

fn m(r: &R, s: &str, i: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    match r {
        Lit(l) => {
            let b = s.as_bytes();
            let l = l.as_bytes();
            if b.len() - i < l.len() {
                return false;
            }
            for j in 0..l.len() {
                if b[i + j] != l[j] {
                    return false;
                }
            }
            k(i + l.len(), caps)
        }
        Any => match next(s, i) {
            Some((_, n)) => k(n, caps),
            None => false,
        },
        Dot => match next(s, i) {
            Some((c, n)) if c != '\n' => k(n, caps),
            _ => false,
        },
        Set(f) => match next(s, i) {
            Some((c, n)) if f(c) => k(n, caps),
            _ => false,
        },
        Seq(v) => ms(v, s, i, caps, k),
        Alt(v) => {
            for r in v {
                if m(r, s, i, caps, k) {
                    return true;
                }
            }
            false
        }
        Rep(min, max, greedy, r) => mr(*min, *max, *greedy, r, s, i, caps, k),
        Cap(n, r) => {
            let old = caps[*n];
            let n = *n;
            let ok = m(r, s, i, caps, &mut |e, c| {
                let o = c[n];
                c[n] = Some((i, e));
                if k(e, c) {
                    return true;
                }
                c[n] = o;
                false
            });
            if !ok {
                caps[n] = old;
            }
            ok
        }
    }
}
fn ms(v: &[R], s: &str, i: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    match v {
        [] => k(i, caps),
        [r, rest @ ..] => m(r, s, i, caps, &mut |e, c| ms(rest, s, e, c, k)),
    }
}
#[allow(clippy::too_many_arguments)]
fn mr(
    min: usize,
    max: usize,
    greedy: bool,
    r: &R,
    s: &str,
    i: usize,
    caps: &mut Caps,
    k: &mut dyn FnMut(usize, &mut Caps) -> bool,
) -> bool {
    if min == 0 && !greedy && k(i, caps) {
        return true;
    }
    if max > 0 {
        let more = m(r, s, i, caps, &mut |e, c| {
            if e == i && min == 0 {
                return false;
            }
            mr(min.saturating_sub(1), max.saturating_sub(1), greedy, r, s, e, c, k)
        });
        if more {
            return true;
        }
    }
    min == 0 && greedy && k(i, caps)
}

/// The whole of `s` against `r`.
pub fn full(r: &R, s: &str) -> Option<Caps> {
    let mut caps: Caps = [None; 8];
    let mut out = None;
    let n = s.len();
    m(r, s, 0, &mut caps, &mut |e, c| {
        if e == n {
            out = Some(*c);
            true
        } else {
            false
        }
    });
    out
}
pub fn get<'a>(s: &'a str, c: &Caps, i: usize) -> Option<&'a str> {
    c[i].map(|(a, b)| &s[a..b])
}
/// Captured text of group `i`; a group that took no part counts as empty.
pub fn text<'a>(s: &'a str, c: &Caps, i: usize) -> &'a str {
    get(s, c, i).unwrap_or("")
}
