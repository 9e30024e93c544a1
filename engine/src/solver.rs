//! Path conditions and satisfiability queries, decided by Z3.
//! A query is reduced to the constraints that (transitively) share input bytes with it
//! and memoised; every distinct reduced query is a Z3 verdict.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::{Duration, Instant};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(_c: P, e: c_uint) { eprintln!("z3 error code {}", e); std::process::exit(3); }

#[derive(Clone)]
pub enum Verdict { Sat(std::rc::Rc<[(u8, u8)]>), Unsat, Unknown }

/// Path condition: one canonical constraint per input byte, plus multi-byte constraints.
#[derive(Clone)]
pub struct Pc { pub dom: Vec<E>, pub multi: Vec<E> }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub cache_hits: u64, pub z3_calls: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub z3_time: Duration, pub max_query: Duration }

pub struct Solver {
    c: P,
    s: P,
    /// QF_BV tactic solver, used when the incremental core gives up.
    s2: P,
    bvsort: HashMap<u32, P>,
    vars: HashMap<u32, P>,
    tr: HashMap<E, P>,
    cache: HashMap<Box<[E]>, Verdict>,
    pub stats: Stats,
    pub dump: Vec<(String, bool)>,
    pub dump_every: u64,
    pub dump_max: usize,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let c = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let lg = CString::new("QF_BV").unwrap();
            let s2 = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, lg.as_ptr()));
            Z3_solver_inc_ref(c, s2);
            for x in [s, s2] {
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let k = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
                Z3_solver_set_params(c, x, p);
            }
            Solver { c, s, s2, bvsort: HashMap::new(), vars: HashMap::new(), tr: HashMap::new(), cache: HashMap::new(), stats: Stats::default(), dump: vec![], dump_every: 0, dump_max: 0 }
        }
    }
    pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }
    fn sort(&mut self, w: u32) -> P { let c = self.c; *self.bvsort.entry(w).or_insert_with(|| unsafe { let s = Z3_mk_bv_sort(c, w); Z3_inc_ref(c, s); s }) }
    fn num(&mut self, w: u32, v: u128) -> P {
        let s = self.sort(w);
        unsafe { if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.c, v as u64, s) } else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), s) } }
    }
    fn zvar(&mut self, i: u32) -> P {
        if let Some(&p) = self.vars.get(&i) { return p; }
        let s = self.sort(8);
        unsafe {
            let n = CString::new(format!("b{}", i)).unwrap();
            let p = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), s);
            Z3_inc_ref(self.c, p);
            self.vars.insert(i, p);
            p
        }
    }
    /// 1-bit expressions are translated to Bool, everything else to bit-vectors.
    fn to_bv(&mut self, cx: &Ctx, e: E) -> P {
        let t = self.z(cx, e);
        if cx.w(e) == 1 { let o = self.num(1, 1); let z = self.num(1, 0); unsafe { Z3_mk_ite(self.c, t, o, z) } } else { t }
    }
    fn z(&mut self, cx: &Ctx, e: E) -> P {
        if let Some(&p) = self.tr.get(&e) { return p; }
        let k = cx.key(e);
        let w = k.w as u32;
        let c = self.c;
        let p = unsafe {
            match k.op {
                Op::Const => if w == 1 { if k.k != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(w, k.k) },
                Op::Var => self.zvar(k.k as u32),
                Op::Fn8 => self.z_fn8(cx, e),
                Op::Ite => { let a = self.z(cx, k.a); let b = self.z(cx, k.b); let d = self.z(cx, k.c); Z3_mk_ite(c, a, b, d) }
                Op::And | Op::Or | Op::Xor if w == 1 => {
                    let a = self.z(cx, k.a);
                    if k.op == Op::Xor && cx.as_const(k.b) == Some(1) { Z3_mk_not(c, a) } else {
                        let b = self.z(cx, k.b);
                        match k.op { Op::And => Z3_mk_and(c, 2, [a, b].as_ptr()), Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()), _ => Z3_mk_xor(c, a, b) }
                    }
                }
                Op::Eq => { let a = self.z(cx, k.a); let b = self.z(cx, k.b); Z3_mk_eq(c, a, b) }
                Op::ZExt => { let a = self.to_bv(cx, k.a); Z3_mk_zero_ext(c, w - cx.w(k.a), a) }
                Op::SExt => { let a = self.to_bv(cx, k.a); Z3_mk_sign_ext(c, w - cx.w(k.a), a) }
                Op::Extract => {
                    let a = self.to_bv(cx, k.a);
                    let r = Z3_mk_extract(c, k.k as u32 + w - 1, k.k as u32, a);
                    if w == 1 { let o = self.num(1, 1); Z3_mk_eq(c, r, o) } else { r }
                }
                Op::Concat => { let a = self.to_bv(cx, k.a); let b = self.to_bv(cx, k.b); Z3_mk_concat(c, a, b) }
                _ => {
                    let a = self.to_bv(cx, k.a); let b = self.to_bv(cx, k.b);
                    let r = match k.op {
                        Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b), Op::Ule => Z3_mk_bvule(c, a, b), Op::Slt => Z3_mk_bvslt(c, a, b), Op::Sle => Z3_mk_bvsle(c, a, b),
                        _ => unreachable!(),
                    };
                    // arithmetic on 1-bit values (rare): back to Bool
                    if w == 1 && matches!(k.op, Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr) { let o = self.num(1, 1); Z3_mk_eq(c, r, o) } else { r }
                }
            }
        };
        unsafe { Z3_inc_ref(c, p) };
        self.tr.insert(e, p);
        p
    }
    fn z_fn8(&mut self, cx: &Ctx, e: E) -> P {
        let k = cx.key(e);
        let w = k.w as u32;
        let t = &cx.tables[k.k as usize];
        let v = self.zvar(cx.key(k.a).k as u32);
        let c = self.c;
        unsafe {
            if w == 1 {
                let mut parts = vec![];
                let mut i = 0usize;
                while i < 256 {
                    if t[i] == 0 { i += 1; continue; }
                    let mut j = i;
                    while j + 1 < 256 && t[j + 1] != 0 { j += 1; }
                    let lo = self.num(8, i as u128); let hi = self.num(8, j as u128);
                    parts.push(if i == j { Z3_mk_eq(c, v, lo) } else if i == 0 { Z3_mk_bvule(c, v, hi) } else if j == 255 { Z3_mk_bvule(c, lo, v) } else {
                        let a = Z3_mk_bvule(c, lo, v); let b = Z3_mk_bvule(c, v, hi); Z3_mk_and(c, 2, [a, b].as_ptr()) });
                    i = j + 1;
                }
                return if parts.len() == 1 { parts[0] } else { Z3_mk_or(c, parts.len() as u32, parts.as_ptr()) };
            }
            // maximal runs that are constant or x + delta
            let m = mask64(w);
            let mut runs: Vec<(usize, Option<u64>, u64)> = vec![]; // (end, delta or none, const)
            let mut i = 0usize;
            while i < 256 {
                let mut jc = i; while jc + 1 < 256 && t[jc + 1] == t[i] { jc += 1; }
                let d = t[i].wrapping_sub(i as u64) & m;
                let mut jd = i; while jd + 1 < 256 && t[jd + 1] == ((jd as u64 + 1).wrapping_add(d) & m) { jd += 1; }
                if jd > jc { runs.push((jd, Some(d), 0)); i = jd + 1; } else { runs.push((jc, None, t[i])); i = jc + 1; }
            }
            let vx = if w > 8 { Z3_mk_zero_ext(c, w - 8, v) } else if w < 8 { Z3_mk_extract(c, w - 1, 0, v) } else { v };
            let mut acc: P = std::ptr::null_mut();
            for (end, d, k) in runs.iter().rev() {
                let val = match d { Some(d) => if *d == 0 { vx } else { let n = self.num(w, *d as u128); Z3_mk_bvadd(c, vx, n) }, None => self.num(w, *k as u128) };
                acc = if acc.is_null() { val } else { let hi = self.num(8, *end as u128); let cnd = Z3_mk_bvule(c, v, hi); Z3_mk_ite(c, cnd, val, acc) };
            }
            acc
        }
    }
    /// Is `pc /\ extra` satisfiable? The model covers the bytes of the reduced query.
    pub fn query(&mut self, cx: &Ctx, pc: &Pc, extra: E) -> Verdict {
        self.stats.queries += 1;
        if let Some(v) = cx.as_const(extra) { if v == 0 { return Verdict::Unsat; } return Verdict::Sat(std::rc::Rc::from(vec![])); }
        let mut sup = cx.sup(extra);
        let mut used = vec![false; pc.multi.len()];
        loop {
            let mut ch = false;
            for (i, &m) in pc.multi.iter().enumerate() {
                if !used[i] && cx.sup(m) & sup != 0 { used[i] = true; sup |= cx.sup(m); ch = true; }
            }
            if !ch { break; }
        }
        let mut key: Vec<E> = vec![];
        for (i, &m) in pc.multi.iter().enumerate() { if used[i] { key.push(m); } }
        let mut s = sup;
        while s != 0 { let v = s.trailing_zeros() as usize; s &= s - 1; if let Some(&d) = pc.dom.get(v) { if d != 0 { key.push(d); } } }
        key.sort_unstable(); key.dedup();
        key.push(extra);
        let key = key.into_boxed_slice();
        if let Some(v) = self.cache.get(&key) { self.stats.cache_hits += 1; return v.clone(); }
        let t0 = Instant::now();
        let r = self.z3_check(cx, &key, sup);
        let dt = t0.elapsed();
        self.stats.z3_calls += 1;
        self.stats.z3_time += dt;
        if dt > self.stats.max_query { self.stats.max_query = dt; }
        match &r { Verdict::Sat(_) => self.stats.sat += 1, Verdict::Unsat => self.stats.unsat += 1, Verdict::Unknown => self.stats.unknown += 1 }
        self.cache.insert(key, r.clone());
        r
    }
    fn z3_check(&mut self, cx: &Ctx, key: &[E], sup: u128) -> Verdict {
        let c = self.c;
        let asts: Vec<P> = key.iter().map(|&e| self.z(cx, e)).collect();
        let mut r = 0;
        for (i, s) in [self.s, self.s2].into_iter().enumerate() {
            unsafe {
                Z3_solver_push(c, s);
                for &a in &asts { Z3_solver_assert(c, s, a); }
                r = Z3_solver_check(c, s);
                if i == 0 && self.dump_every > 0 && self.dump.len() < self.dump_max && self.stats.z3_calls % self.dump_every == 0 && r != 0 {
                    let t = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                    self.dump.push((t, r == 1));
                }
                let out = if r == 1 {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut vals = vec![];
                    let mut q = sup;
                    while q != 0 {
                        let v = q.trailing_zeros(); q &= q - 1;
                        let zv = self.zvar(v);
                        let mut o: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if !Z3_model_eval(c, m, zv, true, &mut o) || !Z3_get_numeral_uint64(c, o, &mut u) { eprintln!("z3 model error"); std::process::exit(3); }
                        vals.push((v as u8, u as u8));
                    }
                    Z3_model_dec_ref(c, m);
                    Some(Verdict::Sat(std::rc::Rc::from(vals)))
                } else if r == -1 { Some(Verdict::Unsat) } else { None };
                Z3_solver_pop(c, s, 1);
                if let Some(o) = out { return o; }
            }
        }
        let _ = r;
        Verdict::Unknown
    }
}

impl Pc {
    pub fn new() -> Self { Pc { dom: vec![], multi: vec![] } }
    pub fn add(&mut self, cx: &mut Ctx, c: E) {
        if cx.as_const(c).is_some() { return; }
        // split conjunctions
        let k = cx.key(c);
        if k.op == Op::And && k.w == 1 { self.add(cx, k.a); self.add(cx, k.b); return; }
        let sup = cx.sup(c);
        if sup.count_ones() == 1 {
            let v = sup.trailing_zeros() as usize;
            while self.dom.len() <= v { self.dom.push(0); }
            self.dom[v] = if self.dom[v] == 0 { c } else { cx.and(self.dom[v], c) };
        } else if !self.multi.contains(&c) { self.multi.push(c); }
    }
    pub fn holds(&self, cx: &mut Ctx, model: &[u8]) -> bool {
        self.dom.iter().all(|&d| d == 0 || cx.eval(d, model) == 1) && self.multi.iter().all(|&d| cx.eval(d, model) == 1)
    }
}
