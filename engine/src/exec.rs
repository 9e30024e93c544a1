//! The symbolic interpreter: depth-first exploration of every feasible path of one harness.
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub const STACK_BASE: u64 = 0x0800_0000;
pub const STACK_END: u64 = 0x0A00_0000;
pub const HEAP_BASE: u64 = 0x1000_0000;
pub const HEAP_END: u64 = 0xC000_0000;

#[derive(Clone)]
pub struct Frame { f: &'static Function, regs: Vec<Val>, block: u32, ip: u32, sp: u64 }
#[derive(Clone)]
pub struct State {
    mem: Mem, callers: Vec<Rc<Frame>>, cur: Frame, sp: u64, heap: u64, heap_mapped: u64,
    pc: Pc, model: Vec<u8>, nvars: usize, obs: Vec<Val>, hint: Option<(E, bool)>, depth: u32, reached: Vec<u32>,
}
pub enum End { Done, Fail(u32), Panic(String), Infeasible }
pub enum Stop { End(End), Err(String) }
impl From<Fault> for Stop { fn from(f: Fault) -> Stop { Stop::Err(format!("memory fault at {:#x}", f.0)) } }
type R<T> = Result<T, Stop>;

pub struct Violation { pub kind: String, pub input: Vec<u8>, pub stack: Vec<String> }
pub struct Trace { pub input: Vec<u8>, pub obs: Vec<u64>, pub forks: u32 }
#[derive(Default)]
pub struct Report {
    pub paths: u64, pub infeasible: u64, pub steps: u64, pub forks: u64, pub branches_sym: u64, pub checks: u64, pub checks_sym: u64, pub max_depth: u32, pub max_bytes: usize,
    pub reached: BTreeMap<u32, u64>, pub violations: Vec<Violation>, pub n_violations: u64, pub traces: Vec<Trace>, pub error: Option<String>, pub timeout: bool, pub fns_executed: BTreeSet<u32>, pub fns_symbolic: BTreeSet<u32>, pub concretizations: u64, pub table_loads: u64,
    pub fork_sites: HashMap<(u32, u32, u32), u64>,
}
pub struct Opts { pub params: Vec<u64>, pub deadline: Option<Instant>, pub max_paths: u64, pub max_violations: usize, pub traces: usize, pub trace_steps: bool, pub max_conc: usize, pub mem_limit_mb: u64 }

pub struct Exec<'m> {
    pub m: &'m Module, pub cx: Ctx, pub sv: Solver, pub work: Vec<State>, pub rep: Report, pub o: Opts,
    special: HashMap<u32, &'static str>, cc: HashMap<(E, u128), E>, rng: u64,
    fn_stamp: Vec<u8>, next_key: u64,
}

fn pred_op(p: Pred) -> (Op, bool, bool) { // (op, swap, negate)
    match p { Pred::Eq => (Op::Eq, false, false), Pred::Ne => (Op::Eq, false, true), Pred::Ult => (Op::Ult, false, false), Pred::Ule => (Op::Ule, false, false), Pred::Ugt => (Op::Ult, true, false), Pred::Uge => (Op::Ule, true, false), Pred::Slt => (Op::Slt, false, false), Pred::Sle => (Op::Sle, false, false), Pred::Sgt => (Op::Slt, true, false), Pred::Sge => (Op::Sle, true, false) }
}
#[inline]
fn sx(v: u64, w: u32) -> i64 { let s = 64 - w; ((v << s) as i64) >> s }
#[inline]
fn bin64(op: B, w: u32, a: u64, b: u64) -> Option<u64> {
    let m = mask64(w);
    Some(match op {
        B::And => a & b, B::Or => a | b, B::Xor => a ^ b,
        B::Add => a.wrapping_add(b) & m, B::Sub => a.wrapping_sub(b) & m, B::Mul => a.wrapping_mul(b) & m,
        B::UDiv => { if b == 0 { return None; } a / b } B::URem => { if b == 0 { return None; } a % b }
        B::SDiv => { if b == 0 { return None; } (sx(a, w).wrapping_div(sx(b, w)) as u64) & m } B::SRem => { if b == 0 { return None; } (sx(a, w).wrapping_rem(sx(b, w)) as u64) & m }
        B::Shl => if b >= w as u64 { 0 } else { (a << b) & m }, B::LShr => if b >= w as u64 { 0 } else { a >> b },
        B::AShr => { let s = if b >= w as u64 { w - 1 } else { b as u32 }; ((sx(a, w) >> s) as u64) & m }
        B::UMax => a.max(b), B::UMin => a.min(b),
        B::SMax => if sx(a, w) > sx(b, w) { a } else { b }, B::SMin => if sx(a, w) < sx(b, w) { a } else { b },
        B::UAddSat => { let r = a.wrapping_add(b) & m; if r < a { m } else { r } } B::USubSat => a.saturating_sub(b),
        B::SAddSat => { let r = sx(a, w) as i128 + sx(b, w) as i128; (r.clamp(-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) as u64) & m }
        B::SSubSat => { let r = sx(a, w) as i128 - sx(b, w) as i128; (r.clamp(-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) as u64) & m }
    })
}
#[inline]
fn cmp64(p: Pred, w: u32, a: u64, b: u64) -> bool {
    match p { Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b, Pred::Sgt => sx(a, w) > sx(b, w), Pred::Sge => sx(a, w) >= sx(b, w), Pred::Slt => sx(a, w) < sx(b, w), Pred::Sle => sx(a, w) <= sx(b, w) }
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, sv: Solver, o: Opts) -> Self {
        let mut special = HashMap::new();
        for (i, f) in m.fns.iter().enumerate() {
            let n = &*f.name;
            for p in ["9panicking9panic_fmt", "9panicking19panic_nounwind_fmt", "7___rustc17rust_begin_unwind", "9panicking20rust_panic_with_hook", "7___rustc10rust_panic", "9panicking18panic_null_pointer", "9panicking36panic_misaligned_pointer_dereference", "5alloc18handle_alloc_error"] {
                if n.contains(p) { special.insert(i as u32, "panic"); }
            }
        }
        let nf = m.fns.len();
        Exec { m, cx: Ctx::new(), sv, work: vec![], rep: Report::default(), o, special, cc: HashMap::new(), rng: 0x9E3779B97F4A7C15, fn_stamp: vec![0; nf], next_key: 0 }
    }
    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let mut mem = Mem::new(HEAP_END);
        mem.map(GLOBAL_BASE, self.m.globals_end + 64);
        assert!(self.m.globals_end < FN_BASE, "globals region overflow");
        for g in &self.m.globals {
            if !g.has_init { continue; }
            let v = self.m.global_init(g);
            self.store_val(&mut mem, g.addr, g.ty, &v).map_err(|_| format!("global {}", g.name))?;
        }
        mem.map(STACK_BASE, STACK_END);
        let id = *self.m.fn_by_name.get(entry).ok_or_else(|| format!("no entry {}", entry))?;
        let f = self.m.function(id);
        let st = State { mem, callers: vec![], cur: Frame { f, regs: vec![Val::I(0); f.nregs as usize], block: 0, ip: 0, sp: STACK_BASE + 64 }, sp: STACK_BASE + 64, heap: HEAP_BASE, heap_mapped: HEAP_BASE, pc: Pc::new(), model: vec![], nvars: 0, obs: vec![], hint: None, depth: 0, reached: vec![] };
        self.work.push(st);
        Ok(())
    }
    pub fn run(&mut self) {
        while let Some(mut st) = self.work.pop() {
            if self.rep.paths + self.rep.infeasible >= self.o.max_paths { self.rep.timeout = true; return; }
            if let Some(d) = self.o.deadline { if Instant::now() > d { self.rep.timeout = true; return; } }
            let r = self.exec(&mut st);
            match r {
                Err(Stop::Err(e)) => {
                    let mut stack = self.stack(&st); stack.truncate(14);
                    self.rep.error = Some(format!("{} at {} [model {:02x?}]", e, stack.join(" < "), st.model)); return;
                }
                Err(Stop::End(End::Infeasible)) => { self.rep.infeasible += 1; }
                Err(Stop::End(e)) => {
                    self.rep.paths += 1;
                    self.rep.max_depth = self.rep.max_depth.max(st.depth);
                    self.rep.max_bytes = self.rep.max_bytes.max(st.nvars);
                    for r in &st.reached { *self.rep.reached.entry(*r).or_insert(0) += 1; }
                    match e {
                        End::Done => self.finish(&st),
                        End::Fail(id) => self.violation(&st, format!("fail:{}", id), None),
                        End::Panic(s) => self.violation(&st, format!("panic:{}", s), None),
                        End::Infeasible => {}
                    }
                    if self.rep.violations.len() >= self.o.max_violations || self.rep.n_violations >= 40 { return; }
                }
                Ok(()) => unreachable!(),
            }
        }
    }
    fn stack(&self, st: &State) -> Vec<String> {
        let mut v = vec![format!("{}:{}:{}", short(&st.cur.f.name), st.cur.block, st.cur.ip)];
        for f in st.callers.iter().rev() { v.push(short(&f.f.name)); }
        v
    }
    fn violation(&mut self, st: &State, kind: String, model: Option<&[u8]>) {
        self.rep.n_violations += 1;
        let mut input = model.unwrap_or(&st.model).to_vec();
        input.resize(st.nvars, 0);
        if self.rep.violations.iter().filter(|v| v.kind == kind).count() >= 3 { return; }
        let stack = self.stack(st);
        self.rep.violations.push(Violation { kind, input, stack });
    }
    fn finish(&mut self, st: &State) {
        // reservoir sample of completed paths, to be replayed natively
        self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
        let n = self.o.traces;
        let slot = if self.rep.traces.len() < n { Some(self.rep.traces.len()) } else { let k = (self.rng % self.rep.paths.max(1)) as usize; if k < n { Some(k) } else { None } };
        let Some(slot) = slot else { return };
        let mut input = st.model.clone(); input.resize(st.nvars, 0);
        if !st.pc.holds(&mut self.cx, &st.model) { self.rep.error = Some("internal: model violates path condition".into()); return; }
        let obs = st.obs.iter().map(|v| match v { Val::I(x) => *x, Val::S(e) => self.cx.eval(*e, &st.model) as u64, _ => 0 }).collect();
        let t = Trace { input, obs, forks: st.depth };
        if slot == self.rep.traces.len() { self.rep.traces.push(t) } else { self.rep.traces[slot] = t }
    }
    // ---- values ----
    #[inline]
    fn get(&self, st: &State, o: &Opnd) -> Val { match o { Opnd::R(r) => st.cur.regs[*r as usize].clone(), Opnd::K(v) => v.clone() } }
    #[inline]
    fn geti(st: &State, o: &Opnd) -> Option<u64> { match o { Opnd::R(r) => match &st.cur.regs[*r as usize] { Val::I(x) => Some(*x), _ => None }, Opnd::K(Val::I(x)) => Some(*x), _ => None } }
    fn e(&mut self, v: &Val, w: u32) -> E { match v { Val::I(x) => self.cx.cst(w, *x as u128), Val::S(e) => *e, Val::W(x) => self.cx.cst(w, **x), Val::A(_) => panic!("aggregate as scalar") } }
    fn v(&self, e: E) -> Val { match self.cx.as_const(e) { Some(k) => if self.cx.w(e) > 64 { Val::W(Box::new(k)) } else { Val::I(k as u64) }, None => Val::S(e) } }
    /// Integers wider than 128 bits are pairs of 128 bits, low half first.
    fn halves(&mut self, v: &Val) -> (E, E) {
        match v {
            Val::A(x) => (self.e(&x[0], 128), self.e(&x[1], 128)),
            Val::S(e) => { let lo = self.cx.zext(*e, 128); (lo, self.cx.cst(128, 0)) }
            v => { let lo = self.e(v, 128); (lo, self.cx.cst(128, 0)) }
        }
    }
    fn pair(&self, lo: E, hi: E) -> Val { Val::A(vec![self.v(lo), self.v(hi)].into()) }
    fn bin_wide(&mut self, op: B, w: u32, a: &Val, b: &Val) -> R<Val> {
        if w != 256 { return Err(Stop::Err(format!("i{}", w))); }
        let ((al, ah), (bl, bh)) = (self.halves(a), self.halves(b));
        let cx = &mut self.cx;
        let zero = |cx: &Ctx, e: E| cx.as_const(e) == Some(0);
        match op {
            B::And | B::Or | B::Xor => { let o = match op { B::And => Op::And, B::Or => Op::Or, _ => Op::Xor }; let (l, h) = (cx.bin(o, al, bl), cx.bin(o, ah, bh)); Ok(self.pair(l, h)) }
            B::Add => { let l = cx.bin(Op::Add, al, bl); let c = cx.bin(Op::Ult, l, al); let c = cx.zext(c, 128); let h = cx.bin(Op::Add, ah, bh); let h = cx.bin(Op::Add, h, c); Ok(self.pair(l, h)) }
            B::Mul if zero(cx, ah) && zero(cx, bh) => {
                let k = cx.cst(128, 64);
                let m = cx.cst(128, u64::MAX as u128);
                let (a0, a1, b0, b1) = (cx.bin(Op::And, al, m), cx.bin(Op::LShr, al, k), cx.bin(Op::And, bl, m), cx.bin(Op::LShr, bl, k));
                let (p00, p01, p10, p11) = (cx.bin(Op::Mul, a0, b0), cx.bin(Op::Mul, a0, b1), cx.bin(Op::Mul, a1, b0), cx.bin(Op::Mul, a1, b1));
                // (2^64-1)^2 + 2 (2^64-1) fits in 128 bits
                let c = cx.bin(Op::LShr, p00, k);
                let x = cx.bin(Op::And, p01, m);
                let y = cx.bin(Op::Add, p10, c);
                let mid = cx.bin(Op::Add, y, x);
                let (h1, h2) = (cx.bin(Op::LShr, mid, k), cx.bin(Op::LShr, p01, k));
                let h = cx.bin(Op::Add, p11, h1);
                let h = cx.bin(Op::Add, h, h2);
                let l = cx.bin(Op::Mul, al, bl);
                Ok(self.pair(l, h))
            }
            B::LShr if zero(cx, bh) => match cx.as_const(bl) {
                Some(0) => Ok(self.pair(al, ah)),
                Some(n) if n < 128 => { let (k, r) = (cx.cst(128, n), cx.cst(128, 128 - n)); let (l, t, h) = (cx.bin(Op::LShr, al, k), cx.bin(Op::Shl, ah, r), cx.bin(Op::LShr, ah, k)); let l = cx.bin(Op::Or, l, t); Ok(self.pair(l, h)) }
                Some(n) if n < 256 => { let k = cx.cst(128, n - 128); let (l, h) = (cx.bin(Op::LShr, ah, k), cx.cst(128, 0)); Ok(self.pair(l, h)) }
                _ => Err(Stop::Err("wide shift".into())),
            },
            _ => Err(Stop::Err("wide operation".into())),
        }
    }
    fn overflow128(&mut self, base: &str, a: E, b: E) -> R<Val> {
        let cx = &mut self.cx;
        let (r, o) = match base {
            "uadd" => { let r = cx.bin(Op::Add, a, b); (r, cx.bin(Op::Ult, r, a)) }
            "usub" => { let r = cx.bin(Op::Sub, a, b); (r, cx.bin(Op::Ult, a, b)) }
            "sadd" | "ssub" => {
                let add = base == "sadd";
                let r = cx.bin(if add { Op::Add } else { Op::Sub }, a, b);
                let (x, y) = (cx.bin(Op::Xor, a, r), if add { cx.bin(Op::Xor, b, r) } else { cx.bin(Op::Xor, a, b) });
                let t = cx.bin(Op::And, x, y);
                (r, cx.extract(t, 127, 1))
            }
            _ => {
                let (a, b) = if cx.as_const(b).is_none() { (b, a) } else { (a, b) };
                let Some(k) = cx.as_const(b) else { return Err(Stop::Err("wide multiplication of two unknowns".into())) };
                let r = cx.bin(Op::Mul, a, b);
                let o = if k == 0 { cx.cst(1, 0) }
                    else if base == "umul" { let m = cx.cst(128, u128::MAX / k); cx.bin(Op::Ult, m, a) }
                    else if k as i128 > 0 {
                        let (lo, hi) = (cx.cst(128, (i128::MIN / k as i128) as u128), cx.cst(128, (i128::MAX / k as i128) as u128));
                        let (x, y) = (cx.bin(Op::Slt, a, lo), cx.bin(Op::Slt, hi, a));
                        cx.bin(Op::Or, x, y)
                    } else { return Err(Stop::Err("wide multiplication by a negative number".into())) };
                (r, o)
            }
        };
        Ok(Val::A(vec![self.v(r), self.v(o)].into()))
    }
    fn cast_wide(&mut self, k: CastK, wt: u32, a: &Val) -> R<Val> {
        match k {
            CastK::ZExt => { let (l, h) = self.halves(a); Ok(self.pair(l, h)) }
            CastK::Trunc if wt <= 128 => { let (l, _) = self.halves(a); let r = self.cx.extract(l, 0, wt); Ok(self.v(r)) }
            _ => Err(Stop::Err("wide cast".into())),
        }
    }
    fn bin(&mut self, op: B, w: u32, a: &Val, b: &Val) -> R<Val> {
        if w > 128 { return self.bin_wide(op, w, a, b); }
        if let (Val::I(x), Val::I(y)) = (a, b) { return bin64(op, w, *x, *y).map(Val::I).ok_or(Stop::Err("division by zero".into())); }
        let (ea, eb) = (self.e(a, w), self.e(b, w));
        let cx = &mut self.cx;
        let r = match op {
            B::And => cx.bin(Op::And, ea, eb), B::Or => cx.bin(Op::Or, ea, eb), B::Xor => cx.bin(Op::Xor, ea, eb),
            B::Add => cx.bin(Op::Add, ea, eb), B::Sub => cx.bin(Op::Sub, ea, eb), B::Mul => cx.bin(Op::Mul, ea, eb),
            B::UDiv => cx.bin(Op::UDiv, ea, eb), B::URem => cx.bin(Op::URem, ea, eb), B::SDiv => cx.bin(Op::SDiv, ea, eb), B::SRem => cx.bin(Op::SRem, ea, eb),
            B::Shl => cx.bin(Op::Shl, ea, eb), B::LShr => cx.bin(Op::LShr, ea, eb), B::AShr => cx.bin(Op::AShr, ea, eb),
            B::UMax => { let c = cx.bin(Op::Ult, ea, eb); cx.ite(c, eb, ea) } B::UMin => { let c = cx.bin(Op::Ult, ea, eb); cx.ite(c, ea, eb) }
            B::SMax => { let c = cx.bin(Op::Slt, ea, eb); cx.ite(c, eb, ea) } B::SMin => { let c = cx.bin(Op::Slt, ea, eb); cx.ite(c, ea, eb) }
            B::UAddSat => { let s = cx.bin(Op::Add, ea, eb); let o = cx.bin(Op::Ult, s, ea); let m = cx.cst(w, mask(w)); cx.ite(o, m, s) }
            B::USubSat => { let s = cx.bin(Op::Sub, ea, eb); let o = cx.bin(Op::Ult, ea, eb); let z = cx.cst(w, 0); cx.ite(o, z, s) }
            _ => return Err(Stop::Err("symbolic signed saturating op".into())),
        };
        Ok(self.v(r))
    }
    fn cmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) { return Val::I(cmp64(p, w, *x, *y) as u64); }
        let (ea, eb) = (self.e(a, w), self.e(b, w));
        let (op, swap, neg) = pred_op(p);
        let r = if swap { self.cx.bin(op, eb, ea) } else { self.cx.bin(op, ea, eb) };
        let r = if neg { self.cx.not(r) } else { r };
        self.v(r)
    }
    fn cast(&mut self, k: CastK, wf: u32, wt: u32, a: &Val) -> Val {
        if wf > 128 || wt > 128 { return self.cast_wide(k, wt, a).unwrap_or_else(|_| panic!("wide cast")); }
        match a {
            Val::I(x) if wt <= 64 => Val::I(match k { CastK::ZExt => *x, CastK::Trunc => *x & mask64(wt), CastK::SExt => (sx(*x, wf) as u64) & mask64(wt) }),
            _ => { let e = self.e(a, wf); let r = match k { CastK::ZExt => self.cx.zext(e, wt), CastK::SExt => self.cx.sext(e, wt), CastK::Trunc => self.cx.extract(e, 0, wt) }; self.v(r) }
        }
    }
    fn load_val(&mut self, mem: &Mem, a: u64, ty: Ty) -> R<Val> {
        match self.m.tk(ty) {
            TyK::Ptr | TyK::F64 => self.load_n(mem, a, 8, 64),
            TyK::Int(w) => self.load_n(mem, a, (w as usize + 7) / 8, w),
            TyK::F32 => self.load_n(mem, a, 4, 32),
            TyK::FOther(b) => self.load_n(mem, a, b as usize, b * 8),
            TyK::Arr(n, e) => { let s = self.m.size(e); let mut v = Vec::with_capacity(n as usize); for i in 0..n { v.push(self.load_val(mem, a + i * s, e)?); } Ok(Val::A(v.into())) }
            TyK::Vec(n, e) => {
                let (w, _) = self.m.scalar_w(e);
                if w % 8 != 0 { let t = self.m.ty(TyK::Int(n * w)); let x = self.load_val(mem, a, t)?; let ex = self.e(&x, n * w); let mut v = vec![]; for i in 0..n { let b = self.cx.extract(ex, i * w, w); v.push(self.v(b)); } return Ok(Val::A(v.into())); }
                let s = w as u64 / 8; let mut v = Vec::with_capacity(n as usize); for i in 0..n as u64 { v.push(self.load_n(mem, a + i * s, s as usize, w)?); } Ok(Val::A(v.into()))
            }
            TyK::Struct(f, _) => { let mut v = vec![]; for (i, t) in f.iter().enumerate() { let o = self.m.off(ty, i); v.push(self.load_val(mem, a + o, *t)?); } Ok(Val::A(v.into())) }
            k => Err(Stop::Err(format!("load of {:?}", k))),
        }
    }
    #[inline]
    fn load_n(&mut self, mem: &Mem, a: u64, n: usize, w: u32) -> R<Val> {
        if n <= 8 { if let Some(x) = mem.read_conc(a, n)? { return Ok(Val::I(x & mask64(w))); } }
        let mut e = mem.read_sym(&mut self.cx, a, n)?;
        if w as usize != n * 8 { e = self.cx.extract(e, 0, w); }
        Ok(self.v(e))
    }
    fn store_val(&mut self, mem: &mut Mem, a: u64, ty: Ty, v: &Val) -> R<()> {
        match self.m.tk(ty) {
            TyK::Ptr | TyK::F64 => self.store_n(mem, a, 8, v, 64),
            TyK::Int(w) => self.store_n(mem, a, (w as usize + 7) / 8, v, w),
            TyK::F32 => self.store_n(mem, a, 4, v, 32),
            TyK::FOther(b) => self.store_n(mem, a, b as usize, v, b * 8),
            TyK::Arr(n, e) => {
                let s = self.m.size(e);
                let Val::A(x) = v else { return Err(Stop::Err("store array".into())) };
                if s == 1 && x.iter().all(|q| matches!(q, Val::I(_))) { let b: Vec<u8> = x.iter().map(|q| if let Val::I(k) = q { *k as u8 } else { 0 }).collect(); mem.write_slice(a, &b)?; return Ok(()); }
                for i in 0..n { self.store_val(mem, a + i * s, e, &x[i as usize])?; } Ok(())
            }
            TyK::Vec(n, e) => {
                let (w, _) = self.m.scalar_w(e);
                let Val::A(x) = v else { return Err(Stop::Err("store vector".into())) };
                if w % 8 != 0 { let pieces: Vec<(Val, u32)> = x.iter().map(|q| (q.clone(), w)).collect(); let r = self.regroup(pieces, n * w); let t = self.m.ty(TyK::Int(n * w)); return self.store_val(mem, a, t, &r[0]); }
                let s = w as u64 / 8; for i in 0..n as u64 { self.store_n(mem, a + i * s, s as usize, &x[i as usize], w)?; } Ok(())
            }
            TyK::Struct(f, _) => { let Val::A(x) = v else { return Err(Stop::Err("store struct".into())) }; for (i, t) in f.iter().enumerate() { let o = self.m.off(ty, i); self.store_val(mem, a + o, *t, &x[i])?; } Ok(()) }
            k => Err(Stop::Err(format!("store of {:?}", k))),
        }
    }
    #[inline]
    fn store_n(&mut self, mem: &mut Mem, a: u64, n: usize, v: &Val, w: u32) -> R<()> {
        match v {
            Val::I(x) if n <= 8 => { mem.write_conc(a, n, *x)?; Ok(()) }
            Val::I(x) => { mem.write_conc(a, 8, *x)?; mem.fill(a + 8, n as u64 - 8, 0, 0)?; Ok(()) }
            Val::W(x) => { for i in 0..n { mem.set_byte(a + i as u64, (**x >> (8 * i)) as u8, 0)?; } Ok(()) }
            Val::S(e) => { let e = if (w as usize) < n * 8 { self.cx.zext(*e, n as u32 * 8) } else { *e }; mem.write_sym(&mut self.cx, a, n, e)?; Ok(()) }
            Val::A(_) => Err(Stop::Err("store aggregate as scalar".into())),
        }
    }
    /// regroup little-endian pieces to elements of width `w`
    fn regroup(&mut self, pieces: Vec<(Val, u32)>, w: u32) -> Vec<Val> {
        let mut out = vec![];
        let mut acc: E = 0; let mut aw = 0;
        for (v, pw) in pieces {
            let mut e = self.e(&v, pw); let mut left = pw;
            while left > 0 {
                let take = left.min(w - aw);
                let part = self.cx.extract(e, 0, take);
                acc = if aw == 0 { part } else { self.cx.concat(part, acc) };
                aw += take; left -= take;
                if left > 0 { e = self.cx.extract(e, take, left); }
                if aw == w { let r = self.v(acc); out.push(r); aw = 0; acc = 0; }
            }
        }
        out
    }
    // ---- forking ----
    fn apply_model(model: &mut Vec<u8>, upd: &[(u8, u8)]) { for &(v, x) in upd { if model.len() <= v as usize { model.resize(v as usize + 1, 0); } model[v as usize] = x; } }
    fn push_alt(&mut self, st: &State, c: E, upd: &[(u8, u8)], hint: Option<(E, bool)>) {
        let mut s = st.clone();
        s.pc.add(&mut self.cx, c);
        Self::apply_model(&mut s.model, upd);
        s.hint = hint; s.depth += 1;
        self.rep.forks += 1;
        *self.rep.fork_sites.entry((st.cur.f.id, st.cur.block, st.cur.ip)).or_insert(0) += 1;
        self.work.push(s);
    }
    fn mark_sym(&mut self, st: &State) { let s = &mut self.fn_stamp[st.cur.f.id as usize]; if *s & 2 == 0 { *s |= 2; self.rep.fns_symbolic.insert(st.cur.f.id); } }
    /// A condition on one byte that has one value for all values of that byte still possible on this path.
    fn settled(&self, st: &State, c: E) -> Option<bool> {
        let k = self.cx.key(c);
        if k.op != Op::Fn8 { return None; }
        let &d = st.pc.dom.get(self.cx.key(k.a).k as usize)?;
        if d == 0 || self.cx.key(d).op != Op::Fn8 { return None; }
        let (t, d) = (&self.cx.tables[k.k as usize], &self.cx.tables[self.cx.key(d).k as usize]);
        let i = (0..256).find(|&i| d[i] != 0)?;
        (i..256).all(|j| d[j] == 0 || t[j] == t[i]).then(|| t[i] != 0)
    }
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.cx.as_const(c) { return Ok(k != 0); }
        if let Some((h, b)) = st.hint.take() { if h == c { return Ok(b); } }
        self.rep.branches_sym += 1;
        self.mark_sym(st);
        let m = self.cx.eval(c, &st.model) != 0;
        let nc = self.cx.not(c);
        let (mine, other) = if m { (c, nc) } else { (nc, c) };
        match self.sv.query(&self.cx, &st.pc, other) {
            Verdict::Sat(upd) => { self.push_alt(st, other, &upd, Some((c, !m))); st.pc.add(&mut self.cx, mine); st.depth += 1; }
            Verdict::Unsat => {}
            Verdict::Unknown => return Err(Stop::Err("solver returned unknown".into())),
        }
        Ok(m)
    }
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        let e = match v { Val::I(x) => return Ok(*x), Val::S(e) => *e, Val::W(x) => return Ok(**x as u64), Val::A(_) => return Err(Stop::Err("concretize aggregate".into())) };
        self.mark_sym(st);
        self.rep.concretizations += 1;
        let k = self.cx.eval(e, &st.model);
        let _ = w; let we = self.cx.w(e); let ke = self.cx.cst(we, k);
        let eq = self.cx.bin(Op::Eq, e, ke);
        if self.cx.as_const(eq) == Some(1) { return Ok(k as u64); }
        let ne = self.cx.not(eq);
        match self.sv.query(&self.cx, &st.pc, ne) {
            Verdict::Sat(upd) => { self.push_alt(st, ne, &upd, None); st.pc.add(&mut self.cx, eq); st.depth += 1; }
            Verdict::Unsat => {}
            Verdict::Unknown => return Err(Stop::Err("solver returned unknown".into())),
        }
        Ok(k as u64)
    }
    fn addr(&mut self, st: &mut State, o: &Opnd) -> R<u64> { if let Some(x) = Self::geti(st, o) { return Ok(x); } let v = self.get(st, o); self.conc(st, &v, 64) }
    /// address depending on several bytes: split on the single-byte parts of all but the newest byte
    fn split_addr(&mut self, st: &mut State, mut e: E) -> R<E> {
        loop {
            let sup = self.cx.sup(e);
            if sup.count_ones() <= 1 { return Ok(e); }
            let hi = 127 - sup.leading_zeros();
            let mut stack = vec![e]; let mut part = None;
            while let Some(x) = stack.pop() {
                let s = self.cx.sup(x);
                if s == 0 || s == 1u128 << hi { continue; }
                if s.count_ones() == 1 { part = Some(x); break; }
                let k = self.cx.key(x);
                for y in [k.c, k.b, k.a] { if y != 0 { stack.push(y); } }
            }
            let Some(p) = part else { return Ok(e) };
            let w = self.cx.w(p);
            let k = self.conc(st, &Val::S(p), w)?;
            let kc = self.cx.cst(w, k as u128);
            e = self.cx.subst(e, p, kc);
        }
    }
    /// scalar load through an address that depends on a single byte: canonical table
    fn table_load(&mut self, st: &mut State, e: E, ty: Ty) -> R<Option<Val>> {
        let sup = self.cx.sup(e);
        if sup.count_ones() != 1 { return Ok(None); }
        let (w, vec) = self.m.scalar_w(ty);
        if vec || w == 0 || w > 64 || matches!(self.m.tk(ty), TyK::Struct(..) | TyK::Arr(..)) { return Ok(None); }
        let n = (w as usize + 7) / 8;
        let var = sup.trailing_zeros() as usize;
        let dom = st.pc.dom.get(var).copied().unwrap_or(0);
        let mut t = Box::new([0u64; 256]);
        let mut bad = Box::new([0u64; 256]); let mut anybad = false;
        for v in 0..256usize {
            let cand = dom == 0 || self.cx.val_at(dom, v as u8) == 1;
            let a = self.cx.val_at(e, v as u8) as u64;
            match st.mem.read_conc(a, n) {
                Ok(Some(x)) => t[v] = x & mask64(w),
                Ok(None) => { if cand { return Ok(None); } }
                Err(_) => { if cand { bad[v] = 1; anybad = true; } }
            }
        }
        if anybad {
            let b = self.cx.table_node(var, 1, bad);
            match self.sv.query(&self.cx, &st.pc, b) { Verdict::Unsat => {} _ => return Ok(None) }
        }
        self.rep.table_loads += 1;
        self.mark_sym(st);
        if w >= 32 {
            // wide table entries are states, offsets or pointers: split on the (few) distinct feasible values now
            let mut d: Vec<u64> = (0..256usize).filter(|&v| dom == 0 || self.cx.val_at(dom, v as u8) == 1).map(|v| t[v]).collect();
            d.sort_unstable(); d.dedup();
            if d.len() <= 24 {
                let r = self.cx.table_node(var, w, t);
                let rv = self.v(r);
                let k = self.conc(st, &rv, w)?;
                return Ok(Some(Val::I(k)));
            }
        }
        let r = self.cx.table_node(var, w, t);
        Ok(Some(self.v(r)))
    }
    fn malloc(&mut self, st: &mut State, n: u64, al: u64) -> R<u64> {
        let al = al.max(16);
        let mut p = st.heap + 16;
        p = (p + al - 1) / al * al;
        let end = p + n.max(1);
        if end + 64 > HEAP_END { return Err(Stop::Err("heap exhausted".into())); }
        if end + 64 > st.heap_mapped { let e = (end + 64 + 0xFFFF) & !0xFFFF; st.mem.map(st.heap_mapped, e); st.heap_mapped = e; }
        st.mem.write_conc(p - 8, 8, n)?;
        st.heap = end;
        Ok(p)
    }
    fn set(&self, st: &mut State, d: Option<u32>, v: Val) { if let Some(d) = d { st.cur.regs[d as usize] = v; } }

    #[inline]
    fn take(&mut self, st: &mut State, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => { let v = self.get(st, &e.moves[0].1); st.cur.regs[e.moves[0].0 as usize] = v; }
            _ => {
                let vals: Vec<Val> = e.moves.iter().map(|(_, o)| self.get(st, o)).collect();
                for ((d, _), v) in e.moves.iter().zip(vals) { st.cur.regs[*d as usize] = v; }
            }
        }
        st.cur.block = e.block; st.cur.ip = 0;
    }
    fn exec(&mut self, st: &mut State) -> R<()> {
        let mut steps: u64 = 0;
        loop {
            let insts: &'static Vec<Inst> = &st.cur.f.blocks[st.cur.block as usize];
            let inst: &'static Inst = &insts[st.cur.ip as usize];
            steps += 1; self.rep.steps += 1;
            if steps & 0xFFFFF == 0 {
                if let Some(d) = self.o.deadline { if Instant::now() > d { self.rep.timeout = true; return Err(Stop::Err("time budget exhausted".into())); } }
            }
            match inst {
                Inst::Bin { op, w, d, a, b, vec } => {
                    if let (Some(x), Some(y), true) = (Self::geti(st, a), Self::geti(st, b), *w <= 64) {
                        match bin64(*op, *w, x, y) { Some(r) => st.cur.regs[*d as usize] = Val::I(r), None => return Err(Stop::Err("division by zero".into())) }
                    } else {
                        let (va, vb) = (self.get(st, a), self.get(st, b));
                        let r = if *vec { let (Val::A(x), Val::A(y)) = (&va, &vb) else { return Err(Stop::Err("vector op".into())) }; let mut o = Vec::with_capacity(x.len()); for i in 0..x.len() { o.push(self.bin(*op, *w, &x[i], &y[i])?); } Val::A(o.into()) } else { self.bin(*op, *w, &va, &vb)? };
                        st.cur.regs[*d as usize] = r;
                    }
                }
                Inst::Cmp { p, w, d, a, b, vec } => {
                    if let (Some(x), Some(y)) = (Self::geti(st, a), Self::geti(st, b)) { st.cur.regs[*d as usize] = Val::I(cmp64(*p, *w, x, y) as u64); }
                    else {
                        let (va, vb) = (self.get(st, a), self.get(st, b));
                        let r = if *vec { let (Val::A(x), Val::A(y)) = (&va, &vb) else { return Err(Stop::Err("vector cmp".into())) }; let mut o = Vec::with_capacity(x.len()); for i in 0..x.len() { o.push(self.cmp(*p, *w, &x[i], &y[i])); } Val::A(o.into()) } else { self.cmp(*p, *w, &va, &vb) };
                        st.cur.regs[*d as usize] = r;
                    }
                }
                Inst::Cast { k, wf, wt, d, a, vec } => {
                    let va = self.get(st, a);
                    let r = if *vec { let Val::A(x) = &va else { return Err(Stop::Err("vector cast".into())) }; let mut o = Vec::with_capacity(x.len()); for q in x.iter() { o.push(self.cast(*k, *wf, *wt, q)); } Val::A(o.into()) } else { self.cast(*k, *wf, *wt, &va) };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Mov { d, a } => { let v = self.get(st, a); st.cur.regs[*d as usize] = v; }
                Inst::Bitcast { d, a, from, to } => {
                    let va = self.get(st, a);
                    let (wf, vf) = self.m.scalar_w(*from); let (wt, vt) = self.m.scalar_w(*to);
                    let r = if !vf && !vt { va } else {
                        let pieces: Vec<(Val, u32)> = match &va { Val::A(x) => x.iter().map(|q| (q.clone(), wf)).collect(), v => vec![(v.clone(), wf)] };
                        let all = pieces.iter().all(|p| matches!(p.0, Val::I(_)));
                        let o = if all && wt <= 64 && pieces.len() as u32 * wf <= 64 && !vt { let mut acc = 0u64; for (i, p) in pieces.iter().enumerate() { if let Val::I(x) = p.0 { acc |= x << (i as u32 * wf); } } vec![Val::I(acc)] } else { self.regroup(pieces, wt) };
                        if vt { Val::A(o.into()) } else { o.into_iter().next().unwrap() }
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Select { d, c, a, b, vec, w } => {
                    let vc = self.get(st, c);
                    let r = match &vc {
                        Val::I(x) => if *x & 1 != 0 { self.get(st, a) } else { self.get(st, b) },
                        Val::S(e) => {
                            let (va, vb) = (self.get(st, a), self.get(st, b));
                            if let Some(c) = self.settled(st, *e) { st.cur.regs[*d as usize] = if c { va } else { vb }; st.cur.ip += 1; continue; }
                            match (&va, &vb) {
                                (Val::A(_), _) | (_, Val::A(_)) => { if self.decide(st, *e)? { va } else { vb } }
                                _ => {
                                    if let (Val::I(x), Val::I(y)) = (&va, &vb) { if x == y { st.cur.regs[*d as usize] = va; st.cur.ip += 1; continue; } }
                                    let w = *w;
                                    // a choice of two lengths or pointers: fork instead of carrying a symbolic address around
                                    if w == 64 && matches!((&va, &vb), (Val::I(_), Val::I(_))) && self.cx.sup(*e).count_ones() > 1 {
                                        let r = if self.decide(st, *e)? { va } else { vb };
                                        st.cur.regs[*d as usize] = r; st.cur.ip += 1; continue;
                                    }
                                    let (ea, eb) = (self.e(&va, w), self.e(&vb, w));
                                    let r = self.cx.ite(*e, ea, eb); self.v(r)
                                }
                            }
                        }
                        Val::A(x) if *vec => {
                            let (Val::A(p), Val::A(q)) = (self.get(st, a), self.get(st, b)) else { return Err(Stop::Err("vector select".into())) };
                            let mut o = vec![];
                            for i in 0..x.len() { match &x[i] { Val::I(k) => o.push(if *k & 1 != 0 { p[i].clone() } else { q[i].clone() }), _ => return Err(Stop::Err("symbolic vector select".into())) } }
                            Val::A(o.into())
                        }
                        _ => return Err(Stop::Err("select cond".into())),
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Load { d, ty, p } => {
                    let a = match Self::geti(st, p) {
                        Some(a) => a,
                        None => {
                            let v = self.get(st, p);
                            if let Val::S(e) = v { let e = self.split_addr(st, e)?; if let Some(r) = self.table_load(st, e, *ty)? { st.cur.regs[*d as usize] = r; st.cur.ip += 1; continue; } }
                            self.conc(st, &v, 64)?
                        }
                    };
                    let mem = std::mem::replace(&mut st.mem, Mem::new(0));
                    let r = self.load_val(&mem, a, *ty);
                    st.mem = mem;
                    st.cur.regs[*d as usize] = r?;
                }
                Inst::Store { ty, v, p } => {
                    let a = self.addr(st, p)?;
                    let vv = self.get(st, v);
                    let mut mem = std::mem::replace(&mut st.mem, Mem::new(0));
                    let r = self.store_val(&mut mem, a, *ty, &vv);
                    st.mem = mem;
                    r?;
                }
                Inst::Gep { d, base, off, idx } => {
                    let b = self.get(st, base);
                    let mut symb: Option<E> = None; let mut acc;
                    match &b { Val::I(x) => acc = x.wrapping_add(*off as u64), Val::S(e) => { symb = Some(*e); acc = *off as u64; } _ => return Err(Stop::Err("gep base".into())) }
                    for (o, w, sc) in idx {
                        match self.get(st, o) {
                            Val::I(x) => acc = acc.wrapping_add((sx(x, *w) as u64).wrapping_mul(*sc as u64)),
                            Val::S(e) => {
                                let e64 = if *w < 64 { self.cx.sext(e, 64) } else { e };
                                let k = self.cx.cst(64, *sc as u64 as u128);
                                let t = self.cx.bin(Op::Mul, e64, k);
                                symb = Some(match symb { None => t, Some(s) => self.cx.bin(Op::Add, s, t) });
                            }
                            _ => return Err(Stop::Err("gep index".into())),
                        }
                    }
                    let r = match symb { None => Val::I(acc), Some(s) => { let k = self.cx.cst(64, acc as u128); let r = self.cx.bin(Op::Add, s, k); self.v(r) } };
                    st.cur.regs[*d as usize] = r;
                }
                Inst::Alloca { d, size, count, align } => {
                    let n = match count { None => 1, Some(c) => { let v = self.get(st, c); self.conc(st, &v, 64)? } };
                    let al = (*align).max(1);
                    let p = (st.sp + al - 1) / al * al;
                    st.sp = p + (size * n).max(1);
                    if st.sp + 4096 > STACK_END { return Err(Stop::Err("stack overflow".into())); }
                    st.cur.regs[*d as usize] = Val::I(p);
                }
                Inst::ExtractV { d, a, path } => { let mut v = self.get(st, a); for &i in path { v = match v { Val::A(x) => x[i as usize].clone(), _ => return Err(Stop::Err("extractvalue".into())) }; } st.cur.regs[*d as usize] = v; }
                Inst::InsertV { d, a, v, path } => { let agg = self.get(st, a); let x = self.get(st, v); st.cur.regs[*d as usize] = insert(agg, x, path); }
                Inst::ExtractE { d, a, i } => { let iv = self.get(st, i); let k = self.conc(st, &iv, 64)?; let Val::A(x) = self.get(st, a) else { return Err(Stop::Err("extractelement".into())) }; st.cur.regs[*d as usize] = x[k as usize].clone(); }
                Inst::InsertE { d, a, v, i } => { let iv = self.get(st, i); let k = self.conc(st, &iv, 64)?; let agg = self.get(st, a); let x = self.get(st, v); st.cur.regs[*d as usize] = insert(agg, x, &[k as u32]); }
                Inst::Shuffle { d, a, b, n, mask } => {
                    let (Val::A(x), Val::A(y)) = (self.get(st, a), self.get(st, b)) else { return Err(Stop::Err("shuffle".into())) };
                    let o: Vec<Val> = mask.iter().map(|&k| if (k as u32) < *n { x[k as usize].clone() } else { y[(k as u32 - n) as usize].clone() }).collect();
                    st.cur.regs[*d as usize] = Val::A(o.into());
                }
                Inst::Br(e) => { self.take(st, e); continue; }
                Inst::CondBr { c, t, f } => {
                    let b = match Self::geti(st, c) { Some(x) => x & 1 != 0, None => { let v = self.get(st, c); let e = self.e(&v, 1); self.decide(st, e)? } };
                    self.take(st, if b { t } else { f });
                    continue;
                }
                Inst::Switch { v, w, cases, targets, default } => {
                    let vv = self.get(st, v);
                    let t = match &vv {
                        Val::I(x) => cases.iter().find(|c| c.0 == *x as u128).map(|c| c.1).unwrap_or(*default),
                        Val::W(x) => cases.iter().find(|c| c.0 == **x).map(|c| c.1).unwrap_or(*default),
                        Val::S(e) => self.switch(st, *e, *w, cases, targets.len(), *default)?,
                        _ => return Err(Stop::Err("switch".into())),
                    };
                    self.take(st, &targets[t as usize]);
                    continue;
                }
                Inst::Ret(v) => {
                    let r = v.as_ref().map(|o| self.get(st, o));
                    match st.callers.pop() {
                        None => return Err(Stop::End(End::Done)),
                        Some(fr) => {
                            st.sp = st.cur.sp;
                            st.cur = match Rc::try_unwrap(fr) { Ok(f) => f, Err(rc) => (*rc).clone() };
                            let ci: &'static Inst = &st.cur.f.blocks[st.cur.block as usize][st.cur.ip as usize];
                            if let Inst::Call { d, next, .. } = ci {
                                if let (Some(d), Some(r)) = (d, r) { st.cur.regs[*d as usize] = r; }
                                match next { Some(e) => { self.take(st, e); } None => st.cur.ip += 1 }
                            }
                            continue;
                        }
                    }
                }
                Inst::Unreachable => return Err(Stop::Err("reached unreachable".into())),
                Inst::Nop => {}
                Inst::Call { d, callee, args, tys, rty, next } => {
                    let mut target: Option<u32> = None; let mut ext: Option<Rc<str>> = None;
                    match callee {
                        Callee::Fn(f) => target = Some(*f),
                        Callee::Ext(n) => ext = Some(n.clone()),
                        Callee::Ind(o) => {
                            let v = self.get(st, o); let a = self.conc(st, &v, 64)?;
                            if a >= FN_BASE && (a - FN_BASE) / 16 < self.m.fns.len() as u64 && (a - FN_BASE) % 16 == 0 { target = Some(((a - FN_BASE) / 16) as u32); }
                            else if let Some(n) = self.m.ext_by_addr.get(&a) { ext = Some(n.clone()); }
                            else { return Err(Stop::Err(format!("indirect call to {:#x}", a))); }
                        }
                        Callee::Asm(s) => { if s.contains("cpuid") { let z = self.m.zero(*rty); self.set(st, *d, z); } else if d.is_some() { return Err(Stop::Err(format!("inline asm {:?}", s))); } st.cur.ip += 1; continue; }
                    }
                    if let Some(f) = target {
                        if let Some(k) = self.special.get(&f) { let _ = k; let msg = self.panic_msg(st, args, f); return Err(Stop::End(End::Panic(msg))); }
                        let func = self.m.function(f);
                        let sm = &mut self.fn_stamp[f as usize];
                        if *sm & 1 == 0 { *sm |= 1; self.rep.fns_executed.insert(f); }
                        let mut regs = vec![Val::I(0); func.nregs as usize];
                        for (i, &p) in func.params.iter().enumerate() { if let Some(a) = args.get(i) { regs[p as usize] = self.get(st, a); } }
                        if st.callers.len() > 4000 { return Err(Stop::Err("call depth".into())); }
                        let sp = st.sp;
                        let fr = std::mem::replace(&mut st.cur, Frame { f: func, regs, block: 0, ip: 0, sp });
                        st.callers.push(Rc::new(fr));
                        continue;
                    }
                    let n = ext.unwrap();
                    let av: Vec<Val> = args.iter().map(|a| self.get(st, a)).collect();
                    let r = self.external(st, &n, &av, tys, *rty)?;
                    if let Some(r) = r { self.set(st, *d, r); }
                    if let Some(e) = next { self.take(st, e); continue; }
                }
                Inst::Rmw { op, d, p, v, ty } => {
                    let a = self.addr(st, p)?;
                    let (w, _) = self.m.scalar_w(*ty);
                    let mut mem = std::mem::replace(&mut st.mem, Mem::new(0));
                    let old = self.load_val(&mem, a, *ty)?;
                    let x = self.get(st, v);
                    let new = match &**op {
                        "xchg" => x,
                        "add" => self.bin(B::Add, w, &old, &x)?, "sub" => self.bin(B::Sub, w, &old, &x)?, "and" => self.bin(B::And, w, &old, &x)?, "or" => self.bin(B::Or, w, &old, &x)?, "xor" => self.bin(B::Xor, w, &old, &x)?,
                        "umax" => self.bin(B::UMax, w, &old, &x)?, "umin" => self.bin(B::UMin, w, &old, &x)?,
                        o => return Err(Stop::Err(format!("atomicrmw {}", o))),
                    };
                    self.store_val(&mut mem, a, *ty, &new)?;
                    st.mem = mem;
                    st.cur.regs[*d as usize] = old;
                }
                Inst::CmpXchg { d, p, c, n, ty } => {
                    let a = self.addr(st, p)?;
                    let (w, _) = self.m.scalar_w(*ty);
                    let mem = std::mem::replace(&mut st.mem, Mem::new(0));
                    let old = self.load_val(&mem, a, *ty); st.mem = mem; let old = old?;
                    let cv = self.get(st, c);
                    let eq = self.cmp(Pred::Eq, w, &old, &cv);
                    let e = self.e(&eq, 1);
                    let b = self.decide(st, e)?;
                    if b { let nv = self.get(st, n); let mut mem = std::mem::replace(&mut st.mem, Mem::new(0)); let r = self.store_val(&mut mem, a, *ty, &nv); st.mem = mem; r?; }
                    st.cur.regs[*d as usize] = Val::A(vec![old, Val::I(b as u64)].into());
                }
                Inst::FBin { op, ty, d, a, b } => {
                    let (va, vb) = (self.get(st, a), self.get(st, b));
                    let (w, _) = self.m.scalar_w(*ty);
                    let (x, y) = (self.conc(st, &va, w)?, self.conc(st, &vb, w)?);
                    st.cur.regs[*d as usize] = Val::I(fbin(op, w, x, y));
                }
                Inst::FCmp { pred, ty, d, a, b } => {
                    let (va, vb) = (self.get(st, a), self.get(st, b));
                    let (w, _) = self.m.scalar_w(*ty);
                    let (x, y) = (self.conc(st, &va, w)?, self.conc(st, &vb, w)?);
                    let (x, y) = (tof(w, x), tof(w, y));
                    let un = x.is_nan() || y.is_nan();
                    let r = match &**pred { "oeq" => x == y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "one" => !un && x != y, "ord" => !un, "uno" => un, "ueq" => un || x == y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "une" => x != y, "true" => true, _ => false };
                    st.cur.regs[*d as usize] = Val::I(r as u64);
                }
                Inst::FCast { op, from, to, d, a } => {
                    let va = self.get(st, a);
                    let (wf, _) = self.m.scalar_w(*from); let (wt, _) = self.m.scalar_w(*to);
                    let x = self.conc(st, &va, wf)?;
                    let ff = |f: f64| if wt == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() };
                    let r = match &**op {
                        "sitofp" => if wt == 32 { (sx(x, wf) as f32).to_bits() as u64 } else { (sx(x, wf) as f64).to_bits() },
                        "uitofp" => if wt == 32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() },
                        "fptosi" => (tof(wf, x) as i64 as u64) & mask64(wt), "fptoui" => (tof(wf, x) as u64) & mask64(wt),
                        _ => ff(tof(wf, x)),
                    };
                    st.cur.regs[*d as usize] = Val::I(r);
                }
                Inst::Bad(s) => return Err(Stop::Err(format!("unsupported instruction {}", s))),
            }
            st.cur.ip += 1;
        }
    }
    fn switch(&mut self, st: &mut State, e: E, w: u32, cases: &[(u128, u32)], nt: usize, default: u32) -> R<u32> {
        // condition per target
        let mut conds: Vec<E> = vec![0; nt];
        let mut any: E = self.cx.cst(1, 0);
        for (k, t) in cases {
            let kk = self.cx.cst(w, *k); let eq = self.cx.bin(Op::Eq, e, kk);
            any = self.cx.or(any, eq);
            let c = &mut conds[*t as usize];
            *c = if *c == 0 { eq } else { self.cx.or(*c, eq) };
        }
        let dn = self.cx.not(any);
        conds[default as usize] = if conds[default as usize] == 0 { dn } else { self.cx.or(conds[default as usize], dn) };
        if let Some((h, true)) = st.hint { if let Some(i) = conds.iter().position(|&c| c == h) { st.hint = None; return Ok(i as u32); } }
        st.hint = None;
        self.rep.branches_sym += 1;
        self.mark_sym(st);
        let mut mine = None;
        for (i, &c) in conds.iter().enumerate() { if c != 0 && self.cx.eval(c, &st.model) != 0 { mine = Some(i); break; } }
        let mine = mine.ok_or(Stop::Err("switch: no target".into()))?;
        let mut forked = false;
        for (i, &c) in conds.iter().enumerate().rev() {
            if i == mine || c == 0 { continue; }
            match self.sv.query(&self.cx, &st.pc, c) {
                Verdict::Sat(upd) => { self.push_alt(st, c, &upd, Some((c, true))); forked = true; }
                Verdict::Unsat => {}
                Verdict::Unknown => return Err(Stop::Err("solver returned unknown".into())),
            }
        }
        if forked { st.pc.add(&mut self.cx, conds[mine]); st.depth += 1; }
        Ok(mine as u32)
    }
    fn panic_msg(&mut self, st: &State, args: &[Opnd], f: u32) -> String {
        let loc = args.last().and_then(|o| Self::geti(st, o)).and_then(|a| {
            let p = st.mem.read_conc(a, 8).ok()??; let n = st.mem.read_conc(a + 8, 8).ok()??; let l = st.mem.read_conc(a + 16, 4).ok()??;
            if n > 300 || !st.mem.mapped(p) { return None; }
            Some(format!("{}:{}", st.mem.cstr(p, n), l))
        });
        loc.unwrap_or_else(|| short(&self.m.fns[f as usize].name))
    }
    fn bcmp(&mut self, st: &mut State, a: u64, b: u64, n: u64, three: bool) -> R<Val> {
        // concrete fast path
        let mut r: E = 0;
        for i in (0..n).rev() {
            let (x, sx_) = st.mem.byte(a + i)?; let (y, sy) = st.mem.byte(b + i)?;
            if sx_ == 0 && sy == 0 {
                if x != y { let k = if three { if x < y { 0xFFFF_FFFFu128 } else { 1 } } else { 1 }; r = self.cx.cst(32, k); }
                continue;
            }
            if sx_ == sy { continue; }
            let ex = if sx_ != 0 { sx_ } else { self.cx.cst(8, x as u128) };
            let ey = if sy != 0 { sy } else { self.cx.cst(8, y as u128) };
            let eq = self.cx.bin(Op::Eq, ex, ey);
            let rest = if r == 0 { self.cx.cst(32, 0) } else { r };
            let diff = if three { let lt = self.cx.bin(Op::Ult, ex, ey); let m1 = self.cx.cst(32, 0xFFFF_FFFF); let one = self.cx.cst(32, 1); self.cx.ite(lt, m1, one) } else { self.cx.cst(32, 1) };
            r = self.cx.ite(eq, rest, diff);
        }
        if r == 0 { return Ok(Val::I(0)); }
        Ok(self.v(r))
    }
    fn external(&mut self, st: &mut State, n: &str, a: &[Val], tys: &[Ty], rty: Ty) -> R<Option<Val>> {
        let wr = self.m.scalar_w(rty).0;
        if let Some(x) = n.strip_prefix("llvm.") { return self.intrinsic(st, x, a, tys, rty); }
        macro_rules! c { ($i:expr) => {{ let w = self.m.scalar_w(tys[$i]).0; self.conc(st, &a[$i], w)? }}; }
        Ok(match n {
            "__sym_byte" => {
                let i = st.nvars; if i >= 120 { return Err(Stop::Err("more than 120 symbolic bytes".into())); }
                st.nvars += 1; while st.model.len() < st.nvars { st.model.push(0); }
                Some(Val::S(self.cx.var(i)))
            }
            "__sym_assume" => {
                let w = self.m.scalar_w(tys[0]).0; let z = Val::I(0);
                let c = self.cmp(Pred::Ne, w, &a[0], &z);
                match c {
                    Val::I(0) => return Err(Stop::End(End::Infeasible)), Val::I(_) => {}
                    v => {
                        let e = self.e(&v, 1);
                        if self.cx.eval(e, &st.model) == 0 {
                            match self.sv.query(&self.cx, &st.pc, e) { Verdict::Sat(u) => Self::apply_model(&mut st.model, &u), Verdict::Unsat => return Err(Stop::End(End::Infeasible)), Verdict::Unknown => return Err(Stop::Err("solver returned unknown".into())) }
                        }
                        st.pc.add(&mut self.cx, e);
                    }
                }
                None
            }
            "__sym_check" => {
                let w = self.m.scalar_w(tys[0]).0; let z = Val::I(0);
                let c = self.cmp(Pred::Ne, w, &a[0], &z);
                let id = match a[1] { Val::I(x) => x as u32, _ => 0 };
                self.rep.checks += 1;
                match c {
                    Val::I(0) => return Err(Stop::End(End::Fail(id))), Val::I(_) => {}
                    v => {
                        self.rep.checks_sym += 1;
                        let e = self.e(&v, 1);
                        let ne = self.cx.not(e);
                        match self.sv.query(&self.cx, &st.pc, ne) {
                            Verdict::Unsat => {}
                            Verdict::Sat(u) => {
                                let mut m = st.model.clone(); Self::apply_model(&mut m, &u);
                                self.violation(st, format!("fail:{}", id), Some(&m));
                                if self.rep.violations.len() >= self.o.max_violations { return Err(Stop::End(End::Infeasible)); }
                                // continue on the passing side
                                if self.cx.eval(e, &st.model) == 0 { match self.sv.query(&self.cx, &st.pc, e) { Verdict::Sat(u) => Self::apply_model(&mut st.model, &u), _ => return Err(Stop::End(End::Infeasible)) } }
                                st.pc.add(&mut self.cx, e);
                            }
                            Verdict::Unknown => return Err(Stop::Err("solver returned unknown".into())),
                        }
                    }
                }
                None
            }
            "__sym_fail" => { let id = c!(0); return Err(Stop::End(End::Fail(id as u32))); }
            "__sym_done" => return Err(Stop::End(End::Done)),
            "__sym_reach" => { let id = c!(0) as u32; if !st.reached.contains(&id) { st.reached.push(id); } None }
            "__sym_obs" => { st.obs.push(a[0].clone()); None }
            "__sym_param" => { let i = c!(0) as usize; Some(Val::I(self.o.params.get(i).copied().unwrap_or(0))) }
            "__sym_conc" => Some(Val::I(c!(0))),
            "__sym_is_symbolic" => Some(Val::I(1)),
            "__sym_print" => { let p = c!(0); let l = c!(1); let mut s = String::new(); for i in 0..l { let (b, e) = st.mem.byte(p + i)?; if e != 0 { s += &format!("<{}>", self.cx.show(e, 2)); } else { s.push(b as char); } } eprintln!("[print] {}", s); None }
            "malloc" => { let k = c!(0); Some(Val::I(self.malloc(st, k, 16)?)) }
            "calloc" => { let k = c!(0) * c!(1); let p = self.malloc(st, k, 16)?; st.mem.fill(p, k, 0, 0)?; Some(Val::I(p)) }
            "posix_memalign" => { let out = c!(0); let al = c!(1); let k = c!(2); let p = self.malloc(st, k, al)?; st.mem.write_conc(out, 8, p)?; Some(Val::I(0)) }
            "aligned_alloc" => { let al = c!(0); let k = c!(1); Some(Val::I(self.malloc(st, k, al)?)) }
            "realloc" => {
                let p = c!(0); let k = c!(1);
                if p == 0 { Some(Val::I(self.malloc(st, k, 16)?)) } else {
                    let old = st.mem.read_conc(p - 8, 8)?.unwrap_or(0);
                    let q = self.malloc(st, k, 16)?;
                    st.mem.copy(q, p, old.min(k))?;
                    Some(Val::I(q))
                }
            }
            "free" => None,
            "memcmp" | "bcmp" => { let (p, q, k) = (c!(0), c!(1), c!(2)); Some(self.bcmp(st, p, q, k, n == "memcmp")?) }
            "memcpy" | "memmove" => { let (p, q, k) = (c!(0), c!(1), c!(2)); st.mem.copy(p, q, k)?; Some(Val::I(p)) }
            "memset" => { let (p, k) = (c!(0), c!(2)); let b = self.cast(CastK::Trunc, 32, 8, &a[1]); match b { Val::I(x) => st.mem.fill(p, k, x as u8, 0)?, Val::S(e) => st.mem.fill(p, k, 0, e)?, _ => {} } Some(Val::I(p)) }
            "strlen" => { let p = c!(0); let mut k = 0; loop { let (b, s) = st.mem.byte(p + k)?; if s != 0 { return Err(Stop::Err("strlen on symbolic".into())); } if b == 0 { break; } k += 1; } Some(Val::I(k)) }
            "getrandom" => { let (p, k) = (c!(0), c!(1)); st.mem.fill(p, k, 0x5a, 0)?; Some(Val::I(k)) }
            "syscall" => Some(Val::I(mask64(wr))),
            "write" => { let k = c!(2); Some(Val::I(k)) }
            "abort" | "exit" | "_exit" | "__rust_abort" => return Err(Stop::End(End::Panic(n.into()))),
            "__errno_location" => { Some(Val::I(STACK_BASE)) }
            "open64" | "open" | "sched_getaffinity" | "statx" | "stat64" | "read" | "readlink" => { st.mem.write_conc(STACK_BASE, 4, 2)?; Some(Val::I(mask64(wr))) }
            "gettid" | "pthread_self" | "getpid" => Some(Val::I(1)),
            "sysconf" => { let k = c!(0); Some(Val::I(if k == 84 { 1 } else { 4096 })) }
            "getenv" => Some(Val::I(0)),
            "pthread_key_create" => { let p = c!(0); self.next_key += 1; st.mem.write_conc(p, 4, self.next_key)?; Some(Val::I(0)) }
            "__cxa_thread_atexit_impl" | "pthread_key_delete" | "pthread_setspecific" | "sigaction" | "signal" | "sigaltstack" | "poll" | "pthread_attr_destroy" | "close" | "munmap" | "mprotect" | "getauxval" | "sched_yield" => Some(Val::I(0)),
            _ => return Err(Stop::Err(format!("external function {}", n))),
        })
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[Val], tys: &[Ty], rty: Ty) -> R<Option<Val>> {
        macro_rules! c { ($i:expr) => {{ let w = self.m.scalar_w(tys[$i]).0; self.conc(st, &a[$i], w)? }}; }
        let base = n.split('.').next().unwrap();
        let (w, vec) = if tys.is_empty() { (0, false) } else { self.m.scalar_w(tys[0]) };
        Ok(match base {
            "memcpy" | "memmove" => { let (p, q, k) = (c!(0), c!(1), c!(2)); if k > 0 { st.mem.copy(p, q, k)?; } None }
            "memset" => { let (p, k) = (c!(0), c!(2)); if k > 0 { match &a[1] { Val::I(x) => st.mem.fill(p, k, *x as u8, 0)?, Val::S(e) => st.mem.fill(p, k, 0, *e)?, _ => {} } } None }
            "trap" | "ubsantrap" | "debugtrap" => return Err(Stop::End(End::Panic("trap".into()))),
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" | "abs" if !vec => Some(match &a[0] {
                Val::I(x) => Val::I(match base {
                    "ctpop" => x.count_ones() as u64,
                    "ctlz" => (x << (64 - w)).leading_zeros().min(w) as u64,
                    "cttz" => x.trailing_zeros().min(w) as u64,
                    "bswap" => x.swap_bytes() >> (64 - w), "bitreverse" => x.reverse_bits() >> (64 - w),
                    _ => (sx(*x, w).wrapping_abs() as u64) & mask64(w),
                }),
                Val::S(e) => { let e = *e; let r = self.unary_sym(base, e, w); self.v(r) }
                Val::W(x) => match base { "ctpop" => Val::W(Box::new(x.count_ones() as u128)), "ctlz" => Val::W(Box::new((**x << (128 - w)).leading_zeros().min(w) as u128)), "cttz" => Val::W(Box::new(x.trailing_zeros().min(w) as u128)), _ => return Err(Stop::Err(format!("wide {}", n))) },
                _ => return Err(Stop::Err(format!("intrinsic {}", n))),
            }),
            "fshl" | "fshr" if !vec => {
                let k = c!(2) % w as u64;
                Some(match (&a[0], &a[1]) {
                    (Val::I(x), Val::I(y)) => Val::I((if k == 0 { if base == "fshl" { *x } else { *y } } else if base == "fshl" { (x << k) | (y >> (w as u64 - k)) } else { (x << (w as u64 - k)) | (y >> k) }) & mask64(w)),
                    (x, y) => {
                        if 2 * w > 128 { return Err(Stop::Err("wide fsh".into())); }
                        let (ex, ey) = (self.e(x, w), self.e(y, w)); let cc = self.cx.concat(ex, ey);
                        let lo = if base == "fshl" { w - k as u32 } else { k as u32 };
                        let r = self.cx.extract(cc, lo, w); self.v(r)
                    }
                })
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if n.contains("with.overflow") => {
                let (v, o) = match (&a[0], &a[1]) {
                    (Val::I(x), Val::I(y)) => {
                        let (x, y) = (*x, *y);
                        let m = mask(w);
                        let (r, o): (u128, bool) = match base {
                            "uadd" => { let r = x as u128 + y as u128; (r & m, r > m) } "usub" => ((x as u128).wrapping_sub(y as u128) & m, y > x), "umul" => { let r = x as u128 * y as u128; (r & m, r > m) }
                            _ => { let (p, q) = (sx(x, w) as i128, sx(y, w) as i128); let r = match base { "sadd" => p + q, "ssub" => p - q, _ => p * q }; ((r as u128) & m, r < -(1i128 << (w - 1)) || r > (1i128 << (w - 1)) - 1) }
                        };
                        (Val::I(r as u64), Val::I(o as u64))
                    }
                    (x, y) => {
                        let (ex, ey) = (self.e(x, w), self.e(y, w));
                        if w == 128 { return self.overflow128(base, ex, ey).map(Some); }
                        if w > 64 { return Err(Stop::Err("wide overflow op".into())); }
                        let w2 = if base.ends_with("mul") { 2 * w } else { w + 1 };
                        let cx = &mut self.cx;
                        let s = base.starts_with('s');
                        let (bx, by) = if s { (cx.sext(ex, w2), cx.sext(ey, w2)) } else { (cx.zext(ex, w2), cx.zext(ey, w2)) };
                        let op = match &base[1..] { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
                        let big = cx.bin(op, bx, by);
                        let small = cx.extract(big, 0, w);
                        let back = if s { cx.sext(small, w2) } else { cx.zext(small, w2) };
                        let eq = cx.bin(Op::Eq, big, back);
                        let o = cx.not(eq);
                        (self.v(small), self.v(o))
                    }
                };
                Some(Val::A(vec![v, o].into()))
            }
            "scmp" | "ucmp" => {
                let (lp, wr) = (if base == "scmp" { Pred::Slt } else { Pred::Ult }, self.m.scalar_w(rty).0);
                let lt = self.cmp(lp, w, &a[0], &a[1]); let eq = self.cmp(Pred::Eq, w, &a[0], &a[1]);
                let (l, q) = (self.e(&lt, 1), self.e(&eq, 1));
                let m1 = self.cx.cst(wr, mask(wr)); let z = self.cx.cst(wr, 0); let o = self.cx.cst(wr, 1);
                let i = self.cx.ite(q, z, o); let r = self.cx.ite(l, m1, i); Some(self.v(r))
            }
            "load" => { // load.relative(ptr, off)
                let (p, o) = (c!(0), c!(1));
                let r = st.mem.read_conc(p.wrapping_add(o), 4)?.ok_or(Stop::Err("load.relative symbolic".into()))?;
                Some(Val::I(p.wrapping_add(sx(r, 32) as u64)))
            }
            "is" => Some(Val::I(0)),
            "x86" if n == "x86.xgetbv" => Some(Val::I(0)),
            "vector" if n.starts_with("vector.reduce.") => {
                let Val::A(x) = &a[0] else { return Err(Stop::Err("reduce".into())) };
                let op = if n.contains(".or.") { B::Or } else if n.contains(".and.") { B::And } else if n.contains(".add.") { B::Add } else if n.contains(".xor.") { B::Xor } else if n.contains(".umax.") { B::UMax } else if n.contains(".umin.") { B::UMin } else if n.contains(".mul.") { B::Mul } else { return Err(Stop::Err(format!("intrinsic {}", n))) };
                let mut acc = x[0].clone(); for q in &x[1..] { acc = self.bin(op, w, &acc, q)?; } Some(acc)
            }
            "fabs" => { let k = c!(0); Some(Val::I(k & (mask64(w) >> 1))) }
            "objectsize" => Some(Val::I(u64::MAX)),
            "copysign" | "floor" | "ceil" | "trunc" | "rint" | "sqrt" | "round" => { let k = c!(0); let f = tof(w, k); let g = match base { "floor" => f.floor(), "ceil" => f.ceil(), "trunc" => f.trunc(), "sqrt" => f.sqrt(), "round" => f.round(), "rint" => f.round_ties_even(), _ => { let q = c!(1); f.copysign(tof(w, q)) } }; Some(Val::I(if w == 32 { (g as f32).to_bits() as u64 } else { g.to_bits() })) }
            "fptoui" | "fptosi" => { // saturating
                let k = c!(0); let f = tof(w, k); let wr = self.m.scalar_w(rty).0;
                let r = if base == "fptoui" { let m = mask64(wr); if f.is_nan() { 0 } else { (f as u128).min(m as u128) as u64 } } else { let (lo, hi) = (-(1i128 << (wr - 1)), (1i128 << (wr - 1)) - 1); if f.is_nan() { 0 } else { ((f as i128).clamp(lo, hi) as u64) & mask64(wr) } };
                Some(Val::I(r))
            }
            _ => return Err(Stop::Err(format!("intrinsic llvm.{}", n))),
        })
    }
    fn unary_sym(&mut self, op: &str, e: E, w: u32) -> E {
        let cx = &mut self.cx;
        match op {
            "ctpop" => { let mut acc = cx.cst(w, 0); for i in 0..w { let b = cx.extract(e, i, 1); let z = cx.zext(b, w); acc = cx.bin(Op::Add, acc, z); } acc }
            "cttz" => { let mut acc = cx.cst(w, w as u128); for i in (0..w).rev() { let b = cx.extract(e, i, 1); let k = cx.cst(w, i as u128); acc = cx.ite(b, k, acc); } acc }
            "ctlz" => { let mut acc = cx.cst(w, w as u128); for i in 0..w { let b = cx.extract(e, i, 1); let k = cx.cst(w, (w - 1 - i) as u128); acc = cx.ite(b, k, acc); } acc }
            "bswap" => { let mut acc = cx.extract(e, 0, 8); for i in 1..w / 8 { let b = cx.extract(e, 8 * i, 8); acc = cx.concat(acc, b); } acc }
            "bitreverse" => { let mut acc = cx.extract(e, 0, 1); for i in 1..w { let b = cx.extract(e, i, 1); acc = cx.concat(acc, b); } acc }
            _ => { let z = cx.cst(w, 0); let neg = cx.bin(Op::Slt, e, z); let m = cx.bin(Op::Sub, z, e); cx.ite(neg, m, e) }
        }
    }
}
fn tof(w: u32, x: u64) -> f64 { if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) } }
fn fbin(op: &str, w: u32, x: u64, y: u64) -> u64 {
    if w == 32 { let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { "fadd" => a + b, "fsub" => a - b, "fmul" => a * b, "fdiv" => a / b, "frem" => a % b, _ => -a }).to_bits() as u64 }
    else { let (a, b) = (f64::from_bits(x), f64::from_bits(y)); (match op { "fadd" => a + b, "fsub" => a - b, "fmul" => a * b, "fdiv" => a / b, "frem" => a % b, _ => -a }).to_bits() }
}
fn insert(agg: Val, v: Val, path: &[u32]) -> Val {
    if path.is_empty() { return v; }
    match agg { Val::A(x) => { let mut y: Vec<Val> = x.to_vec(); let old = std::mem::replace(&mut y[path[0] as usize], Val::I(0)); y[path[0] as usize] = insert(old, v, &path[1..]); Val::A(y.into()) } _ => v }
}
/// readable form of a mangled (v0) name: the identifiers it contains
pub fn short(n: &str) -> String {
    let b = n.as_bytes(); let mut out: Vec<&str> = vec![]; let mut i = 0;
    if !n.starts_with("_R") { return n.to_string(); }
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' && (i == 0 || !b[i - 1].is_ascii_digit()) {
            // skip crate disambiguators "s....._"
            let mut j = i; let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { k = k * 10 + (b[j] - b'0') as usize; j += 1; if k > 200 { break; } }
            let st = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
            if k >= 1 && st + k <= b.len() && n.is_char_boundary(st) && n.is_char_boundary(st + k) && n[st..st + k].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && (b[st].is_ascii_alphabetic() || b[st] == b'_') { out.push(&n[st..st + k]); i = st + k; continue; }
            i = j; continue;
        }
        if b[i] == b's' || b[i] == b'B' { // base-62 number up to '_'
            let mut j = i + 1; while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 14 { j += 1; }
            if j < b.len() && b[j] == b'_' { i = j + 1; continue; }
        }
        i += 1;
    }
    if out.len() > 7 { let k = out.len() - 7; out.drain(..k); }
    out.join("::")
}
pub fn now_deadline(s: f64) -> Instant { Instant::now() + Duration::from_secs_f64(s) }
