//! Hash-consed bit-vector expressions over symbolic input bytes.
//! Every expression that depends on exactly one input byte is normalised to a
//! canonical function table of that byte (`Fn8`); everything else stays a term DAG.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Fn8,
    And, Or, Xor, Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, ZExt, SExt, Extract, Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Key { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub k: u128 }

#[derive(Clone, Copy)]
pub struct Node { pub key: Key, pub sup: u128 }

pub struct Ctx {
    pub nodes: Vec<Node>,
    cons: HashMap<Key, E>,
    pub tables: Vec<Box<[u64; 256]>>,
    table_ids: HashMap<Box<[u64; 256]>, u32>,
    opmemo: HashMap<Key, E>,
    memo_val: Vec<u128>,
    memo_stamp: Vec<u32>,
    stamp: u32,
    pub nvars: usize,
}

#[inline]
pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
pub fn mask64(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
#[inline]
pub fn sext128(v: u128, w: u32) -> i128 { let s = 128 - w; ((v << s) as i128) >> s }

pub fn eval_op(op: Op, w: u32, wa: u32, a: u128, b: u128, c: u128, k: u128, wb: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b) & m, Op::Sub => a.wrapping_sub(b) & m, Op::Mul => a.wrapping_mul(b) & m,
        // SMT-LIB semantics for division by zero (never reached in defined IR).
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sext128(a, w), sext128(b, w)); if y == 0 { (if x < 0 { 1 } else { m }) & m } else { (x.wrapping_div(y) as u128) & m } }
        Op::SRem => { let (x, y) = (sext128(a, w), sext128(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let x = sext128(a, w); let s = if b >= w as u128 { w - 1 } else { b as u32 }; ((x >> s) as u128) & m }
        Op::Eq => (a == b) as u128, Op::Ult => (a < b) as u128, Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, wa) < sext128(b, wa)) as u128,
        Op::Sle => (sext128(a, wa) <= sext128(b, wa)) as u128,
        Op::Ite => if a != 0 { b } else { c },
        Op::ZExt => a,
        Op::SExt => (sext128(a, wa) as u128) & m,
        Op::Extract => (a >> k) & m,
        Op::Concat => (a << wb) | b, // a high, b low
        Op::Const | Op::Var | Op::Fn8 => unreachable!(),
    }
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx { nodes: vec![], cons: HashMap::new(), tables: vec![], table_ids: HashMap::new(), opmemo: HashMap::new(), memo_val: vec![], memo_stamp: vec![], stamp: 0, nvars: 0 };
        // id 0 is reserved ("no expression")
        c.intern(Key { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 }, 0);
        c.nodes[0].key.w = 0; // unreachable sentinel
        c.cons.clear();
        c
    }
    fn intern(&mut self, key: Key, sup: u128) -> E {
        if let Some(&e) = self.cons.get(&key) { return e; }
        let e = self.nodes.len() as E;
        self.nodes.push(Node { key, sup });
        self.memo_val.push(0);
        self.memo_stamp.push(0);
        self.cons.insert(key, e);
        e
    }
    #[inline] pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].key.w as u32 }
    #[inline] pub fn sup(&self, e: E) -> u128 { self.nodes[e as usize].sup }
    #[inline] pub fn op(&self, e: E) -> Op { self.nodes[e as usize].key.op }
    #[inline] pub fn key(&self, e: E) -> Key { self.nodes[e as usize].key }
    #[inline] pub fn as_const(&self, e: E) -> Option<u128> { let n = &self.nodes[e as usize]; if n.key.op == Op::Const { Some(n.key.k) } else { None } }
    pub fn cst(&mut self, w: u32, v: u128) -> E { self.intern(Key { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: v & mask(w) }, 0) }
    pub fn var(&mut self, i: usize) -> E {
        assert!(i < 128, "too many symbolic bytes");
        if i >= self.nvars { self.nvars = i + 1; }
        self.intern(Key { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 }, 1u128 << i)
    }
    pub fn table_node(&mut self, var: usize, w: u32, t: Box<[u64; 256]>) -> E {
        if t.iter().all(|&x| x == t[0]) { return self.cst(w, t[0] as u128); }
        let v = self.var(var);
        if w == 8 && t.iter().enumerate().all(|(i, &x)| x == i as u64) { return v; }
        let id = match self.table_ids.get(&t) {
            Some(&i) => i,
            None => { let i = self.tables.len() as u32; self.tables.push(t.clone()); self.table_ids.insert(t, i); i }
        };
        self.intern(Key { op: Op::Fn8, w: w as u16, a: v, b: 0, c: 0, k: id as u128 }, 1u128 << var)
    }
    /// Value of a single-variable (or constant) expression when its variable is `v`.
    pub fn val_at(&mut self, e: E, v: u8) -> u128 {
        let n = self.nodes[e as usize];
        match n.key.op {
            Op::Const => n.key.k,
            Op::Var => v as u128,
            Op::Fn8 => self.tables[n.key.k as usize][v as usize] as u128,
            _ => { self.stamp += 1; self.eval_single(e, v) }
        }
    }
    fn eval_single(&mut self, e: E, v: u8) -> u128 {
        let n = self.nodes[e as usize];
        match n.key.op {
            Op::Const => n.key.k, Op::Var => v as u128, Op::Fn8 => self.tables[n.key.k as usize][v as usize] as u128,
            _ => {
                if self.memo_stamp[e as usize] == self.stamp { return self.memo_val[e as usize]; }
                let k = n.key;
                let a = self.eval_single(k.a, v);
                let b = if k.b != 0 { self.eval_single(k.b, v) } else { 0 };
                let c = if k.c != 0 { self.eval_single(k.c, v) } else { 0 };
                let wb = if k.b != 0 { self.w(k.b) } else { 0 };
                let r = eval_op(k.op, k.w as u32, self.w(k.a), a, b, c, k.k, wb);
                self.memo_stamp[e as usize] = self.stamp; self.memo_val[e as usize] = r; r
            }
        }
    }
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.key.op {
            Op::Const => n.key.k,
            Op::Var => *model.get(n.key.k as usize).unwrap_or(&0) as u128,
            Op::Fn8 => { let vi = self.nodes[n.key.a as usize].key.k as usize; self.tables[n.key.k as usize][*model.get(vi).unwrap_or(&0) as usize] as u128 }
            _ => { self.stamp += 1; self.eval_rec(e, model) }
        }
    }
    fn eval_rec(&mut self, e: E, model: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.key.op {
            Op::Const => n.key.k,
            Op::Var => *model.get(n.key.k as usize).unwrap_or(&0) as u128,
            Op::Fn8 => { let vi = self.nodes[n.key.a as usize].key.k as usize; self.tables[n.key.k as usize][*model.get(vi).unwrap_or(&0) as usize] as u128 }
            _ => {
                if self.memo_stamp[e as usize] == self.stamp { return self.memo_val[e as usize]; }
                let k = n.key;
                let r = if k.op == Op::Ite {
                    if self.eval_rec(k.a, model) != 0 { self.eval_rec(k.b, model) } else { self.eval_rec(k.c, model) }
                } else {
                    let a = self.eval_rec(k.a, model);
                    let b = if k.b != 0 { self.eval_rec(k.b, model) } else { 0 };
                    let wb = if k.b != 0 { self.w(k.b) } else { 0 };
                    eval_op(k.op, k.w as u32, self.w(k.a), a, b, 0, k.k, wb)
                };
                self.memo_stamp[e as usize] = self.stamp; self.memo_val[e as usize] = r; r
            }
        }
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        let key = Key { op, w: w as u16, a, b, c, k };
        if let Some(&e) = self.opmemo.get(&key) { return e; }
        let e = self.mk_uncached(key);
        self.opmemo.insert(key, e);
        e
    }
    fn mk_uncached(&mut self, key: Key) -> E {
        let Key { op, w, a, b, c, k } = key;
        let w = w as u32;
        let mut sup = self.sup(a);
        if b != 0 { sup |= self.sup(b); }
        if c != 0 { sup |= self.sup(c); }
        let wa = self.w(a);
        let wb = if b != 0 { self.w(b) } else { 0 };
        if sup == 0 {
            let av = self.as_const(a).unwrap();
            let bv = if b != 0 { self.as_const(b).unwrap() } else { 0 };
            let cv = if c != 0 { self.as_const(c).unwrap() } else { 0 };
            let r = eval_op(op, w, wa, av, bv, cv, k, wb);
            return self.cst(w, r);
        }
        if sup.count_ones() == 1 && w <= 64 {
            let var = sup.trailing_zeros() as usize;
            let mut t = Box::new([0u64; 256]);
            for v in 0..256usize {
                let av = self.val_at(a, v as u8);
                let bv = if b != 0 { self.val_at(b, v as u8) } else { 0 };
                let cv = if c != 0 { self.val_at(c, v as u8) } else { 0 };
                t[v] = eval_op(op, w, wa, av, bv, cv, k, wb) as u64;
            }
            return self.table_node(var, w, t);
        }
        if let Some(e) = self.simplify(op, w, a, b, c, k) { return e; }
        let (mut a, mut b) = (a, b);
        if matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul | Op::Eq) {
            // constants to the right, otherwise ordered
            let ca = self.as_const(a).is_some();
            let cb = self.as_const(b).is_some();
            if ca && !cb || (!ca && !cb && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        self.intern(Key { op, w: w as u16, a, b, c, k }, sup)
    }
    fn simplify(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> Option<E> {
        let ca = self.as_const(a);
        let cb = if b != 0 { self.as_const(b) } else { None };
        let m = mask(w);
        match op {
            Op::And => {
                if a == b { return Some(a); }
                for (x, y) in [(ca, b), (cb, a)] {
                    if let Some(v) = x {
                        if v == 0 { return Some(self.cst(w, 0)); }
                        if v == m { return Some(y); }
                        // low mask of a zext
                        let ky = self.key(y);
                        if ky.op == Op::ZExt && (mask(self.w(ky.a)) & !v) == 0 { return Some(y); }
                        if (v + 1).is_power_of_two() {
                            let n = (v + 1).trailing_zeros();
                            let lo = self.extract(y, 0, n);
                            return Some(self.zext(lo, w));
                        }
                    }
                }
                if w == 1 { if self.is_not_of(a, b) { return Some(self.cst(1, 0)); } }
            }
            Op::Or => {
                if a == b { return Some(a); }
                for (x, y) in [(ca, b), (cb, a)] { if let Some(v) = x { if v == 0 { return Some(y); } if v == m { return Some(self.cst(w, m)); } } }
                if w == 1 { if self.is_not_of(a, b) { return Some(self.cst(1, 1)); } }
                // or of disjoint zext / shifted parts => concat
                if w > 1 {
                    if let Some(e) = self.or_concat(w, a, b) { return Some(e); }
                    if let Some(e) = self.or_concat(w, b, a) { return Some(e); }
                }
            }
            Op::Xor => {
                if a == b { return Some(self.cst(w, 0)); }
                for (x, y) in [(ca, b), (cb, a)] {
                    if let Some(v) = x {
                        if v == 0 { return Some(y); }
                        let ky = self.key(y);
                        if ky.op == Op::Xor { if let Some(v2) = self.as_const(ky.b) { let cc = self.cst(w, v ^ v2); return Some(self.mk(Op::Xor, w, ky.a, cc, 0, 0)); } }
                        if w == 1 && v == 1 {
                            // not of comparison
                            match ky.op {
                                Op::Ult => return Some(self.mk(Op::Ule, 1, ky.b, ky.a, 0, 0)),
                                Op::Ule => return Some(self.mk(Op::Ult, 1, ky.b, ky.a, 0, 0)),
                                Op::Slt => return Some(self.mk(Op::Sle, 1, ky.b, ky.a, 0, 0)),
                                Op::Sle => return Some(self.mk(Op::Slt, 1, ky.b, ky.a, 0, 0)),
                                _ => {}
                            }
                        }
                    }
                }
            }
            Op::Add => {
                for (x, y) in [(ca, b), (cb, a)] {
                    if let Some(v) = x {
                        if v == 0 { return Some(y); }
                        let ky = self.key(y);
                        if ky.op == Op::Add { if let Some(v2) = self.as_const(ky.b) { let cc = self.cst(w, v.wrapping_add(v2) & m); return Some(self.mk(Op::Add, w, ky.a, cc, 0, 0)); } }
                        if ky.op == Op::Ite { if self.as_const(ky.b).is_some() || self.as_const(ky.c).is_some() {
                            let cc = self.cst(w, v); let t = self.mk(Op::Add, w, ky.b, cc, 0, 0); let f = self.mk(Op::Add, w, ky.c, cc, 0, 0); return Some(self.ite(ky.a, t, f)); } }
                    }
                }
            }
            Op::Sub => {
                if a == b { return Some(self.cst(w, 0)); }
                if let Some(v) = cb { let cc = self.cst(w, v.wrapping_neg() & m); return Some(self.mk(Op::Add, w, a, cc, 0, 0)); }
                // (x + c) - x
                let ka = self.key(a);
                if ka.op == Op::Add { if ka.a == b { return Some(ka.b); } if ka.b == b { return Some(ka.a); } }
            }
            Op::Mul => {
                for (x, y) in [(ca, b), (cb, a)] {
                    if let Some(v) = x {
                        if v == 0 { return Some(self.cst(w, 0)); }
                        if v == 1 { return Some(y); }
                        if v.is_power_of_two() { let s = self.cst(w, v.trailing_zeros() as u128); return Some(self.mk(Op::Shl, w, y, s, 0, 0)); }
                    }
                }
            }
            Op::UDiv => if let Some(v) = cb { if v == 1 { return Some(a); } if v.is_power_of_two() { let s = self.cst(w, v.trailing_zeros() as u128); return Some(self.mk(Op::LShr, w, a, s, 0, 0)); } },
            Op::URem => if let Some(v) = cb { if v.is_power_of_two() { let s = self.cst(w, v - 1); return Some(self.mk(Op::And, w, a, s, 0, 0)); } },
            Op::Shl => if let Some(s) = cb {
                if s == 0 { return Some(a); }
                if s >= w as u128 { return Some(self.cst(w, 0)); }
                let lo = self.cst(s as u32, 0);
                let hi = self.extract(a, 0, w - s as u32);
                return Some(self.concat(hi, lo));
            },
            Op::LShr => if let Some(s) = cb {
                if s == 0 { return Some(a); }
                if s >= w as u128 { return Some(self.cst(w, 0)); }
                let hi = self.extract(a, s as u32, w - s as u32);
                return Some(self.zext(hi, w));
            },
            Op::Eq => {
                if a == b { return Some(self.cst(1, 1)); }
                for (x, y) in [(ca, b), (cb, a)] {
                    if let Some(v) = x {
                        let ky = self.key(y);
                        let wy = self.w(y);
                        match ky.op {
                            Op::ZExt => { let wi = self.w(ky.a); if v > mask(wi) { return Some(self.cst(1, 0)); } let cc = self.cst(wi, v); return Some(self.mk(Op::Eq, 1, ky.a, cc, 0, 0)); }
                            Op::Concat => {
                                let wl = self.w(ky.b); let wh = self.w(ky.a);
                                let ch = self.cst(wh, v >> wl); let cl = self.cst(wl, v);
                                let e1 = self.mk(Op::Eq, 1, ky.a, ch, 0, 0);
                                let e2 = self.mk(Op::Eq, 1, ky.b, cl, 0, 0);
                                return Some(self.and(e1, e2));
                            }
                            Op::Ite => {
                                let (t, f) = (self.as_const(ky.b), self.as_const(ky.c));
                                if t.is_some() || f.is_some() {
                                    let cc = self.cst(wy, v);
                                    let et = self.mk(Op::Eq, 1, ky.b, cc, 0, 0);
                                    let ef = self.mk(Op::Eq, 1, ky.c, cc, 0, 0);
                                    return Some(self.ite(ky.a, et, ef));
                                }
                            }
                            Op::Xor => if let Some(v2) = self.as_const(ky.b) { let cc = self.cst(wy, v ^ v2); return Some(self.mk(Op::Eq, 1, ky.a, cc, 0, 0)); },
                            Op::Add => if let Some(v2) = self.as_const(ky.b) { let cc = self.cst(wy, v.wrapping_sub(v2) & mask(wy)); return Some(self.mk(Op::Eq, 1, ky.a, cc, 0, 0)); },
                            _ => {}
                        }
                        if wy == 1 { return Some(if v == 1 { y } else { self.not(y) }); }
                    }
                }
                let (ka, kb) = (self.key(a), self.key(b));
                if ka.op == Op::ZExt && kb.op == Op::ZExt && self.w(ka.a) == self.w(kb.a) { return Some(self.mk(Op::Eq, 1, ka.a, kb.a, 0, 0)); }
            }
            Op::Ult => {
                if a == b { return Some(self.cst(1, 0)); }
                if cb == Some(0) { return Some(self.cst(1, 0)); }
                if let Some(v) = cb { let ka = self.key(a); if ka.op == Op::ZExt { let wi = self.w(ka.a); if v > mask(wi) { return Some(self.cst(1, 1)); } let cc = self.cst(wi, v); return Some(self.mk(Op::Ult, 1, ka.a, cc, 0, 0)); }
                    if v == 1 { let z = self.cst(self.w(a), 0); return Some(self.mk(Op::Eq, 1, a, z, 0, 0)); } }
                if let Some(v) = ca { let kb = self.key(b); if kb.op == Op::ZExt { let wi = self.w(kb.a); if v >= mask(wi) { return Some(self.cst(1, 0)); } let cc = self.cst(wi, v); return Some(self.mk(Op::Ult, 1, cc, kb.a, 0, 0)); } }
            }
            Op::Ule => {
                if a == b { return Some(self.cst(1, 1)); }
                if ca == Some(0) { return Some(self.cst(1, 1)); }
                if let Some(v) = cb { let ka = self.key(a); if ka.op == Op::ZExt { let wi = self.w(ka.a); if v >= mask(wi) { return Some(self.cst(1, 1)); } let cc = self.cst(wi, v); return Some(self.mk(Op::Ule, 1, ka.a, cc, 0, 0)); } }
                if let Some(v) = ca { let kb = self.key(b); if kb.op == Op::ZExt { let wi = self.w(kb.a); if v > mask(wi) { return Some(self.cst(1, 0)); } let cc = self.cst(wi, v); return Some(self.mk(Op::Ule, 1, cc, kb.a, 0, 0)); } }
            }
            Op::Slt => if a == b { return Some(self.cst(1, 0)); },
            Op::Sle => if a == b { return Some(self.cst(1, 1)); },
            Op::Ite => {
                if let Some(v) = ca { return Some(if v != 0 { b } else { c }); }
                if b == c { return Some(b); }
                if w == 1 {
                    let (vb, vc) = (self.as_const(b), self.as_const(c));
                    match (vb, vc) {
                        (Some(1), Some(0)) => return Some(a),
                        (Some(0), Some(1)) => return Some(self.not(a)),
                        (Some(1), None) => return Some(self.or(a, c)),
                        (Some(0), None) => { let n = self.not(a); return Some(self.and(n, c)); }
                        (None, Some(0)) => return Some(self.and(a, b)),
                        (None, Some(1)) => { let n = self.not(a); return Some(self.or(n, b)); }
                        _ => {}
                    }
                }
            }
            Op::ZExt => {
                if self.w(a) == w { return Some(a); }
                let ka = self.key(a);
                if ka.op == Op::ZExt { return Some(self.mk(Op::ZExt, w, ka.a, 0, 0, 0)); }
            }
            Op::SExt => if self.w(a) == w { return Some(a); },
            Op::Extract => {
                let lo = k as u32;
                let ka = self.key(a);
                if lo == 0 && self.w(a) == w { return Some(a); }
                match ka.op {
                    Op::Extract => return Some(self.mk(Op::Extract, w, ka.a, 0, 0, ka.k + k)),
                    Op::ZExt => {
                        let wi = self.w(ka.a);
                        if lo >= wi { return Some(self.cst(w, 0)); }
                        if lo + w <= wi { return Some(self.mk(Op::Extract, w, ka.a, 0, 0, k)); }
                        let x = self.extract(ka.a, lo, wi - lo);
                        return Some(self.zext(x, w));
                    }
                    Op::SExt => { let wi = self.w(ka.a); if lo + w <= wi { return Some(self.mk(Op::Extract, w, ka.a, 0, 0, k)); } }
                    Op::Concat => {
                        let wl = self.w(ka.b);
                        if lo >= wl { return Some(self.mk(Op::Extract, w, ka.a, 0, 0, (lo - wl) as u128)); }
                        if lo + w <= wl { return Some(self.mk(Op::Extract, w, ka.b, 0, 0, k)); }
                        let l = self.extract(ka.b, lo, wl - lo);
                        let h = self.extract(ka.a, 0, lo + w - wl);
                        return Some(self.concat(h, l));
                    }
                    Op::And | Op::Or | Op::Xor if lo == 0 || true => {
                        let x = self.extract(ka.a, lo, w); let y = self.extract(ka.b, lo, w);
                        return Some(self.mk(ka.op, w, x, y, 0, 0));
                    }
                    Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                        let x = self.extract(ka.a, 0, w); let y = self.extract(ka.b, 0, w);
                        return Some(self.mk(ka.op, w, x, y, 0, 0));
                    }
                    Op::Ite => {
                        if self.as_const(ka.b).is_some() || self.as_const(ka.c).is_some() {
                            let x = self.extract(ka.b, lo, w); let y = self.extract(ka.c, lo, w);
                            return Some(self.ite(ka.a, x, y));
                        }
                    }
                    _ => {}
                }
            }
            Op::Concat => {
                // a high, b low
                let (ka, kb) = (self.key(a), self.key(b));
                if ca == Some(0) { return Some(self.zext(b, w)); }
                if ka.op == Op::Extract && kb.op == Op::Extract && ka.a == kb.a && ka.k == kb.k + self.w(b) as u128 {
                    return Some(self.extract(ka.a, kb.k as u32, w));
                }
                // extract from x high part next to x itself being narrower is not possible; zext merge
                if ka.op == Op::ZExt { let inner = self.concat(ka.a, b); return Some(self.zext(inner, w)); }
                // concat(concat(h, m), l) with m,l adjacent extracts
                if ka.op == Op::Concat {
                    let km = self.key(ka.b);
                    if km.op == Op::Extract && kb.op == Op::Extract && km.a == kb.a && km.k == kb.k + self.w(b) as u128 {
                        let wl = self.w(ka.b) + self.w(b);
                        let l = self.extract(km.a, kb.k as u32, wl);
                        return Some(self.concat(ka.a, l));
                    }
                }
                // fn8 pieces of the same var are handled by the single-variable normalisation
            }
            _ => {}
        }
        None
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let f = |x: E, y: E| { let k = self.key(x); k.op == Op::Xor && k.a == y && self.as_const(k.b) == Some(1) };
        f(a, b) || f(b, a)
    }
    fn or_concat(&mut self, w: u32, a: E, b: E) -> Option<E> {
        // a = concat(hi, 0:n), b fits in n bits
        let ka = self.key(a);
        if ka.op == Op::Concat && self.as_const(ka.b) == Some(0) {
            let n = self.w(ka.b);
            let kb = self.key(b);
            let fits = match kb.op { Op::ZExt => self.w(kb.a) <= n, Op::Const => kb.k <= mask(n), Op::Fn8 => self.tables[kb.k as usize].iter().all(|&v| (v as u128) <= mask(n)), _ => false };
            if fits { let lo = self.extract(b, 0, n); return Some(self.concat(ka.a, lo)); }
        }
        if ka.op == Op::ZExt {
            let ki = self.key(ka.a);
            if ki.op == Op::Concat && self.as_const(ki.b) == Some(0) {
                let x = self.extract(b, 0, self.w(ka.a));
                let kb = self.key(b);
                let fits = match kb.op { Op::ZExt => self.w(kb.a) <= self.w(ki.b), Op::Const => kb.k <= mask(self.w(ki.b)), Op::Fn8 => self.tables[kb.k as usize].iter().all(|&v| (v as u128) <= mask(self.w(ki.b))), _ => false };
                if fits { if let Some(r) = self.or_concat(self.w(ka.a), ka.a, x) { return Some(self.zext(r, w)); } }
            }
        }
        None
    }
    pub fn subst(&mut self, e: E, from: E, to: E) -> E {
        fn go(cx: &mut Ctx, e: E, from: E, to: E, memo: &mut HashMap<E, E>) -> E {
            if e == from { return to; }
            if e == 0 || cx.sup(e) & cx.sup(from) == 0 { return e; }
            let k = cx.key(e);
            if matches!(k.op, Op::Const | Op::Var | Op::Fn8) { return e; }
            if let Some(&r) = memo.get(&e) { return r; }
            let a = go(cx, k.a, from, to, memo); let b = go(cx, k.b, from, to, memo); let c = go(cx, k.c, from, to, memo);
            let r = if (a, b, c) == (k.a, k.b, k.c) { e } else { cx.mk(k.op, k.w as u32, a, b, c, k.k) };
            memo.insert(e, r);
            r
        }
        let mut memo = HashMap::new();
        go(self, e, from, to, &mut memo)
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => self.w(a) };
        debug_assert_eq!(self.w(a), self.w(b));
        self.mk(op, w, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(v) = self.as_const(c) { return if v != 0 { t } else { f }; }
        if t == f { return t; }
        let w = self.w(t);
        self.mk(Op::Ite, w, c, t, f, 0)
    }
    pub fn not(&mut self, a: E) -> E { let o = self.cst(1, 1); self.mk(Op::Xor, 1, a, o, 0, 0) }
    pub fn and(&mut self, a: E, b: E) -> E { self.mk(Op::And, 1, a, b, 0, 0) }
    pub fn or(&mut self, a: E, b: E) -> E { self.mk(Op::Or, 1, a, b, 0, 0) }
    pub fn zext(&mut self, a: E, w: u32) -> E { if self.w(a) == w { a } else { self.mk(Op::ZExt, w, a, 0, 0, 0) } }
    pub fn sext(&mut self, a: E, w: u32) -> E { if self.w(a) == w { a } else { self.mk(Op::SExt, w, a, 0, 0, 0) } }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E { if lo == 0 && self.w(a) == w { a } else { self.mk(Op::Extract, w, a, 0, 0, lo as u128) } }
    pub fn concat(&mut self, hi: E, lo: E) -> E { let w = self.w(hi) + self.w(lo); assert!(w <= 128); self.mk(Op::Concat, w, hi, lo, 0, 0) }
    pub fn show(&self, e: E, depth: usize) -> String {
        let k = self.key(e);
        if depth == 0 { return format!("#{}", e); }
        match k.op {
            Op::Const => format!("{}:{}", k.k, k.w),
            Op::Var => format!("b{}", k.k),
            Op::Fn8 => format!("f{}(b{}):{}", k.k, self.key(k.a).k, k.w),
            _ => {
                let mut s = format!("({:?}:{} {}", k.op, k.w, self.show(k.a, depth - 1));
                if k.b != 0 { s += " "; s += &self.show(k.b, depth - 1); }
                if k.c != 0 { s += " "; s += &self.show(k.c, depth - 1); }
                if k.op == Op::Extract { s += &format!(" @{}", k.k); }
                s + ")"
            }
        }
    }
}
