//! Reader for rustc's textual LLVM IR (whole program, post-LTO). Function bodies are parsed on first use.
use crate::expr::E;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type Ty = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TyK { Void, Int(u32), Ptr, F32, F64, FOther(u32), Arr(u64, Ty), Vec(u32, Ty), Struct(Vec<Ty>, bool), Meta, Label }
#[derive(Clone, Debug)]
pub struct TyI { pub k: TyK, pub size: u64, pub align: u64, pub offs: Vec<u64> }

#[derive(Clone, Debug)]
pub enum Val { I(u64), S(E), W(Box<u128>), A(Rc<[Val]>) }
#[derive(Clone, Debug)]
pub enum Opnd { R(u32), K(Val) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B { And, Or, Xor, Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, UMax, UMin, SMax, SMin, UAddSat, USubSat, SAddSat, SSubSat }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK { ZExt, SExt, Trunc }
#[derive(Clone, Debug)]
pub struct Edge { pub block: u32, pub moves: Vec<(u32, Opnd)> }
#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ext(Rc<str>), Ind(Opnd), Asm(Rc<str>) }
#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: B, w: u32, d: u32, a: Opnd, b: Opnd, vec: bool },
    Cmp { p: Pred, w: u32, d: u32, a: Opnd, b: Opnd, vec: bool },
    Cast { k: CastK, wf: u32, wt: u32, d: u32, a: Opnd, vec: bool },
    Bitcast { d: u32, a: Opnd, from: Ty, to: Ty },
    Mov { d: u32, a: Opnd },
    Select { d: u32, c: Opnd, a: Opnd, b: Opnd, vec: bool, w: u32 },
    Load { d: u32, ty: Ty, p: Opnd },
    Store { ty: Ty, v: Opnd, p: Opnd },
    Gep { d: u32, base: Opnd, off: i64, idx: Vec<(Opnd, u32, i64)> },
    Alloca { d: u32, size: u64, count: Option<Opnd>, align: u64 },
    ExtractV { d: u32, a: Opnd, path: Vec<u32> },
    InsertV { d: u32, a: Opnd, v: Opnd, path: Vec<u32> },
    ExtractE { d: u32, a: Opnd, i: Opnd },
    InsertE { d: u32, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { d: u32, a: Opnd, b: Opnd, n: u32, mask: Vec<i32> },
    Call { d: Option<u32>, callee: Callee, args: Vec<Opnd>, tys: Vec<Ty>, rty: Ty, next: Option<Box<Edge>> },
    Br(Edge),
    CondBr { c: Opnd, t: Edge, f: Edge },
    Switch { v: Opnd, w: u32, cases: Vec<(u128, u32)>, targets: Vec<Edge>, default: u32 },
    Ret(Option<Opnd>),
    Unreachable,
    Rmw { op: Rc<str>, d: u32, p: Opnd, v: Opnd, ty: Ty },
    CmpXchg { d: u32, p: Opnd, c: Opnd, n: Opnd, ty: Ty },
    FBin { op: Rc<str>, ty: Ty, d: u32, a: Opnd, b: Opnd },
    FCmp { pred: Rc<str>, ty: Ty, d: u32, a: Opnd, b: Opnd },
    FCast { op: Rc<str>, from: Ty, to: Ty, d: u32, a: Opnd },
    Nop,
    Bad(Rc<str>),
}
pub struct Function { pub id: u32, pub name: Rc<str>, pub nregs: u32, pub params: Vec<u32>, pub blocks: Vec<Vec<Inst>>, pub vararg: bool }

pub struct FnDef { pub name: Rc<str>, pub text: (usize, usize), pub body: RefCell<Option<&'static Function>>, pub line: u32 }
pub struct Global { pub name: String, pub addr: u64, pub ty: Ty, pub init: (usize, usize), pub has_init: bool, pub constant: bool }

pub struct Module {
    pub src: &'static [u8],
    pub types: RefCell<Vec<TyI>>,
    tymap: RefCell<HashMap<TyK, Ty>>,
    named: RefCell<HashMap<String, Ty>>,
    pub fns: Vec<FnDef>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub sym_addr: HashMap<String, u64>,
    pub ext_by_addr: HashMap<u64, Rc<str>>,
    pub globals_end: u64,
}
pub const FN_BASE: u64 = 0x0600_0000;
pub const GLOBAL_BASE: u64 = 0x0010_0000;

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> { Local(String), Global(String), Word(&'a str), Int(i128, bool), Str(Vec<u8>), CStr(Vec<u8>), P(u8), Meta, Attr, Ellipsis, Hex(&'a str), Eof }

struct Lex<'a> { s: &'a [u8], i: usize, peeked: Option<Tok<'a>>, pstart: usize }
fn is_name(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
impl<'a> Lex<'a> {
    fn new(s: &'a [u8]) -> Self { Lex { s, i: 0, peeked: None, pstart: 0 } }
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' { let v = self.quoted(); return String::from_utf8_lossy(&v).into_owned(); }
        let st = self.i;
        while self.i < self.s.len() && is_name(self.s[self.i]) { self.i += 1; }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn quoted(&mut self) -> Vec<u8> {
        self.i += 1;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' { v.push(b'\\'); self.i += 2; continue; }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                self.i += 3;
            } else { v.push(self.s[self.i]); self.i += 1; }
        }
        self.i += 1;
        v
    }
    fn peek(&mut self) -> &Tok<'a> { if self.peeked.is_none() { self.pstart = self.i; let t = self.lex(); self.peeked = Some(t); } self.peeked.as_ref().unwrap() }
    fn pos(&self) -> usize { if self.peeked.is_some() { self.pstart } else { self.i } }
    fn next(&mut self) -> Tok<'a> { if let Some(t) = self.peeked.take() { return t; } self.lex() }
    fn lex(&mut self) -> Tok<'a> {
        let s = self.s;
        while self.i < s.len() && (s[self.i] == b' ' || s[self.i] == b'\n' || s[self.i] == b'\t' || s[self.i] == b'\r') { self.i += 1; }
        if self.i >= s.len() { return Tok::Eof; }
        let c = s[self.i];
        match c {
            b';' => { while self.i < s.len() && s[self.i] != b'\n' { self.i += 1; } self.lex() }
            b'%' => { self.i += 1; Tok::Local(self.name()) }
            b'@' => { self.i += 1; Tok::Global(self.name()) }
            b'"' => Tok::Str(self.quoted()),
            b'!' => { self.i += 1; while self.i < s.len() && is_name(s[self.i]) { self.i += 1; } Tok::Meta }
            b'#' => { self.i += 1; while self.i < s.len() && is_name(s[self.i]) { self.i += 1; } Tok::Attr }
            b'.' if s[self.i..].starts_with(b"...") => { self.i += 3; Tok::Ellipsis }
            b'0'..=b'9' | b'-' | b'+' => {
                let st = self.i; self.i += 1;
                while self.i < s.len() && (s[self.i].is_ascii_alphanumeric() || s[self.i] == b'.' || ((s[self.i] == b'+' || s[self.i] == b'-') && (s[self.i - 1] | 32) == b'e')) { self.i += 1; }
                let t = std::str::from_utf8(&s[st..self.i]).unwrap();
                if t.starts_with("0x") { return Tok::Hex(&t[2..]); }
                match t.parse::<i128>() { Ok(v) => Tok::Int(v, true), Err(_) => match t.parse::<u128>() { Ok(v) => Tok::Int(v as i128, true), Err(_) => Tok::Word(t) } }
            }
            b'c' if self.i + 1 < s.len() && s[self.i + 1] == b'"' => { self.i += 1; Tok::CStr(self.quoted()) }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = self.i;
                while self.i < s.len() && (s[self.i].is_ascii_alphanumeric() || s[self.i] == b'_' || s[self.i] == b'.' || s[self.i] == b'-') { self.i += 1; }
                Tok::Word(std::str::from_utf8(&s[st..self.i]).unwrap())
            }
            _ => { self.i += 1; Tok::P(c) }
        }
    }
    fn eat(&mut self, c: u8) -> bool { if *self.peek() == Tok::P(c) { self.next(); true } else { false } }
    fn expect(&mut self, c: u8) { let t = self.next(); if t != Tok::P(c) { panic!("expected '{}' got {:?} in: {}", c as char, t, String::from_utf8_lossy(&self.s[..self.s.len().min(400)])); } }
    fn eat_word(&mut self, w: &str) -> bool { if let Tok::Word(x) = self.peek() { if *x == w { self.next(); return true; } } false }
    fn skip_parens(&mut self) { // at '('
        self.expect(b'('); let mut d = 1;
        while d > 0 { match self.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => d -= 1, Tok::Eof => panic!("eof in parens"), _ => {} } }
    }
}
fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "metadata" | "token")
        || (w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
}

impl Module {
    pub fn ty(&self, k: TyK) -> Ty {
        if let Some(&t) = self.tymap.borrow().get(&k) { return t; }
        let info = {
            let tys = self.types.borrow();
            let mut offs = vec![];
            let (size, align) = match &k {
                TyK::Void | TyK::Meta | TyK::Label => (0, 1),
                TyK::Int(w) => { let b = (*w as u64 + 7) / 8; let a = b.next_power_of_two().min(16); ((b + a - 1) / a * a, a) }
                TyK::Ptr => (8, 8), TyK::F32 => (4, 4), TyK::F64 => (8, 8), TyK::FOther(b) => (*b as u64, *b as u64),
                TyK::Arr(n, t) => (tys[*t as usize].size * n, tys[*t as usize].align),
                TyK::Vec(n, t) => {
                    let eb = match tys[*t as usize].k { TyK::Int(w) => w as u64, _ => tys[*t as usize].size * 8 };
                    let b = (eb * *n as u64 + 7) / 8; (b.next_power_of_two(), b.next_power_of_two())
                }
                TyK::Struct(f, packed) => {
                    let (mut o, mut al) = (0u64, 1u64);
                    for t in f { let a = if *packed { 1 } else { tys[*t as usize].align }; o = (o + a - 1) / a * a; offs.push(o); o += tys[*t as usize].size; al = al.max(a); }
                    ((o + al - 1) / al * al, al)
                }
            };
            TyI { k: k.clone(), size, align, offs }
        };
        let mut tys = self.types.borrow_mut();
        tys.push(info);
        let id = (tys.len() - 1) as Ty;
        self.tymap.borrow_mut().insert(k, id);
        id
    }
    pub fn tk(&self, t: Ty) -> TyK { self.types.borrow()[t as usize].k.clone() }
    pub fn size(&self, t: Ty) -> u64 { self.types.borrow()[t as usize].size }
    pub fn align(&self, t: Ty) -> u64 { self.types.borrow()[t as usize].align }
    pub fn off(&self, t: Ty, i: usize) -> u64 { self.types.borrow()[t as usize].offs[i] }
    /// (element type, width) of an int / pointer / float scalar or vector of those
    pub fn scalar_w(&self, t: Ty) -> (u32, bool) {
        match self.tk(t) { TyK::Int(w) => (w, false), TyK::Ptr => (64, false), TyK::F32 => (32, false), TyK::F64 => (64, false), TyK::Vec(_, e) => (self.scalar_w(e).0, true), _ => (0, false) }
    }
    fn parse_ty(&self, l: &mut Lex) -> Ty {
        match l.next() {
            Tok::Word(w) => match w {
                "void" => self.ty(TyK::Void), "ptr" => { if l.eat_word("addrspace") { l.skip_parens(); } self.ty(TyK::Ptr) }
                "float" => self.ty(TyK::F32), "double" => self.ty(TyK::F64),
                "half" | "bfloat" => self.ty(TyK::FOther(2)), "fp128" | "x86_fp80" => self.ty(TyK::FOther(16)),
                "label" => self.ty(TyK::Label), "metadata" | "token" => self.ty(TyK::Meta),
                _ if is_type_word(w) => self.ty(TyK::Int(w[1..].parse().unwrap())),
                _ => panic!("type expected, got {:?} in {}", w, String::from_utf8_lossy(&l.s[..l.s.len().min(300)])),
            },
            Tok::P(b'[') => { let n = self.num(l); assert!(l.eat_word("x")); let t = self.parse_ty(l); l.expect(b']'); self.ty(TyK::Arr(n as u64, t)) }
            Tok::P(b'<') => {
                if *l.peek() == Tok::P(b'{') { l.next(); let f = self.ty_list(l); l.expect(b'>'); self.ty(TyK::Struct(f, true)) }
                else { let n = self.num(l); assert!(l.eat_word("x")); let t = self.parse_ty(l); l.expect(b'>'); self.ty(TyK::Vec(n as u32, t)) }
            }
            Tok::P(b'{') => { let f = self.ty_list(l); self.ty(TyK::Struct(f, false)) }
            Tok::Local(n) => *self.named.borrow().get(&n).unwrap_or_else(|| panic!("named type {}", n)),
            t => panic!("type expected, got {:?} in {}", t, String::from_utf8_lossy(&l.s[..l.s.len().min(300)])),
        }
    }
    fn num(&self, l: &mut Lex) -> i128 { match l.next() { Tok::Int(v, _) => v, t => panic!("number expected: {:?} in {}", t, String::from_utf8_lossy(&l.s[..l.s.len().min(300)])) } }
    fn ty_list(&self, l: &mut Lex) -> Vec<Ty> { let mut f = vec![]; if l.eat(b'}') { return f; } loop { f.push(self.parse_ty(l)); if l.eat(b'}') { return f; } l.expect(b','); } }

    pub fn zero(&self, t: Ty) -> Val {
        match self.tk(t) {
            TyK::Int(w) if w > 64 => Val::W(Box::new(0)),
            TyK::Arr(n, e) => Val::A((0..n).map(|_| self.zero(e)).collect::<Vec<_>>().into()),
            TyK::Vec(n, e) => Val::A((0..n).map(|_| self.zero(e)).collect::<Vec<_>>().into()),
            TyK::Struct(f, _) => Val::A(f.iter().map(|&e| self.zero(e)).collect::<Vec<_>>().into()),
            _ => Val::I(0),
        }
    }
    fn addr_of(&self, n: &str) -> u64 { *self.sym_addr.get(n).unwrap_or_else(|| panic!("unknown symbol @{}", n)) }
    /// constant of type t (no locals)
    fn constant(&self, l: &mut Lex, t: Ty) -> Val {
        let tk = self.tk(t);
        match l.next() {
            Tok::Int(v, _) => match tk { TyK::Int(w) if w > 128 && v < 0 => Val::A(vec![Val::W(Box::new(v as u128)), Val::W(Box::new(u128::MAX))].into()), TyK::Int(w) if w > 64 => Val::W(Box::new((v as u128) & crate::expr::mask(w))), TyK::Int(w) => Val::I((v as u64) & crate::expr::mask64(w)), _ => panic!("int const of {:?}", tk) },
            Tok::Word(w) => match w {
                "true" => Val::I(1), "false" | "null" | "none" => Val::I(0),
                "undef" | "poison" | "zeroinitializer" => self.zero(t),
                "splat" => { l.expect(b'('); let et = self.parse_ty(l); let v = self.constant(l, et); l.expect(b')'); let n = match tk { TyK::Vec(n, _) => n as usize, _ => panic!() }; Val::A(vec![v; n].into()) }
                "getelementptr" => {
                    loop { match l.peek() { Tok::P(b'(') => break, Tok::Word(_) => { l.next(); if *l.peek() == Tok::P(b'(') { // could be inrange(...)
                                // decide: a following type means this is the operand list
                                break; } } t => panic!("gep const {:?}", t) } }
                    // inrange(a, b) has integers first
                    let save = (l.i, l.peeked.clone());
                    l.expect(b'(');
                    if matches!(l.peek(), Tok::Int(..)) { l.i = save.0; l.peeked = save.1; l.skip_parens(); l.expect(b'('); }
                    let st = self.parse_ty(l); l.expect(b',');
                    let bt = self.parse_ty(l); let base = self.constant(l, bt);
                    let mut a = match base { Val::I(x) => x, _ => panic!() };
                    let mut cur = st; let mut first = true;
                    while l.eat(b',') {
                        while l.eat_word("inrange") {}
                        let it = self.parse_ty(l);
                        let (iw, _) = self.scalar_w(it);
                        let iv = match self.constant(l, it) { Val::I(x) => crate::expr::sext128(x as u128, iw) as i64, _ => panic!() };
                        if first { a = a.wrapping_add((iv * self.size(cur) as i64) as u64); first = false; }
                        else { match self.tk(cur) { TyK::Struct(f, _) => { a = a.wrapping_add(self.off(cur, iv as usize)); cur = f[iv as usize]; } TyK::Arr(_, e) | TyK::Vec(_, e) => { a = a.wrapping_add((iv * self.size(e) as i64) as u64); cur = e; } _ => panic!() } }
                    }
                    l.expect(b')');
                    Val::I(a)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                    while !matches!(l.peek(), Tok::P(b'(')) { l.next(); }
                    l.expect(b'('); let ft = self.parse_ty(l); let v = self.constant(l, ft); assert!(l.eat_word("to")); let tt = self.parse_ty(l); l.expect(b')');
                    let (ww, _) = self.scalar_w(tt); let (wf, _) = self.scalar_w(ft);
                    match v { Val::I(x) => Val::I(if w == "sext" { (crate::expr::sext128(x as u128, wf) as u64) & crate::expr::mask64(ww) } else { x & crate::expr::mask64(ww) }), v => v }
                }
                "add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" => {
                    while !matches!(l.peek(), Tok::P(b'(')) { l.next(); }
                    l.expect(b'('); let t1 = self.parse_ty(l); let a = self.constant(l, t1); l.expect(b','); let t2 = self.parse_ty(l); let b = self.constant(l, t2); l.expect(b')');
                    let m = crate::expr::mask64(self.scalar_w(t1).0);
                    match (a, b) { (Val::I(a), Val::I(b)) => Val::I(m & match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), "and" => a & b, "or" => a | b, "xor" => a ^ b, _ => a << b }), _ => panic!() }
                }
                "dso_local_equivalent" | "no_cfi" => self.constant(l, t),
                _ => { // decimal float such as 1.0e+00 lexed as Word
                    if let Some(h) = w.strip_prefix("f0x") { let v = u64::from_str_radix(h, 16).unwrap(); return Val::I(v); }
                    let w = match w { "+qnan" => "nan", "-qnan" => "-nan", w => w };
                    let f: f64 = w.parse().unwrap_or_else(|_| panic!("constant {:?} in {}", w, String::from_utf8_lossy(&l.s[..l.s.len().min(300)])));
                    match tk { TyK::F32 => Val::I((f as f32).to_bits() as u64), _ => Val::I(f.to_bits()) }
                }
            },
            Tok::Hex(h) => { let v = u64::from_str_radix(h, 16).unwrap_or(0); match tk { TyK::F32 => Val::I((f64::from_bits(v) as f32).to_bits() as u64), _ => Val::I(v) } }
            Tok::CStr(b) => Val::A(b.iter().map(|&x| Val::I(x as u64)).collect::<Vec<_>>().into()),
            Tok::Global(n) => Val::I(self.addr_of(&n)),
            Tok::P(b'[') => { let mut v = vec![]; if !l.eat(b']') { loop { let et = self.parse_ty(l); v.push(self.constant(l, et)); if l.eat(b']') { break; } l.expect(b','); } } Val::A(v.into()) }
            Tok::P(b'{') => Val::A(self.const_fields(l).into()),
            Tok::P(b'<') => {
                if l.eat(b'{') { let v = self.const_fields(l); l.expect(b'>'); return Val::A(v.into()); }
                let mut v = vec![]; loop { let et = self.parse_ty(l); v.push(self.constant(l, et)); if l.eat(b'>') { break; } l.expect(b','); } Val::A(v.into())
            }
            t => panic!("constant {:?} of {:?} in {}", t, tk, String::from_utf8_lossy(&l.s[..l.s.len().min(300)])),
        }
    }
    fn const_fields(&self, l: &mut Lex) -> Vec<Val> { let mut v = vec![]; if l.eat(b'}') { return v; } loop { let et = self.parse_ty(l); v.push(self.constant(l, et)); if l.eat(b'}') { return v; } l.expect(b','); } }

    pub fn load(path: &str) -> Module {
        let src: &'static [u8] = Box::leak(std::fs::read(path).expect("read .ll").into_boxed_slice());
        let mut m = Module { src, types: RefCell::new(vec![]), tymap: RefCell::new(HashMap::new()), named: RefCell::new(HashMap::new()), fns: vec![], fn_by_name: HashMap::new(), globals: vec![], sym_addr: HashMap::new(), ext_by_addr: HashMap::new(), globals_end: 0 };
        let mut glines = vec![]; let mut aliases = vec![]; let mut typelines = vec![]; let mut decls = vec![];
        let mut i = 0; let mut line = 0u32;
        while i < src.len() {
            let e = src[i..].iter().position(|&c| c == b'\n').map(|p| i + p).unwrap_or(src.len());
            line += 1;
            match src[i] {
                b'@' => { glines.push((i, e)); }
                b'%' => typelines.push((i, e)),
                b'd' if src[i..e].starts_with(b"define ") => {
                    // find end "\n}"
                    let mut j = e;
                    loop { let p = src[j..].iter().position(|&c| c == b'\n').map(|p| j + p); match p { Some(p) => { line += 1; if src.get(p + 1) == Some(&b'}') { j = p + 2; break; } j = p + 1; } None => { j = src.len(); break; } } }
                    let at = src[i..e].iter().position(|&c| c == b'@').unwrap() + i;
                    let mut l = Lex::new(&src[at..e]);
                    let name = match l.next() { Tok::Global(n) => n, _ => panic!() };
                    let id = m.fns.len() as u32;
                    m.fns.push(FnDef { name: name.as_str().into(), text: (i, j), body: RefCell::new(None), line });
                    m.fn_by_name.insert(name, id);
                    i = j; while i < src.len() && src[i] != b'\n' { i += 1; } i += 1; line += 1; continue;
                }
                b'd' if src[i..e].starts_with(b"declare ") => decls.push((i, e)),
                b'!' => { /* metadata: skip */ }
                _ => {}
            }
            i = e + 1;
        }
        // named types (may be mutually dependent only via ptr)
        let mut pend = typelines; let mut guard = 0;
        while !pend.is_empty() && guard < 50 {
            guard += 1;
            let mut rest = vec![];
            for (s, e) in pend {
                let txt = &src[s..e];
                let ok = { let t = String::from_utf8_lossy(txt); let body = t.split_once("= type").map(|x| x.1.to_string()).unwrap_or_default();
                    let mut l = Lex::new(body.as_bytes()); let mut ok = true; loop { match l.next() { Tok::Eof => break, Tok::Local(n) => if !m.named.borrow().contains_key(&n) { ok = false; }, _ => {} } } ok };
                if !ok { rest.push((s, e)); continue; }
                let mut l = Lex::new(txt);
                let n = match l.next() { Tok::Local(n) => n, _ => panic!() };
                l.expect(b'='); assert!(l.eat_word("type"));
                let t = if l.eat_word("opaque") { m.ty(TyK::Struct(vec![], false)) } else { m.parse_ty(&mut l) };
                m.named.borrow_mut().insert(n, t);
            }
            pend = rest;
        }
        for (k, f) in m.fns.iter().enumerate() { m.sym_addr.insert(f.name.to_string(), FN_BASE + 16 * k as u64); }
        let mut ea = FN_BASE + 16 * (m.fns.len() as u64 + 16);
        for (s, e) in decls {
            let at = match src[s..e].iter().position(|&c| c == b'@') { Some(p) => p + s, None => continue };
            let mut l = Lex::new(&src[at..e]);
            if let Tok::Global(n) = l.next() { m.sym_addr.insert(n.clone(), ea); m.ext_by_addr.insert(ea, n.as_str().into()); ea += 16; }
        }
        let mut addr = GLOBAL_BASE;
        for (s, e) in glines {
            let txt: &'static [u8] = &src[s..e];
            let mut l = Lex::new(txt);
            let n = match l.next() { Tok::Global(n) => n, _ => panic!() };
            l.expect(b'=');
            let (mut external, mut alias, mut constant) = (false, false, false);
            loop {
                match l.next() {
                    Tok::Word("external") | Tok::Word("extern_weak") => external = true,
                    Tok::Word("global") => break, Tok::Word("constant") => { constant = true; break; }
                    Tok::Word("alias") => { alias = true; break; }
                    Tok::Word(_) => { if *l.peek() == Tok::P(b'(') { l.skip_parens(); } }
                    t => panic!("global {:?}", t),
                }
            }
            if alias { aliases.push((n, String::from_utf8_lossy(txt).into_owned())); continue; }
            let t = m.parse_ty(&mut l);
            let _ = l.peek();
            // alignment
            let tail = String::from_utf8_lossy(&txt[txt.len().saturating_sub(120)..]).into_owned();
            let al = tail.rfind(", align ").and_then(|p| tail[p + 8..].split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse::<u64>().ok())).unwrap_or(16).max(1);
            addr = (addr + al - 1) / al * al;
            let has_init = !external && !matches!(l.peek(), Tok::Eof | Tok::P(b','));
            // position of the initialiser: re-lex from current peek; store the start offset of the peeked token
            let init_start = { // the lexer has consumed the peeked token; recompute by scanning again
                let mut l2 = Lex::new(txt);
                l2.next(); l2.next();
                loop { match l2.next() { Tok::Word("global") | Tok::Word("constant") => break, Tok::Word(_) => { if *l2.peek() == Tok::P(b'(') { l2.skip_parens(); } } _ => {} } }
                m.parse_ty(&mut l2);
                s + l2.pos()
            };
            m.sym_addr.insert(n.clone(), addr);
            let sz = m.size(t).max(1);
            m.globals.push(Global { name: n, addr, ty: t, init: (init_start, e), has_init, constant });
            addr += sz;
        }
        m.globals_end = addr;
        for (n, t) in aliases { let tgt = t.rfind('@').map(|p| { let mut l = Lex::new(t[p..].as_bytes()); match l.next() { Tok::Global(g) => g, _ => String::new() } }).unwrap(); if let Some(&a) = m.sym_addr.get(&tgt) { m.sym_addr.insert(n.clone(), a); } if let Some(&f) = m.fn_by_name.get(&tgt) { m.fn_by_name.insert(n, f); } }
        m
    }
    pub fn global_init(&self, g: &Global) -> Val { let mut l = Lex::new(&self.src[g.init.0..g.init.1]); self.constant(&mut l, g.ty) }

    pub fn function(&self, id: u32) -> &'static Function {
        if let Some(f) = *self.fns[id as usize].body.borrow() { return f; }
        let f: &'static Function = Box::leak(Box::new(FnParser::parse(self, id)));
        *self.fns[id as usize].body.borrow_mut() = Some(f);
        f
    }
}

struct FnParser<'m> { m: &'m Module, regs: HashMap<String, u32>, blocks: HashMap<String, u32> }
impl<'m> FnParser<'m> {
    fn reg(&mut self, n: &str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n.to_string()).or_insert(k) }
    fn parse(m: &'m Module, id: u32) -> Function {
        let d = &m.fns[id as usize];
        let txt = &m.src[d.text.0..d.text.1];
        let mut p = FnParser { m, regs: HashMap::new(), blocks: HashMap::new() };
        let hdr_end = txt.iter().position(|&c| c == b'\n').unwrap();
        // header params
        let at = txt.iter().position(|&c| c == b'@').unwrap();
        let mut l = Lex::new(&txt[at..hdr_end]);
        l.next();
        l.expect(b'(');
        let mut params = vec![]; let mut vararg = false; let mut unnamed = 0;
        if !l.eat(b')') {
            loop {
                if *l.peek() == Tok::Ellipsis { l.next(); vararg = true; l.expect(b')'); break; }
                let _t = m.parse_ty(&mut l);
                let mut name = None;
                loop {
                    match l.peek().clone() {
                        Tok::Local(n) => { name = Some(n); l.next(); }
                        Tok::P(b',') | Tok::P(b')') => break,
                        Tok::P(b'(') => l.skip_parens(),
                        _ => { l.next(); }
                    }
                }
                let n = name.unwrap_or_else(|| { let s = unnamed.to_string(); s });
                unnamed += 1;
                let r = p.reg(&n); params.push(r);
                if l.eat(b')') { break; }
                l.expect(b',');
            }
        }
        // lines
        let body = &txt[hdr_end + 1..];
        let lines: Vec<&[u8]> = body.split(|&c| c == b'\n').collect();
        // pass 1: labels
        let mut nb = 0u32; let mut started = false;
        let label_of = |ln: &[u8]| -> Option<String> {
            if ln.is_empty() || ln[0] == b' ' || ln[0] == b'}' || ln[0] == b';' || ln[0] == b'\t' { return None; }
            let mut l = Lex::new(ln); Some(if ln[0] == b'"' { String::from_utf8_lossy(&l.quoted()).into_owned() } else { l.name() })
        };
        for ln in &lines {
            if let Some(n) = label_of(ln) { p.blocks.insert(n, nb); nb += 1; started = true; }
            else if !started && ln.len() > 2 && ln[0] == b' ' { p.blocks.insert("<entry>".into(), nb); nb += 1; started = true; }
        }
        if !p.blocks.contains_key("<entry>") { /* named entry */ }
        let mut blocks: Vec<Vec<Inst>> = (0..nb).map(|_| vec![]).collect();
        let mut phis: Vec<Vec<(u32, Vec<(Opnd, String)>)>> = (0..nb).map(|_| vec![]).collect();
        let mut names: Vec<String> = vec![String::new(); nb as usize];
        for (k, v) in &p.blocks { names[*v as usize] = k.clone(); }
        let mut cur: i64 = -1;
        let mut i = 0;
        while i < lines.len() {
            let ln = lines[i]; i += 1;
            if let Some(n) = label_of(ln) { cur = p.blocks[&n] as i64; continue; }
            if ln.is_empty() || ln[0] != b' ' { continue; }
            if cur < 0 { cur = 0; }
            let s = ln.iter().position(|&c| c != b' ').unwrap_or(ln.len());
            let t = &ln[s..];
            if t.is_empty() || t[0] == b'#' || t[0] == b';' { continue; }
            if t.starts_with(b"cleanup") || t.starts_with(b"catch ") || t.starts_with(b"filter ") { continue; }
            let mut owned: Vec<u8>;
            let mut full: &[u8] = t;
            let txts = String::from_utf8_lossy(t);
            if t.starts_with(b"switch ") && !t.contains(&b']') { owned = t.to_vec(); while i < lines.len() { owned.push(b' '); owned.extend_from_slice(lines[i]); i += 1; if lines[i - 1].contains(&b']') { break; } } full = &owned; }
            else if txts.contains("invoke ") && (t.starts_with(b"invoke") || t.starts_with(b"%")) && !txts.contains(" unwind label ") { owned = t.to_vec(); owned.push(b' '); owned.extend_from_slice(lines[i]); i += 1; full = &owned; }
            p.inst(full, &mut blocks[cur as usize], &mut phis[cur as usize]);
        }
        // resolve phi moves on edges
        for bi in 0..blocks.len() {
            let bname = names[bi].clone();
            let mut insts = std::mem::take(&mut blocks[bi]);
            if let Some(last) = insts.last_mut() {
                let fix = |e: &mut Edge| {
                    for (d, inc) in &phis[e.block as usize] {
                        let v = inc.iter().find(|(_, n)| *n == bname || (bname == "<entry>" && !p.blocks.contains_key(n.as_str()))).unwrap_or_else(|| panic!("phi edge {} in {}", bname, p.m.fns[id as usize].name));
                        e.moves.push((*d, v.0.clone()));
                    }
                };
                match last {
                    Inst::Br(e) => fix(e), Inst::CondBr { t, f, .. } => { fix(t); fix(f); }
                    Inst::Switch { targets, .. } => for e in targets { fix(e) },
                    Inst::Call { next: Some(e), .. } => fix(e), _ => {}
                }
            }
            blocks[bi] = insts;
        }
        Function { id, name: d.name.clone(), nregs: p.regs.len() as u32, params, blocks, vararg }
    }
    fn edge(&self, n: &str) -> Edge { Edge { block: *self.blocks.get(n).unwrap_or_else(|| panic!("label {}", n)), moves: vec![] } }
    fn label(&self, l: &mut Lex) -> Edge { assert!(l.eat_word("label")); match l.next() { Tok::Local(n) => self.edge(&n), t => panic!("label {:?}", t) } }
    /// value of known type
    fn val(&mut self, l: &mut Lex, t: Ty) -> Opnd {
        if let Tok::Local(n) = l.peek().clone() { l.next(); return Opnd::R(self.reg(&n)); }
        Opnd::K(self.m.constant(l, t))
    }
    fn tyval(&mut self, l: &mut Lex) -> (Ty, Opnd) { let t = self.m.parse_ty(l); let v = self.val(l, t); (t, v) }
    fn inst(&mut self, t: &[u8], out: &mut Vec<Inst>, phis: &mut Vec<(u32, Vec<(Opnd, String)>)>) {
        let m = self.m;
        let mut l = Lex::new(t);
        let mut d = None;
        if let Tok::Local(n) = l.peek().clone() { l.next(); d = Some(self.reg(&n)); l.expect(b'='); }
        let opw = match l.next() { Tok::Word(w) => w.to_string(), x => panic!("inst {:?}: {}", x, String::from_utf8_lossy(t)) };
        let flags = |l: &mut Lex| { loop { match l.peek() { Tok::Word(w) if !is_type_word(w) => { l.next(); if *l.peek() == Tok::P(b'(') { l.skip_parens(); } else if matches!(l.peek(), Tok::Int(..)) { l.next(); } } _ => break } } };
        let binop = |s: &str| Some(match s { "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "urem" => B::URem, "sdiv" => B::SDiv, "srem" => B::SRem, "shl" => B::Shl, "lshr" => B::LShr, "ashr" => B::AShr, "and" => B::And, "or" => B::Or, "xor" => B::Xor, _ => return None });
        if let Some(op) = binop(&opw) {
            flags(&mut l);
            let (ty, a) = self.tyval(&mut l); l.expect(b','); let b = self.val(&mut l, ty);
            let (w, vec) = m.scalar_w(ty);
            out.push(Inst::Bin { op, w, d: d.unwrap(), a, b, vec });
            return;
        }
        match opw.as_str() {
            "icmp" => {
                let mut pr = "";
                loop { match l.next() { Tok::Word(w) => { if w == "samesign" { continue; } pr = w; break; } _ => break } }
                let p = match pr { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("pred {}", x) };
                let (ty, a) = self.tyval(&mut l); l.expect(b','); let b = self.val(&mut l, ty);
                let (w, vec) = m.scalar_w(ty);
                out.push(Inst::Cmp { p, w, d: d.unwrap(), a, b, vec });
            }
            "zext" | "sext" | "trunc" => {
                flags(&mut l);
                let (ft, a) = self.tyval(&mut l); assert!(l.eat_word("to")); let tt = m.parse_ty(&mut l);
                let (wf, vec) = m.scalar_w(ft); let (wt, _) = m.scalar_w(tt);
                out.push(Inst::Cast { k: match opw.as_str() { "zext" => CastK::ZExt, "sext" => CastK::SExt, _ => CastK::Trunc }, wf, wt, d: d.unwrap(), a, vec });
            }
            "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                flags(&mut l);
                let (ft, a) = self.tyval(&mut l); assert!(l.eat_word("to")); let tt = m.parse_ty(&mut l);
                let (wf, vec) = m.scalar_w(ft); let (wt, _) = m.scalar_w(tt);
                if wf == wt { out.push(Inst::Mov { d: d.unwrap(), a }); } else { out.push(Inst::Cast { k: if wt > wf { CastK::ZExt } else { CastK::Trunc }, wf, wt, d: d.unwrap(), a, vec }); }
            }
            "bitcast" => { let (ft, a) = self.tyval(&mut l); assert!(l.eat_word("to")); let tt = m.parse_ty(&mut l); out.push(Inst::Bitcast { d: d.unwrap(), a, from: ft, to: tt }); }
            "freeze" => { let (_, a) = self.tyval(&mut l); out.push(Inst::Mov { d: d.unwrap(), a }); }
            "select" => {
                flags(&mut l);
                let (ct, c) = self.tyval(&mut l); l.expect(b','); let (at, a) = self.tyval(&mut l); l.expect(b','); let (_, b) = self.tyval(&mut l);
                out.push(Inst::Select { d: d.unwrap(), c, a, b, vec: m.scalar_w(ct).1, w: m.scalar_w(at).0 });
            }
            "load" => { flags(&mut l); let ty = m.parse_ty(&mut l); l.expect(b','); let (_, p) = self.tyval(&mut l); out.push(Inst::Load { d: d.unwrap(), ty, p }); }
            "store" => { flags(&mut l); let (ty, v) = self.tyval(&mut l); l.expect(b','); let (_, p) = self.tyval(&mut l); out.push(Inst::Store { ty, v, p }); }
            "getelementptr" => {
                flags(&mut l);
                let st = m.parse_ty(&mut l); l.expect(b',');
                let (_, base) = self.tyval(&mut l);
                let (mut off, mut idx) = (0i64, vec![]);
                let mut cur = st; let mut first = true;
                while l.eat(b',') {
                    if *l.peek() == Tok::Meta { break; }
                    let (it, iv) = self.tyval(&mut l);
                    let (iw, _) = m.scalar_w(it);
                    let scale;
                    if first { scale = m.size(cur) as i64; first = false; }
                    else {
                        match m.tk(cur) {
                            TyK::Struct(f, _) => { let k = match iv { Opnd::K(Val::I(k)) => k as usize, _ => panic!("struct gep") }; off += m.off(cur, k) as i64; cur = f[k]; continue; }
                            TyK::Arr(_, e) | TyK::Vec(_, e) => { scale = m.size(e) as i64; cur = e; }
                            x => panic!("gep into {:?}", x),
                        }
                    }
                    match iv { Opnd::K(Val::I(k)) => off = off.wrapping_add((crate::expr::sext128(k as u128, iw) as i64).wrapping_mul(scale)), v => idx.push((v, iw, scale)) }
                }
                out.push(Inst::Gep { d: d.unwrap(), base, off, idx });
            }
            "alloca" => {
                l.eat_word("inalloca");
                let ty = m.parse_ty(&mut l);
                let (mut count, mut align) = (None, m.align(ty));
                while l.eat(b',') {
                    if l.eat_word("align") { align = m.num(&mut l) as u64; } else if matches!(l.peek(), Tok::Word(w) if is_type_word(w)) { let (_, c) = self.tyval(&mut l); count = Some(c); } else { break; }
                }
                out.push(Inst::Alloca { d: d.unwrap(), size: m.size(ty), count, align });
            }
            "extractvalue" => { let (_, a) = self.tyval(&mut l); let mut path = vec![]; while l.eat(b',') { match l.next() { Tok::Int(v, _) => path.push(v as u32), _ => break } } out.push(Inst::ExtractV { d: d.unwrap(), a, path }); }
            "insertvalue" => { let (_, a) = self.tyval(&mut l); l.expect(b','); let (_, v) = self.tyval(&mut l); let mut path = vec![]; while l.eat(b',') { match l.next() { Tok::Int(v, _) => path.push(v as u32), _ => break } } out.push(Inst::InsertV { d: d.unwrap(), a, v, path }); }
            "extractelement" => { let (_, a) = self.tyval(&mut l); l.expect(b','); let (_, i) = self.tyval(&mut l); out.push(Inst::ExtractE { d: d.unwrap(), a, i }); }
            "insertelement" => { let (_, a) = self.tyval(&mut l); l.expect(b','); let (_, v) = self.tyval(&mut l); l.expect(b','); let (_, i) = self.tyval(&mut l); out.push(Inst::InsertE { d: d.unwrap(), a, v, i }); }
            "shufflevector" => {
                let (vt, a) = self.tyval(&mut l); l.expect(b','); let (_, b) = self.tyval(&mut l); l.expect(b',');
                let mt = m.parse_ty(&mut l);
                let n = match m.tk(vt) { TyK::Vec(n, _) => n, _ => panic!() };
                let mk = match m.constant(&mut l, mt) { Val::A(v) => v.iter().map(|x| match x { Val::I(k) => *k as i32, _ => 0 }).collect(), _ => panic!() };
                out.push(Inst::Shuffle { d: d.unwrap(), a, b, n, mask: mk });
            }
            "phi" => {
                flags(&mut l);
                let ty = m.parse_ty(&mut l);
                let mut inc = vec![];
                loop {
                    l.expect(b'['); let v = self.val(&mut l, ty); l.expect(b','); let b = match l.next() { Tok::Local(n) => n, x => panic!("phi {:?}", x) }; l.expect(b']'); inc.push((v, b));
                    if !l.eat(b',') { break; }
                    if *l.peek() != Tok::P(b'[') { break; }
                }
                phis.push((d.unwrap(), inc));
            }
            "br" => {
                if matches!(l.peek(), Tok::Word("label")) { let e = self.label(&mut l); out.push(Inst::Br(e)); }
                else { let (_, c) = self.tyval(&mut l); l.expect(b','); let t = self.label(&mut l); l.expect(b','); let f = self.label(&mut l); out.push(Inst::CondBr { c, t, f }); }
            }
            "switch" => {
                let (ty, v) = self.tyval(&mut l); l.expect(b',');
                let de = self.label(&mut l);
                let mut targets: Vec<Edge> = vec![de]; let mut cases = vec![];
                let mut by: HashMap<u32, u32> = HashMap::new(); by.insert(targets[0].block, 0);
                l.expect(b'[');
                while *l.peek() != Tok::P(b']') {
                    let ct = m.parse_ty(&mut l); let c = match m.constant(&mut l, ct) { Val::I(x) => x as u128, Val::W(x) => *x, _ => panic!() };
                    l.expect(b',');
                    let e = self.label(&mut l);
                    let ti = *by.entry(e.block).or_insert_with(|| { targets.push(e.clone()); (targets.len() - 1) as u32 });
                    cases.push((c, ti));
                }
                out.push(Inst::Switch { v, w: m.scalar_w(ty).0, cases, targets, default: 0 });
            }
            "ret" => { let ty = m.parse_ty(&mut l); if m.tk(ty) == TyK::Void { out.push(Inst::Ret(None)); } else { let v = self.val(&mut l, ty); out.push(Inst::Ret(Some(v))); } }
            "unreachable" => out.push(Inst::Unreachable),
            "fence" => out.push(Inst::Nop),
            "atomicrmw" => {
                l.eat_word("volatile");
                let op: Rc<str> = match l.next() { Tok::Word(w) => w.into(), x => panic!("{:?}", x) };
                let (_, p) = self.tyval(&mut l); l.expect(b','); let (ty, v) = self.tyval(&mut l);
                out.push(Inst::Rmw { op, d: d.unwrap_or_else(|| self.reg("<dead>")), p, v, ty });
            }
            "cmpxchg" => {
                while matches!(l.peek(), Tok::Word("weak") | Tok::Word("volatile")) { l.next(); }
                let (_, p) = self.tyval(&mut l); l.expect(b','); let (ty, c) = self.tyval(&mut l); l.expect(b','); let (_, n) = self.tyval(&mut l);
                out.push(Inst::CmpXchg { d: d.unwrap_or_else(|| self.reg("<dead>")), p, c, n, ty });
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if opw != "call" && opw != "invoke" { assert!(l.eat_word("call")); }
                flags(&mut l);
                let rty = m.parse_ty(&mut l);
                if *l.peek() == Tok::P(b'(') { l.skip_parens(); }
                let callee = match l.next() {
                    Tok::Global(n) => match m.fn_by_name.get(&n) { Some(&f) => Callee::Fn(f), None => Callee::Ext(n.as_str().into()) },
                    Tok::Local(n) => Callee::Ind(Opnd::R(self.reg(&n))),
                    Tok::Word("asm") => { let mut s = Vec::new(); loop { match l.next() { Tok::Str(b) => { s.extend(b); break; } Tok::Word(_) => {} x => panic!("asm {:?}", x) } } l.expect(b','); l.next(); Callee::Asm(String::from_utf8_lossy(&s).as_ref().into()) }
                    Tok::Word("inttoptr") => { out.push(Inst::Bad("call inttoptr".into())); return; }
                    x => panic!("callee {:?} in {}", x, String::from_utf8_lossy(t)),
                };
                l.expect(b'(');
                let (mut args, mut tys) = (vec![], vec![]);
                if !l.eat(b')') {
                    loop {
                        let ty = m.parse_ty(&mut l);
                        if m.tk(ty) == TyK::Meta {
                            let mut depth = 0;
                            loop { match l.peek() { Tok::P(b'(') => { depth += 1; l.next(); } Tok::P(b')') if depth > 0 => { depth -= 1; l.next(); } Tok::P(b')') | Tok::P(b',') if depth == 0 => break, Tok::Eof => break, _ => { l.next(); } } }
                            args.push(Opnd::K(Val::I(0)));
                        } else {
                            // attributes
                            loop {
                                let skip = match l.peek() {
                                    Tok::Word(w) => { let w = *w; !(matches!(w, "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "no_cfi" | "dso_local_equivalent") || w.parse::<f64>().is_ok()) }
                                    Tok::Str(_) => true,
                                    _ => false,
                                };
                                if !skip { break; }
                                let w = l.next();
                                if w == Tok::Word("align") { if let Tok::Int(..) = l.peek() { l.next(); } else if *l.peek() == Tok::P(b'(') { l.skip_parens(); } }
                                else if *l.peek() == Tok::P(b'(') { l.skip_parens(); }
                                else if *l.peek() == Tok::P(b'=') { l.next(); l.next(); }
                            }
                            args.push(self.val(&mut l, ty));
                        }
                        tys.push(ty);
                        if l.eat(b')') { break; }
                        l.expect(b',');
                    }
                }
                let mut next = None;
                if opw == "invoke" { loop { match l.peek() { Tok::Word("to") => { l.next(); break; } Tok::Eof => panic!("invoke without to"), Tok::P(b'[') | Tok::P(b'(') => { l.next(); } _ => { l.next(); } } } next = Some(Box::new(self.label(&mut l))); }
                if let Callee::Ext(n) = &callee {
                    let n = &**n;
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.invariant") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.donothing") {
                        return;
                    }
                    if n.starts_with("llvm.expect") || n.starts_with("llvm.threadlocal.address") || n.starts_with("llvm.ptr.annotation") || n.starts_with("llvm.launder") || n.starts_with("llvm.strip") { out.push(Inst::Mov { d: d.unwrap(), a: args[0].clone() }); return; }
                    let bop = [("llvm.umax.", B::UMax), ("llvm.umin.", B::UMin), ("llvm.smax.", B::SMax), ("llvm.smin.", B::SMin), ("llvm.uadd.sat.", B::UAddSat), ("llvm.usub.sat.", B::USubSat), ("llvm.sadd.sat.", B::SAddSat), ("llvm.ssub.sat.", B::SSubSat)].iter().find(|x| n.starts_with(x.0)).map(|x| x.1);
                    if let Some(op) = bop { let (w, vec) = m.scalar_w(rty); out.push(Inst::Bin { op, w, d: d.unwrap(), a: args[0].clone(), b: args[1].clone(), vec }); return; }
                }
                out.push(Inst::Call { d, callee, args, tys, rty, next });
            }
            "landingpad" | "resume" | "cleanup" | "catch" | "filter" => out.push(Inst::Bad(opw.as_str().into())),
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => { flags(&mut l); let (ty, a) = self.tyval(&mut l); l.expect(b','); let b = self.val(&mut l, ty); out.push(Inst::FBin { op: opw.as_str().into(), ty, d: d.unwrap(), a, b }); }
            "fneg" => { flags(&mut l); let (ty, a) = self.tyval(&mut l); out.push(Inst::FBin { op: "fneg".into(), ty, d: d.unwrap(), a: a.clone(), b: a }); }
            "fcmp" => {
                let mut pr = String::new();
                loop { match l.peek() { Tok::Word(w) if !is_type_word(w) => { pr = w.to_string(); l.next(); } _ => break } }
                let (ty, a) = self.tyval(&mut l); l.expect(b','); let b = self.val(&mut l, ty);
                out.push(Inst::FCmp { pred: pr.as_str().into(), ty, d: d.unwrap(), a, b });
            }
            "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" => { flags(&mut l); let (from, a) = self.tyval(&mut l); assert!(l.eat_word("to")); let to = m.parse_ty(&mut l); out.push(Inst::FCast { op: opw.as_str().into(), from, to, d: d.unwrap(), a }); }
            _ => out.push(Inst::Bad(String::from_utf8_lossy(t).as_ref().into())),
        }
    }
}
