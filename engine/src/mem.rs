//! Byte-addressed memory: 4 KiB copy-on-write pages with a shadow of symbolic bytes.
use crate::expr::{Ctx, E};
use std::rc::Rc;

pub const PAGE: usize = 4096;
const CH: usize = 256;
#[derive(Clone)]
pub struct Page { pub data: [u8; PAGE], pub sym: Option<Box<[E; PAGE]>> }
#[derive(Clone)]
pub struct Chunk { p: [Option<Rc<Page>>; CH] }
#[derive(Clone)]
pub struct Mem { top: Vec<Option<Rc<Chunk>>> }
pub struct Fault(pub u64);

impl Mem {
    pub fn new(bytes: u64) -> Mem { Mem { top: vec![None; (bytes as usize).div_ceil(PAGE * CH)] } }
    #[inline]
    pub fn page(&self, a: u64) -> Option<&Page> {
        let pn = (a as usize) / PAGE;
        match self.top.get(pn / CH) { Some(Some(c)) => c.p[pn % CH].as_deref(), _ => None }
    }
    pub fn mapped(&self, a: u64) -> bool { self.page(a).is_some() }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Result<&mut Page, Fault> {
        let pn = (a as usize) / PAGE;
        match self.top.get_mut(pn / CH) {
            Some(Some(c)) => { let c = Rc::make_mut(c); match &mut c.p[pn % CH] { Some(p) => Ok(Rc::make_mut(p)), None => Err(Fault(a)) } }
            _ => Err(Fault(a)),
        }
    }
    pub fn map(&mut self, start: u64, end: u64) {
        let mut pn = start as usize / PAGE;
        while pn * PAGE < end as usize {
            let t = &mut self.top[pn / CH];
            if t.is_none() { *t = Some(Rc::new(Chunk { p: std::array::from_fn(|_| None) })); }
            let c = Rc::make_mut(t.as_mut().unwrap());
            if c.p[pn % CH].is_none() { c.p[pn % CH] = Some(Rc::new(Page { data: [0; PAGE], sym: None })); }
            pn += 1;
        }
    }
    /// n <= 8; None if any byte is symbolic
    #[inline]
    pub fn read_conc(&self, a: u64, n: usize) -> Result<Option<u64>, Fault> {
        let o = a as usize % PAGE;
        if o + n <= PAGE {
            let p = self.page(a).ok_or(Fault(a))?;
            if let Some(s) = &p.sym { if s[o..o + n].iter().any(|&x| x != 0) { return Ok(None); } }
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&p.data[o..o + n]);
            Ok(Some(u64::from_le_bytes(b)))
        } else {
            let mut v = 0u64;
            for i in 0..n { let (b, s) = self.byte(a + i as u64)?; if s != 0 { return Ok(None); } v |= (b as u64) << (8 * i); }
            Ok(Some(v))
        }
    }
    #[inline]
    pub fn byte(&self, a: u64) -> Result<(u8, E), Fault> {
        let p = self.page(a).ok_or(Fault(a))?;
        let o = a as usize % PAGE;
        Ok((p.data[o], p.sym.as_ref().map_or(0, |s| s[o])))
    }
    #[inline]
    pub fn write_conc(&mut self, a: u64, n: usize, v: u64) -> Result<(), Fault> {
        let o = a as usize % PAGE;
        if o + n <= PAGE {
            let p = self.page_mut(a)?;
            p.data[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
            if let Some(s) = &mut p.sym { s[o..o + n].fill(0); }
        } else { for i in 0..n { self.set_byte(a + i as u64, (v >> (8 * i)) as u8, 0)?; } }
        Ok(())
    }
    #[inline]
    pub fn set_byte(&mut self, a: u64, b: u8, s: E) -> Result<(), Fault> {
        let p = self.page_mut(a)?;
        let o = a as usize % PAGE;
        p.data[o] = b;
        if s != 0 { p.sym.get_or_insert_with(|| Box::new([0; PAGE]))[o] = s; } else if let Some(x) = &mut p.sym { x[o] = 0; }
        Ok(())
    }
    pub fn fill(&mut self, a: u64, n: u64, b: u8, s: E) -> Result<(), Fault> {
        let mut i = 0;
        while i < n {
            let o = (a + i) as usize % PAGE;
            let k = (PAGE - o).min((n - i) as usize);
            let p = self.page_mut(a + i)?;
            p.data[o..o + k].fill(b);
            if s != 0 { p.sym.get_or_insert_with(|| Box::new([0; PAGE]))[o..o + k].fill(s); } else if let Some(x) = &mut p.sym { x[o..o + k].fill(0); }
            i += k as u64;
        }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), Fault> {
        // gather, then scatter (handles overlap)
        let mut data = Vec::with_capacity(n as usize);
        let mut sym: Option<Vec<E>> = None;
        let mut i = 0;
        while i < n {
            let o = (s + i) as usize % PAGE;
            let k = (PAGE - o).min((n - i) as usize);
            let p = self.page(s + i).ok_or(Fault(s + i))?;
            data.extend_from_slice(&p.data[o..o + k]);
            match &p.sym {
                Some(x) if x[o..o + k].iter().any(|&e| e != 0) => { let v = sym.get_or_insert_with(|| vec![0; n as usize]); v[i as usize..i as usize + k].copy_from_slice(&x[o..o + k]); }
                _ => {}
            }
            i += k as u64;
        }
        let mut i = 0;
        while i < n {
            let o = (d + i) as usize % PAGE;
            let k = (PAGE - o).min((n - i) as usize);
            let p = self.page_mut(d + i)?;
            p.data[o..o + k].copy_from_slice(&data[i as usize..i as usize + k]);
            match &sym {
                Some(v) => p.sym.get_or_insert_with(|| Box::new([0; PAGE]))[o..o + k].copy_from_slice(&v[i as usize..i as usize + k]),
                None => if let Some(x) = &mut p.sym { x[o..o + k].fill(0) },
            }
            i += k as u64;
        }
        Ok(())
    }
    pub fn write_slice(&mut self, a: u64, v: &[u8]) -> Result<(), Fault> {
        let mut i = 0;
        while i < v.len() {
            let o = (a as usize + i) % PAGE;
            let k = (PAGE - o).min(v.len() - i);
            let p = self.page_mut(a + i as u64)?;
            p.data[o..o + k].copy_from_slice(&v[i..i + k]);
            if let Some(x) = &mut p.sym { x[o..o + k].fill(0); }
            i += k;
        }
        Ok(())
    }
    /// little-endian value of n bytes (n <= 16) with at least one symbolic byte
    pub fn read_sym(&self, cx: &mut Ctx, a: u64, n: usize) -> Result<E, Fault> {
        let mut acc: E = 0;
        for i in 0..n {
            let (b, s) = self.byte(a + i as u64)?;
            let e = if s != 0 { s } else { cx.cst(8, b as u128) };
            acc = if acc == 0 { e } else { cx.concat(e, acc) };
        }
        Ok(acc)
    }
    pub fn write_sym(&mut self, cx: &mut Ctx, a: u64, n: usize, e: E) -> Result<(), Fault> {
        for i in 0..n {
            let x = cx.extract(e, 8 * i as u32, 8);
            match cx.as_const(x) { Some(v) => self.set_byte(a + i as u64, v as u8, 0)?, None => self.set_byte(a + i as u64, 0, x)? }
        }
        Ok(())
    }
    pub fn cstr(&self, a: u64, n: u64) -> String { (0..n).map(|i| self.byte(a + i).map(|x| x.0).unwrap_or(b'?') as char).collect() }
}
