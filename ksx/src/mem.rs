//! Copy-on-write paged memory with an optional symbolic overlay per page.
use crate::expr::*;
use std::rc::Rc;

pub const PS: usize = 1024;
const CH: usize = 64;
pub const STACK_BASE: u64 = 0x1_0000_0000;
pub const HEAP_BASE: u64 = 0x2_0000_0000;
pub const HEAP_END: u64 = 0x4_0000_0000;
/// The broker's own allocations (made while one of its tasks runs) lie apart, so that they can be counted.
pub const OWN_BASE: u64 = HEAP_END;
pub const OWN_END: u64 = 0x8_0000_0000;

#[derive(Clone)]
pub struct Page { pub d: [u8; PS], pub s: Option<Box<[Ex; PS]>> }
#[derive(Clone)]
struct Chunk { p: Vec<Option<Rc<Page>>> }
#[derive(Clone, Default)]
struct Region { c: Vec<Option<Rc<Chunk>>> }
#[derive(Clone)]
pub struct Mem { r: [Region; 4], zero: Rc<Page> }

#[derive(Debug)]
pub struct Fault(pub u64);

impl Mem {
    pub fn new() -> Self { Mem { r: Default::default(), zero: Rc::new(Page { d: [0; PS], s: None }) } }
    #[inline]
    fn loc(a: u64) -> Option<(usize, usize)> {
        if a >= OWN_BASE { return if a < OWN_END { Some((3, (a - OWN_BASE) as usize / PS)) } else { None }; }
        if a >= HEAP_BASE { Some((2, (a - HEAP_BASE) as usize / PS)) }
        else if a >= STACK_BASE { Some((1, (a - STACK_BASE) as usize / PS)) }
        else if a >= crate::ir::GLOB_BASE { Some((0, (a - crate::ir::GLOB_BASE) as usize / PS)) }
        else { None }
    }
    #[inline]
    pub fn page(&self, a: u64) -> Result<&Page, Fault> {
        let (r, i) = Self::loc(a).ok_or(Fault(a))?;
        match self.r[r].c.get(i / CH) { Some(Some(c)) => c.p[i % CH].as_deref().ok_or(Fault(a)), _ => Err(Fault(a)) }
    }
    #[inline]
    pub fn page_mut(&mut self, a: u64) -> Result<&mut Page, Fault> {
        let (r, i) = Self::loc(a).ok_or(Fault(a))?;
        match self.r[r].c.get_mut(i / CH) {
            Some(Some(c)) => { let c = Rc::make_mut(c); match &mut c.p[i % CH] { Some(p) => Ok(Rc::make_mut(p)), None => Err(Fault(a)) } }
            _ => Err(Fault(a)),
        }
    }
    fn page_rc(&self, a: u64) -> Result<&Rc<Page>, Fault> {
        let (r, i) = Self::loc(a).ok_or(Fault(a))?;
        match self.r[r].c.get(i / CH) { Some(Some(c)) => c.p[i % CH].as_ref().ok_or(Fault(a)), _ => Err(Fault(a)) }
    }
    fn set_page(&mut self, a: u64, p: Option<Rc<Page>>) {
        let (r, i) = Self::loc(a).expect("set_page");
        let reg = &mut self.r[r];
        if reg.c.len() <= i / CH { reg.c.resize(i / CH + 1, None); }
        let c = reg.c[i / CH].get_or_insert_with(|| Rc::new(Chunk { p: vec![None; CH] }));
        Rc::make_mut(c).p[i % CH] = p;
    }
    /// Make [a, a+n) accessible; newly mapped pages read as zero.
    pub fn map(&mut self, a: u64, n: u64) {
        if n == 0 { return; }
        let mut p = a / PS as u64 * PS as u64;
        while p < a + n { if self.page_rc(p).is_err() { let z = self.zero.clone(); self.set_page(p, Some(z)); } p += PS as u64; }
    }
    /// Drop whole pages inside [a, a+n).
    pub fn unmap(&mut self, a: u64, n: u64) {
        let ps = PS as u64;
        let mut p = (a + ps - 1) / ps * ps;
        while p + ps <= a + n { self.set_page(p, None); p += ps; }
    }
    /// Little-endian concrete load of n<=16 bytes, None if any byte is symbolic.
    #[inline]
    pub fn load_c(&self, a: u64, n: usize) -> Result<Option<u128>, Fault> {
        let o = a as usize % PS;
        if o + n <= PS {
            let p = self.page(a)?;
            if let Some(s) = &p.s { if s[o..o + n].iter().any(|x| *x != 0) { return Ok(None); } }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&p.d[o..o + n]);
            return Ok(Some(u128::from_le_bytes(b)));
        }
        let mut v = 0u128;
        for i in 0..n { match self.byte(a + i as u64)? { (b, 0) => v |= (b as u128) << (8 * i), _ => return Ok(None) } }
        Ok(Some(v))
    }
    #[inline]
    pub fn byte(&self, a: u64) -> Result<(u8, Ex), Fault> { let p = self.page(a)?; let o = a as usize % PS; Ok((p.d[o], p.s.as_ref().map(|s| s[o]).unwrap_or(0))) }
    #[inline]
    pub fn store_c(&mut self, a: u64, n: usize, v: u128) -> Result<(), Fault> {
        let o = a as usize % PS;
        let b = v.to_le_bytes();
        if o + n <= PS {
            let p = self.page_mut(a)?;
            p.d[o..o + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut p.s { for x in &mut s[o..o + n] { *x = 0; } }
            return Ok(());
        }
        for i in 0..n { self.set_byte(a + i as u64, b[i], 0)?; }
        Ok(())
    }
    #[inline]
    pub fn set_byte(&mut self, a: u64, b: u8, e: Ex) -> Result<(), Fault> {
        let o = a as usize % PS;
        let p = self.page_mut(a)?;
        p.d[o] = b;
        if e != 0 { p.s.get_or_insert_with(|| Box::new([0; PS]))[o] = e; } else if let Some(s) = &mut p.s { s[o] = 0; }
        Ok(())
    }
    pub fn fill(&mut self, a: u64, n: u64, b: u8) -> Result<(), Fault> {
        let mut i = 0;
        while i < n {
            let o = (a + i) as usize % PS; let k = ((PS - o) as u64).min(n - i) as usize;
            if k == PS && b == 0 { self.page_rc(a + i)?; let z = self.zero.clone(); self.set_page(a + i, Some(z)); i += k as u64; continue; }
            let p = self.page_mut(a + i)?;
            p.d[o..o + k].fill(b);
            if let Some(s) = &mut p.s { s[o..o + k].fill(0); }
            i += k as u64;
        }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || d == s { return Ok(()); }
        if n > 1 << 16 && (d + n <= s || s + n <= d) { return self.copy_big(d, s, n); }
        let mut bytes = vec![0u8; n as usize];
        let mut sy: Vec<(usize, Ex)> = vec![];
        let mut i = 0usize; let n = n as usize;
        while i < n {
            let a = s + i as u64; let o = a as usize % PS; let k = (PS - o).min(n - i);
            let p = self.page(a)?;
            bytes[i..i + k].copy_from_slice(&p.d[o..o + k]);
            if let Some(x) = &p.s { for j in 0..k { if x[o + j] != 0 { sy.push((i + j, x[o + j])); } } }
            i += k;
        }
        let mut i = 0usize;
        while i < n {
            let a = d + i as u64; let o = a as usize % PS; let k = (PS - o).min(n - i);
            let p = self.page_mut(a)?;
            p.d[o..o + k].copy_from_slice(&bytes[i..i + k]);
            if let Some(x) = &mut p.s { x[o..o + k].fill(0); }
            i += k;
        }
        for (i, e) in sy { let a = d + i as u64; let b = bytes[i]; self.set_byte(a, b, e)?; }
        Ok(())
    }
    /// Large non-overlapping copies: whole destination pages fed from all-zero source pages stay shared.
    fn copy_big(&mut self, d: u64, s: u64, n: u64) -> Result<(), Fault> {
        let mut i = 0u64; let ps = PS as u64;
        while i < n {
            let o = (d + i) % ps; let k = (ps - o).min(n - i);
            if k == ps {
                let a = self.page_rc(s + i)?; let b = self.page_rc(s + i + k - 1)?;
                if Rc::ptr_eq(a, &self.zero) && Rc::ptr_eq(b, &self.zero) { self.page_rc(d + i)?; let z = self.zero.clone(); self.set_page(d + i, Some(z)); i += k; continue; }
            }
            self.copy(d + i, s + i, k)?;
            i += k;
        }
        Ok(())
    }
}
