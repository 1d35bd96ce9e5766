//! Caller matrices in memory of their own, with guard pages and canaries.
use crate::guard::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Place { Model, High, Low }

pub struct Mat {
    pub p: *mut u8,
    pub rows: usize,
    pub cols: usize,
    pub rs: isize,
    pub cs: isize,
    pub parts: usize,
    pub dbl: bool,
    region: *mut u8,
    len: usize,
    lo: *mut u8,
    span: usize,
}
const CANARY: u8 = 0xC5;

impl Mat {
    pub fn esz(&self) -> usize { self.parts * if self.dbl { 8 } else { 4 } }
    /// None: needs more address space than there is
    pub fn new(rows: usize, cols: usize, rs: isize, cs: isize, parts: usize, dbl: bool, place: Place, base: usize) -> Option<Mat> {
        let esz = parts * if dbl { 8 } else { 4 };
        let mut m = Mat { p: base as *mut u8, rows, cols, rs, cs, parts, dbl, region: std::ptr::null_mut(), len: 0, lo: std::ptr::null_mut(), span: 0 };
        if rows == 0 || cols == 0 { return Some(m); }
        let (mut lo, mut hi) = (0i128, 0i128);
        for (n, s) in [(rows, rs), (cols, cs)] {
            let e = (n as i128 - 1) * s as i128;
            if n > 1 { if e < 0 { lo += e } else { hi += e } }
        }
        let span = (hi - lo + 1) * esz as i128;
        if span > 1 << 44 { return None; }
        let span = span as usize;
        let body = (span + PAGE - 1) / PAGE * PAGE + PAGE;
        let al = if dbl { 8 } else { 4 };
        unsafe {
            let r = map(body + 2 * PAGE);
            if r.is_null() { return None; }
            m.region = r;
            m.len = body + 2 * PAGE;
            protect(r, PAGE, 0);
            protect(r.add(PAGE + body), PAGE, 0);
            let start = match place {
                Place::High => r.add(PAGE + body - span),
                Place::Low => r.add(PAGE),
                Place::Model => {
                    // the element at offset 0 gets the model's address modulo 64
                    let off = (-lo) as usize * esz;
                    let want = base & 63 & !(al - 1);
                    let mut s = r as usize + PAGE;
                    while (s + off) & 63 != want { s += al; }
                    s as *mut u8
                }
            };
            m.lo = start;
            m.span = span;
            m.p = start.offset((-lo) as isize * esz as isize);
            if body <= 64 << 20 { std::ptr::write_bytes(r.add(PAGE), CANARY, body); }
        }
        Some(m)
    }
    pub fn at(&self, i: usize, j: usize) -> *mut u8 {
        (self.p as isize).wrapping_add((i as isize).wrapping_mul(self.rs).wrapping_add((j as isize).wrapping_mul(self.cs)).wrapping_mul(self.esz() as isize)) as *mut u8
    }
    pub fn set(&self, i: usize, j: usize, part: usize, v: f64) {
        unsafe { if self.dbl { (self.at(i, j) as *mut f64).add(part).write(v) } else { (self.at(i, j) as *mut f32).add(part).write(v as f32) } }
    }
    pub fn get(&self, i: usize, j: usize, part: usize) -> f64 {
        unsafe { if self.dbl { (self.at(i, j) as *mut f64).add(part).read() } else { (self.at(i, j) as *mut f32).add(part).read() as f64 } }
    }
    pub fn bits(&self, i: usize, j: usize, part: usize) -> u64 {
        unsafe { if self.dbl { (self.at(i, j) as *mut u64).add(part).read() } else { (self.at(i, j) as *mut u32).add(part).read() as u64 } }
    }
    /// descending, so that where elements share memory the first one's value stays
    pub fn fill(&self, f: &dyn Fn(usize, usize) -> f64) {
        for i in (0..self.rows).rev() { for j in (0..self.cols).rev() { for p in 0..self.parts { self.set(i, j, p, f(i * self.cols + j, p)); } } }
    }
    pub fn read_only(&self) {
        if self.len > 0 { unsafe { protect(self.region.add(PAGE), self.len - 2 * PAGE, 1) } }
    }
    /// is everything in the region that is not an element still the canary?
    pub fn intact(&self) -> bool {
        if self.len == 0 || self.len > 64 << 20 { return true; }
        let body = self.len - 2 * PAGE;
        let mut el = vec![false; body];
        let base = self.region as usize + PAGE;
        for i in 0..self.rows { for j in 0..self.cols {
            let o = self.at(i, j) as usize - base;
            for x in o..o + self.esz() { el[x] = true; }
        } }
        unsafe { (0..body).all(|x| el[x] || *self.region.add(PAGE + x) == CANARY) }
    }
    pub fn free(self) { if self.len > 0 { unsafe { unmap(self.region, self.len) } } }
}
