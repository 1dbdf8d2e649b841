//! Copy-on-write byte memory; each byte is concrete or byte `k` of an expression.
use crate::expr::E;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.0 = (self.0.rotate_left(5) ^ x as u64).wrapping_mul(0x517cc1b727220a95); } }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone)]
pub struct Page { pub data: [u8; 4096], pub sym: FxMap<u16, (E, u8)> }
#[derive(Clone)]
pub struct Mem { pub pages: FxMap<u64, Rc<Page>>, zero: Rc<Page> }

impl Mem {
    pub fn new() -> Mem { Mem { pages: FxMap::default(), zero: Rc::new(Page { data: [0; 4096], sym: FxMap::default() }) } }
    #[inline] fn page(&self, a: u64) -> &Page { match self.pages.get(&(a >> 12)) { Some(p) => p, None => &self.zero } }
    #[inline] fn page_mut(&mut self, a: u64) -> &mut Page {
        let z = &self.zero;
        Rc::make_mut(self.pages.entry(a >> 12).or_insert_with(|| z.clone()))
    }
    /// concrete little-endian value of n ≤ 16 bytes, or None when a byte is symbolic
    #[inline]
    pub fn load(&self, a: u64, n: usize) -> Option<u128> {
        let o = (a & 4095) as usize;
        if o + n <= 4096 {
            let p = self.page(a);
            if !p.sym.is_empty() { for i in 0..n { if p.sym.contains_key(&((o + i) as u16)) { return None; } } }
            return Some(match n {
                8 => u64::from_le_bytes(p.data[o..o + 8].try_into().unwrap()) as u128,
                4 => u32::from_le_bytes(p.data[o..o + 4].try_into().unwrap()) as u128,
                1 => p.data[o] as u128,
                2 => u16::from_le_bytes(p.data[o..o + 2].try_into().unwrap()) as u128,
                _ => { let mut v = 0u128; for i in (0..n).rev() { v = (v << 8) | p.data[o + i] as u128; } v }
            });
        }
        let mut v = 0u128;
        for i in (0..n).rev() { match self.byte(a + i as u64) { Ok(b) => v = (v << 8) | b as u128, Err(_) => return None } }
        Some(v)
    }
    pub fn byte(&self, a: u64) -> Result<u8, (E, u8)> {
        let p = self.page(a);
        let o = (a & 4095) as u16;
        if !p.sym.is_empty() { if let Some(&x) = p.sym.get(&o) { return Err(x); } }
        Ok(p.data[o as usize])
    }
    #[inline]
    pub fn store(&mut self, a: u64, n: usize, v: u128) {
        let o = (a & 4095) as usize;
        if o + n <= 4096 {
            let p = self.page_mut(a);
            match n {
                8 => p.data[o..o + 8].copy_from_slice(&(v as u64).to_le_bytes()),
                4 => p.data[o..o + 4].copy_from_slice(&(v as u32).to_le_bytes()),
                1 => p.data[o] = v as u8,
                _ => for i in 0..n { p.data[o + i] = if i < 16 { (v >> (8 * i)) as u8 } else { 0 } },
            }
            if !p.sym.is_empty() { for i in 0..n { p.sym.remove(&((o + i) as u16)); } }
            return;
        }
        for i in 0..n { self.set(a + i as u64, Ok((v >> (8 * i)) as u8)); }
    }
    pub fn set(&mut self, a: u64, b: Result<u8, (E, u8)>) {
        let p = self.page_mut(a);
        let o = (a & 4095) as u16;
        match b { Ok(x) => { p.data[o as usize] = x; if !p.sym.is_empty() { p.sym.remove(&o); } } Err(x) => { p.sym.insert(o, x); } }
    }
    pub fn write(&mut self, mut a: u64, mut b: &[u8]) {
        while !b.is_empty() {
            let o = (a & 4095) as usize;
            let n = b.len().min(4096 - o);
            let p = self.page_mut(a);
            p.data[o..o + n].copy_from_slice(&b[..n]);
            if !p.sym.is_empty() { for i in 0..n { p.sym.remove(&((o + i) as u16)); } }
            a += n as u64; b = &b[n..];
        }
    }
    /// memmove
    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 || d == s { return; }
        let mut buf = vec![0u8; n as usize];
        let mut syms: Vec<(u64, (E, u8))> = vec![];
        let mut k = 0u64;
        while k < n {
            let a = s + k;
            let o = (a & 4095) as usize;
            let m = ((n - k) as usize).min(4096 - o);
            let p = self.page(a);
            buf[k as usize..k as usize + m].copy_from_slice(&p.data[o..o + m]);
            if !p.sym.is_empty() { if p.sym.len() < m { for (&x, &v) in &p.sym { if (x as usize) >= o && (x as usize) < o + m { syms.push((k + x as u64 - o as u64, v)); } } } else { for i in 0..m { if let Some(&v) = p.sym.get(&((o + i) as u16)) { syms.push((k + i as u64, v)); } } } }
            k += m as u64;
        }
        self.write(d, &buf);
        for (i, v) in syms { self.set(d + i, Err(v)); }
    }
    pub fn fill(&mut self, d: u64, b: u8, n: u64) {
        let buf = vec![b; n as usize];
        self.write(d, &buf);
    }
    pub fn cstr(&self, a: u64) -> Option<Vec<u8>> { let mut v = vec![]; let mut i = 0; loop { match self.byte(a + i) { Ok(0) => return Some(v), Ok(b) => v.push(b), Err(_) => return None } i += 1; if i > 1 << 16 { return None; } } }
    pub fn bytes(&self, a: u64, n: u64) -> Option<Vec<u8>> { let mut v = vec![]; for i in 0..n { match self.byte(a + i) { Ok(b) => v.push(b), Err(_) => return None } } Some(v) }
}
