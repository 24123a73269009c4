//! Flat, byte-level, copy-on-write memory. address = (alloc id << 32) | offset.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Alloc {
    pub bytes: Vec<u8>,
    /// symbolic overlay: offset -> 8-bit expression
    pub sym: Option<Box<BTreeMap<u32, E>>>,
    pub dead: bool,
}

pub const STACK: u32 = 0x4000_0000;
pub const GLOB: u32 = 0x5000_0000;
pub const FUNC: u32 = 0x6000_0000;
pub const TAG: u32 = 0x7000_0000;

const CH: usize = 128;

#[derive(Clone)]
pub struct Heap {
    chunks: Vec<Rc<Vec<Option<Rc<Alloc>>>>>,
    free: Vec<u32>,
    next: u32,
    pub live: usize,
}

impl Heap {
    pub fn new() -> Self { Heap { chunks: vec![], free: vec![], next: 1, live: 0 } }
    pub fn alloc(&mut self, size: usize) -> u32 {
        let id = self.free.pop().unwrap_or_else(|| { let i = self.next; self.next += 1; i });
        let (c, o) = (id as usize / CH, id as usize % CH);
        while self.chunks.len() <= c { self.chunks.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut self.chunks[c])[o] = Some(Rc::new(Alloc { bytes: vec![0; size], sym: None, dead: false }));
        self.live += 1;
        id
    }
    pub fn dealloc(&mut self, id: u32) -> bool {
        let (c, o) = (id as usize / CH, id as usize % CH);
        if c >= self.chunks.len() || self.chunks[c][o].is_none() { return false; }
        Rc::make_mut(&mut self.chunks[c])[o] = None;
        self.free.push(id);
        self.live -= 1;
        true
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Alloc> {
        let (c, o) = (id as usize / CH, id as usize % CH);
        self.chunks.get(c)?[o].as_deref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Alloc> {
        let (c, o) = (id as usize / CH, id as usize % CH);
        let ch = Rc::make_mut(self.chunks.get_mut(c)?);
        ch[o].as_mut().map(Rc::make_mut)
    }
}

impl Alloc {
    #[inline]
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        match &self.sym { None => false, Some(m) => m.range(off as u32..(off + n) as u32).next().is_some() }
    }
    #[inline]
    pub fn read_c(&self, off: usize, n: usize) -> u128 {
        let b = &self.bytes[off..off + n];
        match n {
            1 => b[0] as u128,
            2 => u16::from_le_bytes(b.try_into().unwrap()) as u128,
            4 => u32::from_le_bytes(b.try_into().unwrap()) as u128,
            8 => u64::from_le_bytes(b.try_into().unwrap()) as u128,
            16 => u128::from_le_bytes(b.try_into().unwrap()),
            _ => { let mut t = [0u8; 16]; t[..n].copy_from_slice(b); u128::from_le_bytes(t) }
        }
    }
    pub fn read(&self, pool: &mut Pool, off: usize, n: usize) -> Sv {
        if self.sym.is_none() || !self.has_sym(off, n) { return Sv::C(self.read_c(off, n)); }
        let m = self.sym.as_ref().unwrap();
        let mut acc: Option<(Sv, u32)> = None;
        for i in 0..n {
            let b = match m.get(&((off + i) as u32)) { Some(e) => Sv::S(*e), None => Sv::C(self.bytes[off + i] as u128) };
            acc = Some(match acc { None => (b, 8), Some((lo, w)) => (pool.concat(b, lo, 8, w), w + 8) });
        }
        acc.map(|a| a.0).unwrap_or(Sv::C(0))
    }
    #[inline]
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        if let Some(m) = &mut self.sym {
            if n == 1 { m.remove(&(off as u32)); }
            else {
                let ks: Vec<u32> = m.range(off as u32..(off + n) as u32).map(|k| *k.0).collect();
                for k in ks { m.remove(&k); }
            }
            if m.is_empty() { self.sym = None; }
        }
    }
    #[inline]
    pub fn write_c(&mut self, off: usize, n: usize, v: u128) {
        if self.sym.is_some() { self.clear_sym(off, n); }
        let b = &mut self.bytes[off..off + n];
        match n {
            1 => b[0] = v as u8,
            2 => b.copy_from_slice(&(v as u16).to_le_bytes()),
            4 => b.copy_from_slice(&(v as u32).to_le_bytes()),
            8 => b.copy_from_slice(&(v as u64).to_le_bytes()),
            16 => b.copy_from_slice(&v.to_le_bytes()),
            _ => b.copy_from_slice(&v.to_le_bytes()[..n]),
        }
    }
    pub fn write(&mut self, pool: &mut Pool, off: usize, n: usize, v: Sv) {
        match v {
            Sv::C(c) => self.write_c(off, n, c),
            Sv::S(_) => {
                for i in 0..n {
                    let b = pool.extract(v, 8 * n as u32, 8 * i as u32, 8);
                    self.write_byte(off + i, b);
                }
            }
        }
    }
    pub fn write_byte(&mut self, off: usize, b: Sv) {
        match b {
            Sv::C(c) => { self.bytes[off] = c as u8; if self.sym.is_some() { self.clear_sym(off, 1); } }
            Sv::S(e) => { self.bytes[off] = 0xAA; self.sym.get_or_insert_with(Default::default).insert(off as u32, e); }
        }
    }
    pub fn snapshot(&self, off: usize, n: usize) -> (Vec<u8>, Vec<(u32, E)>) {
        let b = self.bytes[off..off + n].to_vec();
        let s = match &self.sym { None => vec![], Some(m) => m.range(off as u32..(off + n) as u32).map(|(k, v)| (k - off as u32, *v)).collect() };
        (b, s)
    }
    pub fn put(&mut self, off: usize, b: &[u8], s: &[(u32, E)]) {
        if self.sym.is_some() { self.clear_sym(off, b.len()); }
        self.bytes[off..off + b.len()].copy_from_slice(b);
        if !s.is_empty() {
            let m = self.sym.get_or_insert_with(Default::default);
            for (k, e) in s { m.insert(k + off as u32, *e); }
        }
    }
}
