//! Byte-addressed object memory with copy-on-write sharing between forked states.

use crate::expr::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// symbolic byte expressions (0 = concrete); empty when fully concrete
    pub sym: Vec<Id>,
    pub ro: bool,
    pub heap: bool,
}

const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    pub next: u64,
    pub live: i64,
}

pub enum MemErr { Bad(String) }

impl Mem {
    pub fn new() -> Mem { Mem { chunks: vec![], next: 0, live: 0 } }
    pub fn reserve(&mut self, n: u64) {
        self.next = n;
        while (self.chunks.len() * CH) as u64 <= n { self.chunks.push(Rc::new(vec![None; CH])) }
    }
    pub fn put(&mut self, id: u64, o: Obj) {
        let c = id as usize / CH;
        while self.chunks.len() <= c { self.chunks.push(Rc::new(vec![None; CH])) }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = Some(Rc::new(o));
    }
    pub fn alloc(&mut self, size: usize, heap: bool) -> u64 {
        let id = self.next;
        self.next += 1;
        if heap { self.live += 1 }
        self.put(id, Obj { data: vec![0; size], sym: vec![], ro: false, heap });
        id << 32
    }
    pub fn free(&mut self, id: u64) -> bool {
        let c = id as usize / CH;
        if c >= self.chunks.len() { return false }
        let ch = Rc::make_mut(&mut self.chunks[c]);
        let r = ch[id as usize % CH].take();
        match r { Some(o) => { if o.heap { self.live -= 1 } true } None => false }
    }
    #[inline]
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH)?.get(id as usize % CH)?.as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        let o = Rc::make_mut(c)[id as usize % CH].as_mut()?;
        Some(Rc::make_mut(o))
    }

    /// Access check: object exists and [off, off+n) is inside.
    #[inline]
    pub fn check(&self, addr: u64, n: u64, write: bool) -> Result<&Rc<Obj>, MemErr> {
        let (id, off) = (addr >> 32, addr & 0xffff_ffff);
        match self.get(id) {
            Some(o) => {
                if off + n > o.data.len() as u64 {
                    return Err(MemErr::Bad(format!("out-of-bounds access of {} bytes at offset {} of an object of {} bytes", n, off as u32 as i32, o.data.len())));
                }
                if write && o.ro { return Err(MemErr::Bad("write to constant memory".into())) }
                Ok(o)
            }
            None => Err(MemErr::Bad(format!("access to invalid or freed memory (address {:#x})", addr))),
        }
    }

    /// Load n (<=16) bytes: Ok(concrete) or Err(expr id)
    #[inline]
    pub fn load(&self, a: &mut Arena, addr: u64, n: u64) -> Result<Result<u128, Id>, MemErr> {
        let o = self.check(addr, n, false)?;
        let off = (addr & 0xffff_ffff) as usize;
        let d = &o.data[off..off + n as usize];
        if o.sym.is_empty() || o.sym[off..off + n as usize].iter().all(|x| *x == 0) {
            let mut v = 0u128;
            for i in (0..n as usize).rev() { v = (v << 8) | d[i] as u128 }
            return Ok(Ok(v));
        }
        Ok(Err(Self::load_sym(a, o, off, n as usize)))
    }
    pub fn load_sym(a: &mut Arena, o: &Obj, off: usize, n: usize) -> Id {
        let mut e = Self::byte(a, o, off);
        for i in 1..n {
            let h = Self::byte(a, o, off + i);
            e = a.concat(h, e);
        }
        e
    }
    pub fn byte(a: &mut Arena, o: &Obj, i: usize) -> Id {
        if !o.sym.is_empty() && o.sym[i] != 0 { o.sym[i] } else { a.konst(8, o.data[i] as u128) }
    }

    #[inline]
    pub fn store(&mut self, addr: u64, n: u64, v: u128) -> Result<(), MemErr> {
        self.check(addr, n, true)?;
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.get_mut(addr >> 32).unwrap();
        for i in 0..n as usize { o.data[off + i] = (v >> (8 * i)) as u8 }
        if !o.sym.is_empty() { for x in &mut o.sym[off..off + n as usize] { *x = 0 } }
        Ok(())
    }
    pub fn store_sym(&mut self, a: &mut Arena, addr: u64, n: u64, e: Id) -> Result<(), MemErr> {
        self.check(addr, n, true)?;
        let off = (addr & 0xffff_ffff) as usize;
        let w = a.w(e);
        let e = if w < n as u32 * 8 { a.zext(e, n as u32 * 8) } else { e };
        let o = self.get_mut(addr >> 32).unwrap();
        if o.sym.is_empty() { o.sym = vec![0; o.data.len()] }
        for i in 0..n as usize {
            let b = a.extract(e, 8 * i as u32, 8);
            match a.is_const(b) {
                Some(k) => { o.data[off + i] = k as u8; o.sym[off + i] = 0 }
                None => { o.data[off + i] = 0; o.sym[off + i] = b }
            }
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), MemErr> {
        if n == 0 { return Ok(()) }
        let s = self.check(src, n, false)?.clone();
        self.check(dst, n, true)?;
        let (so, d_o, n) = ((src & 0xffff_ffff) as usize, (dst & 0xffff_ffff) as usize, n as usize);
        let ssym = !s.sym.is_empty() && s.sym[so..so + n].iter().any(|x| *x != 0);
        let d = self.get_mut(dst >> 32).unwrap();
        d.data[d_o..d_o + n].copy_from_slice(&s.data[so..so + n]);
        if ssym {
            if d.sym.is_empty() { d.sym = vec![0; d.data.len()] }
            d.sym[d_o..d_o + n].copy_from_slice(&s.sym[so..so + n]);
        } else if !d.sym.is_empty() {
            for x in &mut d.sym[d_o..d_o + n] { *x = 0 }
        }
        Ok(())
    }
    pub fn set(&mut self, dst: u64, b: u8, bs: Id, n: u64) -> Result<(), MemErr> {
        if n == 0 { return Ok(()) }
        self.check(dst, n, true)?;
        let (d_o, n) = ((dst & 0xffff_ffff) as usize, n as usize);
        let d = self.get_mut(dst >> 32).unwrap();
        d.data[d_o..d_o + n].fill(b);
        if bs != 0 {
            if d.sym.is_empty() { d.sym = vec![0; d.data.len()] }
            d.sym[d_o..d_o + n].fill(bs);
        } else if !d.sym.is_empty() { d.sym[d_o..d_o + n].fill(0) }
        Ok(())
    }
}
