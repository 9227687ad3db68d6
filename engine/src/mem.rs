//! Copy-on-write object memory with optional per-byte symbolic contents.
use crate::expr::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub d: Vec<u8>,
    pub s: Option<Vec<E>>, // 0 = concrete byte
    pub ro: bool,
}
impl Obj {
    pub fn zeroed(n: usize) -> Obj {
        Obj { d: vec![0; n], s: None, ro: false }
    }
    #[inline]
    pub fn conc(&self, o: usize, n: usize) -> bool {
        match &self.s {
            None => true,
            Some(s) => s[o..o + n].iter().all(|e| *e == 0),
        }
    }
    #[inline]
    pub fn byte(&self, o: usize) -> E {
        match &self.s {
            Some(s) if s[o] != 0 => s[o],
            _ => cx().konst(8, self.d[o] as u128),
        }
    }
    pub fn expr(&self, o: usize, n: usize) -> E {
        let mut e = self.byte(o);
        for i in 1..n {
            let b = self.byte(o + i);
            e = cx().concat(b, e);
        }
        e
    }
    #[inline]
    pub fn put(&mut self, o: usize, v: u128, n: usize) {
        let b = v.to_le_bytes();
        self.d[o..o + n].copy_from_slice(&b[..n]);
        if let Some(s) = &mut self.s {
            s[o..o + n].fill(0);
        }
    }
    pub fn put_byte_e(&mut self, o: usize, e: E) {
        if let Some(k) = cx().is_const(e) {
            self.put(o, k, 1);
            return;
        }
        let n = self.d.len();
        let s = self.s.get_or_insert_with(|| vec![0; n]);
        s[o] = e;
        self.d[o] = 0;
    }
    pub fn put_e(&mut self, o: usize, e: E, n: usize) {
        let w = cx().w(e);
        let e = if w < 8 * n as u32 { cx().zext(e, 8 * n as u32) } else { e };
        for i in 0..n {
            let b = cx().extract(e, 8 * i as u32 + 7, 8 * i as u32);
            self.put_byte_e(o + i, b);
        }
    }
}

const CH: usize = 64;
#[derive(Clone)]
struct Chunk {
    o: [Option<Rc<Obj>>; CH],
    live: u32,
}
#[derive(Clone)]
pub struct Heap {
    chunks: Vec<Option<Rc<Chunk>>>,
    pub next: u64,
    pub bytes: u64,
    pub live: u64,
}
impl Heap {
    pub fn new() -> Heap {
        Heap { chunks: vec![], next: 1, bytes: 0, live: 0 }
    }
    pub fn add(&mut self, o: Obj) -> u64 {
        let id = self.next;
        self.next += 1;
        self.bytes += o.d.len() as u64;
        self.live += 1;
        let c = id as usize / CH;
        while self.chunks.len() <= c {
            self.chunks.push(None);
        }
        let ch = self.chunks[c].get_or_insert_with(|| {
            Rc::new(Chunk { o: std::array::from_fn(|_| None), live: 0 })
        });
        let ch = Rc::make_mut(ch);
        ch.o[id as usize % CH] = Some(Rc::new(o));
        ch.live += 1;
        id
    }
    #[inline]
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        let c = id as usize / CH;
        self.chunks.get(c)?.as_ref()?.o[id as usize % CH].as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let c = id as usize / CH;
        let ch = Rc::make_mut(self.chunks.get_mut(c)?.as_mut()?);
        ch.o[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn free(&mut self, id: u64) -> bool {
        let c = id as usize / CH;
        let Some(Some(ch)) = self.chunks.get_mut(c) else { return false };
        let ch = Rc::make_mut(ch);
        let Some(o) = ch.o[id as usize % CH].take() else { return false };
        self.bytes -= o.d.len() as u64;
        self.live -= 1;
        ch.live -= 1;
        if ch.live == 0 && (c as u64 + 1) * CH as u64 <= self.next {
            self.chunks[c] = None;
        }
        true
    }
}
