//! Values, memory objects and path states.
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    /// symbolic, or a concrete value wider than 64 bits
    X(E),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// per byte: 0 = concrete
    pub sym: Option<Vec<E>>,
    pub freed: bool,
    pub ro: bool,
}

impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj {
            data: vec![0; n],
            sym: None,
            freed: false,
            ro: false,
        }
    }
    #[inline]
    pub fn is_sym(&self, o: usize, n: usize) -> bool {
        match &self.sym {
            None => false,
            Some(s) => s[o..o + n].iter().any(|&e| e != 0),
        }
    }
    #[inline]
    pub fn byte(&self, o: usize) -> Result<u8, E> {
        match &self.sym {
            Some(s) if s[o] != 0 => Err(s[o]),
            _ => Ok(self.data[o]),
        }
    }
    #[inline]
    pub fn set_c(&mut self, o: usize, b: &[u8]) {
        self.data[o..o + b.len()].copy_from_slice(b);
        if let Some(s) = &mut self.sym {
            for e in &mut s[o..o + b.len()] {
                *e = 0;
            }
        }
    }
    pub fn set_sym(&mut self, o: usize, e: E) {
        let n = self.data.len();
        let s = self.sym.get_or_insert_with(|| vec![0; n]);
        s[o] = e;
        self.data[o] = 0;
    }
}

const CH: usize = 32;

#[derive(Clone)]
pub struct Heap {
    chunks: Vec<Rc<Vec<Rc<Obj>>>>,
    pub n: usize,
}

impl Heap {
    pub fn new() -> Heap {
        Heap {
            chunks: Vec::new(),
            n: 0,
        }
    }
    pub fn push(&mut self, o: Rc<Obj>) -> usize {
        let i = self.n;
        if i % CH == 0 {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(&mut self.chunks[i / CH]).push(o);
        self.n += 1;
        i
    }
    #[inline]
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        self.chunks.get(i / CH).and_then(|c| c.get(i % CH))
    }
    #[inline]
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Rc<Obj>> {
        match self.chunks.get_mut(i / CH) {
            Some(c) => Rc::make_mut(c).get_mut(i % CH),
            None => None,
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<V>,
    pub bb: u32,
    pub ip: u32,
    pub prev: u32,
    /// where the caller wants the result
    pub dst: u32,
    /// block to continue at in the caller (invoke), or NONE
    pub normal: u32,
    pub stack_base: u32,
}

#[derive(Clone, Debug)]
pub enum Inp {
    Bytes(u32, u32),
    Choice(u64),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub stack: Vec<Rc<Obj>>,
    pub heap: Heap,
    pub globals: Vec<(u32, Rc<Obj>)>,
    pub pc: Vec<E>,
    pub model: Rc<crate::expr::Model>,
    pub nvars: u32,
    pub log: Vec<Inp>,
    pub obs: Vec<V>,
    pub steps: u64,
    pub expect_panic: bool,
    pub time_ns: u64,
    pub depth: u32,
}
