//! Object memory: every object lives in its own 16 MiB slot, so that an out-of-bounds or dangling
//! access never lands in another object. Each byte is concrete, undefined or symbolic.
use crate::expr::*;
use crate::ir::{GLOB_BASE, SLOT};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub const HEAP_BASE: u64 = 0x1000_0000_0000;
pub const STACK_BASE: u64 = 0x2000_0000_0000;
pub const END: u64 = 0x4000_0000_0000;

pub const CONC: u8 = 0;
pub const UNDEF: u8 = 1;
pub const SYM: u8 = 2;

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    /// symbolic size: `size` is then only the extent materialised so far
    pub size_e: Option<E>,
    pub align: u64,
    pub constant: bool,
    pub data: Vec<u8>,
    pub st: Vec<u8>,
    pub syms: BTreeMap<u32, E>,
}

impl Obj {
    pub fn new(base: u64, size: u64, align: u64) -> Obj {
        Obj { base, size, size_e: None, align, constant: false, data: vec![0; size as usize], st: vec![UNDEF; size as usize], syms: BTreeMap::new() }
    }
    pub fn grow(&mut self, n: u64) {
        if n > self.size {
            self.size = n;
            self.data.resize(n as usize, 0);
            self.st.resize(n as usize, UNDEF);
        }
    }
    pub fn put_conc(&mut self, off: usize, bytes: &[u8]) {
        self.data[off..off + bytes.len()].copy_from_slice(bytes);
        self.clear_sym(off, bytes.len());
        for s in &mut self.st[off..off + bytes.len()] {
            *s = CONC;
        }
    }
    pub fn put_undef(&mut self, off: usize, n: usize) {
        self.clear_sym(off, n);
        for s in &mut self.st[off..off + n] {
            *s = UNDEF;
        }
    }
    pub fn put_sym(&mut self, off: usize, e: E) {
        self.st[off] = SYM;
        self.syms.insert(off as u32, e);
    }
    fn clear_sym(&mut self, off: usize, n: usize) {
        if !self.syms.is_empty() {
            for i in off..off + n {
                if self.st[i] == SYM {
                    self.syms.remove(&(i as u32));
                }
            }
        }
    }
    pub fn all_conc(&self, off: usize, n: usize) -> bool {
        self.st[off..off + n].iter().all(|&s| s == CONC)
    }
}

#[derive(Clone)]
pub struct Mem {
    pub heap: Vec<(Option<Rc<Obj>>, u64)>,
    pub stack: Vec<Rc<Obj>>,
    pub globs: HashMap<u32, Rc<Obj>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Place {
    Heap(usize),
    Stack(usize),
    Glob(u32),
}

impl Mem {
    pub fn new() -> Mem {
        Mem { heap: vec![], stack: vec![], globs: HashMap::new() }
    }
    pub fn place(addr: u64) -> Option<Place> {
        if addr >= HEAP_BASE && addr < STACK_BASE {
            Some(Place::Heap(((addr - HEAP_BASE) / SLOT) as usize))
        } else if addr >= STACK_BASE && addr < GLOB_BASE {
            Some(Place::Stack(((addr - STACK_BASE) / SLOT) as usize))
        } else if addr >= GLOB_BASE && addr < END {
            Some(Place::Glob(((addr - GLOB_BASE) / SLOT) as u32))
        } else {
            None
        }
    }
    pub fn alloc(&mut self, size: u64, size_e: Option<E>, align: u64) -> u64 {
        let slot = HEAP_BASE + self.heap.len() as u64 * SLOT;
        // aligned to exactly `align`
        let base = slot + (4096u64.max(2 * align)) + align;
        let mut o = Obj::new(base, if size_e.is_some() { 0 } else { size }, align);
        o.size_e = size_e;
        self.heap.push((Some(Rc::new(o)), size));
        base
    }
    pub fn push_stack(&mut self, size: u64, align: u64) -> u64 {
        let slot = STACK_BASE + self.stack.len() as u64 * SLOT;
        let base = slot + (4096u64.max(2 * align)) + align;
        self.stack.push(Rc::new(Obj::new(base, size, align)));
        base
    }
}
