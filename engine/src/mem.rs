//! Copy-on-write object memory with per-byte symbolic contents.
use crate::expr::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// empty, or one entry per byte (0 = concrete)
    pub sym: Vec<E>,
    pub ro: bool,
    pub heap: bool,
}
pub type Page = [Option<Rc<Obj>>; 64];

#[derive(Clone)]
pub struct Mem {
    base: u32,
    pages: Vec<Rc<Page>>,
    free: Rc<Vec<u32>>,
    next: u32,
}

pub fn empty_page() -> Page { std::array::from_fn(|_| None) }

impl Mem {
    pub fn new() -> Mem { Mem { base: 0, pages: vec![], free: Rc::new(vec![]), next: 0 } }
    pub fn set_next(&mut self, n: u32) { self.next = n; }
    pub fn put(&mut self, id: u32, o: Option<Rc<Obj>>) {
        let p = ((id - self.base) >> 6) as usize;
        while self.pages.len() <= p { self.pages.push(Rc::new(empty_page())); }
        Rc::make_mut(&mut self.pages[p])[(id & 63) as usize] = o;
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        let p = (id >> 6) as usize;
        self.pages.get(p)?[(id & 63) as usize].as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let p = (id >> 6) as usize;
        let pg = self.pages.get_mut(p)?;
        let s = Rc::make_mut(pg)[(id & 63) as usize].as_mut()?;
        Some(Rc::make_mut(s))
    }
    pub fn alloc(&mut self, size: usize, fill: u8, heap: bool) -> u32 {
        let id = if self.free.is_empty() {
            self.next += 1;
            self.next - 1
        } else {
            Rc::make_mut(&mut self.free).pop().unwrap()
        };
        self.put(id, Some(Rc::new(Obj { data: vec![fill; size], sym: vec![], ro: false, heap })));
        id
    }
    pub fn free_obj(&mut self, id: u32) {
        self.put(id, None);
        Rc::make_mut(&mut self.free).push(id);
    }
    pub fn live_heap(&self, from: u32) -> usize {
        let mut n = 0;
        for id in from..self.next { if let Some(o) = self.get(id) { if o.heap { n += 1; } } }
        n
    }
}
