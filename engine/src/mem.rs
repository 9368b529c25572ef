//! Byte-addressed, object-based copy-on-write memory. An address is (object id << 32) | offset.
use crate::expr::E;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub const HEAP0: u32 = 1 << 20;
const CH: usize = 64;

#[derive(Clone)]
pub struct Obj { pub b: Vec<u8>, pub sym: Option<Box<BTreeMap<u32, (E, u8)>>>, pub ro: bool }

impl Obj {
    pub fn new(n: usize) -> Obj { Obj { b: vec![0; n], sym: None, ro: false } }
    #[inline]
    pub fn has_sym(&self, o: u32, n: u32) -> bool {
        match &self.sym { None => false, Some(m) => m.range(o..o + n).next().is_some() }
    }
    pub fn clear_sym(&mut self, o: u32, n: u32) {
        if let Some(m) = &mut self.sym {
            let ks: Vec<u32> = m.range(o..o + n).map(|x| *x.0).collect();
            for k in ks { m.remove(&k); }
            if m.is_empty() { self.sym = None; }
        }
    }
    pub fn set_sym(&mut self, o: u32, e: E, i: u8) { self.sym.get_or_insert_with(Default::default).insert(o, (e, i)); }
}

#[derive(Clone)]
pub struct Mem { chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>, next: u32, pub gov: Rc<HashMap<u32, Rc<Obj>>>, pub live: u32 }

thread_local! { static EMPTY: Rc<Vec<Option<Rc<Obj>>>> = Rc::new(vec![]); }

impl Mem {
    pub fn new() -> Mem { Mem { chunks: vec![], next: 0, gov: Rc::new(HashMap::new()), live: 0 } }
    pub fn alloc(&mut self, n: usize) -> u32 {
        let i = self.next as usize;
        self.next += 1;
        self.live += 1;
        if i / CH >= self.chunks.len() { self.chunks.push(Rc::new(Vec::with_capacity(CH))); }
        let c = Rc::make_mut(&mut self.chunks[i / CH]);
        c.push(Some(Rc::new(Obj::new(n))));
        HEAP0 + i as u32
    }
    pub fn free(&mut self, id: u32) -> bool {
        if id < HEAP0 { return false; }
        let i = (id - HEAP0) as usize;
        if i >= self.next as usize { return false; }
        let c = Rc::make_mut(&mut self.chunks[i / CH]);
        self.live -= 1;
        let r = c[i % CH].take().is_some();
        if c.len() == CH && c.iter().all(|x| x.is_none()) { self.chunks[i / CH] = EMPTY.with(|e| e.clone()); }
        r
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Obj> {
        let i = (id.wrapping_sub(HEAP0)) as usize;
        self.chunks.get(i / CH)?.get(i % CH)?.as_deref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let i = (id.wrapping_sub(HEAP0)) as usize;
        let c = self.chunks.get_mut(i / CH)?;
        let c = Rc::make_mut(c);
        match c.get_mut(i % CH)? { Some(o) => Some(Rc::make_mut(o)), None => None }
    }
}
