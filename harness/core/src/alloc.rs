//! A global allocator that looks at one watched block at the moment it is given back.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub struct Spy;
static PTR: AtomicUsize = AtomicUsize::new(0);
static LEN: AtomicUsize = AtomicUsize::new(0);
/// 0: still allocated, 1: freed and all zero, 2: freed with contents.
static STATE: AtomicUsize = AtomicUsize::new(0);

fn look(p: *mut u8) {
    if p as usize == PTR.load(SeqCst) {
        let n = LEN.load(SeqCst);
        let dirty = (0..n).any(|i| unsafe { std::ptr::read_volatile(p.add(i)) } != 0);
        STATE.store(if dirty { 2 } else { 1 }, SeqCst);
        PTR.store(0, SeqCst);
    }
}

unsafe impl GlobalAlloc for Spy {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        look(p);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        look(p);
        unsafe { System.realloc(p, l, n) }
    }
}

/// Watch the block that starts at this slice.
pub fn watch(b: &[u8]) {
    STATE.store(0, SeqCst);
    LEN.store(b.len(), SeqCst);
    PTR.store(if b.is_empty() { 0 } else { b.as_ptr() as usize }, SeqCst);
    if b.is_empty() {
        STATE.store(1, SeqCst);
    }
}

pub fn check(what: &str) -> Result<(), String> {
    PTR.store(0, SeqCst);
    match STATE.load(SeqCst) {
        1 => Ok(()),
        2 => Err(format!("the memory of {what} is given back with the secret still in it")),
        _ => Err(format!("the memory of {what} outlives it")),
    }
}
