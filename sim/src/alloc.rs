//! Counting allocator: attributes every block to the code that asked for it
//! (the library, or the harness) and keeps the library's live bytes per thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

#[global_allocator]
static A: Counting = Counting;

fn hdr(l: &Layout) -> usize {
    l.align().max(16)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = hdr(&l);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + h, h));
        if p.is_null() {
            return p;
        }
        let tag = IN_LIB.with(|c| c.get());
        *(p as *mut u64) = tag as u64;
        if tag {
            LIVE.with(|c| c.set(c.get() + l.size() as i64));
        }
        p.add(h)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = hdr(&l);
        let b = p.sub(h);
        if *(b as *mut u64) == 1 {
            LIVE.with(|c| c.set(c.get() - l.size() as i64));
        }
        System.dealloc(b, Layout::from_size_align_unchecked(l.size() + h, h));
    }
}

pub fn in_lib() -> bool {
    IN_LIB.with(|c| c.get())
}

/// Bytes the library holds on this thread.
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}

/// Marks the dynamic extent of library code; restores on unwinding too.
pub struct Scope(bool);

impl Scope {
    pub fn lib() -> Scope {
        Scope(IN_LIB.with(|c| c.replace(true)))
    }
    pub fn harness() -> Scope {
        Scope(IN_LIB.with(|c| c.replace(false)))
    }
}

impl Drop for Scope {
    fn drop(&mut self) {
        IN_LIB.with(|c| c.set(self.0));
    }
}
