//! An allocator that can keep freed blocks until the end of a case, so that a
//! use after free is seen as a use of something that was dropped instead of
//! undefined behaviour.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Block {
    ptr: *mut u8,
    layout: Layout,
    next: *mut Block,
}

pub struct Quarantine;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static HEAD: Cell<*mut Block> = const { Cell::new(std::ptr::null_mut()) };
}

unsafe impl GlobalAlloc for Quarantine {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if ON.try_with(|o| o.get()).unwrap_or(false) {
            let b = System.alloc(Layout::new::<Block>()) as *mut Block;
            if !b.is_null() {
                HEAD.with(|h| {
                    *b = Block { ptr, layout, next: h.get() };
                    h.set(b);
                });
                return;
            }
        }
        System.dealloc(ptr, layout)
    }
}

/// runs a case; memory it frees is only released afterwards
pub fn held<R>(f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
            let mut b = HEAD.with(|h| h.replace(std::ptr::null_mut()));
            // a block that was freed twice is released once
            let mut seen = std::collections::HashSet::new();
            while !b.is_null() {
                unsafe {
                    let Block { ptr, layout, next } = std::ptr::read(b);
                    System.dealloc(b as *mut u8, Layout::new::<Block>());
                    if seen.insert(ptr as usize) {
                        System.dealloc(ptr, layout);
                    }
                    b = next;
                }
            }
        }
    }
    ON.with(|o| o.set(true));
    let _off = Off;
    f()
}
