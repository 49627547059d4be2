//! Per-thread size-class cache over the system allocator: the explorer runs millions of tiny cases
//! per second on all cores, and the system allocator's shared arena would serialize them.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

const CLASS: usize = 16;
const CLASSES: usize = 64;
const SLAB: usize = 64 << 10;

struct Cache {
    free: [Cell<*mut u8>; CLASSES],
}

thread_local! {
    static CACHE: Cache = const { Cache { free: [const { Cell::new(std::ptr::null_mut()) }; CLASSES] } };
}

pub struct ThreadCache;

#[inline(always)]
fn class(l: &Layout) -> Option<usize> {
    if l.align() <= CLASS && l.size() > 0 && l.size() <= CLASS * CLASSES {
        Some((l.size() - 1) / CLASS)
    } else {
        None
    }
}

unsafe impl GlobalAlloc for ThreadCache {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(k) = class(&l) else {
            return unsafe { System.alloc(l) };
        };
        let size = (k + 1) * CLASS;
        CACHE
            .try_with(|c| unsafe {
                let p = c.free[k].get();
                if !p.is_null() {
                    c.free[k].set(*(p as *mut *mut u8));
                    return p;
                }
                let slab = System.alloc(Layout::from_size_align_unchecked(SLAB, CLASS));
                if slab.is_null() {
                    return slab;
                }
                let n = SLAB / size;
                let mut head = std::ptr::null_mut();
                for i in (1..n).rev() {
                    let q = slab.add(i * size);
                    *(q as *mut *mut u8) = head;
                    head = q;
                }
                c.free[k].set(head);
                slab
            })
            .unwrap_or_else(|_| unsafe {
                System.alloc(Layout::from_size_align_unchecked(size, CLASS))
            })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let Some(k) = class(&l) else {
            return unsafe { System.dealloc(p, l) };
        };
        // Blocks of a class stay in the class; they are never returned to the system.
        let _ = CACHE.try_with(|c| unsafe {
            *(p as *mut *mut u8) = c.free[k].get();
            c.free[k].set(p);
        });
    }
}
