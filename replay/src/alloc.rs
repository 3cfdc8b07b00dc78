//! An allocator that gives align-1 requests odd addresses, as the on-chain bump
//! allocator may: code must not rely on byte buffers being aligned.
use std::alloc::{GlobalAlloc, Layout, System};
pub struct Odd;
unsafe impl GlobalAlloc for Odd {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() == 1 {
            let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 1, 2));
            if p.is_null() { p } else { p.add(1) }
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() == 1 {
            System.dealloc(p.sub(1), Layout::from_size_align_unchecked(l.size() + 1, 2))
        } else {
            System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static A: Odd = Odd;
