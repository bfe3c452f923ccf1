//! Size-class free-list allocator; the analyser is single-threaded.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
const STEP: usize = 16;
const MAXC: usize = 64; // up to 1 KiB
const CHUNK: usize = 1 << 20;
struct S {
    free: [*mut u8; MAXC + 1],
    cur: *mut u8,
    end: *mut u8,
    held: usize,
}
pub struct A(UnsafeCell<S>);
unsafe impl Sync for A {}
impl A {
    pub const fn new() -> A {
        A(UnsafeCell::new(S { free: [std::ptr::null_mut(); MAXC + 1], cur: std::ptr::null_mut(), end: std::ptr::null_mut(), held: 0 }))
    }
    /// bytes taken from the system
    pub fn held(&self) -> usize {
        unsafe { (*self.0.get()).held }
    }
}
unsafe impl GlobalAlloc for A {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = (l.size() + STEP - 1) / STEP;
        if c > MAXC || l.align() > STEP {
            (*self.0.get()).held += l.size();
            return System.alloc(l);
        }
        let s = &mut *self.0.get();
        let p = s.free[c];
        if !p.is_null() {
            s.free[c] = *(p as *mut *mut u8);
            return p;
        }
        let n = c * STEP;
        if (s.end as usize) - (s.cur as usize) < n {
            let b = System.alloc(Layout::from_size_align_unchecked(CHUNK, STEP));
            if b.is_null() {
                return b;
            }
            s.held += CHUNK;
            s.cur = b;
            s.end = b.add(CHUNK);
        }
        let p = s.cur;
        s.cur = p.add(n);
        p
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let c = (l.size() + STEP - 1) / STEP;
        if c > MAXC || l.align() > STEP {
            let s = &mut *self.0.get();
            s.held = s.held.saturating_sub(l.size());
            return System.dealloc(p, l);
        }
        let s = &mut *self.0.get();
        *(p as *mut *mut u8) = s.free[c];
        s.free[c] = p;
    }
}
