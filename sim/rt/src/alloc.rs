//! Deterministic heap: size-class free lists in one region at a fixed address,
//! so that the addresses the code under test sees are a function of the run.
//! Every allocation made by a simulated thread is a seam event.
use core::alloc::{GlobalAlloc, Layout};
use core::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

pub struct SimAlloc;
const BASE: usize = 0x6000_0000_0000;
const SIZE: usize = 16 << 30;
static LOCK: AtomicBool = AtomicBool::new(false);
static INIT: AtomicBool = AtomicBool::new(false);
static mut NEXT: usize = BASE;
static mut FREE: [usize; 40] = [0; 40];
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
/// The most there was since it was last set to LIVE.
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
/// All that was ever asked for.
pub static TOTAL: AtomicU64 = AtomicU64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);

#[inline]
fn class(l: &Layout) -> usize {
    let n = l.size().max(l.align()).max(16);
    (usize::BITS - (n - 1).leading_zeros()) as usize
}

/// Give a new run a heap of its own, so that the addresses it sees do not depend
/// on what this worker did before.
pub fn rebase() {
    unsafe {
        NEXT = BASE + (1 << 30);
        FREE = [0; 40];
        OLD = 0;
    }
}

static mut OLD: usize = 0;
/// What exists now is shared from now on: new blocks come from elsewhere.
pub fn freeze() {
    unsafe {
        FREE = [0; 40];
        OLD = NEXT;
    }
}
#[inline(always)]
pub fn is_old(a: usize) -> bool {
    unsafe { a >= BASE && a < OLD }
}

unsafe fn raw_alloc(l: Layout) -> *mut u8 {
    let c = class(&l);
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        core::hint::spin_loop();
    }
    if !INIT.load(Relaxed) {
        // MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
        crate::sys::mmap(BASE, SIZE, 0x2 | 0x20 | 0x4000 | 0x100000);
        INIT.store(true, Relaxed);
    }
    let p = if FREE[c] != 0 {
        let p = FREE[c];
        FREE[c] = *(p as *const usize);
        p
    } else {
        let sz = 1usize << c;
        let p = (NEXT + l.align() - 1) & !(l.align() - 1);
        if p + sz > BASE + SIZE {
            LOCK.store(false, Release);
            return core::ptr::null_mut();
        }
        NEXT = p + sz;
        p
    };
    // under the lock
    TOTAL.fetch_add(l.size() as u64, Relaxed);
    let now = LIVE.fetch_add(1usize << c, Relaxed) + (1usize << c);
    if now > PEAK.load(Relaxed) {
        PEAK.store(now, Relaxed);
    }
    LOCK.store(false, Release);
    p as *mut u8
}

unsafe fn raw_free(p: *mut u8, l: Layout) {
    let c = class(&l);
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        core::hint::spin_loop();
    }
    *(p as *mut usize) = FREE[c];
    FREE[c] = p as usize;
    LIVE.fetch_sub(1usize << c, Relaxed);
    LOCK.store(false, Release);
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::on_alloc(l.size());
        raw_alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        raw_free(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        crate::sched::on_alloc(n);
        let nl = Layout::from_size_align_unchecked(n, l.align());
        if class(&l) == class(&nl) {
            return p;
        }
        let q = raw_alloc(nl);
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            raw_free(p, l);
        }
        q
    }
}
