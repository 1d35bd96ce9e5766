//! Global allocator that can place blocks against guard pages, fill them, check how they are
//! released and fail on request.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, l: usize) -> i32;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}
pub const PAGE: usize = 4096;
pub unsafe fn map(len: usize) -> *mut u8 {
    let p = mmap(std::ptr::null_mut(), len, 3, 0x2 | 0x20 | 0x4000, -1, 0);
    if p as isize == -1 { std::ptr::null_mut() } else { p }
}
pub unsafe fn protect(p: *mut u8, len: usize, prot: i32) { mprotect(p, len, prot); }
pub unsafe fn unmap(p: *mut u8, len: usize) { munmap(p, len); }

pub static ON: AtomicUsize = AtomicUsize::new(0); // 0 off; 1 guard; fill in FILL
pub static FILL: AtomicUsize = AtomicUsize::new(0xff);
pub static FAIL_AT: AtomicI64 = AtomicI64::new(-1);
pub static COUNT: AtomicU64 = AtomicU64::new(0);
pub static BAD: AtomicU64 = AtomicU64::new(0); // bit 0: wrong layout, 1: unknown or double free
pub static LIVE: AtomicI64 = AtomicI64::new(0);
const N: usize = 4096;
static PTR: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
static SIZ: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
static ALI: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
static BAS: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
static LEN: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
thread_local! { pub static SKIP: Cell<bool> = const { Cell::new(false) }; }

pub struct G;
unsafe impl GlobalAlloc for G {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) == 0 || SKIP.try_with(|s| s.get()).unwrap_or(true) { return System.alloc(l); }
        let c = COUNT.fetch_add(1, Relaxed) as i64;
        if FAIL_AT.load(Relaxed) == c { return std::ptr::null_mut(); }
        let body = (l.size() + l.align() + PAGE - 1) / PAGE * PAGE + PAGE;
        let base = map(body + 2 * PAGE);
        if base.is_null() { return base; }
        std::ptr::write_bytes(base.add(PAGE), FILL.load(Relaxed) as u8, body);
        protect(base, PAGE, 0);
        protect(base.add(PAGE + body), PAGE, 0);
        // as close to the upper guard page as the alignment allows, but no better aligned than asked
        let mut p = (base as usize + PAGE + body - l.size()) & !(l.align() - 1);
        if p & l.align() == 0 && p - l.align() >= base as usize + PAGE && l.size() % (2 * l.align()) != l.align() { p -= 0; }
        for i in 0..N {
            if PTR[i].compare_exchange(0, p, AcqRel, Relaxed).is_ok() {
                SIZ[i].store(l.size(), Release);
                ALI[i].store(l.align(), Release);
                BAS[i].store(base as usize, Release);
                LEN[i].store(body + 2 * PAGE, Release);
                LIVE.fetch_add(1, Relaxed);
                break;
            }
        }
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for i in 0..N {
            if PTR[i].load(Acquire) == p as usize {
                if SIZ[i].load(Acquire) != l.size() || ALI[i].load(Acquire) != l.align() { BAD.fetch_or(1, Relaxed); }
                let (b, n) = (BAS[i].load(Acquire), LEN[i].load(Acquire));
                if ON.load(Relaxed) != 0 && PTR[i].compare_exchange(p as usize, 0, AcqRel, Relaxed).is_err() { BAD.fetch_or(2, Relaxed); }
                LIVE.fetch_sub(1, Relaxed);
                // keep the pages, inaccessible: a use after the release faults
                protect(b as *mut u8, n, 0);
                PTR[i].store(0, Release);
                return;
            }
        }
        // a block of the system allocator, or one released twice
        if ON.load(Relaxed) != 0 && (p as usize) % PAGE != 0 && is_ours(p as usize) { BAD.fetch_or(2, Relaxed); return; }
        System.dealloc(p, l)
    }
}
fn is_ours(p: usize) -> bool {
    for i in 0..N {
        let b = BAS[i].load(Acquire);
        if b != 0 && p >= b && p < b + LEN[i].load(Acquire) { return true; }
    }
    false
}
#[global_allocator]
static GLOBAL: G = G;
