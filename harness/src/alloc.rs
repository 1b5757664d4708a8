//! Counts the bytes in use, for the leak checks, and overwrites freed memory
//! so that using it afterwards shows.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};

pub struct Counting;

static LIVE: AtomicI64 = AtomicI64::new(0);
pub static ON: AtomicBool = AtomicBool::new(false);

pub fn live() -> i64 {
  LIVE.load(Ordering::SeqCst)
}

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    if ON.load(Ordering::Relaxed) {
      LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
    }
    System.alloc(l)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    if ON.load(Ordering::Relaxed) {
      LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
    }
    System.alloc_zeroed(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    if ON.load(Ordering::Relaxed) {
      LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
      std::ptr::write_bytes(p, 0xdb, l.size().min(4096));
    }
    System.dealloc(p, l)
  }
}
