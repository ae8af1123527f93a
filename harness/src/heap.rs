//! Global allocator that observes what the system under test does with memory.
//!
//! Every block has a header with its size, a serial number and whether it was
//! allocated by the system under test (while `SUT` is set). Frees of blocks
//! that are not live, or with another size than they were allocated with, are
//! counted and not performed. While `HOLD` is set, freed blocks are kept and
//! filled with a pattern, so that double frees are recognized for certain.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, AtomicU64, Ordering::Relaxed};

pub struct Heap;

static SUT: AtomicBool = AtomicBool::new(false);
static HOLD: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static SUT_LIVE: AtomicUsize = AtomicUsize::new(0);
static SUT_FP: AtomicU64 = AtomicU64::new(0);
static SUT_ALLOCS: AtomicUsize = AtomicUsize::new(0);
static BAD: AtomicUsize = AtomicUsize::new(0);
static SERIAL: AtomicU64 = AtomicU64::new(1);

const MAGIC: u64 = 0x5afe_b10c_5afe_b10c;
const DEAD: u64 = 0xdead_b10c_dead_b10c;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    serial: u64,
    sut: u64,
}
const HSIZE: usize = 32;

fn pre(align: usize) -> usize {
    if align > HSIZE { align } else { HSIZE }
}

fn mix(serial: u64, size: usize) -> u64 {
    let mut x = serial.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (size as u64);
    x ^= x >> 29;
    x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x ^ (x >> 32)
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = pre(l.align());
        let size = match l.size().checked_add(p) {
            Some(s) => s,
            None => return std::ptr::null_mut(),
        };
        let big = match Layout::from_size_align(size, l.align().max(16)) {
            Ok(b) => b,
            Err(_) => return std::ptr::null_mut(),
        };
        let raw = System.alloc(big);
        if raw.is_null() {
            // still record that this much was asked for
            let would = LIVE.load(Relaxed).saturating_add(l.size());
            PEAK.fetch_max(would, Relaxed);
            return raw;
        }
        let user = raw.add(p);
        let serial = SERIAL.fetch_add(1, Relaxed);
        let sut = SUT.load(Relaxed);
        let h = user.sub(HSIZE) as *mut Header;
        *h = Header { magic: MAGIC, size: l.size(), serial, sut: sut as u64 };
        let live = LIVE.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(live, Relaxed);
        if sut {
            SUT_LIVE.fetch_add(1, Relaxed);
            SUT_ALLOCS.fetch_add(1, Relaxed);
            SUT_FP.fetch_xor(mix(serial, l.size()), Relaxed);
        }
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        let p = pre(l.align());
        let h = user.sub(HSIZE) as *mut Header;
        if (*h).magic != MAGIC || (*h).size != l.size() {
            BAD.fetch_add(1, Relaxed);
            return;
        }
        (*h).magic = DEAD;
        LIVE.fetch_sub(l.size(), Relaxed);
        if (*h).sut != 0 {
            SUT_LIVE.fetch_sub(1, Relaxed);
            SUT_FP.fetch_xor(mix((*h).serial, l.size()), Relaxed);
        }
        if HOLD.load(Relaxed) {
            if l.size() < (1 << 20) {
                std::ptr::write_bytes(user, 0xdd, l.size());
            }
            return;
        }
        System.dealloc(
            user.sub(p),
            Layout::from_size_align_unchecked(l.size() + p, l.align().max(16)),
        );
    }
}

/// Run code of the system under test.
pub fn sut<T>(f: impl FnOnce() -> T) -> T {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) { SUT.store(self.0, Relaxed) }
    }
    let _reset = Reset(SUT.swap(true, Relaxed));
    f()
}

/// Run code of the harness which the system under test calls.
pub fn not_sut<T>(f: impl FnOnce() -> T) -> T {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) { SUT.store(self.0, Relaxed) }
    }
    let _reset = Reset(SUT.swap(false, Relaxed));
    f()
}

pub fn hold(on: bool) { HOLD.store(on, Relaxed) }
pub fn reset_peak() -> usize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}
pub fn peak() -> usize { PEAK.load(Relaxed) }
pub fn sut_live() -> usize { SUT_LIVE.load(Relaxed) }
pub fn sut_fp() -> u64 { SUT_FP.load(Relaxed) }
pub fn sut_allocs() -> usize { SUT_ALLOCS.load(Relaxed) }
pub fn bad() -> usize { BAD.load(Relaxed) }
