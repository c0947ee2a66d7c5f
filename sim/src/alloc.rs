//! Global allocator seam: tags and counts what the code under test allocates, poisons freed
//! blocks, holds them back for a while, and notices double frees.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;

const LIVE: u32 = 0xA110_C8ED;
const DEAD: u32 = 0xDEAD_F2EE;

pub static TAGGED_BYTES: AtomicI64 = AtomicI64::new(0);
pub static TAGGED_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static TAGGED_TOTAL: AtomicU64 = AtomicU64::new(0);
pub static BAD_FREE: AtomicUsize = AtomicUsize::new(0);
pub static QUARANTINE: AtomicBool = AtomicBool::new(false);

const RING: usize = 512;
struct Q {
    lock: AtomicBool,
    ring: std::cell::UnsafeCell<([(*mut u8, usize); RING], usize)>,
}
unsafe impl Sync for Q {}
static Q: Q = Q {
    lock: AtomicBool::new(false),
    ring: std::cell::UnsafeCell::new(([(std::ptr::null_mut(), 0); RING], 0)),
};

#[repr(C)]
struct Hdr {
    magic: u32,
    tag: u32,
    size: u64,
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 {
            return System.alloc(l);
        }
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 16, 16));
        if p.is_null() {
            return p;
        }
        let _n = crate::pre::hold();
        let tag = crate::ctl::in_cut();
        let h = p as *mut Hdr;
        (*h).magic = LIVE;
        (*h).tag = tag as u32;
        (*h).size = l.size() as u64;
        if tag {
            TAGGED_BYTES.fetch_add(l.size() as i64, Relaxed);
            TAGGED_BLOCKS.fetch_add(1, Relaxed);
            TAGGED_TOTAL.fetch_add(1, Relaxed);
            crate::ctl::note_alloc(l.size());
        }
        p.add(16)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > 16 {
            return System.dealloc(p, l);
        }
        let _n = crate::pre::hold();
        let b = p.sub(16);
        let h = b as *mut Hdr;
        if (*h).magic != LIVE || (*h).size != l.size() as u64 {
            // double free, or a free with the wrong size: keep the block, note it
            BAD_FREE.fetch_add(1, Relaxed);
            return;
        }
        (*h).magic = DEAD;
        if (*h).tag != 0 {
            TAGGED_BYTES.fetch_sub(l.size() as i64, Relaxed);
            TAGGED_BLOCKS.fetch_sub(1, Relaxed);
        }
        std::ptr::write_bytes(p, 0xDE, l.size());
        let mut out = (b, l.size() + 16);
        if l.size() <= 2048 && QUARANTINE.load(Relaxed) {
            while Q.lock.swap(true, std::sync::atomic::Ordering::Acquire) {
                std::hint::spin_loop();
            }
            let r = &mut *Q.ring.get();
            let i = r.1;
            std::mem::swap(&mut r.0[i], &mut out);
            r.1 = (i + 1) % RING;
            Q.lock.store(false, std::sync::atomic::Ordering::Release);
        }
        if !out.0.is_null() {
            System.dealloc(out.0, Layout::from_size_align_unchecked(out.1, 16));
        }
    }
}
