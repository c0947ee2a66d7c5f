//! Preemption anywhere: in the build `pre` the compiler calls these functions at every edge
//! between basic blocks and at every load and store, so a task can lose the baton there and not
//! only at callbacks and reference-count operations.
//! (Functions named `__sanitizer_*` are not instrumented themselves.)
use crate::ctl::*;

/// mean distance between preemptions in this run; 0: none; MAX: as recorded
static mut MEAN: u32 = 0;

pub fn start(cfg: &crate::plan::Cfg, replay: bool) {
    let on = cfg.build == crate::plan::B_PRE && cfg.ntasks > 1 && crate::sup::my_build() == crate::plan::B_PRE;
    let m = match (on, replay) {
        (false, _) => 0,
        (true, true) => u32::MAX,
        (true, false) => [0, 40, 150, 500, 1500, 5000][(cfg.sched_seed >> 7) as usize % 6],
    };
    unsafe { MEAN = m }
}

/// a new operation: how far it gets
pub fn begin_op() {
    let m = unsafe { MEAN };
    if m != 0 {
        let _c = set_cut(false);
        tl(|t| t.blocks.set(0));
        if m != u32::MAX {
            // half of the operations are left alone
            let d = match g().s.rng.below(8) {
                0..4 => 0,
                4..7 => 8 * m,
                _ => m,
            };
            tl(|t| t.pmean.set(d))
        }
        next(0)
    }
}
fn next(from: u32) {
    let m = unsafe { MEAN };
    let n = match m {
        0 => 0,
        u32::MAX => g().s.replay.as_ref().map_or(0, |r| {
            // the next recorded point of this operation
            let uid = tl(|t| t.uid.get());
            r.keys().filter(|k| k.0 == uid && k.1 > (PRE | from) && k.0 < 1 << 30).map(|k| k.1 & !PRE).min().unwrap_or(0)
        }),
        _ => match tl(|t| t.pmean.get()) {
            0 => 0,
            m => from + 1 + g().s.rng.below(2 * m as u64) as u32,
        },
    };
    tl(|t| t.pnext.set(n))
}

/// while it lives, nothing counts
pub struct Hold(bool);
#[inline]
pub fn hold() -> Hold {
    if unsafe { MEAN } == 0 {
        return Hold(false);
    }
    Hold(TL.try_with(|t| t.hold.set(t.hold.get() + 1)).is_ok())
}
impl Drop for Hold {
    #[inline]
    fn drop(&mut self) {
        if self.0 {
            let _ = TL.try_with(|t| t.hold.set(t.hold.get() - 1));
        }
    }
}

/// this thread runs a task that can be preempted anywhere
pub fn enter() {
    #[cfg(lcc_pre)]
    if unsafe { MEAN } != 0 {
        let p = tl(|t| t as *const Tl as usize);
        unsafe { std::arch::asm!("mov qword ptr fs:[lccsim_pre_tl@tpoff], {}", in(reg) p) }
    }
}
pub fn leave() {
    #[cfg(lcc_pre)]
    unsafe {
        std::arch::asm!("mov qword ptr fs:[lccsim_pre_tl@tpoff], {}", in(reg) 0usize)
    }
}

#[cfg(lcc_pre)]
mod calls {
    use super::*;
    // a thread-local variable that can be read without calling anything that is instrumented
    std::arch::global_asm!(
        ".section .tbss.lccsim_pre_tl,\"awT\",@nobits",
        ".globl lccsim_pre_tl",
        ".balign 8",
        "lccsim_pre_tl: .zero 8",
        ".size lccsim_pre_tl, 8",
        ".type lccsim_pre_tl, @object",
        ".text",
    );
    macro_rules! point {
        () => {
            unsafe {
                let p: *const Tl;
                std::arch::asm!("mov {}, qword ptr fs:[lccsim_pre_tl@tpoff]", out(reg) p, options(nostack, readonly, preserves_flags));
                if p as usize == 0 {
                    return;
                }
                let cut = &raw const (*p).cut as *const bool;
                let hold = &raw const (*p).hold as *const u32;
                let quiet = &raw const (*p).quiet as *const u32;
                let blocks = &raw const (*p).blocks as *mut u32;
                let next = &raw const (*p).pnext as *const u32;
                if !*cut || *hold > 0 || *quiet > 0 {
                    return;
                }
                let n = (*blocks).wrapping_add(1);
                *blocks = n;
                if n == *next {
                    *(hold as *mut u32) = 1;
                    slow(n);
                    *(hold as *mut u32) = 0
                }
            }
        };
    }
    #[cold]
    #[inline(never)]
    fn slow(n: u32) {
        let _c = set_cut(false);
        preempt(n);
        next(n)
    }

    #[no_mangle]
    extern "C" fn __sanitizer_cov_trace_pc() {
        point!()
    }
    macro_rules! access {
        ($($f:ident)*) => { $(
            #[no_mangle]
            extern "C" fn $f(_: *const u8) {
                point!()
            }
        )* };
    }
    access! {
        __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
        __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    }
}
