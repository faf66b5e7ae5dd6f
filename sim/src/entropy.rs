//! Seam over process entropy. std's RandomState (HashMap iteration order) asks
//! libc's getrandom; `rand::thread_rng` (behind `iodyn::inc_level`) asks
//! libc's syscall. The simulator defines both symbols itself, so what they deliver is a
//! function of the run's seed, and delivery can be made to fail the way a
//! kernel's does: interrupted calls and short reads.
use std::cell::Cell;
thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0x1234_5678_9abc_def1) };
    static MODE: Cell<u64> = const { Cell::new(0) };
    static FAULTED: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

pub fn seed_thread(seed: u64) { STATE.with(|s| s.set(seed ^ 0xA5A5_5A5A_0F0F_F0F0)); MODE.with(|m| m.set(0)); FAULTED.with(|m| m.set((0, 0))); }
/// bit 0: calls are interrupted now and then; bit 1: reads are short now and then
pub fn set_mode(m: u64) { MODE.with(|x| x.set(m)); }
/// interrupted calls and short reads so far
#[allow(dead_code)]
pub fn faulted() -> (u64, u64) { FAULTED.with(|f| f.get()) }

unsafe fn fill(buf: *mut u8, len: usize) {
    let mut x = STATE.try_with(|s| s.get()).unwrap_or(1);
    for i in 0..len { *buf.add(i) = (crate::rng::splitmix(&mut x) >> 17) as u8; }
    let _ = STATE.try_with(|s| s.set(x));
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize { fill(buf, len); len as isize }

#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
mod call {
    use super::*;
    extern "C" { fn __errno_location() -> *mut i32; }
    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
        if n == 318 {
            // getrandom
            let mode = MODE.try_with(|m| m.get()).unwrap_or(0);
            let mut coin = STATE.try_with(|s| s.get()).unwrap_or(1) ^ 0x77;
            let coin = crate::rng::splitmix(&mut coin);
            let mut len = b;
            if mode & 1 != 0 && coin % 3 == 0 {
                let _ = FAULTED.try_with(|x| { let v = x.get(); x.set((v.0 + 1, v.1)) });
                let _ = STATE.try_with(|s| s.set(s.get().wrapping_add(0x9E37_79B9)));
                *__errno_location() = 4;
                return -1;
            }
            if mode & 2 != 0 && b > 1 && coin & 8 == 0 {
                len = 1 + (coin >> 20) as usize % (b - 1);
                let _ = FAULTED.try_with(|x| { let v = x.get(); x.set((v.0, v.1 + 1)) });
            }
            fill(a as *mut u8, len);
            return len as i64;
        }
        let r: i64;
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
            lateout("rcx") _, lateout("r11") _, options(nostack));
        if (-4095..0).contains(&r) { *__errno_location() = -r as i32; -1 } else { r }
    }
}
