//! Seam over the clock: the harness measures with `time::precise_time_ns`, which
//! asks libc's clock_gettime. The simulator defines that symbol itself. While a
//! history runs, time stands still except where the simulator moves it: user
//! callbacks take time, and reads of the clock may find that it jumped.
use std::cell::Cell;
#[repr(C)]
pub struct Timespec { sec: i64, nsec: i64 }
extern "C" { fn syscall(num: i64, ...) -> i64; }

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<u64> = const { Cell::new(0) };
    static JUMP: Cell<(u64, u64)> = const { Cell::new((0, 0)) }; // reads left, jump size
    static READS: Cell<u64> = const { Cell::new(0) };
}
pub fn start(at: u64) { NOW.with(|n| n.set(at)); JUMP.with(|j| j.set((0, 0))); ON.with(|o| o.set(true)); }
pub fn stop() { ON.with(|o| o.set(false)) }
pub fn now() -> u64 { NOW.with(|n| n.get()) }
pub fn reads() -> u64 { READS.with(|n| n.get()) }
pub fn advance(d: u64) { NOW.with(|n| n.set(n.get() + d)) }
/// the clock jumps forward by `by` at the `reads`-th read from now
pub fn jump(reads: u64, by: u64) { JUMP.with(|j| j.set((reads + 1, by))) }

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        let _ = READS.try_with(|n| n.set(n.get() + 1));
        let (left, by) = JUMP.try_with(|j| j.get()).unwrap_or((0, 0));
        if left > 0 {
            let _ = JUMP.try_with(|j| j.set((left - 1, by)));
            if left == 1 { advance(by); }
        }
        let n = NOW.try_with(|n| n.get()).unwrap_or(0);
        (*ts).sec = (n / 1_000_000_000) as i64;
        (*ts).nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    syscall(228, id as i64, ts) as i32 // SYS_clock_gettime
}
