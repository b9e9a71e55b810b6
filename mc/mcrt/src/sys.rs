//! Raw system calls (not routed through the interposed libc symbols).
use std::arch::asm;

#[inline]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn futex_wait(p: *const u32, v: u32) {
    unsafe {
        raw6(202, p as i64, 128, v as i64, 0, 0, 0);
    }
}
pub fn futex_wake(p: *const u32, n: i32) {
    unsafe {
        raw6(202, p as i64, 129, n as i64, 0, 0, 0);
    }
}
pub fn exit_now(code: i32) -> ! {
    loop {
        unsafe {
            raw6(231, code as i64, 0, 0, 0, 0, 0);
        }
    }
}
/// Pin the calling thread (children inherit it).
pub fn pin(cpu: usize) {
    let mut m = [0u64; 16];
    m[cpu / 64] = 1 << (cpu % 64);
    unsafe {
        raw6(203, 0, 128, m.as_ptr() as i64, 0, 0, 0);
    }
}
/// real monotonic seconds
pub fn real_now() -> f64 {
    let mut ts = [0i64; 2];
    unsafe {
        raw6(228, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0);
    }
    ts[0] as f64 + ts[1] as f64 / 1e9
}
/// resident set size in MB
pub fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4096 / 1_000_000)
        .unwrap_or(0)
}
pub fn gettid() -> i64 {
    unsafe { raw6(186, 0, 0, 0, 0, 0, 0) }
}
/// wait until a thread of this process has ended
pub fn wait_gone(tid: i64) {
    unsafe {
        let pid = raw6(39, 0, 0, 0, 0, 0, 0);
        let mut n = 0u32;
        while raw6(234, pid, tid, 0, 0, 0, 0) == 0 {
            n += 1;
            if n > 50 {
                raw6(24, 0, 0, 0, 0, 0, 0);
            } else {
                std::hint::spin_loop();
            }
        }
    }
}
