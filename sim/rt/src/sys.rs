//! Raw system calls: what the harness itself needs from the kernel, by-passing
//! the interposed symbols that the code under test sees.
use core::arch::asm;

#[inline(always)]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub fn write_fd(fd: i32, buf: &[u8]) {
    let mut off = 0;
    while off < buf.len() {
        let r = unsafe { sys6(1, fd as i64, buf[off..].as_ptr() as i64, (buf.len() - off) as i64, 0, 0, 0) };
        if r <= 0 {
            if r == -4 {
                continue;
            }
            return;
        }
        off += r as usize;
    }
}

pub fn out(s: &str) {
    write_fd(1, s.as_bytes());
}
pub fn err(s: &str) {
    write_fd(2, s.as_bytes());
}

/// Real monotonic time in nanoseconds (used for wall-clock caps and reports only).
pub fn real_mono_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { sys6(228, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        sys6(231, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}

pub unsafe fn futex_wait(a: *const u32, val: u32) {
    sys6(202, a as i64, 128, val as i64, 0, 0, 0);
}
pub unsafe fn futex_wake(a: *const u32, n: i64) {
    sys6(202, a as i64, 129, n, 0, 0, 0);
}

pub unsafe fn mmap(addr: usize, len: usize, flags: i32) -> usize {
    // PROT_READ|PROT_WRITE
    let r = sys6(9, addr as i64, len as i64, 3, flags as i64, -1, 0);
    if r < 0 && r > -4096 {
        err("icalsim: mmap failed\n");
        exit_now(2);
    }
    r as usize
}

pub unsafe fn munmap(addr: usize, len: usize) {
    sys6(11, addr as i64, len as i64, 0, 0, 0, 0);
}
