use std::arch::asm;

extern "C" {
    fn __errno_location() -> *mut i32;
}

pub unsafe fn syscall6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n as i64 => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

pub unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        fail(-r as i32)
    } else {
        r
    }
}

pub unsafe fn fail(errno: i32) -> i64 {
    *__errno_location() = errno;
    -1
}

pub unsafe fn exit(code: i32) -> ! {
    loop {
        syscall6(231, code as usize, 0, 0, 0, 0, 0);
    }
}
