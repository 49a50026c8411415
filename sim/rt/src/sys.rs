//! Raw system calls (no libc wrappers: several libc symbols are interposed by
//! the seam, see `seam.rs`).
use std::arch::asm;

pub const SYS_MMAP: usize = 9;
pub const SYS_FUTEX: usize = 202;
pub const SYS_CLOCK_GETTIME: usize = 228;
pub const SYS_EXIT_GROUP: usize = 231;
pub const SYS_GETRANDOM: usize = 318;

/// # Safety
/// As the system call itself.
#[inline]
pub unsafe fn sc6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        sc6(SYS_EXIT_GROUP, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}

const PROT_RW: usize = 3;

/// Anonymous shared mapping, zero filled.
pub fn map_shared(len: usize) -> *mut u8 {
    let r = unsafe { sc6(SYS_MMAP, 0, len, PROT_RW, 0x21 | 0x4000, usize::MAX, 0) };
    assert!(r > 0, "mmap shared failed: {r}");
    r as *mut u8
}

/// Anonymous private mapping at a fixed address, not reserved.
pub fn map_fixed(at: usize, len: usize) -> bool {
    // MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE
    let r = unsafe { sc6(SYS_MMAP, at, len, PROT_RW, 0x2 | 0x20 | 0x4000 | 0x100000, usize::MAX, 0) };
    r as usize == at
}

pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe {
        sc6(SYS_FUTEX, addr as usize, 0x80, val as usize, 0, 0, 0);
    }
}

pub fn futex_wake(addr: *const u32) {
    unsafe {
        sc6(SYS_FUTEX, addr as usize, 0x81, i32::MAX as usize, 0, 0, 0);
    }
}
