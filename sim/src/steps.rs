//! Preemption inside library calls. In the build with scheduling points (see steps-rustc.sh, steps.c)
//! every basic block of the library, or every access of it to memory that threads share, counts down the
//! thread's current allowance; when it is used up, the thread gives way to the scheduler. A thread that
//! would wait for a lock gives way, too.

#[cfg(steps)]
extern "C" {
    fn minsim_arm(n: i64) -> i64;
}

/// Sets after how many blocks (negative: shared accesses) this thread gives way (0: never); returns what
/// was left.
pub fn arm(n: i64) -> i64 {
    #[cfg(steps)]
    return unsafe { minsim_arm(n) };
    #[cfg(not(steps))]
    return n & 0;
}

/// The simulator's own code runs without preemption.
pub struct Pause(i64);
impl Pause {
    #[inline(never)]
    pub fn new() -> Pause {
        Pause(arm(0))
    }
}
impl Drop for Pause {
    fn drop(&mut self) {
        arm(self.0);
    }
}

#[cfg(steps)]
#[no_mangle]
extern "C" fn minsim_step_due() {
    crate::det::preempted();
}

// ---------------------------------------------------------------- waiting for locks

#[cfg(steps)]
mod locks {
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    unsafe fn errno(e: i32) -> i64 {
        *__errno_location() = e;
        -1
    }

    unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        let r: i64;
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
            lateout("rcx") _, lateout("r11") _, options(nostack));
        if r < 0 && r > -4096 {
            return errno(-r as i32);
        }
        r
    }

    const FUTEX: i64 = 202;
    const EAGAIN: i32 = 11;

    /// The standard library's locks wait and wake through this symbol: the simulator's definition comes
    /// first. A task of the scheduler that has to wait gives way instead.
    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        if n == FUTEX && matches!(b & 0x7f, 0 | 9) && crate::det::is_task() {
            if (*(a as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
                return errno(EAGAIN);
            }
            crate::det::blocked();
            return 0;
        }
        raw(n, a, b, c, d, e, f)
    }

    /// Spinning on a lock somebody else holds.
    #[no_mangle]
    pub unsafe extern "C" fn sched_yield() -> i32 {
        if crate::det::is_task() {
            crate::det::preempted();
            return 0;
        }
        raw(24, 0, 0, 0, 0, 0, 0) as i32
    }
}
