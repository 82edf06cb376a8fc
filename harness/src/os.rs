//! Stands between the library and the operating system's random source and clock. What was drawn is
//! kept, and the clock can be set.
//!
//! The executable's own `syscall`, `getrandom` and `getentropy` take precedence over those of the
//! C library, and the random crates end up in one of them. They only pass through and record.

use std::cell::{Cell, RefCell};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static DRAWN: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

unsafe fn raw(n: libc::c_long, a: [usize; 6]) -> isize {
    let ret: isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n as isize => ret,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

unsafe fn finish(ret: isize) -> libc::c_long {
    if (-4095..0).contains(&ret) {
        *libc::__errno_location() = -ret as i32;
        -1
    } else {
        ret as libc::c_long
    }
}

#[cfg(kdbxmon_msan)]
extern "C" {
    fn __msan_unpoison(p: *const u8, n: usize);
}

unsafe fn keep(buf: *const u8, n: isize) {
    // the kernel has written what MemorySanitizer can not see
    #[cfg(kdbxmon_msan)]
    if n > 0 {
        __msan_unpoison(buf, n as usize);
    }
    if n > 0 && ON.try_with(Cell::get).unwrap_or(false) {
        let s = std::slice::from_raw_parts(buf, n as usize);
        let _ = DRAWN.try_with(|d| d.borrow_mut().extend_from_slice(s));
    }
}

#[no_mangle]
unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    let ret = raw(n, [a, b, c, d, e, f]);
    if n == libc::SYS_getrandom {
        keep(a as *const u8, ret);
    }
    finish(ret)
}

#[no_mangle]
unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let ret = raw(libc::SYS_getrandom, [buf as usize, len, flags as usize, 0, 0, 0]);
    keep(buf, ret);
    finish(ret) as isize
}

#[no_mangle]
unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    let ret = raw(libc::SYS_getrandom, [buf as usize, len, 0, 0, 0, 0]);
    keep(buf, ret);
    if ret == len as isize {
        0
    } else {
        finish(if ret < 0 { ret } else { -(libc::EIO as isize) }) as i32
    }
}

/// Run `f` and return the random bytes this thread drew meanwhile
pub fn recorded<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
        }
    }
    DRAWN.with(|d| d.borrow_mut().clear());
    ON.with(|o| o.set(true));
    let off = Off;
    let v = f();
    drop(off);
    (v, DRAWN.with(|d| std::mem::take(&mut *d.borrow_mut())))
}

// ---------------------------------------------------------------- clock

thread_local! {
    /// what this thread's clock shows, and by how much each reading advances it, in nanoseconds
    static CLOCK: Cell<Option<(i128, i128)>> = const { Cell::new(None) };
    static READ: Cell<u64> = const { Cell::new(0) };
}

const SECOND: i128 = 1_000_000_000;

unsafe fn kernel_clock(id: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    let ret = raw(libc::SYS_clock_gettime, [id as usize, ts as usize, 0, 0, 0, 0]);
    #[cfg(kdbxmon_msan)]
    __msan_unpoison(ts.cast(), std::mem::size_of::<libc::timespec>());
    finish(ret) as i32
}

/// The executable's own clock takes precedence over that of the C library. Only the time of day can
/// be set, only for one thread, and only while it was asked for.
#[cfg(not(any(kdbxmon_asan, kdbxmon_msan, kdbxmon_tsan)))]
#[no_mangle]
unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        if let Ok(Some((now, step))) = CLOCK.try_with(Cell::get) {
            let _ = READ.try_with(|r| r.set(r.get() + 1));
            let _ = CLOCK.try_with(|c| c.set(Some((now + step, step))));
            (*ts).tv_sec = now.div_euclid(SECOND) as i64;
            (*ts).tv_nsec = now.rem_euclid(SECOND) as i64;
            return 0;
        }
    }
    kernel_clock(id, ts)
}

#[cfg(not(any(kdbxmon_asan, kdbxmon_msan, kdbxmon_tsan)))]
#[no_mangle]
unsafe extern "C" fn time(out: *mut libc::time_t) -> libc::time_t {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !out.is_null() {
        *out = ts.tv_sec;
    }
    ts.tv_sec
}

#[cfg(not(any(kdbxmon_asan, kdbxmon_msan, kdbxmon_tsan)))]
#[no_mangle]
unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _zone: *mut libc::c_void) -> i32 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}

/// Set this thread's time of day to seconds and nanoseconds since 1970, or back to the real one
pub fn set_clock(to: Option<(i64, u32)>, step: u32) {
    CLOCK.with(|c| c.set(to.map(|(s, n)| (s as i128 * SECOND + n as i128, step as i128))));
}

/// Seconds since 1970 on this thread's clock, without advancing it
pub fn clock_now() -> i64 {
    match CLOCK.with(Cell::get) {
        Some((now, _)) => now.div_euclid(SECOND) as i64,
        None => {
            let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
            unsafe { kernel_clock(libc::CLOCK_REALTIME, &mut ts) };
            ts.tv_sec
        }
    }
}

/// How often this thread read a clock that was set
pub fn clock_read() -> u64 {
    READ.with(Cell::get)
}

pub fn clock_is_set() -> bool {
    CLOCK.with(Cell::get).is_some()
}

// ---------------------------------------------------------------- output

thread_local! {
    static TAPPED: Cell<bool> = const { Cell::new(false) };
    static WRITTEN: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

unsafe fn tap(buf: *const u8, n: usize) {
    if n > 0 && TAPPED.try_with(Cell::get).unwrap_or(false) {
        let s = std::slice::from_raw_parts(buf, n);
        let _ = WRITTEN.try_with(|w| w.borrow_mut().extend_from_slice(s));
    }
}

/// What the process writes to files and terminals passes here
#[cfg(not(any(kdbxmon_asan, kdbxmon_msan, kdbxmon_tsan)))]
#[no_mangle]
unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    tap(buf, n);
    finish(raw(libc::SYS_write, [fd as usize, buf as usize, n, 0, 0, 0])) as isize
}

#[cfg(not(any(kdbxmon_asan, kdbxmon_msan, kdbxmon_tsan)))]
#[no_mangle]
unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    for i in 0..n.max(0) as usize {
        let v = &*iov.add(i);
        tap(v.iov_base.cast(), v.iov_len);
    }
    finish(raw(libc::SYS_writev, [fd as usize, iov as usize, n as usize, 0, 0, 0])) as isize
}

/// Run `f` and return what this thread wrote to any file descriptor meanwhile
pub fn written<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    use std::io::Write;
    WRITTEN.with(|w| w.borrow_mut().clear());
    TAPPED.with(|t| t.set(true));
    let v = f();
    let _ = std::io::stdout().flush();
    TAPPED.with(|t| t.set(false));
    (v, WRITTEN.with(|w| std::mem::take(&mut *w.borrow_mut())))
}
