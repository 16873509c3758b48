//! libc symbols the simulator owns.
//!
//! The executable defines these symbols, so every call made by std, tonbo and its dependencies
//! that are linked into it resolves here. On a simulation thread they are answered by the
//! simulator; on any other thread they go straight to the kernel.

use std::{
    cell::Cell,
    ffi::{CStr, c_char, c_int, c_long, c_uint, c_void},
};

use crate::rt::Core;

thread_local! {
    static CURRENT: Cell<*const Core> = const { Cell::new(std::ptr::null()) };
    static RAND: Cell<u64> = const { Cell::new(0) };
}

/// Path prefix (as seen by the OS) that belongs to the simulated disk.
pub const SIM_ROOT: &str = "/tonbo-sim-disk";
const FAKE_FD_BASE: c_int = 0x3000_0000;

/// Attach the simulator to this thread; `seed` drives `getrandom`.
pub fn attach(core: &Core, seed: u64) {
    CURRENT.with(|c| c.set(core as *const Core));
    RAND.with(|c| c.set(seed | 1));
}

pub fn detach() {
    CURRENT.with(|c| c.set(std::ptr::null()));
}

pub fn current() -> Option<&'static Core> {
    let ptr = CURRENT.try_with(|c| c.get()).unwrap_or(std::ptr::null());
    if ptr.is_null() {
        None
    } else {
        // SAFETY: `attach` is paired with `detach` before the core is dropped.
        Some(unsafe { &*ptr })
    }
}

fn next_rand() -> u64 {
    RAND.with(|c| {
        let mut x = c.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        c.set(x);
        x.wrapping_mul(0x2545_F491_4F6C_DD1D)
    })
}

unsafe fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e };
}

/// # Safety
/// libc contract.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, tp: *mut libc::timespec) -> c_int {
    if let Some(core) = current() {
        let ns = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => core.wall_ns(),
            _ => core.mono_ns(),
        };
        unsafe {
            (*tp).tv_sec = (ns / 1_000_000_000) as libc::time_t;
            (*tp).tv_nsec = (ns % 1_000_000_000) as c_long;
        }
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk, tp) as c_int }
}

/// # Safety
/// libc contract.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: c_uint) -> isize {
    if current().is_some() {
        let out = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, len) };
        for chunk in out.chunks_mut(8) {
            let b = next_rand().to_le_bytes();
            chunk.copy_from_slice(&b[..chunk.len()]);
        }
        return len as isize;
    }
    unsafe { libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize }
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if let Some(core) = current() {
        let p = unsafe { CStr::from_ptr(path) }.to_string_lossy();
        if p.starts_with(SIM_ROOT) {
            return match core.os_open(&p) {
                Ok(id) => FAKE_FD_BASE + id as c_int,
                Err(e) => {
                    unsafe { set_errno(e) };
                    -1
                }
            };
        }
    }
    unsafe { libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int }
}

/// # Safety
/// libc contract.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { do_open(path, flags, mode) }
}

/// # Safety
/// libc contract.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { do_open(path, flags, mode) }
}

unsafe fn do_sync(fd: c_int, nr: c_long) -> c_int {
    if fd >= FAKE_FD_BASE {
        if let Some(core) = current() {
            return match core.os_sync((fd - FAKE_FD_BASE) as u32) {
                Ok(()) => 0,
                Err(e) => {
                    unsafe { set_errno(e) };
                    -1
                }
            };
        }
    }
    unsafe { libc::syscall(nr, fd) as c_int }
}

/// # Safety
/// libc contract.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    unsafe { do_sync(fd, libc::SYS_fdatasync) }
}

/// # Safety
/// libc contract.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    unsafe { do_sync(fd, libc::SYS_fsync) }
}

/// # Safety
/// libc contract.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FAKE_FD_BASE && current().is_some() {
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_close, fd) as c_int }
}
