//! Raw system calls: the simulator's own way to the kernel, never interposed.
use std::arch::asm;

#[inline]
pub unsafe fn syscall6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub unsafe fn sc1(n: i64, a: usize) -> isize { syscall6(n, a, 0, 0, 0, 0, 0) }
pub unsafe fn sc2(n: i64, a: usize, b: usize) -> isize { syscall6(n, a, b, 0, 0, 0, 0) }
pub unsafe fn sc3(n: i64, a: usize, b: usize, c: usize) -> isize { syscall6(n, a, b, c, 0, 0, 0) }
pub unsafe fn sc4(n: i64, a: usize, b: usize, c: usize, d: usize) -> isize { syscall6(n, a, b, c, d, 0, 0) }

pub fn exit_now(code: i32) -> ! {
    unsafe {
        loop {
            sc1(libc::SYS_exit_group, code as usize);
        }
    }
}
pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe { syscall6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize, 0, 0, 0); }
}
pub fn futex_wake(addr: *const u32, n: i32) {
    unsafe { syscall6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, n as usize, 0, 0, 0); }
}
/// Opens a file for the simulator itself.
pub fn open(path: &str, flags: i32, mode: u32) -> i32 {
    let c = std::ffi::CString::new(path).unwrap();
    unsafe { sc4(libc::SYS_openat, libc::AT_FDCWD as usize, c.as_ptr() as usize, (flags | libc::O_CLOEXEC) as usize, mode as usize) as i32 }
}
pub fn close(fd: i32) { unsafe { sc1(libc::SYS_close, fd as usize); } }
pub fn unlink(path: &str) -> i32 {
    let c = std::ffi::CString::new(path).unwrap();
    unsafe { sc1(libc::SYS_unlink, c.as_ptr() as usize) as i32 }
}
pub fn mkdir(path: &str) -> i32 {
    let c = std::ffi::CString::new(path).unwrap();
    unsafe { sc2(libc::SYS_mkdir, c.as_ptr() as usize, 0o755) as i32 }
}
pub fn size_of_fd(fd: i32) -> u64 {
    let r = unsafe { sc3(libc::SYS_lseek, fd as usize, 0, libc::SEEK_END as usize) };
    if r < 0 { 0 } else { r as u64 }
}
pub fn pread(fd: i32, buf: &mut [u8], off: u64) -> usize {
    let mut done = 0;
    while done < buf.len() {
        let r = unsafe { sc4(libc::SYS_pread64, fd as usize, buf[done..].as_mut_ptr() as usize, buf.len() - done, off as usize + done) };
        if r <= 0 { break; }
        done += r as usize;
    }
    done
}
pub fn pwrite(fd: i32, buf: &[u8], off: u64) {
    let mut done = 0;
    while done < buf.len() {
        let r = unsafe { sc4(libc::SYS_pwrite64, fd as usize, buf[done..].as_ptr() as usize, buf.len() - done, off as usize + done) };
        if r <= 0 { break; }
        done += r as usize;
    }
}
pub fn read_file(path: &str) -> Option<Vec<u8>> {
    let fd = open(path, libc::O_RDONLY, 0);
    if fd < 0 { return None; }
    let n = size_of_fd(fd) as usize;
    let mut v = vec![0u8; n];
    let got = pread(fd, &mut v, 0);
    v.truncate(got);
    close(fd);
    Some(v)
}
pub fn write_file(path: &str, data: &[u8]) {
    let fd = open(path, libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC, 0o644);
    if fd < 0 { panic!("simulator cannot write {path}: {fd}"); }
    pwrite(fd, data, 0);
    close(fd);
}

pub fn seek(fd: i32, off: i64, whence: i32) -> i64 { unsafe { sc3(libc::SYS_lseek, fd as usize, off as usize, whence as usize) as i64 } }
