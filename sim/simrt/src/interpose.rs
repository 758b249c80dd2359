//! The libc calls the code under test makes, taken over by symbol. Threads not under simulation pass through.
use crate::{disk, raw, sched};
use libc::{c_char, c_int, c_void, off_t, size_t};

unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 { *libc::__errno_location() = (-r) as i32; -1 } else { r }
}
unsafe fn fail(e: i32) -> isize { *libc::__errno_location() = e; -1 }
unsafe fn path<'a>(p: *const c_char) -> &'a str { std::ffi::CStr::from_ptr(p).to_str().unwrap_or("") }

macro_rules! faulty { ($kind:expr) => { if let Some(e) = sched::fault($kind) { sched::sys_point(true); return fail(e) as _; } } }

unsafe fn do_open(p: *const c_char, flags: c_int, mode: usize) -> c_int {
    let go = || raw::sc4(libc::SYS_openat, libc::AT_FDCWD as usize, p as usize, flags as usize, mode);
    if !sched::sim() { return ret(go()) as c_int; }
    sched::sys_point(true);
    faulty!("open");
    let r = go();
    if r >= 0 { disk::on_open(path(p), r as i32, flags); }
    sched::sys_point(true);
    ret(r) as c_int
}
#[no_mangle] pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: usize) -> c_int { do_open(p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: usize) -> c_int { do_open(p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if sched::sim() { sched::sys_point(true); disk::on_close(fd); }
    ret(raw::sc1(libc::SYS_close, fd as usize)) as c_int
}
unsafe fn do_ftruncate(fd: c_int, len: off_t) -> c_int {
    let go = || raw::sc2(libc::SYS_ftruncate, fd as usize, len as usize);
    if !sched::sim() { return ret(go()) as c_int; }
    sched::sys_point(true);
    let cur = raw::size_of_fd(fd);
    if (len as u64) > cur { faulty!("extend"); if disk::ino_of(fd).is_some() { sched::maybe_full(); } } else { faulty!("shrink"); }
    let r = go();
    if r >= 0 { disk::on_setlen(fd); }
    sched::sys_point(true);
    ret(r) as c_int
}
#[no_mangle] pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int { do_ftruncate(fd, len) }
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off_t) -> c_int { do_ftruncate(fd, len) }
#[no_mangle] pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: off_t, len: off_t) -> c_int { fallocate64(fd, 0, off, len) }
#[no_mangle] pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: off_t, len: off_t) -> c_int {
    let go = || raw::sc4(libc::SYS_fallocate, fd as usize, mode as usize, off as usize, len as usize);
    if !sched::sim() { return ret(go()) as c_int; }
    sched::sys_point(true);
    faulty!("extend");
    if disk::ino_of(fd).is_some() { sched::maybe_full(); }
    if sched::full() && disk::has_hole(fd, off as u64, len as u64) { return fail(sched::no_space()) as c_int; }
    let r = go();
    if r >= 0 { disk::on_setlen(fd); }
    ret(r) as c_int
}
unsafe fn do_mmap(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off_t) -> *mut c_void {
    let go = || raw::syscall6(libc::SYS_mmap, addr as usize, len, prot as usize, flags as usize, fd as usize, off as usize);
    if !sched::sim() { return ret(go()) as *mut c_void; }
    sched::sys_point(true);
    if let Some(e) = sched::fault("mmap") { sched::sys_point(true); return fail(e) as *mut c_void; }
    let r = go();
    if r > 0 && fd >= 0 { disk::on_mmap(r as usize, len, fd, off as u64, flags & libc::MAP_SHARED != 0, prot & libc::PROT_WRITE != 0); }
    sched::sys_point(true);
    ret(r) as *mut c_void
}
#[no_mangle] pub unsafe extern "C" fn mmap(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, o: off_t) -> *mut c_void { do_mmap(a, l, p, f, fd, o) }
#[no_mangle] pub unsafe extern "C" fn mmap64(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, o: off_t) -> *mut c_void { do_mmap(a, l, p, f, fd, o) }
#[no_mangle] pub unsafe extern "C" fn munmap(addr: *mut c_void, len: size_t) -> c_int {
    if sched::sim() { sched::sys_point(true); disk::on_munmap(addr as usize, len); }
    ret(raw::sc2(libc::SYS_munmap, addr as usize, len)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn msync(addr: *mut c_void, len: size_t, flags: c_int) -> c_int {
    if !sched::sim() { return ret(raw::sc3(libc::SYS_msync, addr as usize, len, flags as usize)) as c_int; }
    sched::sys_point(true);
    if flags & libc::MS_SYNC == 0 { return 0; }
    if let Some(e) = sched::fault("msync") { disk::on_msync_failed(addr as usize, len); sched::sys_point(true); return fail(e) as c_int; }
    disk::on_msync(addr as usize, len);
    sched::sys_point(true);
    0
}
#[no_mangle] pub unsafe extern "C" fn mprotect(addr: *mut c_void, len: size_t, prot: c_int) -> c_int {
    let go = || raw::sc3(libc::SYS_mprotect, addr as usize, len, prot as usize);
    if !sched::sim() { return ret(go()) as c_int; }
    sched::sys_point(true);
    faulty!("mprotect");
    let r = go();
    if r >= 0 { disk::on_mprotect(addr as usize, len, prot & libc::PROT_WRITE != 0); }
    sched::sys_point(true);
    ret(r) as c_int
}
unsafe fn do_fsync(fd: c_int) -> c_int {
    if !sched::sim() { return ret(raw::sc1(libc::SYS_fsync, fd as usize)) as c_int; }
    sched::sys_point(true);
    if let Some(e) = sched::fault("fsync") { disk::on_fsync_failed(fd); sched::sys_point(true); return fail(e) as c_int; }
    disk::on_fsync(fd);
    sched::sys_point(true);
    0
}
#[no_mangle] pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { do_fsync(fd) }
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { do_fsync(fd) }
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> isize {
    let tracked = sched::sim() && disk::ino_of(fd).is_some();
    if !tracked { return ret(raw::sc3(libc::SYS_write, fd as usize, b as usize, n)); }
    sched::sys_point(true);
    faulty!("write");
    if sched::full() && disk::has_hole(fd, raw::seek(fd, 0, libc::SEEK_CUR).max(0) as u64, n as u64) { return fail(sched::no_space()); }
    let r = raw::sc3(libc::SYS_write, fd as usize, b as usize, n);
    disk::on_write(fd);
    sched::sys_point(true);
    ret(r)
}
unsafe fn do_pwrite(fd: c_int, b: *const c_void, n: size_t, off: off_t) -> isize {
    let tracked = sched::sim() && disk::ino_of(fd).is_some();
    if !tracked { return ret(raw::sc4(libc::SYS_pwrite64, fd as usize, b as usize, n, off as usize)); }
    sched::sys_point(true);
    faulty!("write");
    if sched::full() && disk::has_hole(fd, off as u64, n as u64) { return fail(sched::no_space()); }
    let r = raw::sc4(libc::SYS_pwrite64, fd as usize, b as usize, n, off as usize);
    disk::on_write(fd);
    sched::sys_point(true);
    ret(r)
}
#[no_mangle] pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, o: off_t) -> isize { do_pwrite(fd, b, n, o) }
#[no_mangle] pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off_t) -> isize { do_pwrite(fd, b, n, o) }
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let go = || raw::sc1(libc::SYS_unlink, p as usize);
    if !sched::sim() { return ret(go()) as c_int; }
    sched::sys_point(true);
    let r = go();
    if r >= 0 { disk::on_unlink(path(p)); }
    ret(r) as c_int
}
#[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let go = || raw::sc2(libc::SYS_rename, a as usize, b as usize);
    if !sched::sim() { return ret(go()) as c_int; }
    sched::sys_point(true);
    let r = go();
    if r >= 0 { disk::on_rename(path(a), path(b)); }
    ret(r) as c_int
}
#[no_mangle] pub unsafe extern "C" fn mkdir(p: *const c_char, mode: libc::mode_t) -> c_int {
    let go = || raw::sc2(libc::SYS_mkdir, p as usize, mode as usize);
    if !sched::sim() { return ret(go()) as c_int; }
    sched::sys_point(true);
    faulty!("mkdir");
    let r = go();
    if r >= 0 { disk::on_mkdir(path(p)); }
    sched::sys_point(true);
    ret(r) as c_int
}
#[no_mangle] pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: u32) -> isize {
    if !sched::sim() && sched::boot_fill(std::slice::from_raw_parts_mut(buf as *mut u8, len)) { return len as isize; }
    if !sched::sim() { return ret(raw::sc3(libc::SYS_getrandom, buf as usize, len, flags as usize)); }
    sched::random_fill(std::slice::from_raw_parts_mut(buf as *mut u8, len));
    len as isize
}
#[no_mangle] pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if !sched::sim() { return ret(raw::sc2(libc::SYS_clock_gettime, clk as usize, ts as usize)) as c_int; }
    let base: u64 = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE { 1_700_000_000 } else { 1000 };
    let ns = sched::now_ns();
    (*ts).tv_sec = (base + ns / 1_000_000_000) as i64;
    (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
    0
}
unsafe fn ts_ns(ts: *const libc::timespec) -> u64 { (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64 }
#[no_mangle] pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !sched::sim() { return ret(raw::sc2(libc::SYS_nanosleep, ts as usize, rem as usize)) as c_int; }
    sched::sleep(ts_ns(ts));
    0
}
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !sched::sim() { return -(raw::sc4(libc::SYS_clock_nanosleep, clk as usize, flags as usize, ts as usize, rem as usize) as c_int); }
    let t = ts_ns(ts);
    if flags & libc::TIMER_ABSTIME != 0 { let now = sched::now_ns() + 1_000_000_000_000; sched::sleep(t.saturating_sub(now)); } else { sched::sleep(t); }
    0
}
#[no_mangle] pub unsafe extern "C" fn sched_yield() -> c_int {
    if !sched::sim() { return raw::syscall6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int; }
    sched::yield_now();
    0
}
/// std's futexes come through here.
#[no_mangle] pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if sched::sim() {
        if n == libc::SYS_futex {
            let cmd = (b as i32) & 0x7f & !libc::FUTEX_CLOCK_REALTIME;
            let abs = |p: usize| if p == 0 { None } else { Some(ts_ns(p as *const libc::timespec)) };
            match cmd {
                libc::FUTEX_WAIT_BITSET => {
                    let base = if (b as i32) & libc::FUTEX_CLOCK_REALTIME != 0 { 1_700_000_000u64 } else { 1000 } * 1_000_000_000;
                    return ret(sched::futex_wait(a, c as u32, f as u32, abs(d).map(|t| t.saturating_sub(base))) as isize) as i64;
                }
                libc::FUTEX_WAIT => {
                    return ret(sched::futex_wait(a, c as u32, u32::MAX, abs(d).map(|t| sched::now_ns() + t)) as isize) as i64;
                }
                libc::FUTEX_WAKE => return sched::futex_wake(a, c as i32, u32::MAX) as i64,
                libc::FUTEX_WAKE_BITSET => return sched::futex_wake(a, c as i32, f as u32) as i64,
                _ => {}
            }
        } else if n == libc::SYS_getrandom {
            sched::random_fill(std::slice::from_raw_parts_mut(a as *mut u8, b));
            return b as i64;
        }
    }
    ret(raw::syscall6(n, a, b, c, d, e, f)) as i64
}
