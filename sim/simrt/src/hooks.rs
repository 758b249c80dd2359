//! The runtime that ThreadSanitizer-instrumented code calls. Instead of detecting races it yields to the scheduler.
#![allow(clippy::missing_safety_doc)]
use crate::sched::{mem_point, sys_point};
use std::ffi::c_void;
use std::sync::atomic::*;

macro_rules! acc { ($($n:ident),* $(,)?) => { $( #[no_mangle] pub extern "C" fn $n(_a: *const u8) { mem_point(); } )* } }
acc!(__tsan_read1, __tsan_read2, __tsan_read4, __tsan_read8, __tsan_read16,
     __tsan_write1, __tsan_write2, __tsan_write4, __tsan_write8, __tsan_write16,
     __tsan_unaligned_read1, __tsan_unaligned_read2, __tsan_unaligned_read4, __tsan_unaligned_read8, __tsan_unaligned_read16,
     __tsan_unaligned_write1, __tsan_unaligned_write2, __tsan_unaligned_write4, __tsan_unaligned_write8, __tsan_unaligned_write16,
     __tsan_read_write1, __tsan_read_write2, __tsan_read_write4, __tsan_read_write8, __tsan_read_write16,
     __tsan_unaligned_read_write2, __tsan_unaligned_read_write4, __tsan_unaligned_read_write8, __tsan_unaligned_read_write16,
     __tsan_volatile_read1, __tsan_volatile_read2, __tsan_volatile_read4, __tsan_volatile_read8, __tsan_volatile_read16,
     __tsan_volatile_write1, __tsan_volatile_write2, __tsan_volatile_write4, __tsan_volatile_write8, __tsan_volatile_write16,
     __tsan_vptr_read, __tsan_func_entry_dummy);
#[no_mangle] pub extern "C" fn __tsan_func_entry(_a: *const u8) {}
#[no_mangle] pub extern "C" fn __tsan_func_exit() {}
#[no_mangle] pub extern "C" fn __tsan_init() {}
#[no_mangle] pub extern "C" fn __tsan_vptr_update(_a: *const u8, _b: *const u8) { mem_point(); }
#[no_mangle] pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle] pub extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle] pub extern "C" fn __tsan_read_range(_a: *const u8, _n: usize) { mem_point(); }
#[no_mangle] pub extern "C" fn __tsan_write_range(_a: *const u8, _n: usize) { mem_point(); }

// Bulk copies proceed in pieces, with a scheduling point before each, so that torn copies are seen.
const PIECE: usize = 64;
#[no_mangle] pub unsafe extern "C" fn __tsan_memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    let (dp, sp) = (d as *mut u8, s as *const u8);
    let mut o = 0;
    while o < n { mem_point(); let k = PIECE.min(n - o); std::ptr::copy_nonoverlapping(sp.add(o), dp.add(o), k); o += k; }
    d
}
#[no_mangle] pub unsafe extern "C" fn __tsan_memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    mem_point();
    std::ptr::copy(s as *const u8, d as *mut u8, n);
    d
}
#[no_mangle] pub unsafe extern "C" fn __tsan_memset(d: *mut c_void, c: i32, n: usize) -> *mut c_void {
    let dp = d as *mut u8;
    let mut o = 0;
    while o < n { mem_point(); let k = PIECE.min(n - o); std::ptr::write_bytes(dp.add(o), c as u8, k); o += k; }
    d
}

macro_rules! atomics { ($t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $casv:ident, $cass:ident, $casw:ident) => {
    #[no_mangle] pub unsafe extern "C" fn $load(p: *const $a, _m: i32) -> $t { sys_point(false); (*p).load(Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $store(p: *const $a, v: $t, _m: i32) { sys_point(false); (*p).store(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xchg(p: *const $a, v: $t, _m: i32) -> $t { sys_point(false); (*p).swap(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $add(p: *const $a, v: $t, _m: i32) -> $t { sys_point(false); (*p).fetch_add(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $sub(p: *const $a, v: $t, _m: i32) -> $t { sys_point(false); (*p).fetch_sub(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $and(p: *const $a, v: $t, _m: i32) -> $t { sys_point(false); (*p).fetch_and(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $or(p: *const $a, v: $t, _m: i32) -> $t { sys_point(false); (*p).fetch_or(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xor(p: *const $a, v: $t, _m: i32) -> $t { sys_point(false); (*p).fetch_xor(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $nand(p: *const $a, v: $t, _m: i32) -> $t { sys_point(false); (*p).fetch_nand(v, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $casv(p: *const $a, c: $t, v: $t, _m: i32, _f: i32) -> $t {
        sys_point(false);
        match (*p).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(x) => x, Err(x) => x }
    }
    #[no_mangle] pub unsafe extern "C" fn $cass(p: *const $a, c: *mut $t, v: $t, _m: i32, _f: i32) -> i32 {
        sys_point(false);
        match (*p).compare_exchange(*c, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } }
    }
    #[no_mangle] pub unsafe extern "C" fn $casw(p: *const $a, c: *mut $t, v: $t, m: i32, f: i32) -> i32 { $cass(p, c, v, m, f) }
} }
atomics!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak);
atomics!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak);
atomics!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak);
atomics!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak);
#[no_mangle] pub extern "C" fn __tsan_atomic_thread_fence(_m: i32) { sys_point(false); }
#[no_mangle] pub extern "C" fn __tsan_atomic_signal_fence(_m: i32) {}
