//! Memory shared between a worker and the forked incarnations it runs: history, schedule trace, counters.
use std::cell::UnsafeCell;

pub const HIST_CAP: usize = 24 << 20;
pub const TRACE_CAP: usize = 1 << 18;
pub const NCOUNT: usize = 256;
pub const SIG_CAP: usize = 1 << 12;

#[repr(C)]
pub struct Shared {
    pub hist_len: usize,
    pub hist_overflow: usize,
    pub trace_len: usize,
    pub ncount: usize,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub crashed: u32,
    pub done: u32,
    pub sched_sig: u64,
    pub nsig: usize,
    pub sigs: [u64; SIG_CAP],
    pub counts: [(&'static str, &'static str, u64); NCOUNT],
    pub trace: [(u64, u32); TRACE_CAP],
    pub hist: [u8; HIST_CAP],
}
struct P(UnsafeCell<*mut Shared>);
unsafe impl Sync for P {}
static SH: P = P(UnsafeCell::new(std::ptr::null_mut()));

#[allow(clippy::mut_from_ref)]
pub fn sh() -> &'static mut Shared { unsafe { &mut **SH.0.get() } }
pub fn have() -> bool { unsafe { !(*SH.0.get()).is_null() } }

pub fn init() {
    unsafe {
        let p = crate::raw::syscall6(libc::SYS_mmap, 0, std::mem::size_of::<Shared>(),
            (libc::PROT_READ | libc::PROT_WRITE) as usize, (libc::MAP_SHARED | libc::MAP_ANONYMOUS) as usize, usize::MAX, 0);
        assert!(p > 0, "mmap of shared region");
        *SH.0.get() = p as *mut Shared;
    }
}
pub fn reset_run() {
    let s = sh();
    s.hist_len = 0; s.hist_overflow = 0; s.trace_len = 0; s.nsig = 0; s.ncount = 0;
    s.steps = 0; s.switches = 0; s.sim_ns = 0; s.sched_sig = 0;
    s.crashed = 0; s.done = 0;
}
/// Counts a named event (fault fired, probe reached). Group and name must be literals: the table is read by the
/// parent process.
pub fn count(group: &'static str, name: &'static str) { count_n(group, name, 1) }
pub fn probe(name: &'static str) { count_n("probe", name, 1) }
pub fn count_n(group: &'static str, name: &'static str, n: u64) {
    if !have() { return; }
    let s = sh();
    for i in 0..s.ncount {
        if s.counts[i].1 == name && s.counts[i].0 == group { s.counts[i].2 += n; return; }
    }
    if s.ncount < NCOUNT { let k = s.ncount; s.counts[k] = (group, name, n); s.ncount += 1; }
}
/// Records the signature of a state reached (crash image, abstract state...).
pub fn state_sig(x: u64) {
    if !have() { return; }
    let s = sh();
    if s.nsig < SIG_CAP { let k = s.nsig; s.sigs[k] = x; s.nsig += 1; }
}
pub fn hist_push(line: &[u8]) {
    let s = sh();
    if s.hist_len + line.len() + 1 + (64 << 10) > HIST_CAP { s.hist_overflow = 1; return; }
    hist_push_last(line)
}
/// What ends a run (a crash, a fatal event) always fits.
pub fn hist_push_last(line: &[u8]) {
    let s = sh();
    if s.hist_len + line.len() + 1 > HIST_CAP { return; }
    let l = s.hist_len;
    s.hist[l..l + line.len()].copy_from_slice(line);
    s.hist[l + line.len()] = b'\n';
    s.hist_len = l + line.len() + 1;
}
pub fn hist_bytes() -> &'static [u8] { let s = sh(); &s.hist[..s.hist_len] }
