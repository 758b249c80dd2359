//! The scheduler: real threads, one baton. Every choice of who runs is made here.
use crate::raw;
use crate::rng::{mix2, Rng};
use crate::shared::{self, sh};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SchedSpec {
    /// Switch with probability p_mem at a memory access and p_sys at an atomic operation or system call.
    Random { seed: u64, p_mem: f64, p_sys: f64 },
    /// Priorities: the ready thread with the highest one runs, and at `depth` randomly chosen points the running
    /// thread is put last. The points are numbered by atomic operations and system calls (`sys`) or by steps, up to
    /// `len`. Holds a thread back at one spot for as long as others can run, which random switching rarely does.
    Priority { seed: u64, depth: u32, len: u64, sys: bool },
    /// At step s, go on with thread t.
    Explicit { switches: Vec<(u64, u32)> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fault {
    pub op: u32,
    pub kind: String,
    pub nth: u32,
    pub errno: i32,
    #[serde(default)]
    pub sticky: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Crash {
    /// "kill" (process dies, page cache survives) or "power"
    pub kind: String,
    pub op: u32,
    /// "sys": at the n-th system-call point of the operation; "mem": n memory accesses after it began. If the
    /// operation ends earlier, the crash comes right after it.
    pub at: String,
    pub nth: u64,
    pub image: crate::disk::ImageSpec,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Ready, Futex(usize, u32), Join(usize), Sleep, Done }

pub struct Th {
    word: AtomicU32,
    state: St,
    deadline: Option<u64>,
    timed_out: bool,
    pub op: u32,
    sysn: u64,
    fc: Vec<(&'static str, u32)>,
    hrng: Rng,
    prio: i64,
}
pub struct Sched {
    pub th: Vec<Box<Th>>,
    pub cur: usize,
    pub step: u64,
    next: u64,
    mem_next: u64,
    p_mem: f64,
    p_sys: f64,
    rng: Rng,
    explicit: Option<Vec<(u64, u32)>>,
    ex_i: usize,
    last_switch: u64,
    maxrun: u64,
    limit: u64,
    pub clock: u64,
    crash: Option<Crash>,
    crash_step: u64,
    faults: Vec<Fault>,
    pub nopre: u32,
    seed: u64,
    base_step: u64,
    /// priorities: the points (by steps or by atomic operations and system calls), the next one, and the lowest priority yet
    pct: Option<(Vec<u64>, bool)>,
    pct_i: usize,
    syscount: u64,
    low: i64,
}
static mut S: *mut Sched = std::ptr::null_mut();
static mut ON: bool = false;
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

#[allow(clippy::mut_from_ref)]
#[inline(always)]
pub fn s() -> &'static mut Sched { unsafe { &mut *S } }
#[inline(always)]
pub fn on() -> bool { unsafe { ON } }
/// true if the calling thread is under simulation
#[inline(always)]
pub fn sim() -> bool { unsafe { ON && ME.with(|m| m.get()) != usize::MAX } }
pub fn me() -> usize { ME.with(|m| m.get()) }

pub struct NoPreempt;
impl NoPreempt { pub fn new() -> Self { if sim() { s().nopre += 1; } NoPreempt } }
impl Drop for NoPreempt { fn drop(&mut self) { if sim() { s().nopre -= 1; } } }

fn new_th(seed: u64) -> Box<Th> {
    Box::new(Th { word: AtomicU32::new(0), state: St::Ready, deadline: None, timed_out: false, op: 0, sysn: 0,
        fc: vec![], hrng: Rng::new(seed), prio: 0 })
}

pub fn start(seed: u64, spec: &SchedSpec, faults: Vec<Fault>, crash: Option<Crash>, step_limit: u64) {
    let (p_mem, p_sys, explicit, sseed) = match spec {
        SchedSpec::Random { seed, p_mem, p_sys } => (*p_mem, *p_sys, None, *seed),
        SchedSpec::Explicit { switches } => (0.0, 0.0, Some(switches.clone()), 0),
        SchedSpec::Priority { seed, .. } => (0.0, 0.0, None, *seed),
    };
    let mut sc = Sched {
        th: vec![new_th(mix2(seed, 1000))], cur: 0, step: 0, next: 0, mem_next: 0, p_mem, p_sys, rng: Rng::new(sseed),
        explicit, ex_i: 0, last_switch: 0, maxrun: 50_000, limit: step_limit, clock: 0, crash, crash_step: u64::MAX,
        faults, nopre: 0, seed, base_step: if shared::have() { sh().steps } else { 0 },
        pct: None, pct_i: 0, syscount: 0, low: 0,
    };
    sc.mem_next = 1 + sc.rng.gap(p_mem);
    if let SchedSpec::Priority { depth, len, sys, .. } = spec {
        let mut pts: Vec<u64> = (0..*depth).map(|_| 1 + sc.rng.below((*len).max(1))).collect();
        pts.sort();
        sc.mem_next = u64::MAX; // set when the first thread is started
        sc.pct = Some((pts, *sys));
        sc.th[0].prio = 1 << 40;
    }
    unsafe {
        S = Box::leak(Box::new(sc));
        recompute();
        ME.with(|m| m.set(0));
        ON = true;
    }
}
/// Ends the simulation of this incarnation (all threads have finished).
pub fn stop() {
    unsafe { ON = false; }
    flush_stats();
}
fn flush_stats() {
    if !shared::have() { return; }
    let sc = s();
    sh().steps = sc.base_step + sc.step;
    sh().sim_ns += sc.clock + sc.step;
}
fn recompute() {
    let sc = s();
    let mut n = sc.mem_next.min(sc.crash_step).min(sc.limit);
    if sc.th.len() > 1 { n = n.min(sc.last_switch + sc.maxrun); }
    if let Some(ex) = &sc.explicit {
        while sc.ex_i < ex.len() && ex[sc.ex_i].0 >> 1 < sc.step { sc.ex_i += 1; }
        if sc.ex_i < ex.len() { n = n.min(ex[sc.ex_i].0 >> 1); }
    }
    sc.next = n.max(sc.step + 1);
}

#[inline(always)]
pub fn mem_point() {
    if !sim() { return; }
    let sc = s();
    if sc.nopre > 0 { return; }
    sc.step += 1;
    if sc.step >= sc.next { slow_mem(); }
}
#[inline(never)]
fn slow_mem() -> bool {
    limits();
    let sc = s();
    if sc.explicit.is_some() {
        let t = ex_at(sc.step << 1);
        if let Some(t) = t { if t != sc.cur { record(sc.step << 1, t); switch_to(t); recompute(); return true; } }
    } else if sc.pct.is_some() {
        if sc.step >= sc.mem_next {
            pct_point();
            if pct_switch(sc.step << 1) { return true; }
        }
    } else if sc.step >= sc.mem_next {
        sc.mem_next = sc.step + 1 + sc.rng.gap(sc.p_mem);
        if let Some(t) = other_ready() { record(sc.step << 1, t); switch_to(t); recompute(); return true; }
    }
    let r = fairness();
    recompute();
    r
}
fn fairness() -> bool {
    let sc = s();
    if sc.th.len() > 1 && sc.step >= sc.last_switch + sc.maxrun {
        let n = sc.th.len();
        let me = sc.cur;
        sc.last_switch = sc.step;
        demote();
        if let Some(t) = (1..n).map(|d| (me + d) % n).find(|t| sc.th[*t].state == St::Ready) { switch_to(t); return true; }
    }
    false
}
/// Puts the running thread last.
fn demote() { let sc = s(); sc.low -= 1; let me = sc.cur; sc.th[me].prio = sc.low; }
/// A point of the priority schedule has come: put the running thread last and find the next one.
fn pct_point() {
    demote();
    let sc = s();
    let (pts, sys) = sc.pct.as_ref().unwrap();
    let now = if *sys { sc.syscount } else { sc.step };
    while sc.pct_i < pts.len() && pts[sc.pct_i] <= now { sc.pct_i += 1; }
    if !*sys { sc.mem_next = pts.get(sc.pct_i).copied().unwrap_or(u64::MAX); }
}
fn highest() -> Option<usize> { let sc = s(); (0..sc.th.len()).filter(|t| sc.th[*t].state == St::Ready).max_by_key(|t| sc.th[*t].prio) }
fn pct_switch(key: u64) -> bool {
    match highest() {
        Some(t) if t != s().cur => { record(key, t); switch_to(t); recompute(); true }
        _ => false,
    }
}
/// The thread an explicit schedule names at this key (step * 2, or step * 2 + 1 for the choice at a system point).
fn ex_at(key: u64) -> Option<usize> {
    let sc = s();
    let ex = sc.explicit.as_ref().unwrap();
    let mut i = sc.ex_i;
    while i < ex.len() && ex[i].0 < key { i += 1; }
    sc.ex_i = i;
    if i < ex.len() && ex[i].0 == key {
        let t = ex[i].1 as usize;
        if t < sc.th.len() && sc.th[t].state == St::Ready { return Some(t); }
    }
    None
}
fn limits() {
    let sc = s();
    if sc.step >= sc.crash_step { do_crash(); }
    if sc.step >= sc.limit {
        fatal("livelock", &format!("no end after {} steps; threads {:?}", sc.step, sc.th.iter().map(|t| (t.state, t.op)).collect::<Vec<_>>()));
    }
}
fn other_ready() -> Option<usize> {
    let sc = s();
    let me = sc.cur;
    let c: Vec<usize> = (0..sc.th.len()).filter(|t| *t != me && sc.th[*t].state == St::Ready).collect();
    if c.is_empty() { None } else { let i = sc.rng.idx(c.len()); Some(c[i]) }
}
fn record(step: u64, t: usize) {
    let x = sh();
    if x.trace_len < shared::TRACE_CAP { let k = x.trace_len; x.trace[k] = (step, t as u32); x.trace_len += 1; }
}
fn note_switch(to: usize) {
    let sc = s();
    sc.last_switch = sc.step;
    let x = sh();
    x.switches += 1;
    x.sched_sig = mix2(x.sched_sig, (to as u64) << 48 ^ (sc.th[to].op as u64) << 24 ^ sc.th[sc.cur].op as u64 ^ (sc.th[sc.cur].sysn << 40));
}
fn wait_baton(me: usize) {
    let w = &s().th[me].word as *const AtomicU32;
    unsafe {
        while (*w).load(Ordering::Acquire) == 0 { raw::futex_wait(w as *const u32, 0); }
        (*w).store(0, Ordering::Release);
    }
}
fn give_baton(to: usize) {
    let w = &s().th[to].word as *const AtomicU32;
    unsafe { (*w).store(1, Ordering::Release); }
    raw::futex_wake(w as *const u32, 1);
}
fn switch_to(to: usize) {
    let me = s().cur;
    if to == me { return; }
    note_switch(to);
    s().cur = to;
    give_baton(to);
    wait_baton(me);
}

/// A point at an atomic operation, a futex operation or a system call.
pub fn sys_point(syscall: bool) {
    if !sim() { return; }
    let sc = s();
    if sc.nopre > 0 { return; }
    sc.step += 1;
    let me = sc.cur;
    if syscall {
        sc.th[me].sysn += 1;
        if let Some(c) = &sc.crash {
            if c.op == sc.th[me].op && c.at == "sys" && sc.th[me].sysn >= c.nth { do_crash(); }
        }
    }
    if sc.step >= sc.next && slow_mem() { return; }
    let sc = s();
    if sc.th.len() == 1 { return; }
    let key = sc.step << 1 | 1;
    if sc.explicit.is_some() {
        if let Some(t) = ex_at(key) { if t != sc.cur { record(key, t); switch_to(t); recompute(); } }
    } else if let Some((pts, sys)) = &sc.pct {
        sc.syscount += 1;
        if *sys && sc.pct_i < pts.len() && sc.syscount >= pts[sc.pct_i] { pct_point(); }
        pct_switch(key);
    } else if sc.p_sys > 0.0 && sc.rng.chance(sc.p_sys) {
        if let Some(t) = other_ready() { record(key, t); switch_to(t); recompute(); }
    }
}
/// Blocks the calling thread until its state is Ready again.
fn block() {
    let me = s().cur;
    loop {
        let sc = s();
        sc.step += 1;
        if sc.step >= sc.limit || sc.step >= sc.crash_step { limits(); }
        let c: Vec<usize> = (0..sc.th.len()).filter(|t| sc.th[*t].state == St::Ready).collect();
        if c.is_empty() {
            // nobody can run: let time pass
            let nt = (0..sc.th.len()).filter(|t| sc.th[*t].state != St::Done).filter_map(|t| sc.th[t].deadline.map(|d| (d, t))).min();
            match nt {
                Some((d, t)) => {
                    sc.clock = sc.clock.max(d);
                    sc.th[t].state = St::Ready; sc.th[t].timed_out = true; sc.th[t].deadline = None;
                    continue;
                }
                None => fatal("deadlock", &format!("every thread is blocked: {:?}", sc.th.iter().map(|t| (t.state, t.op)).collect::<Vec<_>>())),
            }
        }
        let to = if c.len() == 1 { c[0] } else if sc.explicit.is_some() {
            match ex_at(sc.step << 1) {
                Some(t) => t,
                None => { let n = sc.th.len(); (0..n).map(|d| (me + 1 + d) % n).find(|t| sc.th[*t].state == St::Ready).unwrap() }
            }
        } else if sc.pct.is_some() {
            highest().unwrap()
        } else {
            let i = sc.rng.idx(c.len()); c[i]
        };
        if c.len() > 1 { record(s().step << 1, to); }
        if to != me { switch_to(to); }
        recompute();
        if s().th[me].state == St::Ready { return; }
    }
}

pub fn futex_wait(addr: usize, expected: u32, bitset: u32, deadline: Option<u64>) -> i32 {
    sys_point(false);
    let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
    if cur != expected { return -libc::EAGAIN; }
    shared::probe("futex_blocked");
    let sc = s();
    let me = sc.cur;
    sc.th[me].state = St::Futex(addr, bitset);
    sc.th[me].deadline = deadline;
    sc.th[me].timed_out = false;
    block();
    let sc = s();
    sc.th[me].deadline = None;
    if sc.th[me].timed_out { -libc::ETIMEDOUT } else { 0 }
}
pub fn futex_wake(addr: usize, n: i32, bitset: u32) -> i32 {
    let sc = s();
    let mut w: Vec<usize> = (0..sc.th.len()).filter(|t| matches!(sc.th[*t].state, St::Futex(a, b) if a == addr && b & bitset != 0)).collect();
    // which waiter is woken is a scheduling choice as well; derive it from the step so that replay needs no record
    if (w.len() as i64) > n as i64 && n > 0 { let mut r = Rng::new(mix2(sc.seed, w.len() as u64 ^ sc.th[sc.cur].sysn)); r.shuffle(&mut w); }
    w.truncate(n.max(0) as usize);
    let k = w.len();
    for t in w { sc.th[t].state = St::Ready; }
    sys_point(false);
    k as i32
}
pub fn sleep(ns: u64) {
    let sc = s();
    let me = sc.cur;
    sc.th[me].state = St::Sleep;
    sc.th[me].deadline = Some(sc.clock + sc.step + ns);
    block();
}
pub fn now_ns() -> u64 { if sim() { s().clock + s().step } else { 0 } }

/// Starts a simulated thread; it runs when the scheduler says so.
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) -> usize {
    let sc = s();
    let id = sc.th.len();
    // the points count from where there is something to choose
    let now = sc.step;
    if let (1, Some((pts, false))) = (id, &mut sc.pct) {
        if sc.pct_i == 0 { for p in pts.iter_mut() { *p += now; } sc.mem_next = pts.first().copied().unwrap_or(u64::MAX); }
    }
    let mut th = new_th(mix2(sc.seed, 1001 + id as u64));
    if sc.pct.is_some() { th.prio = sc.rng.below(1 << 30) as i64; }
    sc.th.push(th);
    recompute();
    std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
        wait_baton(id);
        ME.with(|m| m.set(id));
        f();
        finish(id);
    }).expect("spawn");
    id
}
fn finish(me: usize) {
    let sc = s();
    sc.step += 1;
    sc.th[me].state = St::Done;
    for t in sc.th.iter_mut() { if t.state == St::Join(me) { t.state = St::Ready; } }
    ME.with(|m| m.set(usize::MAX));
    let c: Vec<usize> = (0..sc.th.len()).filter(|t| sc.th[*t].state == St::Ready).collect();
    if c.is_empty() {
        let nt = (0..sc.th.len()).filter(|t| sc.th[*t].state != St::Done).filter_map(|t| sc.th[t].deadline.map(|d| (d, t))).min();
        if let Some((d, t)) = nt {
            sc.clock = sc.clock.max(d);
            sc.th[t].state = St::Ready; sc.th[t].timed_out = true; sc.th[t].deadline = None;
            note_switch(t); sc.cur = t; recompute(); give_baton(t);
            return;
        }
        ME.with(|m| m.set(me));
        fatal("deadlock", &format!("every thread is blocked: {:?}", sc.th.iter().map(|t| (t.state, t.op)).collect::<Vec<_>>()));
    }
    let to = if c.len() == 1 { c[0] } else if sc.explicit.is_some() {
        match ex_at(sc.step << 1) {
            Some(t) => t,
            None => { let n = sc.th.len(); (0..n).map(|d| (me + 1 + d) % n).find(|t| sc.th[*t].state == St::Ready).unwrap() }
        }
    } else if sc.pct.is_some() { highest().unwrap() } else { let i = sc.rng.idx(c.len()); c[i] };
    if c.len() > 1 { record(s().step << 1, to); }
    note_switch(to);
    sc.cur = to;
    recompute();
    give_baton(to);
}
pub fn join(t: usize) {
    let sc = s();
    if sc.th[t].state == St::Done { return; }
    let me = sc.cur;
    sc.th[me].state = St::Join(t);
    block();
}
pub fn yield_now() {
    if !sim() { return; }
    let sc = s();
    sc.step += 1;
    if sc.step >= sc.limit || sc.step >= sc.crash_step { limits(); }
    let n = sc.th.len();
    let me = sc.cur;
    demote();
    if let Some(t) = (1..n).map(|d| (me + d) % n).find(|t| sc.th[*t].state == St::Ready) { switch_to(t); recompute(); }
}

// ---- operations, faults, crashes ----
pub fn op_begin(op: u32) {
    if !sim() { return; }
    let sc = s();
    let me = sc.cur;
    sc.th[me].op = op;
    sc.th[me].sysn = 0;
    sc.th[me].fc.clear();
    if let Some(c) = &sc.crash { if c.op == op && c.at == "mem" { sc.crash_step = sc.step + c.nth; recompute(); } }
    if sc.faults.iter().any(|f| f.op == op && f.kind == "full") { maybe_full(); }
}
pub fn op_end() {
    if !sim() { return; }
    let sc = s();
    let me = sc.cur;
    if let Some(c) = &sc.crash { if c.op == sc.th[me].op && c.op != 0 { do_crash(); } }
    sc.th[me].op = 0;
    if full() && unsafe { FULL_BY } == me { unsafe { FULL = false; } crate::disk::protect_holes(false); }
}
/// The disk is full: extending a file leaves a hole, filling it fails. Lasts to the end of the operation.
static mut FULL: bool = false;
static mut FULL_BY: usize = 0;
#[inline(always)]
pub fn full() -> bool { unsafe { FULL } }
pub fn maybe_full() { if !full() && fault("full").is_some() { unsafe { FULL = true; FULL_BY = s().cur; } crate::disk::protect_holes(true); } }
/// A call of the current operation fails because the disk is full (maybe because of another thread's fault).
pub fn no_space() -> i32 {
    shared::hist_push(format!("{{\"k\":\"enospc\",\"i\":{},\"t\":{},\"op\":{}}}", crate::hist::inc(), s().cur, cur_op()).as_bytes());
    libc::ENOSPC
}
pub fn cur_op() -> u32 { if sim() { s().th[s().cur].op } else { 0 } }

/// Counts a call of this kind in the current operation; says whether the plan makes it fail, and how.
pub fn fault(kind: &'static str) -> Option<i32> {
    if !sim() { return None; }
    let sc = s();
    let me = sc.cur;
    let op = sc.th[me].op;
    let n = {
        let fc = &mut sc.th[me].fc;
        match fc.iter_mut().find(|x| x.0 == kind) { Some(x) => { x.1 += 1; x.1 } None => { fc.push((kind, 1)); 1 } }
    };
    for f in sc.faults.iter() {
        if f.op == op && f.kind == kind && (f.nth == n || (f.sticky && n >= f.nth)) {
            shared::count("fault", kind);
            return Some(f.errno);
        }
    }
    None
}
fn do_crash() -> ! {
    let c = s().crash.clone().unwrap();
    flush_stats();
    shared::count("crash", if c.kind == "power" { "power_loss" } else { "process_kill" });
    shared::hist_push_last(format!("{{\"k\":\"crash\",\"kind\":\"{}\",\"t\":{},\"op\":{},\"step\":{}}}", c.kind, s().cur, s().th[s().cur].op, s().step).as_bytes());
    crate::disk::crash(&c.kind, &c.image);
    crate::kv::crash(&c.image);
    sh().crashed = 1;
    raw::exit_now(0);
}
/// The simulation itself found a violation (deadlock, livelock) or the code under test aborted.
pub fn fatal(kind: &str, msg: &str) -> ! {
    if on() { flush_stats(); }
    let v = serde_json::json!({"k": "fatal", "kind": kind, "msg": msg, "t": if sim() { s().cur as i64 } else { -1 }, "op": cur_op()});
    shared::hist_push_last(v.to_string().as_bytes());
    raw::exit_now(3);
}
/// Randomness of an incarnation before its simulation starts; 0 outside of incarnations.
static BOOT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn boot(seed: u64) { BOOT.store(seed | 1, std::sync::atomic::Ordering::Relaxed) }
pub fn boot_fill(buf: &mut [u8]) -> bool {
    if BOOT.load(std::sync::atomic::Ordering::Relaxed) == 0 { return false; }
    for c in buf.chunks_mut(8) {
        let v = crate::rng::mix2(BOOT.fetch_add(0x9e3779b97f4a7c14, std::sync::atomic::Ordering::Relaxed), 5).to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
    true
}
pub fn random_fill(buf: &mut [u8]) {
    let sc = s();
    let me = sc.cur;
    for c in buf.chunks_mut(8) {
        let v = sc.th[me].hrng.next().to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
}
/// A scheduling choice offered by the harness itself (drawn from the schedule, recorded like the others).
pub fn yield_maybe() { sys_point(false) }
