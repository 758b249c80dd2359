//! Runs plans (one forked process per incarnation), searches over seeds with several workers, minimises and replays.
use crate::disk::ImageSpec;
use crate::hist::{self, Ev};
use crate::rng::{hash_bytes, mix2, Rng};
use crate::sched::{self, Crash, Fault, SchedSpec};
use crate::shared::{self, sh};
use crate::{disk, kv, raw};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Debug;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inc<O> {
    #[serde(default = "Vec::new")]
    pub pre: Vec<(u32, O)>,
    #[serde(default = "Vec::new")]
    pub threads: Vec<Vec<(u32, O)>>,
    #[serde(default = "Vec::new")]
    pub post: Vec<(u32, O)>,
    #[serde(default = "Vec::new")]
    pub faults: Vec<Fault>,
    pub crash: Option<Crash>,
    pub sched: SchedSpec,
    /// chance of a background write-back at each storage system call
    #[serde(default)]
    pub writeback: f64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan<O> {
    pub prop: String,
    pub seed: u64,
    #[serde(default)]
    pub knobs: BTreeMap<String, i64>,
    pub incs: Vec<Inc<O>>,
}
impl<O> Plan<O> {
    pub fn knob(&self, k: &str) -> i64 { self.knobs.get(k).copied().unwrap_or(0) }
}
impl<O> Inc<O> {
    pub fn new(sched: SchedSpec) -> Self { Inc { pre: vec![], threads: vec![], post: vec![], faults: vec![], crash: None, sched, writeback: 0.0 } }
    pub fn ops(&self) -> impl Iterator<Item = &(u32, O)> { self.pre.iter().chain(self.threads.iter().flatten()).chain(self.post.iter()) }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub prop: String,
    /// class of the violation; minimisation keeps it
    pub class: String,
    /// what exactly failed; known findings are matched on class and this text
    pub detail: String,
}
pub fn violation(prop: &str, class: &str, detail: String) -> Violation { Violation { prop: prop.into(), class: class.into(), detail } }

pub trait Scenario: Sync + Send + 'static {
    type Op: Clone + Serialize + DeserializeOwned + Debug + Send + Sync + 'static;
    type St: Send + Sync + 'static;
    type Tl: 'static;
    fn gen(&self, prop: &str, rng: &mut Rng, thorough: bool) -> Plan<Self::Op>;
    /// Called in the child before the simulation of the incarnation starts.
    fn start(&self, plan: &Plan<Self::Op>, inc: usize, root: &str) -> Self::St;
    fn thread(&self, st: &Self::St, thread: usize) -> Self::Tl;
    fn exec(&self, st: &Self::St, tl: &mut Self::Tl, id: u32, op: &Self::Op);
    /// The verdict over the whole history.
    fn check(&self, plan: &Plan<Self::Op>, hist: &[Ev]) -> Option<Violation>;
    /// Simpler variants of an operation.
    fn simplify(&self, op: &Self::Op) -> Vec<Self::Op> { let _ = op; vec![] }
    /// Is the run non-trivial by this scenario's rule?
    fn nontrivial(&self, plan: &Plan<Self::Op>, hist: &[Ev]) -> bool;
    fn step_limit(&self) -> u64 { 20_000_000 }
}

pub struct Outcome { pub violation: Option<Violation>, pub hist: Vec<Ev>, pub sig: u64, pub hist_hash: u64, pub traces: Vec<Vec<(u64, u32)>>, pub harness_error: Option<String> }

thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) } }

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
pub fn take_panic() -> String { PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())) }

fn do_op<S: Scenario>(scn: &S, st: &S::St, tl: &mut S::Tl, id: u32, op: &S::Op) -> bool {
    sched::op_begin(id);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scn.exec(st, tl, id, op)));
    let ok = r.is_ok();
    if !ok { hist::ev("panic", id, json!(take_panic())); }
    sched::op_end();
    ok
}
fn drop_caught<T>(id: u32, x: T) {
    sched::op_begin(id);
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(x))).is_err() { hist::ev("panic", id, json!(take_panic())); }
    sched::op_end();
}
pub const DROP_OP: u32 = 1_000_000;

/// The incarnation runs in a thread of its own, because thread-local state (the hash keys of std's maps) must not
/// depend on what this process did before it forked.
fn child<S: Scenario>(scn: Arc<S>, plan: &Plan<S::Op>, inc: usize, root: &str) -> ! {
    std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || incarnation(scn, plan, inc, root)).expect("thread");
        let _ = t.join();
    });
    raw::exit_now(97);
}
fn incarnation<S: Scenario>(scn: Arc<S>, plan: &Plan<S::Op>, inc: usize, root: &str) {
    install_panic_hook();
    unsafe { raw::sc1(libc::SYS_alarm, 60); }
    let p = &plan.incs[inc];
    hist::set_inc(inc as u32);
    let seed = mix2(plan.seed, inc as u64);
    sched::boot(mix2(seed, 11));
    disk::load(root, seed, p.writeback);
    kv::load(root, seed, plan.knob("kv_bg") as f64 / 1000.0);
    let st = Arc::new(scn.start(plan, inc, root));
    sched::start(seed, &p.sched, p.faults.clone(), p.crash.clone(), scn.step_limit());
    let mut tl = scn.thread(&st, 0);
    let mut ok = true;
    for (id, op) in &p.pre { if ok { ok = do_op(&*scn, &st, &mut tl, *id, op); } }
    if ok {
        let mut ids = vec![];
        for (n, ops) in p.threads.iter().enumerate() {
            let (scn, st, ops) = (scn.clone(), st.clone(), ops.clone());
            ids.push(sched::spawn(move || {
                let mut tl = scn.thread(&st, n + 1);
                for (id, op) in &ops { if !do_op(&*scn, &st, &mut tl, *id, op) { break; } }
                drop_caught(DROP_OP + 1 + n as u32, tl);
                drop(st);
            }));
        }
        for t in ids { sched::join(t); }
        for (id, op) in &p.post { if ok { ok = do_op(&*scn, &st, &mut tl, *id, op); } }
    }
    drop_caught(DROP_OP, tl);
    drop_caught(DROP_OP, st);
    if let Some(c) = &p.crash { if !p.ops().any(|o| o.0 == c.op) || c.op >= DROP_OP { sched::op_begin(c.op); sched::op_end(); } }
    sched::stop();
    disk::save();
    kv::save();
    sh().done = 1;
    raw::exit_now(0);
}

fn reset_root(root: &str) {
    let _ = std::fs::remove_dir_all(root);
    raw::unlink(&format!("{root}.state"));
    raw::unlink(&format!("{root}.kv"));
    std::fs::create_dir_all(root).expect("scratch directory");
}

pub fn execute<S: Scenario>(scn: &Arc<S>, plan: &Plan<S::Op>, root: &str) -> Outcome {
    reset_root(root);
    shared::reset_run();
    let mut traces = vec![];
    let mut harness_error = None;
    for inc in 0..plan.incs.len() {
        sh().trace_len = 0; sh().done = 0; sh().crashed = 0;
        let pid = unsafe { libc::fork() };
        if pid == 0 { child(scn.clone(), plan, inc, root); }
        if pid < 0 { harness_error = Some("fork failed".to_string()); break; }
        let mut st = 0i32;
        loop {
            let r = unsafe { raw::sc4(libc::SYS_wait4, pid as usize, &mut st as *mut i32 as usize, 0, 0) };
            if r == pid as isize { break; }
        }
        traces.push(sh().trace[..sh().trace_len].to_vec());
        let sig = st & 0x7f;
        if sig != 0 {
            let (kind, msg) = if sig == libc::SIGALRM { ("hang", "no progress for 60 s".to_string()) } else { ("signal", format!("process died of signal {sig}")) };
            shared::hist_push_last(json!({"k": "fatal", "kind": kind, "msg": msg, "i": inc}).to_string().as_bytes());
            break;
        }
        let code = (st >> 8) & 0xff;
        if code == 3 { break; }
        if code != 0 { harness_error = Some(format!("incarnation {inc} ended with code {code}")); break; }
        if sh().done == 0 && sh().crashed == 0 { shared::hist_push_last(br#"{"k":"fatal","kind":"exit","msg":"the process exited in the middle of an operation"}"#); break; }
    }
    if sh().hist_overflow != 0 && sh().done != 0 { harness_error = Some("history overflow".into()); }
    let hb = shared::hist_bytes();
    let hist_hash = hash_bytes(7, hb);
    let hist = hist::parse();
    let sig = mix2(sh().sched_sig, hash_bytes(3, hb));
    let violation = if harness_error.is_some() { None } else { scn.check(plan, &hist) };
    Outcome { violation, hist, sig, hist_hash, traces, harness_error }
}

fn explicit<O: Clone>(plan: &Plan<O>, traces: &[Vec<(u64, u32)>]) -> Plan<O> {
    let mut p = plan.clone();
    for (i, inc) in p.incs.iter_mut().enumerate() {
        inc.sched = SchedSpec::Explicit { switches: traces.get(i).cloned().unwrap_or_default() };
    }
    p
}

// ---------- minimisation ----------
fn minimise<S: Scenario>(scn: &Arc<S>, plan: Plan<S::Op>, v: &Violation, root: &str, budget: Duration) -> (Plan<S::Op>, Violation, u64) {
    let t0 = Instant::now();
    let mut best = plan;
    let mut bv = v.clone();
    let mut tries = 0u64;
    let mut attempt = |p: &Plan<S::Op>| -> Option<(Violation, Vec<Vec<(u64, u32)>>)> {
        if t0.elapsed() > budget { return None; }
        tries += 1;
        let o = execute(scn, p, root);
        match o.violation { Some(x) if x.class == v.class && x.prop == v.prop => Some((x, o.traces)), _ => None }
    };
    macro_rules! try_plan { ($p:expr) => {{ let p = $p; if let Some((x, _)) = attempt(&p) { best = p; bv = x; true } else { false } }} }
    for _round in 0..4 {
        let before = serde_json::to_string(&best).unwrap().len();
        // drop whole incarnations
        let mut i = best.incs.len();
        while i > 0 { i -= 1; if best.incs.len() > 1 { let mut p = best.clone(); p.incs.remove(i); try_plan!(p); } }
        // drop threads
        for i in 0..best.incs.len() {
            let mut t = best.incs[i].threads.len();
            while t > 0 { t -= 1; if best.incs[i].threads.len() > 1 || best.incs[i].threads[t].len() > 0 { let mut p = best.clone(); p.incs[i].threads.remove(t); shift_threads(&mut p.incs[i].sched, t as u32 + 1); try_plan!(p); } }
        }
        // drop faults and crashes
        for i in 0..best.incs.len() {
            let mut k = best.incs[i].faults.len();
            while k > 0 { k -= 1; let mut p = best.clone(); p.incs[i].faults.remove(k); try_plan!(p); }
            if best.incs[i].crash.is_some() { let mut p = best.clone(); p.incs[i].crash = None; try_plan!(p); }
            if best.incs[i].writeback > 0.0 { let mut p = best.clone(); p.incs[i].writeback = 0.0; try_plan!(p); }
        }
        // drop operations: chunks, then single
        for i in 0..best.incs.len() {
            for part in 0..2 + best.incs[i].threads.len() {
                let len = part_of(&best.incs[i], part).len();
                let mut size = (len / 2).max(1);
                loop {
                    let mut at = 0;
                    while at < part_of(&best.incs[i], part).len() {
                        let mut p = best.clone();
                        let v = part_mut(&mut p.incs[i], part);
                        let e = (at + size).min(v.len());
                        v.drain(at..e);
                        if !try_plan!(p) { at += size; }
                        if t0.elapsed() > budget { break; }
                    }
                    if size == 1 { break; }
                    size /= 2;
                }
                // simplify operations
                let mut at = 0;
                while at < part_of(&best.incs[i], part).len() {
                    let mut again = true;
                    let mut guard = 0;
                    while again && guard < 12 {
                        again = false; guard += 1;
                        for o in scn.simplify(&part_of(&best.incs[i], part)[at].1) {
                            let mut p = best.clone();
                            part_mut(&mut p.incs[i], part)[at].1 = o;
                            if try_plan!(p) { again = true; break; }
                        }
                    }
                    at += 1;
                }
            }
        }
        // drop schedule switches
        for i in 0..best.incs.len() {
            if let SchedSpec::Explicit { switches } = &best.incs[i].sched {
                let mut size = (switches.len() / 2).max(1);
                loop {
                    let mut at = 0;
                    loop {
                        let SchedSpec::Explicit { switches } = &best.incs[i].sched else { break };
                        if at >= switches.len() { break; }
                        let mut sw = switches.clone();
                        let e = (at + size).min(sw.len());
                        sw.drain(at..e);
                        let mut p = best.clone();
                        p.incs[i].sched = SchedSpec::Explicit { switches: sw };
                        if !try_plan!(p) { at += size; }
                        if t0.elapsed() > budget { break; }
                    }
                    if size == 1 { break; }
                    size /= 2;
                }
            }
            if let Some(c) = best.incs[i].crash.clone() {
                for n in [1, c.nth / 2, c.nth.saturating_sub(1)] { if n >= 1 && n < c.nth { let mut p = best.clone(); p.incs[i].crash.as_mut().unwrap().nth = n; if try_plan!(p) { break; } } }
            }
        }
        // the schedule entries that take effect are those the run itself records
        let after = serde_json::to_string(&best).unwrap().len();
        if after >= before || t0.elapsed() > budget { break; }
    }
    let n = tries;
    (best, bv, n)
}
fn shift_threads(s: &mut SchedSpec, removed: u32) {
    if let SchedSpec::Explicit { switches } = s {
        switches.retain(|x| x.1 != removed);
        for x in switches.iter_mut() { if x.1 > removed { x.1 -= 1; } }
    }
}
fn part_of<O>(i: &Inc<O>, part: usize) -> &Vec<(u32, O)> { match part { 0 => &i.pre, 1 => &i.post, n => &i.threads[n - 2] } }
fn part_mut<O>(i: &mut Inc<O>, part: usize) -> &mut Vec<(u32, O)> { match part { 0 => &mut i.pre, 1 => &mut i.post, n => &mut i.threads[n - 2] } }

// ---------- helpers for generators ----------
pub fn gen_sched(rng: &mut Rng) -> SchedSpec {
    if rng.chance(0.25) {
        let sys = rng.chance(0.6);
        let len = if sys { *rng.pick(&[10, 30, 100, 400]) } else { *rng.pick(&[500, 5_000, 50_000]) };
        return SchedSpec::Priority { seed: rng.next(), depth: *rng.pick(&[1, 1, 2, 2, 3, 5]), len, sys };
    }
    let p_mem = *rng.pick(&[0.0, 0.0005, 0.002, 0.01, 0.05, 0.2]);
    let p_sys = *rng.pick(&[0.0, 0.02, 0.1, 0.3, 0.6]);
    SchedSpec::Random { seed: rng.next(), p_mem, p_sys }
}
pub fn serial_sched() -> SchedSpec { SchedSpec::Explicit { switches: vec![] } }
pub fn gen_image(rng: &mut Rng) -> ImageSpec {
    ImageSpec { seed: rng.next(), keep: *rng.pick(&[0.0, 0.0, 0.1, 0.3, 0.5, 0.5, 0.7, 0.9, 1.0]), meta: *rng.pick(&[0.0, 0.5, 0.8, 1.0, 1.0, 1.0]),
        sector: *rng.pick(&[512, 512, 4096]), per_file: rng.chance(0.3) }
}
pub fn gen_crash(rng: &mut Rng, op: u32, power: f64) -> Crash {
    let sys = rng.chance(0.6);
    Crash { kind: if rng.chance(power) { "power" } else { "kill" }.into(), op, at: if sys { "sys" } else { "mem" }.into(),
        nth: if sys { 1 + rng.below(*rng.clone().pick(&[4, 8, 16, 40])) } else { rng.log(20_000) }, image: gen_image(rng) }
}

// ---------- search ----------
pub struct Config {
    pub prop: String, pub tier: String, pub seed: u64, pub runs: u64, pub secs: u64, pub workers: usize,
    pub rule: String, pub real: Vec<String>, pub stubs: Vec<String>, pub assumptions: Vec<String>, pub level: String,
    pub verif: String, pub fault_kinds: Vec<String>, pub probes_expected: Vec<String>, pub program: String,
}
#[derive(Serialize, Deserialize, Default)]
struct WorkerResult {
    runs: u64, nontrivial: Vec<u64>, states: Vec<u64>, interleavings: Vec<u64>, counts: Vec<(String, String, u64)>, steps: u64, switches: u64, sim_ns: u64,
    found: Option<(u64, Value, Violation)>, known: BTreeMap<String, u64>, samples: Vec<Value>, errors: Vec<String>, unreproducible: u64, incs: u64, multi: u64, max_ms: u64,
}
#[derive(Deserialize, Clone, Debug)]
pub struct Known { pub id: String, #[serde(default)] pub status: String, pub property: String, #[serde(default)] pub class: String, #[serde(default)] pub pattern: String, #[serde(default)] pub what: String, #[serde(default)] pub replay: String }
impl Known {
    fn matches(&self, v: &Violation) -> bool {
        self.status == "known" && self.property == v.prop && !self.class.is_empty() && self.class == v.class && (self.pattern.is_empty() || v.detail.contains(&self.pattern))
    }
}
pub fn known(verif: &str) -> Vec<Known> {
    std::fs::read_to_string(format!("{verif}/known_findings.jsonl")).unwrap_or_default().lines().filter(|l| l.trim_start().starts_with('{'))
        .map(|l| serde_json::from_str(l).expect("known_findings.jsonl")).collect()
}

struct Ctl { next: AtomicU64, stop_at: AtomicU64 }

fn scratch_base() -> String {
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    format!("{base}/dst-{}-{}", std::process::id(), unsafe { let mut t: libc::timespec = std::mem::zeroed(); libc::clock_gettime(libc::CLOCK_REALTIME, &mut t); t.tv_nsec })
}

pub fn plan_for<S: Scenario>(scn: &S, prop: &str, seed: u64, n: u64, thorough: bool) -> Plan<S::Op> {
    let s = mix2(mix2(seed, hash_bytes(11, prop.as_bytes())), n);
    let mut rng = Rng::new(s);
    let mut p = scn.gen(prop, &mut rng, thorough);
    p.seed = s;
    p.prop = prop.into();
    p
}

pub fn search<S: Scenario>(scn: S, c: Config) -> i32 {
    let scn = Arc::new(scn);
    let t0 = Instant::now();
    let base = scratch_base();
    std::fs::create_dir_all(&base).expect("scratch");
    let thorough = c.tier == "thorough";
    println!("seed={} property={} tier={} runs<={} time<={}s workers={}", c.seed, c.prop, c.tier, c.runs, c.secs, c.workers);
    let knowns = known(&c.verif);
    let ctl: &'static Ctl = unsafe {
        let p = raw::syscall6(libc::SYS_mmap, 0, 4096, 3, (libc::MAP_SHARED | libc::MAP_ANONYMOUS) as usize, usize::MAX, 0);
        &*(p as *const Ctl)
    };
    ctl.stop_at.store(u64::MAX, Ordering::SeqCst);
    let mut pids = vec![];
    for w in 0..c.workers {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            pin(w);
            worker(&scn, &c, w, &base, ctl, &knowns, thorough, t0);
            raw::exit_now(0);
        }
        pids.push(pid);
    }
    let mut bad = vec![];
    for (w, pid) in pids.iter().enumerate() {
        let mut st = 0i32;
        unsafe { libc::waitpid(*pid, &mut st, 0); }
        if st != 0 { bad.push(format!("worker {w} ended with status {st}")); }
    }
    let mut all = WorkerResult::default();
    let (mut nontriv, mut states, mut inter): (HashSet<u64>, HashSet<u64>, HashSet<u64>) = Default::default();
    let mut counts: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    for w in 0..c.workers {
        let Ok(b) = std::fs::read(format!("{base}/w{w}.json")) else { continue };
        let r: WorkerResult = serde_json::from_slice(&b).unwrap();
        all.runs += r.runs; all.steps += r.steps; all.switches += r.switches; all.sim_ns += r.sim_ns; all.unreproducible += r.unreproducible; all.incs += r.incs; all.multi += r.multi;
        all.max_ms = all.max_ms.max(r.max_ms);
        nontriv.extend(r.nontrivial); states.extend(r.states); inter.extend(r.interleavings);
        for (g, n, k) in r.counts { *counts.entry(g).or_default().entry(n).or_default() += k; }
        for (k, n) in r.known { *all.known.entry(k).or_default() += n; }
        all.errors.extend(r.errors);
        if all.samples.len() < 3 { all.samples.extend(r.samples); }
        if let Some(f) = r.found { if all.found.as_ref().map_or(true, |g| f.0 < g.0) { all.found = Some(f); } }
    }
    bad.extend(all.errors.iter().cloned());
    let search_s = t0.elapsed().as_secs_f64();
    // known findings: confirm each listed one by its replay file
    for k in knowns.iter().filter(|k| k.property == c.prop && k.status == "known") {
        println!("KNOWN-FINDING: property={} {} {}", c.prop, k.id, k.what);
    }
    let mut code = 0;
    let mut viol = json!(null);
    if let Some((n, plan, v)) = &all.found {
        let plan: Plan<S::Op> = serde_json::from_value(plan.clone()).unwrap();
        let root = format!("{base}/min/root");
        shared::init();
        let (plan, v, tries) = minimise(&scn, plan, v, &root, Duration::from_secs(std::env::var("VERIF_MIN_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 180 } else { 60 })));
        let dir = format!("{}/replays", c.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{}.json", c.prop, c.seed, n);
        let o = execute(&scn, &plan, &root);
        let doc = json!({"property": c.prop, "program": c.program, "verif_seed": c.seed, "run": n, "violation": v, "minimisation_runs": tries, "plan": plan,
            "history": o.hist.iter().map(|e| serde_json::to_value(e).unwrap()).collect::<Vec<_>>()});
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("replay file");
        println!("violation in run {n}: [{}] {}", v.class, v.detail);
        println!("replay with: {}/replay.sh {}", c.verif, path);
        println!("VIOLATION property={} replay={}", c.prop, path);
        viol = json!({"run": n, "class": v.class, "detail": v.detail, "replay": path});
        code = 1;
    } else if !bad.is_empty() || all.runs == 0 {
        for b in bad.iter().take(10) { eprintln!("harness error: {b}"); }
        if all.runs == 0 { eprintln!("harness error: no run completed"); }
        code = 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults = counts.get("fault").cloned().unwrap_or_default();
    let probes = counts.get("probe").cloned().unwrap_or_default();
    let missing: Vec<&String> = c.probes_expected.iter().filter(|p| !probes.contains_key(*p)).collect();
    let never: Vec<&String> = c.fault_kinds.iter().filter(|p| !faults.contains_key(*p)).collect();
    if !missing.is_empty() && code == 0 { eprintln!("note: probes never reached: {missing:?}"); }
    let ev = json!({
        "property": c.prop, "tier": c.tier, "seed": c.seed, "level": c.level, "wall_s": wall, "violations": if code == 1 { 1 } else { 0 },
        "assumptions": c.assumptions,
        "coverage": {
            "evaluations": all.runs, "distinct_nontrivial": nontriv.len(), "rule": c.rule, "samples": all.samples.iter().take(3).collect::<Vec<_>>(),
            "simulated_process_incarnations": all.incs, "runs_with_several_threads": all.multi,
            "runs_per_hour": (all.runs as f64 / search_s * 3600.0) as u64, "seeds_per_hour": (all.runs as f64 / search_s * 3600.0) as u64,
            "simulated_steps": all.steps, "context_switches": all.switches, "simulated_seconds": all.sim_ns as f64 / 1e9,
            "faults_injected": faults, "fault_kinds_configured_but_never_fired": never, "crashes": counts.get("crash").cloned().unwrap_or_default(),
            "disk_events": counts.get("disk").cloned().unwrap_or_default(), "node_events": counts.get("node").cloned().unwrap_or_default(), "operations": counts.get("op").cloned().unwrap_or_default(),
            "probes": probes, "probes_never_reached": missing,
            "distinct_interleavings": inter.len(), "interleaving_measure": "hash of the sequence of context switches (who, in which operation, at which point of it) of the run",
            "distinct_crash_images": states.len(), "state_measure": "hash of the durable files at a power loss, or of the abstract state the scenario reports",
            "real_components": c.real, "stubbed_components": c.stubs,
            "known_findings_seen": all.known, "unreproducible_alarms_discarded": all.unreproducible, "slowest_run_ms": all.max_ms, "violation": viol,
        }
    });
    let dir = format!("{}/evidence", c.verif);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", c.prop), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    let _ = std::fs::remove_dir_all(&base);
    println!("{} runs ({} distinct non-trivial, {} interleavings, {} crash images) in {:.1}s, exit {}", all.runs, nontriv.len(), inter.len(), states.len(), wall, code);
    code
}
fn pin(w: usize) {
    unsafe {
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(w % n, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}
#[allow(clippy::too_many_arguments)]
fn worker<S: Scenario>(scn: &Arc<S>, c: &Config, w: usize, base: &str, ctl: &Ctl, knowns: &[Known], thorough: bool, t0: Instant) {
    shared::init();
    let root = format!("{base}/w{w}/root");
    let mut r = WorkerResult::default();
    let (mut nontriv, mut states, mut inter): (HashSet<u64>, HashSet<u64>, HashSet<u64>) = Default::default();
    let mut counts: HashMap<(&'static str, &'static str), u64> = HashMap::new();
    loop {
        if t0.elapsed() > Duration::from_secs(c.secs) { break; }
        let n = ctl.next.fetch_add(1, Ordering::SeqCst);
        if n >= c.runs || n > ctl.stop_at.load(Ordering::SeqCst) { break; }
        let plan = plan_for(&**scn, &c.prop, c.seed, n, thorough);
        let t1 = Instant::now();
        let o = execute(scn, &plan, &root);
        r.max_ms = r.max_ms.max(t1.elapsed().as_millis() as u64);
        r.runs += 1;
        r.incs += o.traces.len() as u64;
        if plan.incs.iter().any(|i| i.threads.len() > 1) { r.multi += 1; }
        let x = sh();
        r.steps += x.steps; r.switches += x.switches; r.sim_ns += x.sim_ns;
        for i in 0..x.ncount { let (g, nm, k) = x.counts[i]; *counts.entry((g, nm)).or_default() += k; }
        if x.switches > 1 { inter.insert(x.sched_sig); }
        for i in 0..x.nsig { if states.len() < 2_000_000 { states.insert(x.sigs[i]); } }
        if let Some(e) = o.harness_error { r.errors.push(format!("run {n}: {e}")); if r.errors.len() > 5 { break; } continue; }
        if scn.nontrivial(&plan, &o.hist) { nontriv.insert(o.sig); }
        if r.samples.is_empty() && n >= 3 {
            let s = serde_json::to_string(&plan).unwrap();
            if s.len() < 6000 { r.samples.push(serde_json::to_value(&plan).unwrap()); }
        }
        if let Some(v) = o.violation {
            if let Some(k) = knowns.iter().find(|k| k.matches(&v)) { *r.known.entry(k.id.clone()).or_default() += 1; continue; }
            // a violation counts only if its explicit plan reproduces it
            let ex = explicit(&plan, &o.traces);
            let again = execute(scn, &ex, &root);
            let (keep, v2) = match again.violation { Some(v2) if v2.class == v.class => (ex, v2), _ => {
                let again = execute(scn, &plan, &root);
                match again.violation { Some(v2) if v2.class == v.class => (plan, v2), _ => {
                    r.unreproducible += 1;
                    eprintln!("run {n}: violation did not reproduce: {v:?}");
                    continue;
                } }
            } };
            ctl.stop_at.fetch_min(n, Ordering::SeqCst);
            if r.found.as_ref().map_or(true, |f| n < f.0) { r.found = Some((n, serde_json::to_value(&keep).unwrap(), v2)); }
        }
    }
    r.nontrivial = nontriv.into_iter().collect();
    r.states = states.into_iter().collect();
    r.interleavings = inter.into_iter().collect();
    r.counts = counts.into_iter().map(|((a, b), k)| (a.to_string(), b.to_string(), k)).collect();
    std::fs::write(format!("{base}/w{w}.json"), serde_json::to_vec(&r).unwrap()).expect("worker result");
}

/// Replays a file; 1 if the violation shows again.
pub fn replay<S: Scenario>(scn: S, file: &str) -> i32 {
    let scn = Arc::new(scn);
    let doc: Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("replay file");
    let plan: Plan<S::Op> = serde_json::from_value(doc["plan"].clone()).expect("plan");
    let base = scratch_base();
    shared::init();
    pin(0);
    let o = execute(&scn, &plan, &format!("{base}/root"));
    let _ = std::fs::remove_dir_all(&base);
    for e in &o.hist { println!("{}", serde_json::to_string(e).unwrap()); }
    println!("history hash {:016x}", o.hist_hash);
    if let Some(e) = o.harness_error { println!("harness error: {e}"); return 2; }
    match o.violation {
        Some(v) => {
            println!("[{}] {}", v.class, v.detail);
            println!("VIOLATION property={} replay={}", v.prop, file);
            1
        }
        None => { println!("no violation"); 0 }
    }
}
/// Every plan twice, as generated and with its explicit schedule: the histories must be identical.
pub fn selftest<S: Scenario>(scn: S, prop: &str, seed: u64, runs: u64) -> i32 {
    let scn = Arc::new(scn);
    let base = scratch_base();
    shared::init();
    let root = format!("{base}/root");
    let mut bad = 0;
    for n in 0..runs {
        let plan = plan_for(&*scn, prop, seed, n, false);
        let a = execute(&scn, &plan, &root);
        pin(n as usize);
        let b = execute(&scn, &plan, &root);
        let e = execute(&scn, &explicit(&plan, &a.traces), &root);
        if std::env::var("VERIF_DIFF").is_ok() {
            let line = |e: Option<&Ev>| e.map_or("end".to_string(), |e| serde_json::to_string(e).unwrap());
            if let Some(k) = (0..a.hist.len().max(b.hist.len())).find(|k| line(a.hist.get(*k)) != line(b.hist.get(*k))) { println!("run {n} event {k}:\n  {}\n  {}", line(a.hist.get(k)), line(b.hist.get(k))); }
        }
        if a.hist_hash != b.hist_hash || a.traces != b.traces { println!("run {n}: two executions differ"); bad += 1; }
        if a.hist_hash != e.hist_hash { println!("run {n}: explicit schedule differs"); bad += 1; }
    }
    let _ = std::fs::remove_dir_all(&base);
    println!("selftest {prop} seed {seed}: {runs} plans, {bad} differences");
    if bad > 0 { 2 } else { 0 }
}
/// Command line of every simulator binary.
pub fn main_with<S: Scenario>(make: fn(&str) -> S, config: fn(&str, &str) -> Config) -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let mut c = config(&a[2], &a[3]);
            c.verif = verif; c.seed = seed; c.prop = a[2].clone(); c.tier = a[3].clone();
            c.program = a[0].rsplit('/').next().unwrap().to_string();
            if let Ok(n) = std::env::var("VERIF_RUNS") { c.runs = n.parse().unwrap(); }
            if let Ok(n) = std::env::var("VERIF_SECS") { c.secs = n.parse().unwrap(); }
            if let Ok(n) = std::env::var("VERIF_WORKERS") { c.workers = n.parse().unwrap(); }
            search(make(&a[2]), c)
        }
        Some("replay") => {
            let doc: Value = serde_json::from_slice(&std::fs::read(&a[2]).expect("replay file")).expect("replay file");
            replay(make(doc["property"].as_str().unwrap()), &a[2])
        }
        Some("selftest") => selftest(make(&a[2]), &a[2], seed, a.get(3).and_then(|s| s.parse().ok()).unwrap_or(100)),
        Some("plan") => {
            let p = plan_for(&make(&a[2]), &a[2], seed, a[3].parse().unwrap(), false);
            println!("{}", serde_json::to_string_pretty(&json!({"property": a[2], "plan": p})).unwrap());
            0
        }
        _ => { eprintln!("usage: check PROP TIER | replay FILE | selftest PROP N | plan PROP N"); 2 }
    }
}
