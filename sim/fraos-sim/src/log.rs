//! fraos under simulation: one database (file-backed or in memory), any number of handles, threads, crashes, faults.
use crate::logcheck::*;
use fraos::{Database, SeqNoIter};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::*;
use simrt::hist::{ev, Ev};
use simrt::rng::{hash_bytes, mix2, Rng};
use simrt::sched::{self, Crash, Fault, SchedSpec};
use simrt::{raw, shared};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// open the main handle (the whole content is read back as well)
    Open,
    OpenRo { slot: usize },
    OpenMem,
    /// h = 0: the main handle, n > 0: this thread's slot n - 1
    Append { h: usize, sizes: Vec<u32> },
    Get { h: usize, n: i64 },
    Last { h: usize },
    Len { h: usize },
    IterNew { h: usize, slot: usize, from: usize },
    IterNext { slot: usize, n: usize },
    Clone { slot: usize },
    Drop { slot: usize },
    /// drops the main handle
    Close,
    /// makes a clone for every thread of this incarnation; each finds it in its slot 0
    Gift,
    /// reads everything through the handle
    Dump { h: usize },
    /// copies the files page by page, index first
    Copy { chunk: usize },
    OpenCopy { ro: bool, slot: usize },
    /// the files are exactly as long as their content
    Sizes,
}
pub struct Fr;
pub struct St { main: UnsafeCell<Option<(Database, Cnt)>>, gifts: UnsafeCell<Vec<Option<H>>>, root: String, live: Arc<AtomicUsize>, threads: usize, epoch: AtomicUsize }
/// Counts the live handles of the database under test.
pub struct Cnt(Arc<AtomicUsize>);
impl Cnt { fn new(a: &Arc<AtomicUsize>) -> Self { a.fetch_add(1, Ordering::SeqCst); Cnt(a.clone()) } }
impl Drop for Cnt { fn drop(&mut self) { self.0.fetch_sub(1, Ordering::SeqCst); } }
unsafe impl Sync for St {}
unsafe impl Send for St {}
impl St {
    #[allow(clippy::mut_from_ref)]
    fn main(&self) -> &mut Option<(Database, Cnt)> { unsafe { &mut *self.main.get() } }
}
pub enum H { Db(Database, String, Option<Cnt>), It(SeqNoIter, usize, String, usize) }
pub struct Tl { h: Vec<Option<H>> }
impl Tl { fn set(&mut self, i: usize, x: H) { while self.h.len() <= i { self.h.push(None); } self.h[i] = Some(x); } }

pub fn rec(id: u32, j: usize, len: u32) -> Vec<u8> {
    let mut r = Rng::new(mix2(id as u64 + 1, j as u64));
    let mut v = vec![0u8; len as usize];
    for c in v.chunks_mut(8) { let x = r.next().to_le_bytes(); c.copy_from_slice(&x[..c.len()]); }
    v
}
pub fn dig(b: &[u8]) -> R { (b.len() as u64, hash_bytes(5, b) >> 12) }

fn errs<E: std::fmt::Display>(e: E) -> Value { json!({"err": e.to_string()}) }

fn dump(db: &Database) -> Value {
    let n = db.len();
    if n > 200_000 { return json!({"err": format!("length {n}")}); }
    let mut v: Vec<R> = vec![];
    for i in 0..n {
        match db.get_by_seqno(i) {
            Ok(Some(b)) => v.push(dig(&b)),
            Ok(None) => return json!({"err": format!("nothing at {i} of {n}")}),
            Err(e) => return json!({"err": format!("at {i} of {n}: {e}")}),
        }
    }
    json!(v)
}

impl Fr {
    fn db<'a>(&self, st: &'a St, tl: &'a Tl, h: usize) -> Option<(&'a Database, &'a str)> {
        if h == 0 { return st.main().as_ref().map(|d| (&d.0, "main")); }
        match tl.h.get(h - 1) { Some(Some(H::Db(d, v, _))) => Some((d, v)), _ => None }
    }
}

impl Scenario for Fr {
    type Op = Op;
    type St = St;
    type Tl = Tl;

    fn start(&self, plan: &Plan<Op>, inc: usize, root: &str) -> St {
        fraos::dst::MIN_MMAP_BYTES.set(plan.knob("min_mmap") as usize);
        fraos::dst::MAX_MMAPS_COUNT.set(plan.knob("max_mmaps") as usize);
        St { main: UnsafeCell::new(None), gifts: UnsafeCell::new(vec![]), root: root.to_string(), live: Default::default(), epoch: Default::default(), threads: plan.incs[inc].threads.len() }
    }
    fn thread(&self, st: &St, n: usize) -> Tl {
        let g = unsafe { &mut *st.gifts.get() };
        Tl { h: if n > 0 && n <= g.len() { vec![g[n - 1].take()] } else { vec![] } }
    }

    fn exec(&self, st: &St, tl: &mut Tl, id: u32, op: &Op) {
        let path = format!("{}/db", st.root);
        match op {
            Op::Open | Op::OpenMem => {
                if st.live.load(Ordering::SeqCst) > 0 { return; }
                shared::count("op", "open");
                st.epoch.fetch_add(1, Ordering::SeqCst);
                ev("open", id, json!(null));
                let r = if *op == Op::Open { Database::file(&path) } else { Database::memory() };
                match r {
                    Ok(db) => { let c = dump(&db); *st.main() = Some((db, Cnt::new(&st.live))); ev("opened", id, c); }
                    Err(e) => ev("opened", id, json!({"openerr": e.to_string()})),
                }
            }
            Op::OpenRo { slot } => {
                shared::count("op", "open_readonly");
                ev("ro", id, json!(null));
                match Database::file_readonly(&path) {
                    Ok(db) => { let c = dump(&db); tl.set(*slot, H::Db(db, format!("ro{id}"), None)); ev("ro_opened", id, c); }
                    Err(e) => ev("ro_opened", id, json!({"openerr": e.to_string()})),
                }
            }
            Op::OpenCopy { ro, slot } => {
                shared::count("op", "open_copy");
                let p = format!("{}/copy", st.root);
                if !std::path::Path::new(&p).exists() { return; }
                ev("cp_open", id, json!(null));
                let r = if *ro { Database::file_readonly(&p) } else { Database::file(&p) };
                match r {
                    Ok(db) => { let c = dump(&db); tl.set(*slot, H::Db(db, if *ro { format!("cro{id}") } else { "copy".into() }, None)); ev("cp_opened", id, c); }
                    Err(e) => ev("cp_opened", id, json!({"openerr": e.to_string()})),
                }
            }
            Op::Append { h, sizes } => {
                let Some((db, v)) = self.db(st, tl, *h) else { return };
                if v.starts_with("ro") || v.starts_with("cro") { return; }
                shared::count("op", "append");
                let recs: Vec<Vec<u8>> = sizes.iter().enumerate().map(|(j, l)| rec(id, j, *l)).collect();
                let refs: Vec<&[u8]> = recs.iter().map(|r| r.as_slice()).collect();
                ev("app", id, json!({"view": v, "recs": recs.iter().map(|r| dig(r)).collect::<Vec<_>>()}));
                let alone = sched::s().th.len() <= 1 && v == "main";
                let r = match (id % 5, &refs[..]) {
                    (1, [one]) => db.put_seqno(one).map(Some),
                    // these do not tell the position; without others it is what the length says
                    (2, [one]) if alone => db.put(one).map(|_| db.len().checked_sub(1)),
                    (3, some) if alone && !some.is_empty() => db.append(some).map(|_| db.len().checked_sub(some.len())),
                    _ => db.append_get_seqno(&refs),
                };
                ev("appd", id, match r { Ok(s) => json!({"ok": s}), Err(e) => errs(e) });
            }
            Op::Get { h, n } => {
                let Some((db, v)) = self.db(st, tl, *h) else { return };
                shared::count("op", "get");
                let n = match *n { -1 => usize::MAX, -2 => usize::MAX / 16 + 1, -3 => 1 << 40, -4 => usize::MAX / 16, x => x as usize };
                ev("rd", id, json!({"view": v, "get": n}));
                let r = db.get_by_seqno(n);
                ev("rdd", id, match r { Ok(x) => json!({"rec": x.map(|b| dig(&b))}), Err(e) => errs(e) });
            }
            Op::Last { h } => {
                let Some((db, v)) = self.db(st, tl, *h) else { return };
                shared::count("op", "last");
                ev("rd", id, json!({"view": v, "last": 1}));
                let r = db.last();
                ev("rdd", id, match r { Ok(x) => json!({"rec": x.map(|b| dig(&b))}), Err(e) => errs(e) });
            }
            Op::Len { h } => {
                let Some((db, v)) = self.db(st, tl, *h) else { return };
                shared::count("op", "len");
                ev("rd", id, json!({"view": v, "len": 1}));
                let n = db.len();
                let e = if n % 2 == 0 { db.is_empty() && n > 0 } else { false };
                ev("rdd", id, if e { json!({"err": "is_empty with records"}) } else { json!({"n": n}) });
            }
            Op::IterNew { h, slot, from } => {
                let Some((db, v)) = self.db(st, tl, *h) else { return };
                shared::count("op", "iter");
                let v = v.to_string();
                if let Some(it) = db.iter_from_seqno(*from) { tl.set(*slot, H::It(it, *from, v, st.epoch.load(Ordering::SeqCst))); }
            }
            Op::IterNext { slot, n } => {
                for _ in 0..*n {
                    let Some(Some(H::It(it, pos, v, epoch))) = tl.h.get_mut(*slot) else { return };
                    shared::count("op", "iter_next");
                    // an iterator may outlive the database it came from
                    let view = if v == "main" && *epoch != st.epoch.load(Ordering::SeqCst) { format!("old{epoch}") } else { v.clone() };
                    ev("rd", id, json!({"view": view, "get": *pos}));
                    let r = it.next();
                    if let Some(Ok(_)) = r { *pos += 1; }
                    let none = r.is_none();
                    ev("rdd", id, match r { None => json!({"rec": null}), Some(Ok(b)) => json!({"rec": dig(&b)}), Some(Err(e)) => errs(e) });
                    if none { break; }
                }
            }
            Op::Clone { slot } => {
                shared::count("op", "clone");
                let src = match tl.h.first() { Some(Some(H::Db(d, v, Some(_)))) if v == "main" => Some(d), _ => st.main().as_ref().map(|d| &d.0) };
                if let Some(d) = src { let k = Cnt::new(&st.live); let c = d.clone(); tl.set(*slot, H::Db(c, "main".into(), Some(k))); }
            }
            Op::Gift => {
                let g = unsafe { &mut *st.gifts.get() };
                for _ in 0..st.threads { g.push(st.main().as_ref().map(|d| H::Db(d.0.clone(), "main".into(), Some(Cnt::new(&st.live))))); }
            }
            Op::Drop { slot } => {
                shared::count("op", "drop");
                if let Some(x) = tl.h.get_mut(*slot) { let x = x.take(); drop(x); }
            }
            Op::Close => {
                shared::count("op", "close");
                ev("close", id, json!(null));
                let x = st.main().take();
                drop(x);
                ev("closed", id, json!(null));
            }
            Op::Dump { h } => {
                let Some((db, v)) = self.db(st, tl, *h) else { return };
                shared::count("op", "dump");
                let v = v.to_string();
                ev("dump", id, json!({ "view": v }));
                let d = dump(db);
                ev("dumped", id, json!({"view": v, "c": d}));
            }
            Op::Copy { chunk } => {
                shared::count("op", "copy");
                let dst = format!("{}/copy", st.root);
                if std::path::Path::new(&dst).exists() { return; }
                ev("copy", id, json!(null));
                let _ = std::fs::create_dir(&dst);
                for f in ["seqno", "data"] {
                    let from = raw::open(&format!("{path}/{f}"), libc_rdonly(), 0);
                    if from < 0 { let _ = std::fs::remove_dir_all(&dst); return; }
                    let mut out = vec![];
                    let mut off = 0u64;
                    loop {
                        sched::sys_point(true);
                        let mut b = vec![0u8; *chunk];
                        let n = raw::pread(from, &mut b, off);
                        out.extend(&b[..n]);
                        off += n as u64;
                        if n < *chunk { break; }
                        if sched::s().th.len() > 1 && off % 4096 == 0 { sched::yield_maybe(); }
                    }
                    raw::close(from);
                    raw::write_file(&format!("{dst}/{f}"), &out);
                }
                ev("copied", id, json!(null));
            }
            Op::Sizes => {
                if st.live.load(Ordering::SeqCst) > 0 { return; }
                let l = |f: &str| raw::read_file(&format!("{path}/{f}")).map(|b| b.len()).unwrap_or(usize::MAX);
                ev("sizes", id, json!({"seqno": l("seqno"), "data": l("data")}));
            }
        }
    }

    fn gen(&self, prop: &str, rng: &mut Rng, thorough: bool) -> Plan<Op> { crate::gen::gen(prop, rng, thorough) }

    fn check(&self, plan: &Plan<Op>, hist: &[Ev]) -> Option<Violation> { check(plan, hist) }

    fn simplify(&self, op: &Op) -> Vec<Op> {
        match op {
            Op::Append { h, sizes } => {
                let mut v = vec![];
                if sizes.len() > 1 { v.push(Op::Append { h: *h, sizes: sizes[..sizes.len() / 2].to_vec() }); v.push(Op::Append { h: *h, sizes: sizes[..sizes.len() - 1].to_vec() }); }
                if sizes.iter().any(|s| *s > 8) { v.push(Op::Append { h: *h, sizes: sizes.iter().map(|s| (*s).min((*s / 2).max(8))).collect() }); }
                v
            }
            Op::IterNext { slot, n } if *n > 1 => vec![Op::IterNext { slot: *slot, n: n / 2 }],
            _ => vec![],
        }
    }
    fn nontrivial(&self, plan: &Plan<Op>, hist: &[Ev]) -> bool {
        let apps = hist.iter().filter(|e| e.k == "appd" && e.v["ok"].is_number()).count();
        match plan.prop.as_str() {
            "C01" | "C02" => apps > 0 && hist.iter().any(|e| e.k == "crash"),
            "C03" => apps > 1 && shared::sh().switches > 4,
            "C04" => hist.iter().any(|e| (e.k == "appd" && !e.v["err"].is_null()) || !e.v["openerr"].is_null()) && apps > 0,
            "C05" => apps > 0 && shared::sh().switches > 4,
            "C06" => apps > 2,
            "C07" => apps > 0 && hist.iter().any(|e| e.k == "cp_opened"),
            _ => true,
        }
    }
}
fn libc_rdonly() -> i32 { 0 }

fn recs(v: &Value) -> Option<Vec<R>> { serde_json::from_value(v.clone()).ok() }

#[derive(Default)]
struct Session { live: bool, base: Vec<R>, batches: Vec<Batch>, reads: Vec<Read>, opened_at: usize }

/// Judges a history against the log model.
pub fn check(plan: &Plan<Op>, hist: &[Ev]) -> Option<Violation> {
    let p = plan.prop.as_str();
    let viol = |class: &str, d: String| Some(violation(p, class, d));
    let nospace: std::collections::HashSet<(u32, u32)> = hist.iter().filter(|e| e.k == "enospc").map(|e| (e.i, e.op)).collect();
    let faulty_op = |i: u32, op: u32| nospace.contains(&(i, op)) || plan.incs.get(i as usize).map_or(false, |x| x.faults.iter().any(|f| f.op == op));
    for e in hist {
        if e.k == "fatal" { return viol(&e.kind, format!("{} (operation {})", e.msg, e.op)); }
        if e.k == "panic" { return viol("panic", format!("operation {}: {}", e.id, e.v.as_str().unwrap_or(""))); }
    }
    let mut alts = vec![Alt { log: vec![], trailing: vec![] }];
    let mut failed: Vec<Vec<R>> = vec![];
    let mut s = Session::default();
    let mut copy = Session::default();
    let mut copy_state: Option<Vec<R>> = None;
    let mut copy_began: Option<usize> = None; // acknowledged records when the copy began
    let mut inv: std::collections::HashMap<(i64, u32), (usize, Value)> = Default::default();
    // read-only views: content at opening; to be compared with the log of the session in the end
    let mut ro: Vec<(String, Vec<R>, usize, usize)> = vec![];
    let mut ro_checks: Vec<(usize, usize, Vec<R>, String)> = vec![];
    let mut inc = 0u32;
    // content of the sessions of this incarnation when they ended, by their number
    let mut old: Vec<Option<Vec<R>>> = vec![None];
    let mem = plan.knob("memory") == 1;

    macro_rules! end_session { ($crashed:expr) => {
        if s.live {
            s.live = false;
            let a = match explain(&s.base, &s.batches, &s.reads, $crashed) { Ok(a) => a, Err(e) => return viol(if p == "C01" || p == "C02" { "log" } else { "not-linearizable" }, e) };
            // read-only views opened during the session
            for (at, ret, c, name) in ro_checks.drain(..) {
                let need = s.base.len().max(s.batches.iter().filter(|b| b.ret < at && b.seqno.is_some()).map(|b| b.seqno.unwrap() + b.recs.len()).max().unwrap_or(0));
                let good = a.iter().any(|x| {
                    let mut full = x.log.clone();
                    full.extend(x.trailing.concat());
                    full.starts_with(&c)
                });
                if c.len() < need { return viol("view-short", format!("{name} holds {} records, {} had been acknowledged before it was opened", c.len(), need)); }
                if !good { return viol("view-wrong", format!("{name} holds records that are no prefix of the log ({} records)", c.len())); }
                let begun = s.base.len() + s.batches.iter().filter(|b| b.inv < ret).map(|b| b.recs.len()).sum::<usize>();
                if c.len() > begun { return viol("view-early", format!("{name} holds {} records, only {} had been begun", c.len(), begun)); }
            }
            if a.len() == 1 && a[0].trailing.is_empty() { old.push(Some(a[0].log.clone())); } else { old.push(None); }
            for b in s.batches.iter().filter(|b| b.failed) { failed.push(b.recs.clone()); }
            alts = a; let _ = &alts;
        }
    } }

    for (now, e) in hist.iter().enumerate() {
        if e.i != inc && (e.k != "crash") {
            // a new incarnation began without a crash: everything was closed in order
            end_session!(false);
            inc = e.i;
            ro.clear(); ro_checks.clear();
            old = vec![None];
        }
        match e.k.as_str() {
            "crash" => {
                end_session!(true);
                ro.clear(); ro_checks.clear(); copy_began = None; copy_state = None; copy.live = false;
                if mem { alts = vec![Alt { log: vec![], trailing: vec![] }]; failed.clear(); }
                inc = e.i;
                old = vec![None];
                inv.clear();
            }
            "opened" => {
                if let Some(x) = e.v.get("openerr") {
                    if faulty_op(e.i, e.id) { end_session!(false); old.push(None); continue; }
                    return viol("open-failed", format!("opening failed: {x}"));
                }
                if let Some(x) = e.v.get("err") { return viol("read-error", format!("reading the reopened database: {x}")); }
                let c = recs(&e.v).unwrap();
                end_session!(false);
                if mem { alts = vec![Alt { log: vec![], trailing: vec![] }]; failed.clear(); }
                if let Err(x) = reopened(&alts, &failed, &c) { return viol("reopen", x); }
                shared::state_sig(hash_bytes(9, &serde_json::to_vec(&c).unwrap()));
                failed.clear();
                s = Session { live: true, base: c, opened_at: now, ..Default::default() };
            }
            "close" | "closed" => {}
            "ro" | "cp_open" => { inv.insert((e.t, e.id), (now, Value::Null)); }
            "ro_opened" => {
                let (at, _) = inv.remove(&(e.t, e.id)).unwrap_or((now, Value::Null));
                if let Some(x) = e.v.get("openerr") {
                    if faulty_op(e.i, e.id) || { let x = e.v["openerr"].as_str().unwrap_or(""); x.contains("No such file") || x.contains("not found") } { continue; }
                    return viol("open-failed", format!("read-only opening failed: {x}"));
                }
                if let Some(x) = e.v.get("err") { return viol("read-error", format!("reading through the read-only handle: {x}")); }
                let c = recs(&e.v).unwrap();
                ro.push((format!("ro{}", e.id), c.clone(), at, now));
                if s.live { ro_checks.push((at, now, c, format!("read-only view {}", e.id))); }
                else if let Err(x) = reopened(&alts, &failed, &c) { return viol("reopen", format!("read-only: {x}")); }
            }
            "app" => {
                let r = recs(&e.v["recs"]).unwrap();
                let ses = if e.v["view"] == "copy" { &mut copy } else { &mut s };
                ses.batches.push(Batch { id: e.id, inv: now, ret: usize::MAX, recs: r, seqno: None, failed: false });
                inv.insert((e.t, e.id), (now, e.v["view"].clone()));
            }
            "appd" => {
                let Some((_, view)) = inv.remove(&(e.t, e.id)) else { continue };
                let ses = if view == "copy" { &mut copy } else { &mut s };
                let Some(b) = ses.batches.iter_mut().rev().find(|b| b.id == e.id) else { continue };
                b.ret = now;
                if let Some(x) = e.v.get("err") {
                    b.failed = true;
                    if !faulty_op(e.i, e.id) && !b.recs.iter().any(|r| r.0 == 0) { return viol("append-error", format!("append {} failed without any fault: {x}", e.id)); }
                } else {
                    b.seqno = e.v["ok"].as_u64().map(|x| x as usize);
                    if b.recs.iter().any(|r| r.0 == 0) { return viol("append-empty", format!("append {} with an empty record succeeded", e.id)); }
                }
            }
            "rd" => { inv.insert((e.t, e.id), (now, e.v.clone())); }
            "rdd" => {
                let Some((at, what)) = inv.remove(&(e.t, e.id)) else { continue };
                if let Some(x) = e.v.get("err") { return viol("read-error", format!("read {} {}: {x}", e.id, what)); }
                let view = what["view"].as_str().unwrap();
                let r: Option<R> = serde_json::from_value(e.v["rec"].clone()).unwrap_or(None);
                let n = e.v["n"].as_u64().unwrap_or(0) as usize;
                let kind = if let Some(i) = what["get"].as_u64() { ReadKind::Get(i as usize) } else if what["last"] == 1 { ReadKind::Last } else { ReadKind::Len };
                if view == "main" { s.reads.push(Read { inv: at, ret: now, kind, rec: r, len: n, id: e.id }); }
                else if view == "copy" { copy.reads.push(Read { inv: at, ret: now, kind, rec: r, len: n, id: e.id }); }
                else if let Some(n) = view.strip_prefix("old") {
                    if let (Some(Some(c)), ReadKind::Get(i)) = (old.get(n.parse::<usize>().unwrap()), &kind) {
                        if r != c.get(*i).copied() { return viol("view-changed", format!("an iterator of a closed database, at {i} of {}, gave {}", c.len(), e.v)); }
                    }
                }
                else if let Some((_, c, ..)) = ro.iter().rev().find(|x| x.0 == view) {
                    let good = match kind { ReadKind::Get(i) => r == c.get(i).copied(), ReadKind::Last => r == c.last().copied(), ReadKind::Len => n == c.len() };
                    if !good { return viol("view-changed", format!("read {} {} on a read-only handle of {} records gave {}", e.id, what, c.len(), e.v)); }
                }
            }
            "dump" => { inv.insert((e.t, e.id), (now, Value::Null)); }
            "dumped" => {
                let (at, _) = inv.remove(&(e.t, e.id)).unwrap_or((now, Value::Null));
                let view = e.v["view"].as_str().unwrap();
                if let Some(x) = e.v["c"].get("err") { return viol("read-error", format!("reading everything through {view}: {x}")); }
                let c = recs(&e.v["c"]).unwrap();
                if view == "main" || view == "copy" {
                    let ses = if view == "main" { &mut s } else { &mut copy };
                    ses.reads.push(Read { inv: at, ret: now, kind: ReadKind::Len, rec: None, len: c.len(), id: e.id });
                    for (i, r) in c.iter().enumerate() { ses.reads.push(Read { inv: at, ret: now, kind: ReadKind::Get(i), rec: Some(*r), len: 0, id: e.id }); }
                } else if let Some((_, c0, ..)) = ro.iter().rev().find(|x| x.0 == view) {
                    if *c0 != c { return viol("view-changed", format!("{view} held {} records when opened, {} now, or other ones", c0.len(), c.len())); }
                }
            }
            "copy" => { copy_began = Some(now); }
            "copied" => {}
            "cp_opened" => {
                if let Some(x) = e.v.get("openerr") {
                    if faulty_op(e.i, e.id) { continue; }
                    return viol("open-failed", format!("opening the copy failed: {x}"));
                }
                if let Some(x) = e.v.get("err") { return viol("read-error", format!("reading the copy: {x}")); }
                let c = recs(&e.v).unwrap();
                if copy.live {
                    // the copy was opened for writing before: it must hold exactly what was put there
                    copy.live = false;
                    let a = match explain(&copy.base, &copy.batches, &copy.reads, false) { Ok(a) => a, Err(x) => return viol("copy-log", format!("the copy: {x}")) };
                    copy_state = Some(a[0].log.clone());
                }
                match (&copy_state, copy_began) {
                    (Some(x), _) => if *x != c { return viol("copy-reopen", format!("the reopened copy holds {} records, expected {}", c.len(), x.len())); },
                    (None, Some(at)) => ro_checks.push((at, usize::MAX, c.clone(), "the copy".into())),
                    _ => {}
                }
                copy_state = Some(c.clone());
                let name = format!("cro{}", e.id);
                ro.push((name, c.clone(), now, now));
                copy = Session { live: true, base: c, opened_at: now, ..Default::default() };
            }
            "sizes" => {
                // after the last handle of the session is gone
                if mem { continue; }
                end_session!(false);
                let a = &alts[0];
                if !a.trailing.is_empty() || !failed.is_empty() { continue; }
                let (n, d): (u64, u64) = (a.log.len() as u64 * 16, a.log.iter().map(|r| r.0).sum());
                let (x, y) = (e.v["seqno"].as_u64().unwrap(), e.v["data"].as_u64().unwrap());
                if x != n { return viol("sizes", format!("after the last handle was dropped the index file has {x} bytes, {n} are in use")); }
                if y < d { return viol("sizes", format!("after the last handle was dropped the data file has {y} bytes, {d} are in use")); }
                if y != d && plan.incs.iter().all(|i| i.crash.is_none() && i.faults.is_empty()) { return viol("sizes", format!("after the last handle was dropped the data file has {y} bytes, {d} are in use")); }
            }
            _ => {}
        }
    }
    end_session!(false);
    if copy.live {
        if let Err(x) = explain(&copy.base, &copy.batches, &copy.reads, false) { return viol("copy-log", format!("the copy: {x}")); }
    }
    let _ = s.opened_at + copy.opened_at;
    None
}

pub fn make(_prop: &str) -> Fr { Fr }

pub fn config(prop: &str, tier: &str) -> Config { crate::gen::config(prop, tier) }

#[allow(unused)]
fn unused(_: SchedSpec, _: Crash, _: Fault) {}
