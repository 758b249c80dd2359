//! indexed-log-map under simulation: threads appending and looking up by key, crashes, failing log and key index.
use instr_ilm::{It, Map, Val};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::*;
use simrt::hist::{ev, Ev};
use simrt::rng::Rng;
use simrt::sched::Fault;
use simrt::shared;
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
    Open, OpenMem, OpenRo, Close,
    /// tries again up to `retries` times when it fails
    Append { key: u64, pad: u32, retries: u32 },
    Get { key: u64 },
    Contains { key: u64 },
    IterNew { slot: usize, key: Option<u64> },
    IterNext { slot: usize, n: usize },
    Last,
    IsEmpty,
    /// the record after that of a key, or the first one
    After { key: Option<u64> },
    /// everything in the log, and the lookups of all keys
    Dump,
    /// the thread's consumer asks for up to n further records
    Consume { n: usize },
}
struct Ilm;
struct St { map: UnsafeCell<Option<Map>>, keys: Vec<u64>, style: u64, root: String }
unsafe impl Sync for St {}
unsafe impl Send for St {}
impl St {
    #[allow(clippy::mut_from_ref)]
    fn map(&self) -> &mut Option<Map> { unsafe { &mut *self.map.get() } }
}
struct Tl { its: Vec<Option<(It, u64)>>, last: Option<u64>, n: usize }

type V = (u64, u64);
fn pad(id: u64, n: u32) -> Vec<u8> { let mut r = Rng::new(id * 31 + 7); (0..n).map(|_| r.below(256) as u8).collect() }
fn dig(v: &Val) -> Value {
    let ok = v.pad == pad(v.id, v.pad.len() as u32);
    if ok { json!([v.key, v.id]) } else { json!({"err": format!("the value of append {} came back altered", v.id)}) }
}
fn opt(r: Result<Option<Val>, String>) -> Value { match r { Ok(None) => json!(null), Ok(Some(v)) => dig(&v), Err(e) => json!({"err": e}) } }

fn dump(m: &Map, keys: &[u64]) -> Value {
    let mut log = vec![];
    match m.iter() {
        None => {}
        Some(i) => for v in i { match v { Ok(v) => log.push(dig(&v)), Err(e) => return json!({"err": format!("iterating: {e}")}) } },
    }
    let mut look = vec![];
    for k in keys {
        let g = opt(m.get(*k));
        let c = m.contains(*k);
        let mut it = vec![];
        match m.iter_from(*k) { Ok(Some(i)) => for v in i.take(4) { match v { Ok(v) => it.push(dig(&v)), Err(e) => return json!({"err": format!("iterating from key {k}: {e}")}) } }, Ok(None) => {}, Err(e) => return json!({"err": format!("iterating from key {k}: {e}")}) }
        let nx = opt(m.next_after(Some(*k)));
        look.push(json!({"k": k, "get": g, "has": match c { Ok(b) => json!(b), Err(e) => json!({"err": e}) }, "it": it, "nx": nx}));
    }
    json!({"log": log, "look": look})
}

impl Scenario for Ilm {
    type Op = Op;
    type St = St;
    type Tl = Tl;
    fn start(&self, plan: &Plan<Op>, _inc: usize, root: &str) -> St {
        fraos::dst::MIN_MMAP_BYTES.set(plan.knob("min_mmap") as usize);
        fraos::dst::MAX_MMAPS_COUNT.set(plan.knob("max_mmaps") as usize);
        let mut keys: Vec<u64> = plan.incs.iter().flat_map(|i| i.ops()).filter_map(|o| match o.1 { Op::Append { key, .. } => Some(key), _ => None }).collect();
        keys.push(9999);
        keys.sort();
        keys.dedup();
        St { map: UnsafeCell::new(None), keys, style: plan.knob("keys") as u64, root: root.to_string() }
    }
    fn thread(&self, _st: &St, n: usize) -> Tl { Tl { its: vec![], last: None, n } }
    fn exec(&self, st: &St, tl: &mut Tl, id: u32, op: &Op) {
        match op {
            Op::Open | Op::OpenMem | Op::OpenRo => {
                if st.map().is_some() { return; }
                shared::count("op", "open");
                ev("open", id, json!(null));
                let path = if *op == Op::OpenMem { None } else { Some(std::path::PathBuf::from(format!("{}/map", st.root))) };
                match Map::open(path, *op == Op::OpenRo, true, st.style) {
                    Ok(m) => { let c = dump(&m, &st.keys); *st.map() = Some(m); ev("opened", id, c); }
                    Err(e) => ev("opened", id, json!({"openerr": e})),
                }
                return;
            }
            Op::Close => {
                shared::count("op", "close");
                tl.its.clear();
                let m = st.map().take();
                drop(m);
                ev("closed", id, json!(null));
                return;
            }
            _ => {}
        }
        let Some(m) = st.map().as_ref() else { return };
        match op {
            Op::Append { key, pad: p, retries } => {
                for a in 0..=*retries {
                    shared::count("op", "append");
                    let vid = id as u64 * 64 + a as u64;
                    ev("app", id, json!({"v": [key, vid]}));
                    let r = m.append(Val { key: *key, id: vid, pad: pad(vid, *p) });
                    let ok = r.is_ok();
                    ev("appd", id, json!({"v": [key, vid], "err": r.err()}));
                    if ok { break; }
                    if a == *retries { ev("gaveup", id, json!(null)); } else { shared::count("op", "append_retry"); }
                }
            }
            Op::Get { key } => {
                shared::count("op", "get");
                ev("rd", id, json!({"get": key}));
                let r = m.get(*key);
                ev("rdd", id, opt(r));
            }
            Op::Contains { key } => {
                shared::count("op", "contains");
                ev("rd", id, json!({"has": key}));
                let r = m.contains(*key);
                ev("rdd", id, match r { Ok(b) => json!(b), Err(e) => json!({"err": e}) });
            }
            Op::Last => {
                shared::count("op", "last");
                ev("rd", id, json!({"last": 1}));
                let r = m.last();
                ev("rdd", id, opt(r));
            }
            Op::IsEmpty => {
                shared::count("op", "is_empty");
                ev("rd", id, json!({"empty": 1}));
                let r = m.is_empty();
                ev("rdd", id, match r { Ok(b) => json!(b), Err(e) => json!({"err": e}) });
            }
            Op::After { key } => {
                shared::count("op", "get_next");
                ev("rd", id, json!({"after": key}));
                let r = m.next_after(*key);
                ev("rdd", id, opt(r));
            }
            Op::IterNew { slot, key } => {
                shared::count("op", "iter");
                while tl.its.len() <= *slot { tl.its.push(None); }
                let it = (tl.n as u64) << 32 | id as u64;
                ev("rd", id, json!({"iter": it, "key": key}));
                let r = match key { None => Ok(m.iter()), Some(k) => m.iter_from(*k) };
                ev("rdd", id, match &r { Ok(x) => json!(x.is_some()), Err(e) => json!({"err": e}) });
                tl.its[*slot] = r.ok().flatten().map(|i| (i, it));
            }
            Op::IterNext { slot, n } => {
                for _ in 0..*n {
                    let Some(Some((i, it))) = tl.its.get_mut(*slot) else { return };
                    shared::count("op", "iter_next");
                    ev("rd", id, json!({"next": *it}));
                    let r = i.next();
                    let none = r.is_none();
                    ev("rdd", id, opt(r.transpose()));
                    if none { break; }
                }
            }
            Op::Dump => {
                shared::count("op", "dump");
                ev("dump", id, json!(null));
                let d = dump(m, &st.keys);
                ev("dumped", id, d);
            }
            Op::Consume { n } => {
                let mut idle = 0;
                for _ in 0..*n {
                    shared::count("op", "consume");
                    ev("rd", id, json!({"after": tl.last}));
                    let r = m.next_after(tl.last);
                    let got = if let Ok(Some(v)) = &r { Some(v.key) } else { None };
                    let err = r.is_err();
                    ev("rdd", id, opt(r));
                    if err { shared::count("op", "consume_retry"); continue; }
                    match got { Some(k) => { tl.last = Some(k); ev("got", id, json!({"c": tl.n, "k": k})); } None => { idle += 1; if idle > 1 { break; } } }
                }
            }
            _ => {}
        }
    }
    fn gen(&self, prop: &str, rng: &mut Rng, thorough: bool) -> Plan<Op> { gen(prop, rng, thorough) }
    fn check(&self, plan: &Plan<Op>, hist: &[Ev]) -> Option<Violation> { check(plan, hist).map(|(c, d)| violation(&plan.prop, &c, d)) }
    fn simplify(&self, op: &Op) -> Vec<Op> {
        match op {
            Op::Append { key, pad, retries } if *pad > 0 => vec![Op::Append { key: *key, pad: 0, retries: *retries }, Op::Append { key: *key, pad: pad / 2, retries: *retries }],
            Op::IterNext { slot, n } if *n > 1 => vec![Op::IterNext { slot: *slot, n: n / 2 }],
            _ => vec![],
        }
    }
    fn nontrivial(&self, plan: &Plan<Op>, hist: &[Ev]) -> bool {
        let apps = hist.iter().filter(|e| e.k == "appd" && e.v["err"].is_null()).count();
        match plan.prop.as_str() {
            "C10" => apps > 1 && shared::sh().switches > 4,
            "C11" => apps > 0 && hist.iter().any(|e| e.k == "crash"),
            _ => apps > 0 && hist.iter().any(|e| !e.v["err"].is_null()),
        }
    }
}

// ---------------------------------------------------------------- oracle
#[derive(Clone, Debug)]
struct App { v: V, inv: usize, ret: usize, ok: bool }
#[derive(Default)]
struct Session { base: Vec<V>, look: BTreeMap<u64, Option<V>>, apps: Vec<App>, crashed: bool, from: usize, ro: bool }
type Bad = (String, String);
fn bad<T>(c: &str, d: String) -> Result<T, Bad> { Err((c.into(), d)) }
fn val(v: &Value) -> Option<V> { serde_json::from_value(v.clone()).ok() }

/// Reads a dump: content and lookups, checked against each other.
fn parse_dump(v: &Value) -> Result<(Vec<V>, BTreeMap<u64, Option<V>>), Bad> {
    if let Some(e) = v["err"].as_str() { return bad("dump", e.to_string()); }
    let mut log = vec![];
    for x in v["log"].as_array().unwrap() { match val(x) { Some(v) => log.push(v), None => return bad("dump", format!("a record came back wrong: {x}")) } }
    let mut look = BTreeMap::new();
    for l in v["look"].as_array().unwrap() {
        let k = l["k"].as_u64().unwrap();
        if let Some(e) = l["get"]["err"].as_str().or(l["has"]["err"].as_str()) { return bad("lookup", format!("looking up key {k}: {e}")); }
        let g = val(&l["get"]);
        if l["has"] != json!(g.is_some()) { return bad("lookup", format!("key {k}: get gives {g:?}, contains gives {}", l["has"])); }
        let it: Vec<V> = l["it"].as_array().unwrap().iter().filter_map(val).collect();
        match g {
            None => {
                if !it.is_empty() { return bad("lookup", format!("key {k} is not found, but iterating from it gives {it:?}")); }
                if !l["nx"].is_null() { return bad("lookup", format!("key {k} is not found, but the record after it is {}", l["nx"])); }
            }
            Some(x) => {
                let Some(p) = log.iter().position(|y| *y == x) else { return bad("lookup", format!("key {k} gives {x:?}, which is not in the log")) };
                if x.0 != k { return bad("lookup", format!("key {k} gives {x:?}, a value of another key")); }
                let want: Vec<V> = log[p..].iter().take(4).cloned().collect();
                if it != want { return bad("lookup", format!("iterating from key {k} gives {it:?}, the log continues with {want:?}")); }
                if val(&l["nx"]) != want.get(1).copied() { return bad("lookup", format!("the record after key {k} is {}, the log continues with {want:?}", l["nx"])); }
            }
        }
        look.insert(k, g);
    }
    Ok((log, look))
}

fn check(plan: &Plan<Op>, hist: &[Ev]) -> Option<Bad> { run(plan, hist).err() }
fn run(plan: &Plan<Op>, hist: &[Ev]) -> Result<(), Bad> {
    for e in hist {
        if e.k == "fatal" { return bad(&e.kind, format!("{} (operation {})", e.msg, e.op)); }
        if e.k == "panic" { return bad("panic", format!("operation {}: {}", e.id, e.v.as_str().unwrap_or(""))); }
    }
    let nospace: HashSet<(u32, u32)> = hist.iter().filter(|e| e.k == "enospc").map(|e| (e.i, e.op)).collect();
    let faulty = |i: u32, op: u32| nospace.contains(&(i, op)) || plan.incs.get(i as usize).map_or(false, |x| x.faults.iter().any(|f| f.op == op));
    let mut s = Session::default();
    let mut open = false;
    let mut floating: HashSet<V> = HashSet::new();
    let mut dumps: Vec<(usize, usize, Value)> = vec![];
    let mut last_dump: Option<(usize, Vec<V>, BTreeMap<u64, Option<V>>)> = None;
    let mut began: HashMap<(i64, u32), usize> = HashMap::new();
    for (now, e) in hist.iter().enumerate() {
        match e.k.as_str() {
            "crash" => { s.crashed = true; last_dump = None; }
            "opened" => {
                if let Some(x) = e.v["openerr"].as_str() {
                    // reading an index that was never created
                    let fresh = s.base.is_empty() && s.apps.is_empty() && floating.is_empty();
                    if faulty(e.i, e.id) || (fresh && matches!(op_of(plan, e.i, e.id), Some(Op::OpenRo))) { continue; }
                    return bad("open", format!("opening failed: {x}"));
                }
                let ro = matches!(op_of(plan, e.i, e.id), Some(Op::OpenRo));
                let mem = matches!(op_of(plan, e.i, e.id), Some(Op::OpenMem));
                let (log, look) = match parse_dump(&e.v) { Ok(x) => x, Err(x) => { if faulty(e.i, e.id) { s.crashed = true; continue; } return Err(x); } };
                if mem {
                    if !log.is_empty() || look.values().any(|x| x.is_some()) { return bad("open", "a new in-memory map is not empty".into()); }
                    s = Session::default();
                } else {
                    close(&mut s, &mut floating, &log, &look, &hist, now)?;
                }
                s = Session { base: log, look, apps: vec![], crashed: false, from: now, ro };
                open = true;
                last_dump = None;
            }
            "closed" => {}
            "app" => { s.apps.push(App { v: val(&e.v["v"]).unwrap(), inv: now, ret: usize::MAX, ok: false }); }
            "appd" => {
                let v = val(&e.v["v"]).unwrap();
                let a = s.apps.iter_mut().rev().find(|a| a.v == v).unwrap();
                a.ret = now;
                a.ok = e.v["err"].is_null();
                if let Some(x) = e.v["err"].as_str() { if !faulty(e.i, e.id) && !s.ro { return bad("append-error", format!("append {v:?} failed without any fault: {x}")); } }
            }
            "dump" => { began.insert((e.t, e.id), now); }
            "dumped" => { dumps.push((began[&(e.t, e.id)], now, e.v.clone())); if e.t == 0 && open && !faulty(e.i, e.id) && s.apps.iter().all(|a| a.ret != usize::MAX) { let (log, look) = parse_dump(&e.v)?; last_dump = Some((now, log, look)); } }
            _ => {}
        }
    }
    if let Some((now, log, look)) = last_dump { close(&mut s, &mut floating, &log, &look, hist, now)?; }
    consumers(plan, hist)
}
fn op_of(plan: &Plan<Op>, i: u32, id: u32) -> Option<Op> { plan.incs.get(i as usize)?.ops().find(|o| o.0 == id).map(|o| o.1.clone()) }

/// Judges a session, knowing what the map holds afterwards.
fn close(s: &mut Session, floating: &mut HashSet<V>, fin: &[V], look: &BTreeMap<u64, Option<V>>, hist: &[Ev], until: usize) -> Result<(), Bad> {
    let nb = s.base.len();
    if fin.len() < nb || fin[..nb] != s.base[..] { return bad("log", format!("the log held {} records {:?}, later it holds {:?}", nb, tail(&s.base), tail(fin))); }
    let mut pos: HashMap<V, usize> = HashMap::new();
    for (i, v) in fin.iter().enumerate() { if let Some(j) = pos.insert(*v, i) { return bad("log", format!("value {v:?} is in the log twice, at {j} and {i}")); } }
    for a in s.apps.iter().filter(|a| a.ret != usize::MAX && !a.ok) { floating.insert(a.v); }
    for a in s.apps.iter().filter(|a| a.ok) { if !pos.contains_key(&a.v) { return bad("lost", format!("append {:?} succeeded but its value is not in the log {:?}", a.v, tail(fin))); } }
    for v in &fin[nb..] {
        if !s.apps.iter().any(|a| a.v == *v) && !floating.contains(v) { return bad("log", format!("value {v:?} was never appended")); }
    }
    for a in s.apps.iter().filter(|a| a.ret == usize::MAX) { floating.insert(a.v); }
    // real-time order
    let by: HashMap<V, &App> = s.apps.iter().map(|a| (a.v, a)).collect();
    let mut max_inv = (0usize, (0, 0));
    for v in &fin[nb..] {
        let Some(a) = by.get(v) else { continue };
        if a.ret != usize::MAX && a.ret < max_inv.0 { return bad("order", format!("append {:?} had returned before append {:?} began, but is behind it in the log", a.v, max_inv.1)); }
        if a.inv > max_inv.0 { max_inv = (a.inv, a.v); }
    }
    // lookups afterwards
    let acked: Vec<&App> = s.apps.iter().filter(|a| a.ok).collect();
    for (k, g) in look {
        if s.crashed { break; }
        let need = need(s, &acked, &pos, *k, usize::MAX);
        match (g, need) {
            (None, Some(p)) => return bad("stale", format!("key {k} is not found, although {:?} was appended", fin[p])),
            (Some(v), Some(p)) => if pos.get(v).map_or(true, |q| *q < p) { return bad("stale", format!("key {k} gives {v:?}, although {:?} was appended later", fin[p])); },
            _ => {}
        }
        if let (Some(v), None) = (g, need) { if !s.apps.iter().any(|a| a.v == *v) { return bad("stale", format!("key {k} gives {v:?}, before it was not found")); } }
    }
    reads(s, &acked, &pos, fin, hist, until)
}
fn tail(v: &[V]) -> &[V] { &v[v.len().saturating_sub(12)..] }
/// The earliest position a lookup of `k` that begins at `at` may give.
fn need(s: &Session, acked: &[&App], pos: &HashMap<V, usize>, k: u64, at: usize) -> Option<usize> {
    let a = acked.iter().filter(|a| a.v.0 == k && a.ret < at).map(|a| pos[&a.v]).max();
    let b = s.look.get(&k).cloned().flatten().and_then(|v| pos.get(&v).copied());
    a.max(b)
}

fn reads(s: &Session, acked: &[&App], pos: &HashMap<V, usize>, fin: &[V], hist: &[Ev], until: usize) -> Result<(), Bad> {
    let by: HashMap<V, &App> = s.apps.iter().map(|a| (a.v, a)).collect();
    let mut inv: HashMap<(i64, u32), (usize, Value)> = HashMap::new();
    // iterators: where they are, and what their first record must satisfy
    enum At { Pos(usize), Key(u64, usize), Lost }
    let mut its: HashMap<u64, At> = HashMap::new();
    let least = |at: usize| acked.iter().filter(|a| a.ret < at).map(|a| pos[&a.v] + 1).max().unwrap_or(0).max(s.base.len());
    // was the value there to be read?
    let known = |v: V, ret: usize| -> Result<Option<usize>, Bad> {
        if let Some(a) = by.get(&v) { if a.inv > ret { return bad("read", format!("{v:?} was read before it was appended")); } }
        match pos.get(&v) {
            Some(p) => Ok(Some(*p)),
            None => match by.get(&v) { Some(a) if !a.ok && s.crashed => Ok(None), _ => bad("read", format!("{v:?} was read, but is not in the log")) },
        }
    };
    let start = |k: u64, v: V, at: usize, ret: usize| -> Result<Option<usize>, Bad> {
        if v.0 != k { return bad("read", format!("looking up key {k} gave {v:?}, a value of another key")); }
        let p = known(v, ret)?;
        if let (Some(p), Some(n)) = (p, need(s, acked, pos, k, at)) { if p < n { return bad("stale", format!("looking up key {k} gave {v:?} at {p}, although {:?} at {n} had been appended", fin[n])); } }
        Ok(p)
    };
    for (now, e) in hist.iter().enumerate().take(until).skip(s.from) {
        if e.k == "rd" { inv.insert((e.t, e.id), (now, e.v.clone())); continue; }
        if e.k != "rdd" { continue; }
        let Some((at, q)) = inv.remove(&(e.t, e.id)) else { continue };
        if let Some(x) = e.v["err"].as_str() {
            let f = x.contains("os error") || x.contains("IO error");
            if !f { return bad("read-error", format!("reading {q} failed: {x}")); }
            continue;
        }
        if let Some(k) = q["get"].as_u64() {
            match val(&e.v) { Some(v) => { start(k, v, at, now)?; } None => if let Some(n) = need(s, acked, pos, k, at) { return bad("stale", format!("key {k} was not found, although {:?} had been appended", fin[n])); } }
        } else if let Some(k) = q["has"].as_u64() {
            let n = need(s, acked, pos, k, at);
            if e.v == json!(false) && n.is_some() { return bad("stale", format!("key {k} was not contained, although {:?} had been appended", fin[n.unwrap()])); }
            if e.v == json!(true) && n.is_none() && !s.apps.iter().any(|a| a.v.0 == k && a.inv < now) { return bad("read", format!("key {k} was contained, but never appended")); }
        } else if q.get("last").is_some() {
            match val(&e.v) {
                Some(v) => if let Some(p) = known(v, now)? { if p + 1 < least(at) { return bad("stale", format!("the last record was {v:?} at {p}, although the log had {} records", least(at))); } },
                None => if least(at) > 0 { return bad("stale", format!("no last record, although the log had {} records", least(at))); },
            }
        } else if q.get("empty").is_some() {
            let must = acked.iter().any(|a| a.ret < at) || s.look.values().any(|v| v.is_some());
            let may = must || s.apps.iter().any(|a| a.inv < now);
            if e.v == json!(true) && must { return bad("stale", "the map says it is empty, although keys had been appended".into()); }
            if e.v == json!(false) && !may && s.base.is_empty() { return bad("read", "the map says it is not empty before anything was appended".into()); }
        } else if let Some(it) = q["iter"].as_u64() {
            match q["key"].as_u64() {
                None => if e.v == json!(true) { its.insert(it, At::Pos(0)); } else if least(at) > 0 { return bad("stale", format!("there was nothing to iterate over, although the log had {} records", least(at))); },
                Some(k) => if e.v == json!(true) { its.insert(it, At::Key(k, at)); } else if let Some(n) = need(s, acked, pos, k, at) { return bad("stale", format!("iterating from key {k} found nothing, although {:?} had been appended", fin[n])); },
            }
        } else if let Some(it) = q["next"].as_u64() {
            let Some(p) = its.get_mut(&it) else { continue };
            match (&*p, val(&e.v)) {
                (At::Pos(i), None) => if *i < least(at) { return bad("stale", format!("the iterator ended at {i}, although the log had {} records", least(at))); },
                (At::Pos(i), Some(v)) => match known(v, now)? { Some(j) if j != *i => return bad("read", format!("the iterator gave {v:?} (record {j}) as record {i}")), _ => *p = At::Pos(i + 1) },
                (At::Key(k, from), Some(v)) => match start(*k, v, *from, now)? { Some(j) => *p = At::Pos(j + 1), None => *p = At::Lost },
                (At::Key(k, _), None) => return bad("read", format!("iterating from key {k} gave nothing, not even the key's own record")),
                (At::Lost, Some(v)) => { known(v, now)?; }
                (At::Lost, None) => {}
            }
        } else if let Some(k) = q.get("after") {
            let j = match val(&e.v) { Some(v) => match known(v, now)? { Some(j) => Some(j), None => continue }, None => None };
            match (k.as_u64(), j) {
                (None, Some(j)) => if j != 0 { return bad("next", format!("the first record was {:?}, which is record {j}", fin[j])); },
                (None, None) => if least(at) > 0 { return bad("stale", format!("there was no first record, although the log had {} records", least(at))); },
                (Some(k), Some(j)) => {
                    if j == 0 || fin[j - 1].0 != k { return bad("next", format!("after key {k} came {:?}, which is behind {:?} in the log", fin[j], j.checked_sub(1).map(|i| fin[i]))); }
                    if let Some(n) = need(s, acked, pos, k, at) { if j <= n { return bad("stale", format!("after key {k} came {:?} at {j}, although {:?} at {n} had been appended", fin[j], fin[n])); } }
                }
                (Some(k), None) => if let Some(n) = need(s, acked, pos, k, at) {
                    let may = (n..fin.len()).any(|p| fin[p].0 == k && p + 1 >= least(at) && by.get(&fin[p]).map_or(true, |a| a.inv < now));
                    if !may { return bad("stale", format!("after key {k}, which was at {n}, came nothing, although the log had {} records", least(at))); }
                },
            }
        }
    }
    Ok(())
}

/// Every consumer saw every acknowledged key, in the order of the log.
fn consumers(plan: &Plan<Op>, hist: &[Ev]) -> Result<(), Bad> {
    if plan.knob("consumer") == 0 || hist.iter().any(|e| e.k == "gaveup") { return Ok(()); }
    let Some(d) = hist.iter().rev().find(|e| e.k == "dumped") else { return Ok(()) };
    let (log, _) = parse_dump(&d.v)?;
    let acked: HashSet<V> = hist.iter().filter(|e| e.k == "appd" && e.v["err"].is_null()).filter_map(|e| val(&e.v["v"])).collect();
    let order: Vec<u64> = log.iter().filter(|v| acked.contains(v)).map(|v| v.0).collect();
    let at: HashMap<u64, usize> = order.iter().enumerate().map(|(i, k)| (*k, i)).collect();
    let drained: HashSet<u64> = plan.incs.iter().flat_map(|i| i.post.iter()).filter(|o| matches!(o.1, Op::Consume { n } if n >= 500)).map(|_| 0).collect();
    let mut got: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
    for e in hist.iter().filter(|e| e.k == "got") { got.entry(e.v["c"].as_u64().unwrap()).or_default().push(e.v["k"].as_u64().unwrap()); }
    if drained.contains(&0) && !order.is_empty() { got.entry(0).or_default(); }
    for (c, ks) in &got {
        let ps: Vec<usize> = ks.iter().filter_map(|k| at.get(k).copied()).collect();
        for w in ps.windows(2) {
            if w[1] > w[0] + 1 { return bad("consumer-skip", format!("consumer {c} went from key {} to key {}, skipping {:?}", order[w[0]], order[w[1]], &order[w[0] + 1..w[1]])); }
            if w[1] < w[0] { return bad("consumer-order", format!("consumer {c} went back from key {} to key {}", order[w[0]], order[w[1]])); }
        }
        if ps.first().map_or(false, |p| *p != 0) { return bad("consumer-skip", format!("consumer {c} began with key {}, the log begins with key {}", ks[0], order[0])); }
        if drained.contains(c) && ps.last().map_or(0, |p| p + 1) != order.len() { return bad("consumer-stuck", format!("consumer {c} got {} of {} keys, though it kept asking", ps.last().map_or(0, |p| p + 1), order.len())); }
    }
    Ok(())
}

// ---------------------------------------------------------------- plans
fn gen(prop: &str, rng: &mut Rng, thorough: bool) -> Plan<Op> {
    let scale = if thorough { 2 } else { 1 };
    let mut knobs = BTreeMap::new();
    knobs.insert("min_mmap".into(), *rng.pick(&[0, 64, 256, 1024, 4096]));
    knobs.insert("max_mmaps".into(), *rng.pick(&[0, 0, 1, 3]));
    knobs.insert("kv_bg".into(), *rng.pick(&[0, 100, 500]));
    knobs.insert("keys".into(), *rng.pick(&[0, 0, 1, 2, 3]));
    let nkeys = 1 + rng.below(5);
    let mut id = 0u32;
    let mut n = |op: Op| { id += 1; (id, op) };
    fn key(rng: &mut Rng, n: u64) -> u64 { if rng.chance(0.03) { 9999 } else { rng.below(n) * if rng.chance(0.0) { 1000 } else { 1 } } }
    fn app(rng: &mut Rng, n: u64) -> Op { Op::Append { key: rng.below(n), pad: match rng.weighted(&[600, 300, 80, 2]) { 0 => rng.below(8) as u32, 1 => rng.below(120) as u32, 2 => rng.below(2000) as u32, _ => rng.pick(&[4096u32, 65_536, 131_072]) - 40 + rng.below(60) as u32 }, retries: 0 } }
    fn read(rng: &mut Rng, n: u64) -> Vec<Op> {
        match rng.weighted(&[36, 13, 15, 15, 9, 5, 13]) {
            0 => vec![Op::Get { key: key(rng, n) }],
            1 => vec![Op::Contains { key: key(rng, n) }],
            2 => { let slot = rng.idx(2); vec![Op::IterNew { slot, key: Some(key(rng, n)) }, Op::IterNext { slot, n: 1 + rng.idx(5) }] }
            3 => { let slot = rng.idx(2); vec![Op::IterNew { slot, key: None }, Op::IterNext { slot, n: 1 + rng.idx(8) }] }
            4 => vec![Op::Last],
            5 => vec![Op::IsEmpty],
            _ => vec![Op::After { key: if rng.chance(0.1) { None } else { Some(key(rng, n)) } }],
        }
    }
    let mut incs = vec![];
    match prop {
        "C10" => {
            let mem = rng.chance(0.4);
            let mut i = Inc::new(gen_sched(rng));
            i.pre.push(n(if mem { Op::OpenMem } else { Op::Open }));
            for _ in 0..rng.idx(4) { i.pre.push(n(app(rng, nkeys))); }
            let nt = 2 + rng.idx(3);
            for t in 0..nt {
                let mut v = vec![];
                let w = if t == 0 { 0.9 } else { *rng.pick(&[0.1, 0.5, 0.9]) };
                for _ in 0..1 + rng.idx(5 * scale) {
                    if rng.chance(w) { v.push(n(app(rng, nkeys))); } else { for o in read(rng, nkeys) { v.push(n(o)); } }
                    if rng.chance(0.15) { v.push(n(Op::IterNext { slot: rng.idx(2), n: 2 })); }
                }
                i.threads.push(v);
            }
            for _ in 0..2 { for o in read(rng, nkeys) { i.post.push(n(o)); } }
            i.post.push(n(Op::Dump));
            if !mem { i.post.push(n(Op::Close)); i.post.push(n(Op::Open)); i.post.push(n(Op::Dump)); }
            incs.push(i);
        }
        "C11" => {
            let m = 1 + rng.idx(3);
            let threads = if rng.chance(0.35) { 2 + rng.idx(2) } else { 0 };
            for k in 0..=m {
                let mut i = Inc::new(if threads > 0 { gen_sched(rng) } else { serial_sched() });
                i.writeback = *rng.pick(&[0.0, 0.0, 0.1]);
                i.pre.push(n(Op::Open));
                for _ in 0..1 + rng.idx(5 * scale) {
                    match rng.weighted(&[70, 20, 5]) { 0 => i.pre.push(n(app(rng, nkeys))), 1 => for o in read(rng, nkeys) { i.pre.push(n(o)); }, _ => { i.pre.push(n(Op::Close)); i.pre.push(n(Op::Open)); } }
                }
                for _ in 0..threads {
                    let mut v = vec![];
                    for _ in 0..1 + rng.idx(4) { if rng.chance(0.7) { v.push(n(app(rng, nkeys))); } else { for o in read(rng, nkeys) { v.push(n(o)); } } }
                    i.threads.push(v);
                }
                if k == m || rng.chance(0.5) { i.post.push(n(Op::Dump)); }
                if k < m {
                    let apps: Vec<u32> = i.ops().filter(|o| matches!(o.1, Op::Append { .. })).map(|o| o.0).collect();
                    let all: Vec<u32> = i.ops().map(|o| o.0).collect();
                    let op = if !apps.is_empty() && rng.chance(0.8) { *rng.pick(&apps) } else { *rng.pick(&all) };
                    i.crash = Some(gen_crash(rng, op, 0.7));
                } else {
                    // appending a key again makes its lookup current
                    for k in 0..nkeys { i.post.push(n(Op::Append { key: k, pad: 3, retries: 0 })); i.post.push(n(Op::Get { key: k })); }
                    i.post.push(n(Op::Dump)); i.post.push(n(Op::Close));
                    i.post.push(n(if rng.chance(0.3) { Op::OpenRo } else { Op::Open }));
                    i.post.push(n(Op::Dump));
                }
                incs.push(i);
            }
        }
        _ => {
            let consumer = rng.chance(0.5);
            knobs.insert("consumer".into(), consumer as i64);
            let mem = rng.chance(0.3);
            let mut i = Inc::new(gen_sched(rng));
            i.pre.push(n(if mem { Op::OpenMem } else { Op::Open }));
            if consumer {
                let mut w = vec![];
                let apps = 2 + rng.idx(8 * scale) as u64;
                for k in 0..apps { w.push(n(Op::Append { key: k, pad: rng.below(60) as u32, retries: 12 })); }
                i.threads.push(w);
                for _ in 0..1 + rng.idx(2) {
                    let mut v = vec![];
                    for _ in 0..1 + rng.idx(4) { v.push(n(Op::Consume { n: 1 + rng.idx(8) })); }
                    i.threads.push(v);
                }
                if !mem && rng.chance(0.3) { i.post.push(n(Op::Consume { n: 5 })); i.post.push(n(Op::Close)); i.post.push(n(Op::Open)); }
                i.post.push(n(Op::Consume { n: 500 }));
                i.post.push(n(Op::Dump));
            } else {
                for _ in 0..2 + rng.idx(6) { if rng.chance(0.7) { i.pre.push(n(app(rng, nkeys))); } else { for o in read(rng, nkeys) { i.pre.push(n(o)); } } }
                if !mem && rng.chance(0.4) { i.pre.push(n(Op::Close)); i.pre.push(n(Op::Open)); i.pre.push(n(Op::Open)); }
                let nt = rng.idx(3);
                for _ in 0..nt {
                    let mut v = vec![];
                    for _ in 0..1 + rng.idx(4) { if rng.chance(0.6) { v.push(n(app(rng, nkeys))); } else { for o in read(rng, nkeys) { v.push(n(o)); } } }
                    i.threads.push(v);
                }
                i.post.push(n(Op::Dump));
                for k in 0..nkeys { i.post.push(n(Op::Append { key: k, pad: 3, retries: 0 })); i.post.push(n(Op::Get { key: k })); }
                i.post.push(n(Op::Dump));
                if !mem { i.post.push(n(Op::Close)); i.post.push(n(Op::Open)); i.post.push(n(Op::Dump)); }
            }
            let keep: HashSet<u32> = i.post.iter().map(|o| o.0).collect();
            let ops: Vec<(u32, Op)> = i.ops().cloned().collect();
            let mut closed_faults = vec![];
            for (id, op) in &ops {
                if keep.contains(id) && !matches!(op, Op::Append { retries: 0, .. }) { continue; }
                if keep.contains(id) && rng.chance(0.8) { continue; }
                let p = match op { Op::Append { .. } => 0.4, Op::Open => 0.1, Op::Get { .. } | Op::Contains { .. } | Op::After { .. } | Op::IterNew { .. } | Op::Consume { .. } => 0.25, _ => 0.0 };
                if !rng.chance(p) { continue; }
                let kind = match op {
                    Op::Append { .. } => *rng.pick(&["kv_insert", "kv_insert", "kv_insert", "extend", "msync", "mmap", "full", "write"]),
                    Op::Open => *rng.pick(&["kv_open", "open", "mmap", "kv_get"]),
                    _ => "kv_get",
                };
                let errno = match kind { "kv_insert" => *rng.pick(&[5, 5, 28]), "full" => 28, "mmap" => 12, _ => 5 };
                closed_faults.push(Fault { op: *id, kind: kind.into(), nth: 1 + rng.below(if kind == "kv_insert" { 2 } else { 3 }) as u32, errno, sticky: false });
                if matches!(op, Op::Append { retries, .. } if *retries > 0) && rng.chance(0.4) {
                    let e2 = *rng.pick(&[5, 28]);
                    closed_faults.push(Fault { op: *id, kind: "kv_insert".into(), nth: 2, errno: e2, sticky: false });
                }
            }
            i.faults = closed_faults;
            incs.push(i);
        }
    }
    Plan { prop: prop.into(), seed: 0, knobs, incs }
}

fn config(prop: &str, tier: &str) -> Config {
    let thorough = tier == "thorough";
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let (faults, probes): (&[&str], &[&str]) = match prop {
        "C11" => (&[], &["power_loss_dropped_sector", "crash_dropped_kv_suffix"]),
        "C12" => (&["kv_insert", "kv_get", "kv_open", "extend", "mmap", "msync", "full", "open"], &["kv_error_after_effect"]),
        _ => (&[], &[]),
    };
    let rule = match prop {
        "C10" => "2 to 4 threads appending to few keys, looking up and iterating on one map, context switches at random memory accesses, atomics, system calls and key-index operations; non-trivial: two successful appends and five context switches; distinct by the hash of history and schedule",
        "C11" => "2 to 4 incarnations of appends, lookups, iterations, reopens, each but the last ended by a kill or power loss at a random point, with a random prefix of the unflushed key-index writes kept; non-trivial: an acknowledged append and a crash; distinct by the hash of history and schedule",
        _ => "appends, lookups and consumers with failing key-index and storage calls at random positions, half of the runs with a retrying writer and polling consumers; non-trivial: a call failed and an append succeeded; distinct by the hash of history and schedule",
    };
    Config {
        prop: prop.into(), tier: tier.into(), seed: 1, runs: if thorough { 40_000_000 } else { 60_000 }, secs: if thorough { 1500 } else { 60 }, workers: 8,
        rule: rule.into(),
        real: s(&["indexed-log-map (instrumented)", "fraos (instrumented)", "ciborium", "memmap2", "Rust std"]),
        stubs: s(&["sled (model: atomic operations, prefix durability, failing operations)", "thread scheduler", "durability of files after power loss", "failing system calls", "getrandom, clock"]),
        assumptions: s(&["sequentially consistent memory", "sled keeps its contract: operations are linearizable, a crash keeps a prefix of them that is not shorter than what was flushed", "disk model as for fraos"]),
        level: "exploration".into(), verif: String::new(), fault_kinds: s(faults), probes_expected: s(probes), program: String::new(),
    }
}
fn make(_p: &str) -> Ilm { Ilm }
fn main() { std::process::exit(main_with(make, config)); }
