//! multiverse under simulation: histories of forks, garbage collection, reopening, crashes, failing storage, hash
//! orders, and callers that keep references to blocks.
use instr_mv::{Db, Held, Mv, B, K};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::*;
use simrt::hist::{ev, Ev};
use simrt::rng::{hash_bytes, Rng};
use simrt::sched::Fault;
use simrt::shared;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
    Open { d: usize, tries: u32 },
    Close { d: usize },
    /// closes every multiverse and the database handle
    CloseAll,
    Insert { d: usize, id: String, parent: String, num: u64, tries: u32 },
    Remove { d: usize, id: String, tries: u32 },
    Clear { d: usize, tries: u32 },
    Destroy { d: usize },
    Select { d: usize, depth: usize, gap: usize, keep: bool },
    /// selects, removes what may be discarded, selects again
    Gc { d: usize, depth: usize, gap: usize, keep: bool, tries: u32 },
    DropRefs,
    Flush,
}
struct Sim;
struct St { root: String, names: [String; 2], from: [u64; 2], shared: bool, temp: bool, universe: Vec<(String, String, u64)>, sparse: bool }
#[derive(Default)]
struct Tl { db: Option<Db>, m: [Option<Mv>; 2], held: Vec<Held>, tips: Vec<std::sync::Arc<K>>, shadow: [BTreeMap<String, String>; 2] }

fn data(id: &str) -> u64 { hash_bytes(11, id.as_bytes()) }
fn block(id: &str, parent: &str, num: u64) -> B { B { id: K(id.into()), parent: K(parent.into()), num, data: data(id) } }

fn observe(st: &St, m: &Mv) -> Value {
    let mut tips: Vec<String> = m.tips().iter().map(|k| k.0.clone()).collect();
    tips.sort();
    let it: Vec<(String, u64)> = m.iter().into_iter().map(|b| (b.id.0, b.num)).collect();
    let mut has = vec![];
    for (id, _, _) in &st.universe {
        let g = m.get(id);
        if g.is_some() != m.contains(id) { return json!({"bad": format!("get and contains disagree about {id}")}); }
        if let Some(b) = g {
            if !st.universe.iter().any(|u| u.0 == *id && b == block(&u.0, &u.1, u.2)) || b.id.0 != *id { return json!({"bad": format!("{id} came back as {b:?}")}); }
            has.push((b.id.0, b.parent.0, b.num));
        }
    }
    json!({"len": m.len(), "empty": m.is_empty(), "tips": tips, "iter": it, "has": has, "pref": m.preferred().map(|x| x.0.0)})
}
impl Sim {
    fn obs(&self, st: &St, tl: &Tl, id: u32) {
        for d in 0..2 { if let Some(m) = &tl.m[d] { ev("obs", id, json!({"d": d, "o": observe(st, m)})); } }
    }
    fn attempt(&self, id: u32, tries: u32, what: Value, mut f: impl FnMut() -> Result<(), String>) -> bool {
        for a in 0..=tries {
            ev("op", id, what.clone());
            let r = f();
            let ok = r.is_ok();
            ev("opd", id, json!({"err": r.err()}));
            if ok { return true; }
            if a < tries { shared::count("op", "retry"); }
        }
        false
    }
}
impl Scenario for Sim {
    type Op = Op;
    type St = St;
    type Tl = Tl;
    fn start(&self, plan: &Plan<Op>, _inc: usize, root: &str) -> St {
        let names = match plan.knob("names") { 0 => ["a".to_string(), "b".to_string()], 1 => ["dom".into(), "domain".into()], _ => ["x".into(), "x-".into()] };
        let mut universe: Vec<(String, String, u64)> = plan.incs.iter().flat_map(|i| i.ops()).filter_map(|o| match &o.1 { Op::Insert { id, parent, num, .. } => Some((id.clone(), parent.clone(), *num)), _ => None }).collect();
        universe.sort();
        universe.dedup();
        St { root: root.to_string(), names, from: [plan.knob("from0") as u64, plan.knob("from1") as u64], shared: plan.knob("shared") != 0, temp: plan.knob("temp") != 0, universe, sparse: plan.knob("long") != 0 }
    }
    fn thread(&self, _st: &St, _n: usize) -> Tl { Tl::default() }
    fn exec(&self, st: &St, tl: &mut Tl, id: u32, op: &Op) {
        let path = |d: usize| format!("{}/mv{}", st.root, if st.shared { 0 } else { d });
        match op {
            Op::Open { d, tries } => {
                if tl.m[*d].is_some() { return; }
                shared::count("op", "open");
                for _ in 0..=*tries {
                    ev("open", id, json!({"d": d}));
                    let r = if st.temp { Mv::temporary() } else if st.shared {
                        (|| { if tl.db.is_none() { tl.db = Some(Db::open(&path(0))?); } Mv::load(tl.db.as_ref().unwrap(), &st.names[*d], st.from[*d]) })()
                    } else { Mv::open(&path(*d), &st.names[*d], st.from[*d]) };
                    match r {
                        Ok(m) => {
                            let o = observe(st, &m);
                            tl.shadow[*d] = st.universe.iter().filter_map(|u| m.get(&u.0)).map(|b| (b.id.0, b.parent.0)).collect();
                            tl.m[*d] = Some(m);
                            ev("opened", id, json!({"d": d, "o": o}));
                            break;
                        }
                        Err(e) => { ev("opened", id, json!({"d": d, "err": e})); }
                    }
                }
            }
            Op::Close { d } => { if tl.m[*d].is_none() { return; } shared::count("op", "close"); let m = tl.m[*d].take(); drop(m); ev("closed", id, json!({"d": d})); }
            Op::CloseAll => { shared::count("op", "close"); let m = std::mem::take(&mut tl.m); drop(m); let db = tl.db.take(); drop(db); ev("closed", id, json!({"all": 1})); }
            Op::Insert { d, id: b, parent, num, tries } => {
                let Some(m) = tl.m[*d].as_mut() else { return };
                // parents come before their children
                if !tl.shadow[*d].contains_key(b) && tl.shadow[*d].values().any(|p| p == b) { return; }
                // one identifier, one block
                if tl.shadow[*d].get(b).map_or(false, |p| p != parent) || m.get(b).map_or(false, |x| x.num != *num) { return; }
                shared::count("op", "insert");
                if self.attempt(id, *tries, json!({"d": d, "ins": [b, parent, num]}), || m.insert(block(b, parent, *num))) { tl.shadow[*d].insert(b.clone(), parent.clone()); }
                else { if m.get(b).is_some() { tl.shadow[*d].insert(b.clone(), parent.clone()); } self.obs(st, tl, id); return; }
                // on long chains only some of the successful insertions are followed by a look at everything
                if !st.sparse || id % 32 == 0 { self.obs(st, tl, id); }
            }
            Op::Remove { d, id: b, tries } => {
                let Some(m) = tl.m[*d].as_mut() else { return };
                shared::count("op", "remove");
                let was = tl.shadow[*d].contains_key(b);
                let ok = self.attempt(id, *tries, json!({"d": d, "rem": b, "was": was}), || m.remove(b).map(|_| ()));
                if ok || m.get(b).is_none() { tl.shadow[*d].remove(b); }
                self.obs(st, tl, id);
            }
            Op::Clear { d, tries } => {
                let Some(m) = tl.m[*d].as_mut() else { return };
                shared::count("op", "clear");
                self.attempt(id, *tries, json!({"d": d, "clear": 1}), || m.clear());
                tl.shadow[*d] = st.universe.iter().filter_map(|u| m.get(&u.0)).map(|b| (b.id.0, b.parent.0)).collect();
                self.obs(st, tl, id);
            }
            Op::Destroy { d } => {
                let Some(m) = tl.m[*d].take() else { return };
                shared::count("op", "destroy");
                ev("op", id, json!({"d": d, "destroy": 1}));
                let r = m.destroy();
                ev("opd", id, json!({"err": r.err()}));
                ev("closed", id, json!({"d": d}));
                self.obs(st, tl, id);
            }
            Op::Select { d, depth, gap, keep } => {
                let Some(m) = tl.m[*d].as_ref() else { return };
                shared::count("op", "select");
                let b = m.best(*depth, *gap);
                ev("sel", id, json!({"d": d, "depth": depth, "gap": gap, "sel": b.selected, "dis": b.discarded}));
                if *keep { tl.tips.extend(m.tips()); tl.held.extend(m.preferred().map(|x| x.1)); tl.held.extend(b.keep()); shared::count("op", "kept_references"); }
            }
            Op::Gc { d, depth, gap, keep, tries } => {
                let Some(m) = tl.m[*d].as_mut() else { return };
                shared::count("op", "gc");
                let b = m.best(*depth, *gap);
                ev("sel", id, json!({"d": d, "depth": depth, "gap": gap, "sel": b.selected, "dis": b.discarded}));
                let mut all = true;
                for n in 0..b.discarded.len() {
                    let k = b.discarded[n].0.clone();
                    shared::count("op", "discard");
                    let ok = self.attempt(id, *tries, json!({"d": d, "rem": k, "was": tl.shadow[*d].contains_key(&k)}), || m.discard(&b, n).map(|_| ()));
                    if ok || m.get(&k).is_none() { tl.shadow[*d].remove(&k); }
                    all &= ok;
                }
                if all {
                    let a = m.best(*depth, *gap);
                    ev("resel", id, json!({"d": d, "depth": depth, "gap": gap, "before": b.selected, "sel": a.selected, "dis": a.discarded}));
                }
                if *keep { tl.held.extend(b.keep()); shared::count("op", "kept_references"); }
                self.obs(st, tl, id);
            }
            Op::DropRefs => { tl.held.clear(); tl.tips.clear(); }
            Op::Flush => { if let Some(db) = &tl.db { ev("flush", id, json!(null)); let r = db.flush(); ev("flushed", id, json!({"err": r.err()})); } }
        }
    }
    fn gen(&self, prop: &str, rng: &mut Rng, thorough: bool) -> Plan<Op> { gen(prop, rng, thorough) }
    fn check(&self, plan: &Plan<Op>, hist: &[Ev]) -> Option<Violation> { run(plan, hist).err().map(|(c, d)| violation(&plan.prop, &c, d)) }
    fn simplify(&self, op: &Op) -> Vec<Op> {
        match op {
            Op::Gc { d, depth, gap, keep, tries } => vec![Op::Select { d: *d, depth: *depth, gap: *gap, keep: *keep }, Op::Gc { d: *d, depth: *depth, gap: *gap, keep: false, tries: *tries }],
            Op::Select { d, depth, gap, keep: true } => vec![Op::Select { d: *d, depth: *depth, gap: *gap, keep: false }],
            _ => vec![],
        }
    }
    fn nontrivial(&self, plan: &Plan<Op>, hist: &[Ev]) -> bool {
        let ins = hist.iter().filter(|e| e.k == "op" && e.v["ins"].is_array()).count();
        match plan.prop.as_str() {
            "C20" => ins > 1 && hist.iter().filter(|e| e.k == "opened").count() > 1,
            "C21" => ins > 2 && hist.iter().any(|e| e.k == "sel" && !e.v["sel"].is_null()),
            "C22" => ins > 2 && hist.iter().any(|e| e.k == "obs" && e.v["o"]["iter"].as_array().map_or(false, |a| a.windows(2).any(|w| w[0][1] == w[1][1]))),
            _ => ins > 1 && hist.iter().any(|e| (e.k == "opd" || e.k == "opened") && !e.v["err"].is_null()),
        }
    }
}

// ---------------------------------------------------------------- oracle
type Set = BTreeMap<String, (String, u64)>;
type Bad = (String, String);
fn bad<T>(c: &str, d: String) -> Result<T, Bad> { Err((c.into(), d)) }
type DbSt = [Set; 2];
/// The states a database went through since it was last flushed.
type Alt = Vec<DbSt>;

fn judge(o: &Value) -> Result<Set, Bad> {
    if let Some(b) = o["bad"].as_str() { return bad("lookup", b.to_string()); }
    let has: Vec<(String, String, u64)> = serde_json::from_value(o["has"].clone()).unwrap();
    let set: Set = has.into_iter().map(|(i, p, n)| (i, (p, n))).collect();
    if o["len"] != json!(set.len()) { return bad("len", format!("{} blocks are found, but the length is {}", set.len(), o["len"])); }
    if o["empty"] != json!(set.is_empty()) { return bad("len", format!("{} blocks are found, but is_empty is {}", set.len(), o["empty"])); }
    let tips = tips(&set);
    let t: Vec<String> = serde_json::from_value(o["tips"].clone()).unwrap();
    if t != tips { return bad("tips", format!("the tips are {t:?}, the blocks without children are {tips:?}; blocks: {}", show(&set))); }
    let it: Vec<(String, u64)> = serde_json::from_value(o["iter"].clone()).unwrap();
    if it.windows(2).any(|w| w[0].1 > w[1].1) { return bad("iter-order", format!("iteration is not in order of block number: {it:?}")); }
    let ids: BTreeSet<&String> = it.iter().map(|x| &x.0).collect();
    if ids.len() != it.len() { return bad("iter", format!("iteration visits a block twice: {it:?}")); }
    if ids != set.keys().collect() { return bad("iter", format!("iteration visits {:?}, present are {}", it, show(&set))); }
    match o["pref"].as_str() {
        None => if !set.is_empty() { return bad("preferred", "there is no preferred tip".into()); },
        Some(p) => {
            let best = tips.iter().map(|t| set[t].1).max();
            if !tips.iter().any(|t| t == p) || Some(set[p].1) != best { return bad("preferred", format!("the preferred tip is {p}; tips: {:?}", tips.iter().map(|t| (t, set[t].1)).collect::<Vec<_>>())); }
        }
    }
    Ok(set)
}
fn show(s: &Set) -> String { s.iter().map(|(i, (p, n))| format!("{i}<-{p}@{n}")).collect::<Vec<_>>().join(" ") }
fn tips(s: &Set) -> Vec<String> { let parents: HashSet<&String> = s.values().map(|v| &v.0).collect(); s.keys().filter(|k| !parents.contains(k)).cloned().collect() }
fn choices(s: &Set, depth: usize) -> Vec<Option<String>> {
    let Some(top) = s.values().map(|v| v.1).max() else { return vec![None] };
    s.iter().filter(|(_, v)| v.1 == top).map(|(k, _)| {
        let mut k = k.clone();
        for _ in 0..depth { let p = &s[&k].0; if !s.contains_key(p) { return None; } k = p.clone(); }
        Some(k)
    }).collect()
}
fn discard(s: &Set, sel: &Option<String>, gap: usize) -> BTreeSet<String> {
    match sel { None => BTreeSet::new(), Some(k) => { let n = s[k].1.saturating_sub(gap as u64); s.iter().filter(|(_, v)| v.1 < n).map(|(k, _)| k.clone()).collect() } }
}

#[derive(Clone)]
enum W { Put(usize, String, String, u64), Del(usize, String), Clear(usize) }
fn apply(s: &mut Set, w: &W) { match w { W::Put(_, i, p, n) => { s.insert(i.clone(), (p.clone(), *n)); } W::Del(_, i) => { s.remove(i); } W::Clear(_) => s.clear() } }

fn run(plan: &Plan<Op>, hist: &[Ev]) -> Result<(), Bad> {
    for e in hist {
        if e.k == "fatal" { return bad(&e.kind, format!("{} (operation {})", e.msg, e.op)); }
        if e.k == "panic" { return bad("panic", format!("operation {}: {}", e.id, e.v.as_str().unwrap_or(""))); }
    }
    let shared = plan.knob("shared") != 0;
    let temp = plan.knob("temp") != 0;
    let from = [plan.knob("from0") as u64, plan.knob("from1") as u64];
    let dbi = |d: usize| if shared { 0 } else { d };
    let faulty = |i: u32, op: u32| plan.incs.get(i as usize).map_or(false, |x| x.faults.iter().any(|f| f.op == op));
    // may the failing storage operation have taken effect all the same?
    let effect = |i: u32, op: u32| plan.incs.get(i as usize).map_or(true, |x| x.faults.iter().any(|f| f.op == op && f.errno == 28));
    let mut dbs: [Vec<Alt>; 2] = [vec![vec![DbSt::default()]], vec![vec![DbSt::default()]]];
    let mut mem: [Option<Set>; 2] = [None, None];
    let mut pending: HashMap<u32, (usize, W, bool)> = HashMap::new();
    // after a failed operation: either all of it or nothing
    let mut either: [Option<Set>; 2] = [None, None];
    let mut inc = 0;
    let write = |dbs: &mut [Vec<Alt>; 2], w: &W, maybe: bool| {
        let (d, skip) = match w { W::Put(d, _, _, n) => (*d, *n < from[*d]), W::Del(d, _) | W::Clear(d) => (*d, false) };
        if skip || temp { return; }
        let alts = &mut dbs[dbi(d)];
        let mut out: Vec<Alt> = vec![];
        for a in alts.iter() {
            let mut b = a.clone();
            if maybe { out.push(a.clone()); }
            // storage is cleared one key after the other
            let mut keys: Vec<(u64, String)> = match w { W::Clear(_) => b.last().unwrap()[d].iter().map(|(k, v)| (v.1, k.clone())).collect(), _ => vec![] };
            keys.sort();
            let steps: Vec<W> = if let W::Clear(_) = w { keys.into_iter().map(|k| W::Del(d, k.1)).collect() } else { vec![w.clone()] };
            for x in steps {
                let mut s = b.last().unwrap().clone();
                apply(&mut s[d], &x);
                if Some(&s) == b.last() { continue; }
                if maybe && b != *a { out.push(b.clone()); }
                b.push(s);
            }
            if !maybe || b != *a { out.push(b); }
        }
        out.dedup();
        // too many to tell apart: anything goes until the next time it opens (an empty list)
        if out.len() > 512 { out.clear(); }
        *alts = out;
    };
    let settle = |dbs: &mut [Vec<Alt>; 2], i: usize| { for a in dbs[i].iter_mut() { let l = a.pop().unwrap(); *a = vec![l]; } dbs[i].dedup(); };
    for e in hist {
        if e.i != inc && e.k != "crash" {
            // an orderly end (after a crash `inc` is already up to date)
            for i in 0..2 { settle(&mut dbs, i); }
            mem = [None, None];
            inc = e.i;
        }
        match e.k.as_str() {
            "crash" => {
                for (_, (_, w, _)) in pending.drain() { write(&mut dbs, &w, true); }
                for i in 0..2 {
                    let mut out: Vec<Alt> = vec![];
                    for a in &dbs[i] { for s in a { if !out.iter().any(|x| x[0] == *s) { out.push(vec![s.clone()]); } } }
                    dbs[i] = out;
                }
                mem = [None, None];
                either = [None, None];
                inc = e.i + 1;
            }
            "open" => {}
            "opened" => {
                let d = e.v["d"].as_u64().unwrap() as usize;
                if let Some(x) = e.v["err"].as_str() { if faulty(e.i, e.id) { continue; } return bad("open", format!("opening multiverse {d} failed: {x}")); }
                let set = judge(&e.v["o"])?;
                if !temp {
                    let alts = &mut dbs[dbi(d)];
                    if alts.is_empty() { let mut s = DbSt::default(); s[d] = set.clone(); if !shared { *alts = vec![vec![s]]; } mem[d] = Some(set); either[d] = None; continue; }
                    let want: Vec<String> = alts.iter().map(|a| show(&stored(&a.last().unwrap()[d], from[d]))).collect();
                    alts.retain(|a| stored(&a.last().unwrap()[d], from[d]) == set);
                    if alts.is_empty() { let mut w = want; w.dedup(); w.truncate(5); return bad("reopen", format!("multiverse {d} opened with [{}]; possible: {w:?}", show(&set))); }
                } else if !set.is_empty() { return bad("reopen", "a new temporary multiverse is not empty".into()); }
                mem[d] = Some(set);
                either[d] = None;
            }
            "closed" => {
                if e.v["all"].is_u64() { for i in 0..2 { settle(&mut dbs, i); } mem = [None, None]; }
                else { let d = e.v["d"].as_u64().unwrap() as usize; mem[d] = None; if !shared { settle(&mut dbs, d); } }
            }
            "flushed" => if e.v["err"].is_null() { settle(&mut dbs, 0); },
            "op" => {
                let d = e.v["d"].as_u64().unwrap() as usize;
                let was = e.v["was"].as_bool().unwrap_or(true);
                let w = if let Some(a) = e.v["ins"].as_array() { W::Put(d, a[0].as_str().unwrap().into(), a[1].as_str().unwrap().into(), a[2].as_u64().unwrap()) }
                    else if let Some(b) = e.v["rem"].as_str() { W::Del(d, b.into()) } else { W::Clear(d) };
                pending.insert(e.id, (d, w, was));
            }
            "opd" => {
                let Some((d, w, was)) = pending.remove(&e.id) else { continue };
                let cur = mem[d].clone();
                if let Some(x) = e.v["err"].as_str() {
                    if !was && !cur.as_ref().map_or(false, |c| matches!(&w, W::Del(_, k) if c.contains_key(k))) { continue; }
                    // what an earlier attempt already did
                    if let (W::Del(_, k), Some(alt)) = (&w, &either[d]) { if !alt.contains_key(k) && x.to_lowercase().contains("not found") { mem[d] = Some(alt.clone()); either[d] = None; continue; } }
                    if !faulty(e.i, e.id) { return bad("error", format!("operation {} failed without any fault: {x}", e.id)); }
                    // the storage refused it and did nothing
                    if !matches!(w, W::Clear(_)) && !effect(e.i, e.id) { continue; }
                    write(&mut dbs, &w, true);
                    if let Some(mut s) = cur { apply(&mut s, &w); either[d] = Some(s); }
                } else {
                    if let W::Del(_, k) = &w { if cur.as_ref().map_or(false, |c| !c.contains_key(k)) && either[d].is_none() { return bad("absent", format!("removing {k}, which is not there, succeeded")); } }
                    write(&mut dbs, &w, false);
                    if let Some(s) = mem[d].as_mut() { apply(s, &w); }
                    either[d] = None;
                }
            }
            "obs" => {
                let d = e.v["d"].as_u64().unwrap() as usize;
                let set = judge(&e.v["o"])?;
                let Some(m) = &mem[d] else { continue };
                if set != *m {
                    if either[d].as_ref() == Some(&set) { mem[d] = Some(set); }
                    else { return bad("content", format!("multiverse {d} holds [{}], it should hold [{}]{}", show(&set), show(m), if either[d].is_some() { " (or all of the failed operation)" } else { "" })); }
                }
                either[d] = None;
            }
            "sel" | "resel" => {
                let d = e.v["d"].as_u64().unwrap() as usize;
                let Some(m) = mem[d].clone() else { continue };
                if either[d].is_some() { continue; }
                let (depth, gap) = (e.v["depth"].as_u64().unwrap() as usize, e.v["gap"].as_u64().unwrap() as usize);
                let sel = e.v["sel"].as_str().map(|s| s.to_string());
                let c = choices(&m, depth);
                if !c.contains(&sel) { return bad("select", format!("selected {sel:?} at depth {depth}; possible: {c:?}; blocks: {}", show(&m))); }
                let dis: BTreeSet<String> = serde_json::from_value(e.v["dis"].clone()).unwrap();
                let want = discard(&m, &sel, gap);
                if dis != want { return bad("discard", format!("with {sel:?} selected and a gap of {gap}, the discard set is {dis:?} instead of {want:?}; blocks: {}", show(&m))); }
                if e.k == "resel" {
                    if e.v["before"] != e.v["sel"] { return bad("select-changed", format!("removing the discarded blocks changed the selected block from {} to {}", e.v["before"], e.v["sel"])); }
                    if !dis.is_empty() { return bad("discard", format!("after removing the discarded blocks, {dis:?} are still to be discarded")); }
                }
            }
            _ => {}
        }
    }
    Ok(())
}
/// What was stored under an older bound stays stored.
fn stored(s: &Set, _from: u64) -> Set { s.clone() }

// ---------------------------------------------------------------- plans
fn gen(prop: &str, rng: &mut Rng, thorough: bool) -> Plan<Op> {
    let scale = if thorough { 2 } else { 1 };
    let mut knobs = BTreeMap::new();
    let temp = match prop { "C21" | "C22" => rng.chance(0.5), _ => false };
    knobs.insert("temp".into(), temp as i64);
    knobs.insert("shared".into(), rng.chance(0.5) as i64);
    knobs.insert("names".into(), rng.below(3) as i64);
    knobs.insert("kv_bg".into(), *rng.pick(&[0, 0, 100, 400]));
    let base = *rng.pick(&[0u64, 0, 1, 7, 250, 65_530, 4_294_967_290, 1 << 40]);
    for d in 0..2 { let f = if rng.chance(0.3) { base + rng.below(8) } else { 0 }; knobs.insert(format!("from{d}"), f as i64); }
    let mut id = 0u32;
    let mut n = |op: Op| { id += 1; (id, op) };
    // what should be present, so that histories make sense
    let mut present: [BTreeMap<String, (String, u64)>; 2] = Default::default();
    let mut known: [BTreeMap<String, (String, u64)>; 2] = Default::default();
    let mut count = 0usize;
    let tries = |rng: &mut Rng| if prop == "C23" && rng.chance(0.6) { 3 } else { 0 };
    let mut bushy = *rng.pick(&[0.1, 0.3, 0.6]);
    let style = rng.below(3);
    // now and then a chain longer than small numbers count
    let long = rng.chance(0.006);
    let reach = if long { 300 } else { 0 };
    knobs.insert("long".into(), long as i64);
    if long { bushy = 0.004; }
    let incs_n = match prop { _ if long => 1,  "C20" => 2 + rng.idx(3), _ => if temp { 1 } else { 1 + rng.idx(2) } };
    let mut incs = vec![];
    for k in 0..incs_n {
        let mut i = Inc::new(serial_sched());
        let two = rng.chance(0.35);
        i.pre.push(n(Op::Open { d: 0, tries: tries(rng) }));
        if two { i.pre.push(n(Op::Open { d: 1, tries: tries(rng) })); }
        let steps = if long { 140 + rng.idx(180) } else { 3 + rng.idx(22 * scale) };
        for _ in 0..steps {
            let d = if two && rng.chance(0.4) { 1 } else { 0 };
            let p = &mut present[d];
            match rng.weighted(&[if long { 3000 } else { 60 }, 9, if prop == "C20" { 5 } else { 12 }, 8, 1, 1, 4, 4, 2]) {
                0 => {
                    let parents: HashSet<String> = p.values().map(|v| v.0.clone()).collect();
                    let gone: Vec<String> = known[d].keys().filter(|k| !p.contains_key(*k) && !parents.contains(*k)).cloned().collect();
                    let (b, pa, num) = if rng.chance(0.06) && !p.is_empty() {
                        let k = rng.pick(&p.keys().cloned().collect::<Vec<_>>()).clone();
                        let v = p[&k].clone();
                        (k, v.0, v.1)
                    } else if rng.chance(0.12) && !gone.is_empty() {
                        let k = rng.pick(&gone).clone();
                        let v = known[d][&k].clone();
                        (k, v.0, v.1)
                    } else {
                        let name = match style { 0 => format!("b{count}"), 1 => format!("{}{}", ["", "a", "ab", "abc"][rng.idx(4)], count), _ => format!("{:04x}", (count * 40503 + d * 7919) & 0xffff) };
                        count += 1;
                        let tips: Vec<String> = p.keys().filter(|k| !parents.contains(*k)).cloned().collect();
                        let all: Vec<String> = p.keys().cloned().collect();
                        if all.is_empty() || rng.chance(0.03) { let h = base + rng.below(4); (name, format!("none{count}"), h) }
                        else {
                            let pa = if rng.chance(bushy) { rng.pick(&all).clone() } else { tips.iter().max_by_key(|t| p[*t].1).unwrap().clone() };
                            let h = p[&pa].1 + if rng.chance(0.08) { 1 + rng.below(3) } else { 1 };
                            (name, pa, h)
                        }
                    };
                    known[d].insert(b.clone(), (pa.clone(), num));
                    p.insert(b.clone(), (pa.clone(), num));
                    i.pre.push(n(Op::Insert { d, id: b, parent: pa, num, tries: tries(rng) }));
                }
                1 => {
                    let all: Vec<String> = known[d].keys().cloned().collect();
                    if all.is_empty() { continue; }
                    let b = rng.pick(&all).clone();
                    p.remove(&b);
                    i.pre.push(n(Op::Remove { d, id: b, tries: tries(rng) }));
                }
                2 => {
                    let (depth, gap) = (rng.idx(6 + reach), rng.idx(5 + reach));
                    if let Some(Some(s)) = choices(p, depth).first() { for x in discard(p, &Some(s.clone()), gap) { p.remove(&x); } }
                    i.pre.push(n(Op::Gc { d, depth, gap, keep: rng.chance(0.4), tries: tries(rng) }));
                }
                3 => i.pre.push(n(Op::Select { d, depth: rng.idx(10 + reach), gap: if rng.chance(0.05) { usize::MAX >> 12 } else { rng.idx(6 + reach) }, keep: rng.chance(0.5) })),
                4 => { p.clear(); i.pre.push(n(Op::Clear { d, tries: tries(rng) })); }
                5 => { p.clear(); i.pre.push(n(Op::Destroy { d })); i.pre.push(n(Op::Open { d, tries: 3 })); }
                6 => { if temp { present[d].clear(); } i.pre.push(n(Op::Close { d })); i.pre.push(n(Op::Open { d, tries: tries(rng) })); i.pre.push(n(Op::Open { d, tries: 2 })); }
                7 => i.pre.push(n(Op::DropRefs)),
                _ => i.pre.push(n(Op::Flush)),
            }
        }
        for d in 0..2 { i.pre.push(n(Op::Select { d, depth: rng.idx(4 + reach), gap: rng.idx(4 + reach), keep: false })); }
        let crash = !temp && k + 1 < incs_n && match prop { "C20" => rng.chance(0.7), _ => rng.chance(0.3) };
        if crash { let ops: Vec<u32> = i.ops().map(|o| o.0).collect(); let op = *rng.pick(&ops); i.crash = Some(gen_crash(rng, op, 0.5)); }
        else if rng.chance(0.5) { i.post.push(n(Op::CloseAll)); }
        if !temp && (prop == "C23" || (prop == "C22" && rng.chance(0.3))) {
            for (id, op) in i.pre.clone() {
                let pr = match op { Op::Open { .. } => 0.15, Op::Insert { .. } | Op::Remove { .. } | Op::Clear { .. } | Op::Destroy { .. } | Op::Gc { .. } => 0.25, _ => 0.0 };
                if !rng.chance(if long { pr * 0.02 } else { pr }) { continue; }
                let kind = match op { Op::Open { .. } => *rng.pick(&["kv_open", "kv_open_tree", "kv_iter", "kv_iter"]), Op::Insert { .. } => "kv_insert", Op::Clear { .. } => "kv_clear", Op::Destroy { .. } => "kv_drop_tree", _ => "kv_remove" };
                for t in 0..1 + rng.idx(2) as u32 { i.faults.push(Fault { op: id, kind: kind.into(), nth: if kind == "kv_iter" { 1 + rng.below(12) as u32 } else if matches!(op, Op::Gc { .. } | Op::Clear { .. }) { 1 + t + rng.below(4) as u32 } else { 1 + t }, errno: if kind.contains("open") || kind == "kv_iter" { 5 } else { *rng.pick(&[5, 5, 28]) }, sticky: false }); }
            }
        }
        incs.push(i);
        if two && !incs.is_empty() && temp { present = Default::default(); }
        if temp { present = Default::default(); }
    }
    if !temp {
        let mut i = Inc::new(serial_sched());
        i.pre.push(n(Op::Open { d: 0, tries: 0 }));
        i.pre.push(n(Op::Open { d: 1, tries: 0 }));
        for d in 0..2 { i.pre.push(n(Op::Select { d, depth: rng.idx(4 + reach), gap: rng.idx(4 + reach), keep: false })); }
        incs.push(i);
    }
    Plan { prop: prop.into(), seed: 0, knobs, incs }
}

fn config(prop: &str, tier: &str) -> Config {
    let thorough = tier == "thorough";
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let (faults, probes): (&[&str], &[&str]) = match prop {
        "C20" => (&[], &["crash_dropped_kv_suffix"]),
        "C23" => (&["kv_insert", "kv_remove", "kv_clear", "kv_open", "kv_open_tree", "kv_iter", "kv_drop_tree"], &["kv_error_after_effect"]),
        _ => (&[], &[]),
    };
    let rule = match prop {
        "C20" => "3 to 5 incarnations over one or two multiverses (in one database or two), inserts, removals, garbage collection, clears, reopens, most incarnations ended by a crash at a random point with a random prefix of the unflushed writes kept; non-trivial: two inserts and two openings; distinct by the hash of the history",
        "C21" => "forking histories of inserts, removals and garbage collection with all small depths and gaps, references to removed blocks kept or dropped, random hash orders; non-trivial: three inserts and a selected block; distinct by the hash of the history",
        "C22" => "forking histories of inserts (also repeated and re-insertions), removals, garbage collection, everything observed after each step; non-trivial: three inserts and two blocks at one height; distinct by the hash of the history",
        _ => "as C22 with storage operations failing before or after their effect, with and without immediate retries, reopens; non-trivial: two inserts and a failed operation; distinct by the hash of the history",
    };
    Config {
        prop: prop.into(), tier: tier.into(), seed: 1, runs: if thorough { 40_000_000 } else { 60_000 }, secs: if thorough { 900 } else { 50 }, workers: 8,
        rule: rule.into(),
        real: s(&["multiverse (instrumented)", "dcspark-core block numbers", "serde_json", "Rust std collections (hash order from the simulated getrandom)"]),
        stubs: s(&["sled (model: atomic operations, prefix durability, failing operations)", "getrandom"]),
        assumptions: s(&["sled keeps its contract: a crash keeps a prefix of the operations that is not shorter than what was flushed", "block numbers grow from parent to child; a block is not inserted while a child of it is present"]),
        level: "exploration".into(), verif: String::new(), fault_kinds: s(faults), probes_expected: s(probes), program: String::new(),
    }
}
fn make(_p: &str) -> Sim { Sim }
fn main() { std::process::exit(main_with(make, config)); }
