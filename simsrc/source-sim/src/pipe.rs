//! The whole way of a block: a scripted node, CardanoSource, MultiverseSource or ForkHandlingSource, the consumer.
//! Connection faults, forks, storage failures, cancelled polls, orderly stops, crashes and restarts together.
use crate::chain::{self, bad, Bad, P};
use crate::net::{bytes, hex32, point, Ctl, End, Kept, Net, Reply};
use dcspark_blockchain_source::cardano::{time::Era, BlockEvent, CardanoNetworkEvent, CardanoSource, NetworkConfiguration, Point, Tip};
use dcspark_blockchain_source::multiverse::rollback::{Event as ForkEvent, ForkHandlingSource};
use dcspark_blockchain_source::multiverse::MultiverseSource;
use dcspark_blockchain_source::Source;
use dcspark_core::{BlockId, BlockNumber};
use multiverse::{Multiverse, Variant};
use serde::{Deserialize, Serialize};
use serde_json::json;
use simrt::driver::*;
use simrt::hist::{ev, Ev};
use simrt::rng::Rng;
use simrt::sched::{Crash, Fault};
use simrt::{raw, sched, shared};
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};

type Block = CardanoNetworkEvent<BlockEvent, Tip>;
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// connects and opens the database
    Open { acts: Vec<Reply> },
    Poll { acts: Vec<Reply>, stall: bool, cancel: Option<u32>, accept: bool, save: bool },
    /// only the background task runs
    Idle { steps: u32, acts: Vec<Reply> },
    /// the consumer drops what is buffered by stopping in an orderly way
    Stop { acts: Vec<Reply> },
    Node { act: Reply },
    Drain,
}
/// the consumer's durable state
#[derive(Clone, Default, Serialize, Deserialize)]
struct Saved { pos: Option<P>, base: (u64, String), low: u64 }
pub struct St { root: String, net: Mutex<Net>, fork: bool, fixed: bool, depth: usize, tap: Arc<Mutex<Tapped>>, inc: usize }
#[derive(Default)]
struct Tapped { used: Vec<&'static str>, op: u32, gave: u64 }
/// between the sources: notes what the lower one hands out
struct Tap { inner: CardanoSource, t: Arc<Mutex<Tapped>> }
#[async_trait::async_trait]
impl Source for Tap {
    type Event = Block;
    type From = Vec<Point>;
    async fn pull(&mut self, from: &Vec<Point>) -> anyhow::Result<Option<Block>> {
        let r = self.inner.pull(from).await;
        let mut t = self.t.lock().unwrap();
        match &r {
            Err(e) => { t.used.push("err"); ev("inner_err", t.op, json!(format!("{e:#}"))); }
            Ok(Some(CardanoNetworkEvent::Tip(tip))) => { t.used.push("tip"); ev("inner_tip", t.op, tip_json(tip)); }
            Ok(Some(CardanoNetworkEvent::Block(b))) => { t.gave += 1; ev("hand", t.op, json!({"b": b.id.to_string()})); }
            Ok(None) => {}
        }
        r
    }
}
fn tip_json(t: &Tip) -> serde_json::Value { json!([[t.point.slot_nb(), t.point.hash().to_string()], t.block_number]) }
enum Src { Stable(MultiverseSource<BlockId, Block, Tap>), Fork(ForkHandlingSource<BlockId, Block, Tap, ForkEvent<Block, Point>>) }
pub struct Tl { rt: tokio::runtime::Runtime, cfg: NetworkConfiguration, pace: u64, yields: u32, src: Option<Src>, saved: Saved, start: Option<P>, pos: Option<P> }
pub struct Sim;
static KNOBS: Mutex<BTreeMap<String, i64>> = Mutex::new(BTreeMap::new());

impl Sim {
    fn save(&self, st: &St, tl: &Tl) { raw::write_file(&format!("{}.consumer", st.root), &serde_json::to_vec(&tl.saved).unwrap()); }
    fn point_of(&self, st: &St, tl: &Tl, p: &P) -> Point {
        if p.id == tl.saved.base.1 { return point(tl.saved.base.0, &p.id); }
        let n = st.net.lock().unwrap();
        point(n.blocks[n.at(&p.id).unwrap()].slot, &p.id)
    }
    fn p_of(&self, st: &St, tl: &Tl, p: &Point) -> P {
        let Point::BlockHeader { slot_nb, hash } = p else { return P { h: 0, id: "the origin".into() } };
        let id = hash.to_string();
        let slot = u64::from(*slot_nb);
        if (slot, &id) == (tl.saved.base.0, &tl.saved.base.1) { return P { h: tl.saved.low, id }; }
        let n = st.net.lock().unwrap();
        match n.at(&id) { Some(i) if n.blocks[i].slot == slot => P { h: n.blocks[i].h + 1, id }, _ => P { h: 0, id: format!("{id} in slot {slot}") } }
    }
    fn open(&self, st: &St, tl: &mut Tl, id: u32, acts: &[Reply]) {
        if tl.src.is_some() { return; }
        let mut c = Ctl { net: &st.net, op: id, acts: acts.to_vec().into(), stall: false, cancel: None, yields: tl.yields, wait: 0 };
        let pace = std::time::Duration::from_millis(tl.pace);
        let s = match tl.rt.block_on(c.drive(CardanoSource::connect(&tl.cfg, pace))) {
            End::Done(Ok(s)) => s,
            End::Done(Err(_)) => { ev("connected", id, json!("err")); return }
            _ => { ev("connected", id, json!("hang")); return }
        };
        let mv: Multiverse<BlockId, Block> = Multiverse::open(format!("{}/mv", st.root), "blocks", BlockNumber::MIN).expect("open");
        let n = st.net.lock().unwrap();
        ev("start", 0, json!({"pos": tl.pos, "base": tl.saved.base.1, "low": tl.saved.low, "best": n.blocks[n.best].id,
            "stored": mv.iter().map(|b| b.id().to_string()).collect::<Vec<_>>(),
            "node": n.blocks.iter().map(|b| json!({"id": b.id, "parent": b.parent, "num": b.h + 1})).collect::<Vec<_>>()}));
        drop(n);
        let tap = Tap { inner: s, t: st.tap.clone() };
        tl.src = Some(if st.fork { Src::Fork(ForkHandlingSource::new(mv, st.depth, tap)) } else { Src::Stable(MultiverseSource::new(mv, st.depth, tap)) });
    }
    /// true when there is nothing more to come for now
    fn poll(&self, st: &St, tl: &mut Tl, id: u32, acts: &[Reply], stall: bool, cancel: Option<u32>, accept: bool, save: bool) -> bool {
        if tl.src.is_none() { return true; }
        if tl.saved.pos != tl.pos { tl.saved.pos = tl.pos.clone(); self.save(st, tl); }
        let at = if st.fork && st.fixed { tl.start.clone() } else { tl.pos.clone() };
        ev("poll", id, json!({"from": at}));
        let from = at.map(|p| self.point_of(st, tl, &p));
        { let mut t = st.tap.lock().unwrap(); t.used.clear(); t.op = id; }
        let before = (st.tap.lock().unwrap().gave, st.net.lock().unwrap().asked);
        let mut c = Ctl { net: &st.net, op: id, acts: acts.to_vec().into(), stall, cancel, yields: tl.yields, wait: 0 };
        let Tl { rt, src, .. } = tl;
        let got = match src.as_mut().unwrap() {
            Src::Stable(s) => match rt.block_on(c.drive(s.pull(&from))) {
                End::Done(r) => Some(r.map(|x| x.map(ForkEvent::InnerEvent))),
                End::Hang => { ev("hang", id, json!(null)); None }
                _ => None,
            },
            Src::Fork(s) => match rt.block_on(c.drive(s.pull(&from))) {
                End::Done(r) => Some(r),
                End::Hang => { ev("hang", id, json!(null)); None }
                _ => None,
            },
        };
        let (used, gave) = { let t = st.tap.lock().unwrap(); (t.used.clone(), t.gave) };
        let quiet = gave == before.0 && st.net.lock().unwrap().asked > before.1;
        match got {
            None => { shared::count("client", if cancel.is_some() { "pull_cancelled" } else { "pull_given_up" }); ev("got", id, json!({"cancelled": 1, "used": used})); false }
            Some(Err(e)) => { ev("got", id, json!({"err": format!("{e:#}"), "used": used})); quiet }
            Some(Ok(None)) => { ev("got", id, json!({"none": 1, "used": used})); quiet }
            Some(Ok(Some(ForkEvent::Rollback(p)))) => { let p = self.p_of(st, tl, &p); ev("got", id, json!({"back": p, "used": used})); tl.pos = Some(p); false }
            Some(Ok(Some(ForkEvent::InnerEvent(CardanoNetworkEvent::Tip(t))))) => { ev("got", id, json!({"tip": 1, "used": used, "which": tip_json(&t)})); false }
            Some(Ok(Some(ForkEvent::InnerEvent(CardanoNetworkEvent::Block(b))))) => {
                let n = st.net.lock().unwrap();
                let mut h = 0;
                if let Some(i) = n.at(b.id.as_ref()) {
                    let x = &n.blocks[i];
                    h = x.h + 1;
                    let era = &tl.cfg.shelley_era_config;
                    let ep = if x.kind >= 2 { 7 + (x.slot - era.first_slot) / era.epoch_length_seconds } else { x.epoch };
                    if b.raw_block != bytes(x) || u64::from(b.slot_number) != x.slot || b.block_number.into_inner() != x.num || b.epoch != ep || b.is_boundary_block != (x.kind == 0) { ev("mangled", id, json!(format!("slot {} epoch {} boundary {} {} bytes, not slot {} epoch {ep} kind {}", u64::from(b.slot_number), b.epoch, b.is_boundary_block, b.raw_block.len(), x.slot, x.kind))); }
                }
                drop(n);
                ev("got", id, json!({"b": [b.id.to_string(), b.parent_id.to_string(), h], "accept": accept, "used": used}));
                if accept {
                    tl.pos = Some(P { h, id: b.id.to_string() });
                    if save { tl.saved.pos = tl.pos.clone(); self.save(st, tl); }
                }
                false
            }
        }
    }
}
impl Scenario for Sim {
    type Op = Op;
    type St = St;
    type Tl = Tl;
    fn start(&self, plan: &Plan<Op>, inc: usize, root: &str) -> St {
        let k = |x: &str| plan.knob(x);
        *KNOBS.lock().unwrap() = plan.knobs.clone();
        let fork = plan.prop == "C35";
        let file = format!("{root}.net");
        if inc == 0 { raw::unlink(&file); raw::unlink(&format!("{root}.consumer")); }
        let net = match raw::read_file(&file) {
            Some(b) => serde_json::from_slice(&b).unwrap(),
            None => {
                let mut n = Net { era_first: k("era_first") as u64, style: k("style") as u64, even: k("even") != 0, ..Default::default() };
                n.best = n.add(None, &(hex32(10, 0), hex32(10, 1)));
                n.grow(k("start") as u64);
                // fork events need a point to go back to
                let none = fork && k("none") != 0;
                let low = if k("from") < 0 { 0 } else { (k("from") as u64).min(k("start") as u64) + none as u64 };
                n.kept = Some(Kept { file, depth: k("depth") as u64, low });
                n.change(&Reply::Good);
                n
            }
        };
        St { root: root.into(), net: Mutex::new(net), fork, fixed: k("fixed") != 0, depth: k("depth") as usize, tap: Default::default(), inc }
    }
    fn thread(&self, st: &St, _n: usize) -> Tl {
        let k = KNOBS.lock().unwrap();
        let get = |x: &str| k.get(x).copied().unwrap_or(0);
        let n = st.net.lock().unwrap();
        let saved = match raw::read_file(&format!("{}.consumer", st.root)) {
            Some(b) => serde_json::from_slice(&b).unwrap(),
            None => {
                assert!(st.inc == 0);
                let (slot, id, low) = if get("from") < 0 { (0, hex32(10, 1), 0) } else { let i = n.chain(n.best)[(get("from") as usize).min(get("start") as usize)]; (n.blocks[i].slot, n.blocks[i].id.clone(), n.blocks[i].h + 1) };
                Saved { pos: if get("none") != 0 { None } else { Some(P { h: low, id: id.clone() }) }, base: (slot, id), low }
            }
        };
        let mut cfg = match get("preset") { 0 => NetworkConfiguration::mainnet(), 1 => NetworkConfiguration::testnet(), 2 => NetworkConfiguration::preprod(), 3 => NetworkConfiguration::preview(), _ => NetworkConfiguration::sancho() };
        cfg.genesis = point(0, &hex32(10, 0));
        cfg.genesis_parent = BlockId::new(hex32(10, 1));
        cfg.from = point(saved.base.0, &saved.base.1);
        cfg.shelley_era_config = Era { first_slot: n.era_first, start_epoch: 7, known_time: 0, slot_length: 1, epoch_length_seconds: get("epoch") as u64 };
        drop(n);
        let tl = Tl { rt: tokio::runtime::Builder::new_current_thread().build().unwrap(), cfg, pace: get("pace_ms") as u64, yields: get("yields") as u32, src: None, start: saved.pos.clone(), pos: saved.pos.clone(), saved };
        self.save(st, &tl);
        tl
    }
    fn exec(&self, st: &St, tl: &mut Tl, id: u32, op: &Op) {
        match op {
            Op::Open { acts } => { shared::count("op", "open"); self.open(st, tl, id, acts) }
            Op::Poll { acts, stall, cancel, accept, save } => { shared::count("op", "poll"); self.poll(st, tl, id, acts, *stall, *cancel, *accept, *save); }
            Op::Idle { steps, acts } => {
                shared::count("op", "idle");
                let mut c = Ctl { net: &st.net, op: id, acts: acts.to_vec().into(), stall: false, cancel: Some(*steps), yields: tl.yields, wait: 0 };
                tl.rt.block_on(async { c.drive(std::future::pending::<()>()).await; });
            }
            Op::Stop { acts } => if let Some(s) = tl.src.take() {
                shared::count("op", "stop");
                if tl.saved.pos != tl.pos { tl.saved.pos = tl.pos.clone(); self.save(st, tl); }
                let tap = match s { Src::Stable(s) => s.into_inner(), Src::Fork(s) => s.into_inner() };
                let mut c = Ctl { net: &st.net, op: id, acts: acts.to_vec().into(), stall: false, cancel: None, yields: tl.yields, wait: 0 };
                let r = tl.rt.block_on(c.drive(tap.inner.stop()));
                ev("stopped", id, json!(matches!(r, End::Done(()))));
            },
            Op::Node { act } => { if let Reply::Sleep { ms } = act { shared::count("node", "time_passes"); sched::sleep(ms * 1_000_000); } else { shared::count("node", "change"); st.net.lock().unwrap().change(act); } }
            Op::Drain => {
                shared::count("op", "drain");
                for _ in 0..3 { self.open(st, tl, id, &[]); }
                ev("drain", id, json!(null));
                let n = st.net.lock().unwrap().blocks.len();
                let mut quiet = 0;
                for _ in 0..8 * n + 12 * st.depth + 100 {
                    if self.poll(st, tl, id, &[], false, None, true, false) { quiet += 1 } else { quiet = 0 }
                    if quiet > 6 { break; }
                }
                ev("drained", id, json!({"pos": tl.pos}));
            }
        }
    }
    fn gen(&self, prop: &str, rng: &mut Rng, thorough: bool) -> Plan<Op> { gen(prop, rng, thorough) }
    fn check(&self, plan: &Plan<Op>, hist: &[Ev]) -> Option<Violation> {
        judge(plan, hist).and_then(|_| chain::judge(plan, plan.prop == "C35", hist)).err().map(|(c, d)| violation(&plan.prop, &c, d))
    }
    fn simplify(&self, op: &Op) -> Vec<Op> {
        let less = |a: &Vec<Reply>| -> Vec<Vec<Reply>> { (0..a.len()).map(|i| { let mut b = a.clone(); b.remove(i); b }).chain((0..a.len()).filter(|i| a[*i] != Reply::Good).map(|i| { let mut b = a.clone(); b[i] = Reply::Good; b })).collect() };
        match op {
            Op::Open { acts } => less(acts).into_iter().map(|acts| Op::Open { acts }).collect(),
            Op::Stop { acts } => less(acts).into_iter().map(|acts| Op::Stop { acts }).collect(),
            Op::Idle { steps, acts } => less(acts).into_iter().map(|acts| Op::Idle { steps: *steps, acts }).collect(),
            Op::Node { act: Reply::Grow { n } } if *n > 1 => vec![Op::Node { act: Reply::Grow { n: 1 } }, Op::Node { act: Reply::Grow { n: n / 2 } }],
            Op::Poll { acts, stall, cancel, accept, save } => {
                let mk = |acts: &Vec<Reply>, stall: bool, cancel: Option<u32>, accept: bool| Op::Poll { acts: acts.clone(), stall, cancel, accept, save: *save };
                let mut v: Vec<Op> = less(acts).iter().map(|a| mk(a, *stall, *cancel, *accept)).collect();
                if cancel.is_some() { v.push(mk(acts, *stall, None, *accept)); }
                if *stall { v.push(mk(acts, false, *cancel, *accept)); }
                if !*accept { v.push(mk(acts, *stall, *cancel, true)); }
                v
            }
            _ => vec![],
        }
    }
    fn nontrivial(&self, plan: &Plan<Op>, hist: &[Ev]) -> bool {
        hist.iter().filter(|e| e.k == "got" && e.v["b"].is_array()).count() > 1
            && hist.iter().any(|e| e.k == "net" && (e.v["broken"] == json!(true) || e.v["ok"] == json!(false) || e.v["bad"] == json!(true) || e.v["none"] == json!(true)) || e.k == "got" && (e.v["cancelled"] == json!(1) || !e.v["back"].is_null()))
            && (plan.prop == "C35" || plan.incs.len() == 1 || hist.iter().any(|e| e.i > 0 && e.k == "got"))
    }
}

/// what chain.rs does not look at
fn judge(plan: &Plan<Op>, hist: &[Ev]) -> Result<(), Bad> {
    let mut bads = 0;
    let mut tips: HashSet<String> = HashSet::new();
    let _ = plan;
    let mut seen: Option<String> = None;
    for e in hist {
        match e.k.as_str() {
            "net" => { if e.v["bad"] == json!(true) { bads += 1; } if e.v["k"] == json!("intersect") { tips.insert(e.v["tip"].to_string()); } }
            "inner_err" => { if bads == 0 { return bad("error", format!("operation {}: the node sent no malformed block and the connection failed without one: {}", e.id, e.v)); } bads -= 1; }
            "inner_tip" => seen = Some(e.v.to_string()),
            "got" if e.v["cancelled"] != json!(1) && e.v["tip"] != json!(1) && e.v["used"].as_array().is_some_and(|u| u.contains(&json!("tip"))) => return bad("tip", format!("operation {}: a tip notice of the node was not passed on", e.id)),
            "got" if e.v["tip"] == json!(1) && seen.as_deref().is_some_and(|t| t != e.v["which"].to_string()) => return bad("tip", format!("operation {}: the tip {} came, not the one the node had told last", e.id, e.v["which"])),
            "got" => if e.v["tip"] == json!(1) && !tips.contains(&e.v["which"].to_string()) { return bad("tip", format!("operation {}: the tip {} was never the node's", e.id, e.v["which"])); },
            "mangled" => return bad("block", format!("operation {}: a block with {}", e.id, e.v)),
            "hang" => return bad("hang", format!("operation {}: the poll never finished although the node had answered everything", e.id)),
            "connected" => if e.v == json!("hang") { return bad("hang", format!("operation {}: connecting never finished although the node had answered everything", e.id)); },
            "stopped" => if e.v != json!(true) { return bad("hang", format!("operation {}: stopping never finished although the node had answered everything", e.id)); },
            _ => {}
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- plans
fn gen(prop: &str, rng: &mut Rng, thorough: bool) -> Plan<Op> {
    let fork = prop == "C35";
    let scale = if thorough { 3 } else { 1 };
    let mut knobs = BTreeMap::new();
    // long forks: a deep confirmation depth, and the consumer catches up between the changes of the node
    let deep = rng.chance(0.08);
    let depth = if deep { *rng.pick(&[10i64, 14, 20]) } else { *rng.pick(&[0i64, 1, 1, 2, 2, 3, 3, 4, 6]) };
    knobs.insert("depth".into(), if fork { depth.max(1) } else { depth });
    knobs.insert("style".into(), rng.idx(3) as i64);
    // MultiverseSource and ForkHandlingSource count on numbers which grow along the chain (see DESIGN.md)
    knobs.insert("even".into(), 0);
    knobs.insert("start".into(), 1 + rng.idx(8) as i64);
    knobs.insert("from".into(), if rng.chance(0.35) { -1 } else { rng.idx(5) as i64 });
    knobs.insert("none".into(), rng.chance(0.5) as i64);
    knobs.insert("fixed".into(), rng.chance(0.3) as i64);
    knobs.insert("preset".into(), rng.idx(5) as i64);
    let pace = *rng.pick(&[0i64, 1, 1_000, 20_000, 5_000_000]);
    knobs.insert("pace_ms".into(), pace);
    knobs.insert("era_first".into(), *rng.pick(&[0i64, 1, 10, 40]));
    knobs.insert("epoch".into(), *rng.pick(&[1i64, 5, 20, 432000]));
    knobs.insert("yields".into(), 1 + rng.idx(3) as i64);
    knobs.insert("kv_bg".into(), *rng.pick(&[0, 0, 20, 100, 300, 1000]));
    let nasty = *rng.pick(&[0.0, 0.05, 0.15, 0.3]);
    let rude = *rng.pick(&[0.0, 0.1, 0.3]);
    let lazy = *rng.pick(&[0.0, 0.1, 0.4]);
    let forky = *rng.pick(&[2u32, 8, 25]);
    let incs_n = if fork { 1 } else { 1 + rng.idx(3) };
    let mut id = 0u32;
    let mut next = || { id += 1; id };
    fn change(rng: &mut Rng, depth: i64) -> Reply { match rng.idx(3) { 0 => Reply::Return { pick: rng.idx(8), add: 1 + rng.below(2) }, _ => Reply::Switch { back: 1 + rng.below(depth.max(1) as u64), add: 1 + rng.below(3) } } }
    fn reply(rng: &mut Rng, pace: i64, depth: i64) -> Reply {
        match rng.idx(12) {
            0 | 1 => Reply::Break,
            2 => Reply::Refuse,
            3 => Reply::Garble(rng.idx(3) as u8),
            4 | 5 => change(rng, depth),
            6 => Reply::Grow { n: 1 + rng.below(4) },
            7 | 8 => Reply::Sleep { ms: *rng.pick(&[1, 500, pace as u64 / 2 + 1, pace as u64 + 1]) },
            _ => Reply::Wait { n: 1 + rng.idx(6) as u32 },
        }
    }
    let acts = |rng: &mut Rng| -> Vec<Reply> { (0..rng.idx(12)).map(|_| if rng.chance(nasty) { reply(rng, pace, depth) } else { Reply::Good }).collect() };
    let mut incs = vec![];
    for k in 0..incs_n {
        let mut i = Inc::new(serial_sched());
        let long = rng.chance(0.3);
        i.pre.push((next(), Op::Open { acts: if rng.chance(0.8) { vec![] } else { acts(rng) } }));
        for _ in 0..5 + rng.idx(if long { 50 } else { 25 } * scale) {
            if deep && rng.chance(0.25) { i.pre.push((next(), Op::Drain)); }
            let op = match rng.weighted(&[60, 6, if fork { 0 } else { 2 }, 14, forky, 2]) {
                3 if deep => Op::Node { act: Reply::Grow { n: 1 + rng.below(depth as u64) } },
                0 => Op::Poll { acts: acts(rng), stall: rng.chance(rude * 0.4), cancel: if rng.chance(rude) { Some(1 + rng.idx(12) as u32) } else { None }, accept: fork || !rng.chance(lazy), save: rng.chance(0.5) },
                1 => Op::Idle { steps: 1 + rng.idx(30) as u32, acts: acts(rng) },
                2 => Op::Stop { acts: acts(rng) },
                3 => Op::Node { act: Reply::Grow { n: 1 + rng.below(*rng.clone().pick(&[1, 2, 6, 12])) } },
                4 => Op::Node { act: change(rng, depth) },
                _ => Op::Node { act: Reply::Sleep { ms: pace as u64 + 1 } },
            };
            let stop = matches!(op, Op::Stop { .. });
            i.pre.push((next(), op));
            if stop || rng.chance(0.03) { i.pre.push((next(), Op::Open { acts: acts(rng) })); }
        }
        let last = k + 1 == incs_n;
        if last || rng.chance(0.3) { i.pre.push((next(), Op::Drain)); }
        let polls: Vec<u32> = i.pre.iter().filter(|o| matches!(o.1, Op::Poll { .. } | Op::Drain)).map(|o| o.0).collect();
        let is_drain = |i: &Inc<Op>, op: u32| i.pre.iter().any(|o| o.0 == op && o.1 == Op::Drain);
        if !last && rng.chance(0.7) && !polls.is_empty() {
            let op = *rng.pick(&polls);
            i.crash = Some(Crash { kind: "power".into(), op, at: "sys".into(), nth: if is_drain(&i, op) { 1 + rng.below(60) } else { 1 + rng.below(6) }, image: gen_image(rng) });
        }
        if rng.chance(0.25) && !polls.is_empty() {
            for _ in 0..1 + rng.idx(3) {
                let op = *rng.pick(&polls);
                let nth = 1 + rng.below(if is_drain(&i, op) { 10 } else { 1 }) as u32;
                i.faults.push(Fault { op, kind: (*rng.pick(&["kv_insert", "kv_insert", "kv_remove"])).into(), nth, errno: *rng.pick(&[5, 28]), sticky: false });
            }
        }
        incs.push(i);
    }
    Plan { prop: prop.into(), seed: 0, knobs, incs }
}

pub fn config(prop: &str, tier: &str) -> Config {
    let thorough = tier == "thorough";
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let rule = match prop {
        "C34" => "one consumer pulling confirmed blocks from a scripted node through CardanoSource and MultiverseSource over 1 to 3 incarnations; each question to the node answered well, late, with a broken or refused connection, no blocks, a malformed block, or after the node grew or changed branches; polls cancelled, given up or not accepted; storage failures; orderly stops; crashes at a storage operation; at the end the node behaves and the consumer drains it; non-trivial: two blocks delivered, a failure or cancellation and, when there are several incarnations, a poll after a restart; distinct by the hash of the history",
        _ => "as C34 with ForkHandlingSource in one incarnation, the events replayed by a consumer that holds a chain; non-trivial: two blocks delivered and a failure, cancellation or rollback; distinct by the hash of the history",
    };
    Config {
        prop: prop.into(), tier: tier.into(), seed: 1, runs: if thorough { 40_000_000 } else { 150_000 }, secs: if thorough { 900 } else { 50 }, workers: 8,
        rule: rule.into(),
        real: s(&["dcspark-blockchain-source cardano and multiverse modules", "multiverse", "dcspark-core", "serde_json", "tokio's current-thread runtime and channels", "cardano-sdk points and tips"]),
        stubs: s(&["cardano-net (every call is a question the simulator answers)", "the node (scripted)", "sled (model: atomic operations, prefix durability)", "cardano-multiplatform-lib block decoding (a fixed binary layout)", "the clock"]),
        assumptions: s(&["the node never abandons a block with as many confirmations as the confirmation depth", "a node answers on one connection in order and sends the blocks of the range it was asked for", "the consumer saves its position before it asks for the next block", "sled keeps its contract: a crash keeps a prefix of the operations that is not shorter than what was flushed"]),
        level: "exploration".into(), verif: String::new(), fault_kinds: s(&["kv_insert", "kv_remove"]), probes_expected: vec![], program: String::new(),
    }
}
pub fn make(_p: &str) -> Sim { Sim }
