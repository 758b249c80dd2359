//! CardanoSource over a scripted node: refused and broken connections, stalls, forks between and within requests,
//! malformed blocks, cancelled polls, cleared buffers, stops. Real tokio tasks and channels; the node's answers and the
//! clock are the simulator's.
use cardano_net::sim::{self, Ans, Ask};
use cardano_sdk::protocol as wire;
use dcspark_blockchain_source::cardano::{time::Era, CardanoNetworkEvent, CardanoSource, NetworkConfiguration, Point};
use dcspark_blockchain_source::Source;
use dcspark_core::{BlockId, SlotNumber};
use serde::{Deserialize, Serialize};
use serde_json::json;
use simrt::driver::*;
use simrt::hist::{ev, Ev};
use simrt::rng::{hash_bytes, Rng};
use simrt::{raw, sched, shared};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::future::{poll_fn, Future};
use std::sync::Mutex;
use std::task::Poll;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Reply {
    Good,
    /// the connection is refused; a range has no blocks; anything else breaks
    Refuse,
    /// the connection breaks, for good
    Break,
    /// a malformed block (where a block is due)
    Garble(u8),
    /// the node adopts another branch first
    Switch { back: u64, add: u64 },
    /// the node goes back to a branch it left
    Return { pick: usize, add: u64 },
    Grow { n: u64 },
    Sleep { ms: u64 },
    /// the answer comes some steps later
    Wait { n: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum From {
    /// the last blocks received and the starting point
    Tail { n: usize },
    /// nothing
    Default,
    /// the point before the first block
    Genesis,
    /// any blocks of the node
    Any { picks: Vec<usize> },
    /// blocks the node does not have
    Unknown,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Connect { acts: Vec<Reply> },
    Pull { from: From, acts: Vec<Reply>, stall: bool, cancel: Option<u32> },
    /// only the background task runs
    Idle { steps: u32, acts: Vec<Reply> },
    Clear,
    Stop { acts: Vec<Reply> },
    Node { act: Reply },
    Drain,
}
#[derive(Clone, Serialize, Deserialize)]
/// `h` blocks are below it; a boundary block may have the number of its parent
pub struct Blk { pub id: String, pub parent: String, pub h: u64, pub num: u64, pub slot: u64, pub kind: u8, pub epoch: u64 }
#[derive(Default)]
pub struct Conn { broken: bool, ranges: VecDeque<VecDeque<usize>> }
/// a node that outlives the process (pipe.rs): never leaves a block with `depth` confirmations or below `low`
#[derive(Clone, Default, Serialize, Deserialize)]
pub struct Kept { pub file: String, pub depth: u64, pub low: u64 }
#[derive(Default, Serialize, Deserialize)]
pub struct Net { pub blocks: Vec<Blk>, pub index: HashMap<String, usize>, pub best: usize, #[serde(skip)] pub conns: HashMap<u64, Conn>, pub made: u64, pub era_first: u64, pub style: u64, pub even: bool, pub top: u64, pub kept: Option<Kept>, #[serde(skip)] pub asked: u64 }
pub struct St { net: Mutex<Net>, marked: bool }
pub struct Tl { rt: tokio::runtime::Runtime, cfg: NetworkConfiguration, pace: u64, src: Option<CardanoSource>, held: Vec<(u64, String)>, start: (u64, String), yields: u32 }
pub struct Sim;

pub fn hex32(tag: u64, n: u64) -> String { (0..4u64).map(|i| format!("{:016x}", hash_bytes(1, &[tag.to_le_bytes(), i.to_le_bytes(), n.to_le_bytes()].concat()))).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn st_genesis() -> String { hex32(10, 0) }
pub fn short(s: &str) -> String { s.chars().take(8).collect() }
pub fn bytes(b: &Blk) -> Vec<u8> {
    let mut v = b"BLK".to_vec();
    v.push(b.kind);
    v.extend(unhex(&b.id)); v.extend(unhex(&b.parent));
    v.extend(b.num.to_le_bytes()); v.extend(b.slot.to_le_bytes()); v.extend(b.epoch.to_le_bytes());
    v.extend(b"transactions");
    v
}
impl Net {
    pub fn at(&self, id: &str) -> Option<usize> { self.index.get(id).copied() }
    fn point(&self, i: usize) -> wire::Point { wire::Point::from_raw(self.blocks[i].slot, &self.blocks[i].id).unwrap() }
    fn tip(&self) -> wire::Tip { wire::Tip { point: self.point(self.best), block_number: self.blocks[self.best].num } }
    pub fn chain(&self, from: usize) -> Vec<usize> {
        let mut v = vec![from];
        let mut c = from;
        while let Some(p) = self.at(&self.blocks[c].parent) { v.push(p); c = p; }
        v.reverse();
        v
    }
    pub fn add(&mut self, parent: Option<usize>, genesis: &(String, String)) -> usize {
        self.made += 1;
        let n = self.made;
        let b = match parent {
            None => Blk { id: genesis.0.clone(), parent: genesis.1.clone(), h: 0, num: 0, slot: 0, kind: 0, epoch: 0 },
            Some(p) => {
                let pb = &self.blocks[p];
                let h = hash_bytes(77 + self.style, &n.to_le_bytes());
                // a boundary block shares its slot with the block after it
                let slot = pb.slot + if pb.kind == 0 && (h >> 40) % 3 > 0 { 0 } else { [1, 1, 2, 20][(h % 4) as usize] };
                let kind = if slot >= self.era_first && self.style != 1 { 2 + ((h >> 12) % 6) as u8 } else { (h >> 8) as u8 % 2 };
                Blk { id: hex32(11, n), parent: pb.id.clone(), h: pb.h + 1, num: pb.num + !(self.even && kind == 0 && pb.kind != 0) as u64, slot, kind, epoch: if kind >= 2 { 0 } else { (h >> 20) % 9 } }
            }
        };
        ev("blk", 0, json!([b.id, b.parent, b.num, b.slot, b.kind, b.epoch]));
        self.index.insert(b.id.clone(), self.blocks.len());
        self.blocks.push(b);
        self.blocks.len() - 1
    }
    pub fn grow(&mut self, n: u64) { for _ in 0..n { let b = self.add(Some(self.best), &Default::default()); self.best = b; } }
    fn switch(&mut self, back: u64, add: u64) {
        let c = self.chain(self.best);
        let mut keep = c.len().saturating_sub(1 + back as usize).max(1);
        if let Some(k) = &self.kept { keep = keep.max(self.top.saturating_sub(k.depth) as usize + 1).max(k.low as usize + 1) }
        if keep >= c.len() { return; }
        shared::count("node", "fork_switch");
        let mut at = c[keep - 1];
        let n = self.blocks[self.best].num;
        for _ in 0..(c.len() - keep) as u64 + add { at = self.add(Some(at), &Default::default()); }
        while self.even && self.blocks[at].num <= n { at = self.add(Some(at), &Default::default()); }
        self.best = at;
    }
    fn back(&mut self, pick: usize, add: u64) {
        let Some(k) = self.kept.clone() else { return };
        let best: HashSet<usize> = self.chain(self.best).into_iter().collect();
        let n = self.blocks[self.best].num;
        let c: Vec<usize> = (0..self.blocks.len()).filter(|i| !best.contains(i)).filter(|i| {
            let fork = self.chain(*i).into_iter().filter(|x| best.contains(x)).map(|x| self.blocks[x].h).max().unwrap_or(0);
            fork + k.depth >= self.top && fork >= k.low
        }).collect();
        if c.is_empty() { return; }
        shared::count("node", "return_to_an_abandoned_branch");
        let mut at = c[pick % c.len()];
        while self.blocks[at].num < n + add { at = self.add(Some(at), &Default::default()); }
        self.best = at;
    }
    pub fn change(&mut self, r: &Reply) {
        match r {
            Reply::Switch { back, add } => self.switch(*back, *add),
            Reply::Return { pick, add } => self.back(*pick, *add),
            Reply::Grow { n } => self.grow(*n),
            _ => {}
        }
        self.top = self.top.max(self.blocks[self.best].h);
        ev("best", 0, json!(self.blocks[self.best].id));
        if let Some(k) = &self.kept {
            raw::write_file(&k.file, &serde_json::to_vec(self).unwrap());
            ev("node", 0, json!({"best": self.blocks[self.best].id, "chain": self.chain(self.best).into_iter().map(|i| { let b = &self.blocks[i]; (b.id.clone(), b.parent.clone(), b.h + 1) }).collect::<Vec<_>>()}));
        }
    }
    /// the node's answer
    pub fn answer(&mut self, op: u32, id: u64, ask: Ask, r: &Reply) {
        let t = sched::now_ns();
        let conn = match &ask { Ask::Connect { .. } => 0, Ask::Intersect { conn, .. } | Ask::Range { conn, .. } | Ask::Next { conn } | Ask::Stop { conn } => *conn };
        let brk = *r == Reply::Break || *r == Reply::Refuse && !matches!(ask, Ask::Connect { .. } | Ask::Range { .. } | Ask::Stop { .. });
        if brk { if let Some(c) = self.conns.get_mut(&conn) { c.broken = true; } }
        let broken = self.conns.get(&conn).map_or(false, |c| c.broken);
        let pt = |p: &wire::Point| json!([p.slot_nb(), p.hash().to_string()]);
        let (a, v) = match &ask {
            Ask::Connect { .. } => match r {
                Reply::Refuse => { shared::count("node", "connection_refused"); (Ans::Refused, json!({"k": "connect", "ok": false})) }
                Reply::Break => { shared::count("node", "handshake_broken"); (Ans::Broken, json!({"k": "connect", "ok": false})) }
                _ => { let c = self.conns.len() as u64 + 1; self.conns.insert(c, Conn::default()); (Ans::Connected(c), json!({"k": "connect", "ok": true, "conn": c})) }
            },
            Ask::Stop { .. } => (Ans::Stopped, json!({"k": "stop", "conn": conn})),
            Ask::Intersect { points, .. } => {
                self.asked += 1;
                let asked: Vec<_> = points.iter().map(pt).collect();
                if broken { shared::count("node", "connection_broken"); (Ans::Broken, json!({"k": "intersect", "conn": conn, "points": asked, "broken": true})) }
                else {
                    let c = self.chain(self.best);
                    let tip = self.tip();
                    let found = points.iter().find(|p| **p == wire::Point::ORIGIN || c.iter().any(|i| self.point(*i) == **p)).cloned();
                    let tv = json!([pt(&tip.point), tip.block_number]);
                    match found {
                        Some(p) => (Ans::Found(p.clone(), tip), json!({"k": "intersect", "conn": conn, "points": asked, "found": pt(&p), "tip": tv})),
                        None => { shared::count("node", "no_intersection"); (Ans::NotFound(tip), json!({"k": "intersect", "conn": conn, "points": asked, "tip": tv})) }
                    }
                }
            }
            Ask::Range { from, to, .. } => {
                let base = json!({"k": "range", "conn": conn, "from": pt(from), "to": pt(to)});
                let path = self.at(&to.hash().to_string()).map(|i| self.chain(i)).and_then(|c| c.iter().position(|i| self.point(*i) == *from).map(|k| c[k..].to_vec()));
                let mut v = base;
                if broken { shared::count("node", "connection_broken"); v["broken"] = json!(true); (Ans::Broken, v) }
                else if path.is_none() || *r == Reply::Refuse { shared::count("node", "no_blocks"); v["none"] = json!(true); (Ans::NoBlocks, v) }
                else {
                    let c = self.conns.get_mut(&conn).unwrap();
                    if !c.ranges.is_empty() { v["busy"] = json!(true); }
                    c.ranges.push_back(path.unwrap().into());
                    (Ans::Blocks, v)
                }
            }
            Ask::Next { .. } => {
                if broken { shared::count("node", "connection_broken"); (Ans::Broken, json!({"k": "next", "conn": conn, "broken": true})) }
                else {
                    let c = self.conns.get_mut(&conn).unwrap();
                    let next = c.ranges.front_mut().and_then(|r| r.pop_front());
                    match next {
                        None => { c.ranges.pop_front(); (Ans::Done, json!({"k": "next", "conn": conn, "done": true})) }
                        Some(i) => {
                            let b = self.blocks[i].clone();
                            let mut raw = bytes(&b);
                            let mut bad = false;
                            if let Reply::Garble(k) = r {
                                bad = true;
                                shared::count("node", "malformed_block");
                                match k % 3 { 0 => raw.truncate(50), 2 if self.era_first > 0 => { raw[3] = 2; raw[76..84].copy_from_slice(&0u64.to_le_bytes()); } _ => raw[3] = 9 }
                            }
                            (Ans::Block(raw), json!({"k": "next", "conn": conn, "b": b.id, "bad": bad}))
                        }
                    }
                }
            }
        };
        let mut v = v;
        v["t"] = json!(t);
        ev("net", op, v);
        sim::answer(id, a);
    }
}
pub enum End<T> { Done(T), Cancelled, Stalled, Hang }
pub struct Ctl<'a> { pub net: &'a Mutex<Net>, pub op: u32, pub acts: VecDeque<Reply>, pub stall: bool, pub cancel: Option<u32>, pub yields: u32, pub wait: u32 }
impl Ctl<'_> {
    /// true when something happened
    fn answer_one(&mut self) -> bool {
        let Some((id, ask)) = sim::open().into_iter().next() else { return false };
        if self.wait > 0 { self.wait -= 1; return true; }
        let r = match self.acts.pop_front() { Some(r) => r, None if self.stall => { return false } None => Reply::Good };
        match &r {
            Reply::Wait { n } => { shared::count("node", "late_answer"); self.wait = *n; return true; }
            Reply::Sleep { ms } => { shared::count("node", "delay"); sched::sleep(ms * 1_000_000) }
            _ => {}
        }
        let mut n = self.net.lock().unwrap();
        if matches!(r, Reply::Switch { .. } | Reply::Return { .. } | Reply::Grow { .. }) { n.change(&r); }
        n.answer(self.op, id, ask, &r);
        true
    }
    pub async fn drive<T>(&mut self, f: impl Future<Output = T>) -> End<T> {
        let mut f = Box::pin(f);
        let mut idle = 0;
        for step in 0u32.. {
            if self.cancel == Some(step) { return End::Cancelled; }
            if let Some(x) = poll_fn(|c| Poll::Ready(match f.as_mut().poll(c) { Poll::Ready(x) => Some(x), Poll::Pending => None })).await { return End::Done(x); }
            for _ in 0..self.yields { tokio::task::yield_now().await; }
            if self.answer_one() { idle = 0; continue; }
            idle += 1;
            if idle > 20 { return if sim::open().is_empty() { End::Hang } else { End::Stalled }; }
        }
        unreachable!()
    }
}
pub fn point(slot: u64, id: &str) -> Point { Point::BlockHeader { slot_nb: SlotNumber::new(slot), hash: BlockId::new(id.to_string()) } }

impl Sim {
    fn from(&self, st: &St, tl: &Tl, id: u32, f: &From) -> Vec<Point> {
        let n = st.net.lock().unwrap();
        let mut v: Vec<(u64, String)> = match f {
            From::Tail { n } => {
                let n0 = st_genesis();
                let mut v: Vec<(u64, String)> = tl.held.iter().rev().take(*n).cloned().collect();
                if let Some(f) = tl.held.first() { v.push(f.clone()); }
                v.push(tl.start.clone());
                if id % 3 == 0 { v.push((0, n0.clone())); }
                // any order
                let k = id as usize % v.len(); v.rotate_left(k);
                v
            }
            From::Default => vec![],
            From::Genesis => return vec![point(0, tl.cfg.genesis_parent.as_ref())],
            From::Any { picks } => picks.iter().map(|p| { let b = &n.blocks[p % n.blocks.len()]; (b.slot, b.id.clone()) }).collect(),
            From::Unknown => vec![(5, hex32(13, 1)), (9, hex32(13, 2))],
        };
        if st.marked { let k = id as usize % (v.len() + 1); v.insert(k, (hash_bytes(5, &id.to_le_bytes()) % 60, hex32(12, id as u64))); }
        let mut seen = HashSet::new();
        v.retain(|x| seen.insert(x.clone()));
        v.into_iter().map(|(s, i)| point(s, &i)).collect()
    }
    fn pull(&self, st: &St, tl: &mut Tl, id: u32, from: &From, acts: &[Reply], stall: bool, cancel: Option<u32>) -> &'static str {
        let p = self.from(st, tl, id, from);
        let pv: Vec<_> = p.iter().map(|p| match p { Point::Origin => json!([0, "origin"]), Point::BlockHeader { slot_nb, hash } => json!([u64::from(*slot_nb), hash.to_string()]) }).collect();
        ev("poll", id, json!({"from": pv, "t": sched::now_ns()}));
        let Tl { rt, src, held, yields, .. } = tl;
        let Some(src) = src.as_mut() else { return "off" };
        let mut c = Ctl { net: &st.net, op: id, acts: acts.to_vec().into(), stall, cancel, yields: *yields, wait: 0 };
        let r = rt.block_on(c.drive(src.pull(&p)));
        let (k, v) = match r {
            End::Cancelled => { shared::count("client", "pull_cancelled"); ("cancelled", json!(null)) }
            End::Stalled => { shared::count("client", "pull_given_up"); ("stalled", json!(null)) }
            End::Hang => ("hang", json!(null)),
            End::Done(Err(e)) => ("err", json!(format!("{e:#}"))),
            End::Done(Ok(None)) => ("none", json!(null)),
            End::Done(Ok(Some(CardanoNetworkEvent::Tip(t)))) => ("tip", json!([[t.point.slot_nb(), t.point.hash().to_string()], t.block_number])),
            End::Done(Ok(Some(CardanoNetworkEvent::Block(b)))) => {
                let n = st.net.lock().unwrap();
                let raw = n.at(b.id.as_ref()).map(|i| bytes(&n.blocks[i])) == Some(b.raw_block.clone());
                held.push((u64::from(b.slot_number), b.id.to_string()));
                ("block", json!([b.id.to_string(), b.parent_id.to_string(), b.block_number.into_inner(), u64::from(b.slot_number), b.epoch, b.is_boundary_block, raw]))
            }
        };
        ev("got", id, json!({"k": k, "v": v, "t": sched::now_ns()}));
        k
    }
    fn connect(&self, st: &St, tl: &mut Tl, id: u32, acts: &[Reply]) {
        if tl.src.is_some() { return; }
        let mut c = Ctl { net: &st.net, op: id, acts: acts.to_vec().into(), stall: false, cancel: None, yields: tl.yields, wait: 0 };
        let pace = std::time::Duration::from_millis(tl.pace);
        let r = tl.rt.block_on(c.drive(CardanoSource::connect(&tl.cfg, pace)));
        let k = match r { End::Done(Ok(s)) => { tl.src = Some(s); "ok" } End::Done(Err(_)) => "err", End::Hang => "hang", _ => "given up" };
        ev("connected", id, json!(k));
    }
}
impl Scenario for Sim {
    type Op = Op;
    type St = St;
    type Tl = Tl;
    fn start(&self, plan: &Plan<Op>, _inc: usize, _root: &str) -> St {
        let mut n = Net { era_first: plan.knob("era_first") as u64, style: plan.knob("style") as u64, even: plan.knob("even") != 0, ..Default::default() };
        n.best = n.add(None, &(hex32(10, 0), hex32(10, 1)));
        n.grow(plan.knob("start") as u64);
        ev("best", 0, json!(n.blocks[n.best].id));
        let k = |x: &str| plan.knob(x);
        *self_knobs() = Knobs { from: k("from"), preset: k("preset"), pace: k("pace_ms") as u64, epoch: k("epoch") as u64, yields: k("yields") as u32 };
        St { net: Mutex::new(n), marked: plan.knob("marked") != 0 }
    }
    fn thread(&self, st: &St, _n: usize) -> Tl {
        let n = st.net.lock().unwrap();
        let k = self_knobs();
        let mut cfg = match k.preset { 0 => NetworkConfiguration::mainnet(), 1 => NetworkConfiguration::testnet(), 2 => NetworkConfiguration::preprod(), 3 => NetworkConfiguration::preview(), _ => NetworkConfiguration::sancho() };
        cfg.genesis = point(0, &hex32(10, 0));
        cfg.genesis_parent = BlockId::new(hex32(10, 1));
        let at = n.chain(n.best)[(k.from as usize).min(n.blocks.len() - 1)];
        let start = if k.from < 0 { (0, hex32(10, 1)) } else { (n.blocks[at].slot, n.blocks[at].id.clone()) };
        cfg.from = point(start.0, &start.1);
        cfg.shelley_era_config = Era { first_slot: n.era_first, start_epoch: 7, known_time: 0, slot_length: 1, epoch_length_seconds: k.epoch };
        ev("start", 0, json!({"from": [start.0, start.1], "genesis": [hex32(10, 0), hex32(10, 1)]}));
        Tl { rt: tokio::runtime::Builder::new_current_thread().build().unwrap(), cfg, pace: k.pace, src: None, held: vec![], start, yields: k.yields }
    }
    fn exec(&self, st: &St, tl: &mut Tl, id: u32, op: &Op) {
        match op {
            Op::Connect { acts } => { shared::count("op", "connect"); self.connect(st, tl, id, acts) }
            Op::Pull { from, acts, stall, cancel } => { if tl.src.is_some() { shared::count("op", "pull"); self.pull(st, tl, id, from, acts, *stall, *cancel); } }
            Op::Idle { steps, acts } => {
                shared::count("op", "idle");
                let mut c = Ctl { net: &st.net, op: id, acts: acts.to_vec().into(), stall: false, cancel: Some(*steps), yields: tl.yields, wait: 0 };
                tl.rt.block_on(async { c.drive(std::future::pending::<()>()).await; });
            }
            Op::Clear => if let Some(s) = tl.src.as_mut() { shared::count("op", "clear_buffers"); s.clear_buffers(); ev("clear", id, json!({"t": sched::now_ns()})); },
            Op::Stop { acts } => if let Some(s) = tl.src.take() {
                shared::count("op", "stop");
                let mut c = Ctl { net: &st.net, op: id, acts: acts.to_vec().into(), stall: false, cancel: None, yields: tl.yields, wait: 0 };
                let r = tl.rt.block_on(c.drive(s.stop()));
                ev("stopped", id, json!(matches!(r, End::Done(()))));
            },
            Op::Node { act } => { if let Reply::Sleep { ms } = act { shared::count("node", "time_passes"); sched::sleep(ms * 1_000_000); } else { st.net.lock().unwrap().change(act); } }
            Op::Drain => {
                shared::count("op", "drain");
                for _ in 0..5 { self.connect(st, tl, id, &[]); }
                let mut quiet = 0;
                for k in 0..20_000u32 {
                    // every pull of it is a different one
                    let f = if tl.held.is_empty() && !st.marked && tl.start.1 == hex32(10, 1) { From::Default } else { From::Tail { n: 8 } };
                    match self.pull(st, tl, 1_000_000 + id * 20_000 + k, &f, &[], false, None) { "none" | "err" => quiet += 1, "hang" | "off" => break, _ => quiet = 0 }
                    if quiet > 3 { break; }
                }
                ev("drained", id, json!(null));
            }
        }
    }
    fn gen(&self, prop: &str, rng: &mut Rng, thorough: bool) -> Plan<Op> { gen(prop, rng, thorough) }
    fn check(&self, plan: &Plan<Op>, hist: &[Ev]) -> Option<Violation> { judge(plan, hist).err().map(|(c, d)| violation(&plan.prop, &c, d)) }
    fn simplify(&self, op: &Op) -> Vec<Op> {
        let less = |a: &Vec<Reply>| -> Vec<Vec<Reply>> { (0..a.len()).map(|i| { let mut b = a.clone(); b.remove(i); b }).chain((0..a.len()).filter(|i| a[*i] != Reply::Good).map(|i| { let mut b = a.clone(); b[i] = Reply::Good; b })).collect() };
        match op {
            Op::Connect { acts } => less(acts).into_iter().map(|acts| Op::Connect { acts }).collect(),
            Op::Stop { acts } => less(acts).into_iter().map(|acts| Op::Stop { acts }).collect(),
            Op::Idle { steps, acts } => less(acts).into_iter().map(|acts| Op::Idle { steps: *steps, acts }).collect(),
            Op::Pull { from, acts, stall, cancel } => {
                let mut v: Vec<Op> = less(acts).into_iter().map(|acts| Op::Pull { from: from.clone(), acts, stall: *stall, cancel: *cancel }).collect();
                if cancel.is_some() { v.push(Op::Pull { from: from.clone(), acts: acts.clone(), stall: *stall, cancel: None }); }
                if *stall { v.push(Op::Pull { from: from.clone(), acts: acts.clone(), stall: false, cancel: *cancel }); }
                v
            }
            _ => vec![],
        }
    }
    fn nontrivial(&self, _plan: &Plan<Op>, hist: &[Ev]) -> bool {
        hist.iter().filter(|e| e.k == "got" && e.v["k"] == json!("block")).count() > 1 && hist.iter().any(|e| e.k == "net" && (e.v["broken"] == json!(true) || e.v["ok"] == json!(false) || e.v["bad"] == json!(true) || e.v["none"] == json!(true)) || e.k == "clear" || e.k == "got" && (e.v["k"] == json!("cancelled") || e.v["k"] == json!("stalled")))
    }
}
struct Knobs { from: i64, preset: i64, pace: u64, epoch: u64, yields: u32 }
static KNOBS: Mutex<Knobs> = Mutex::new(Knobs { from: 0, preset: 0, pace: 0, epoch: 1, yields: 1 });
fn self_knobs() -> std::sync::MutexGuard<'static, Knobs> { KNOBS.lock().unwrap() }

// ---------------------------------------------------------------- oracle
type Bad = (String, String);
fn bad<T>(c: &str, d: String) -> Result<T, Bad> { Err((c.into(), d)) }
#[derive(Debug, Clone, PartialEq)]
enum Entry { Tip(serde_json::Value), MaybeTip(serde_json::Value), Block(String), Foreign(String), Malformed }
#[derive(Default)]
struct Req { todo: VecDeque<Entry>, ended: bool, skip: bool, last: String, found: serde_json::Value, tip: serde_json::Value, ranged: bool }

fn judge(plan: &Plan<Op>, hist: &[Ev]) -> Result<(), Bad> {
    for e in hist {
        if e.k == "fatal" { return bad(&e.kind, format!("{} (operation {})", e.msg, e.op)); }
        if e.k == "panic" { return bad("panic", format!("operation {}: {}", e.id, e.v.as_str().unwrap_or(""))); }
    }
    let pace = plan.knob("pace_ms") as u64 * 1_000_000;
    let (era_first, epoch) = (plan.knob("era_first") as u64, plan.knob("epoch") as u64);
    let marked = plan.knob("marked") != 0;
    let mut blocks: HashMap<String, (String, u64, u64, u8, u64)> = HashMap::new();
    let mut best = String::new();
    let mut start = json!(null);
    let mut genesis = json!(null);
    let mut froms: HashMap<u32, Vec<serde_json::Value>> = HashMap::new();
    let mut reqs: HashMap<u32, Req> = HashMap::new();
    // the request the background task is busy with
    let mut busy: Option<u32> = None;
    // the requests the next event may come from, oldest first
    let mut cand: Vec<u32> = vec![];
    let mut last_tip: Option<(u64, u64)> = None;
    let mut refused: HashSet<u32> = HashSet::new();
    let mut received: HashSet<String> = HashSet::new();
    for (n, e) in hist.iter().enumerate() {
        match e.k.as_str() {
            "start" => { start = e.v["from"].clone(); genesis = e.v["genesis"].clone(); }
            "blk" => { let b: (String, String, u64, u64, u8, u64) = serde_json::from_value(e.v.clone()).unwrap(); blocks.insert(b.0, (b.1, b.2, b.3, b.4, b.5)); }
            "best" => best = e.v.as_str().unwrap().into(),
            "connected" => match e.v.as_str().unwrap() { "ok" => { last_tip = None; cand.clear(); busy = None; } "hang" | "given up" => return bad("hang", format!("operation {}: connecting never finished although the node had answered everything", e.id)), _ => {} },
            "poll" => { froms.insert(e.id, serde_json::from_value(e.v["from"].clone()).unwrap()); }
            "net" => {
                let v = &e.v;
                match v["k"].as_str().unwrap() {
                    "connect" => { if v["ok"] == json!(false) { refused.insert(e.id); } }
                    "stop" => {}
                    "intersect" => {
                        let asked: Vec<serde_json::Value> = serde_json::from_value(v["points"].clone()).unwrap();
                        // which poll is it?
                        let of = if marked { asked.iter().find_map(|p| froms.keys().find(|k| hex32(12, **k as u64) == p[1].as_str().unwrap_or(""))).copied() } else { Some(e.id) };
                        let Some(of) = of else { return bad("intersect", format!("operation {}: the node was asked for {}, which no poll gave", e.id, show(&asked))) };
                        let mut want = froms[&of].clone();
                        if want.is_empty() { want = vec![start.clone()]; }
                        // the node does not know the point before the first block
                        let (gen, before) = (json!([0, genesis[0]]), json!([0, genesis[1]]));
                        let first = want.contains(&before) && !want.contains(&gen);
                        if first { for w in &mut want { if *w == before { *w = gen.clone(); } } }
                        let mut a = asked.clone(); let mut w = want.clone();
                        a.sort_by_key(|x| x.to_string()); w.sort_by_key(|x| x.to_string());
                        if a != w { return bad("intersect", format!("operation {}: the node was asked for {}, the poll gave {}", e.id, show(&asked), show(&want))); }
                        if asked.windows(2).any(|x| x[0][0].as_u64() < x[1][0].as_u64()) { return bad("intersect", format!("operation {}: the node was asked for an older point before a newer one: {}", e.id, show(&asked))); }
                        if reqs.contains_key(&of) { return bad("intersect", format!("operation {}: the request of the poll {of} was made twice", e.id)); }
                        if let Some(b) = busy { reqs.get_mut(&b).unwrap().ended = true; }
                        let mut r = Req { skip: !(first && v["found"] == gen), found: v["found"].clone(), tip: v["tip"].clone(), ..Default::default() };
                        if v["found"].is_null() || v["found"] == v["tip"][0] { r.ended = true; }
                        else {
                            let t = v["t"].as_u64().unwrap();
                            let next = hist[n + 1..].iter().find(|x| matches!(x.k.as_str(), "net" | "got" | "clear" | "drained")).and_then(|x| x.v["t"].as_u64()).unwrap_or(u64::MAX);
                            // the background task may run later than the next event when its poll was given up
                            let next = hist[n + 1..].iter().find(|x| x.k == "net").and_then(|x| x.v["t"].as_u64()).unwrap_or(u64::MAX).max(next);
                            match last_tip {
                                Some((lo, _)) if next.saturating_sub(lo) < pace => {}
                                Some((lo, hi)) if t.saturating_sub(hi) < pace => { r.todo.push_back(Entry::MaybeTip(v["tip"].clone())); last_tip = Some((lo, next)); }
                                _ => { r.todo.push_back(Entry::Tip(v["tip"].clone())); last_tip = Some((t, next)); }
                            }
                        }
                        reqs.insert(of, r);
                        busy = Some(of);
                    }
                    k => {
                        let Some(r) = busy.and_then(|b| reqs.get_mut(&b)) else { return bad("protocol", format!("operation {}: the node was asked for blocks without an intersection", e.id)) };
                        // what is left of an earlier range
                        if k == "next" && !r.ranged && v["broken"] != json!(true) { continue; }
                        if v["broken"] == json!(true) || v["none"] == json!(true) || v["done"] == json!(true) { r.ended = true; }
                        if k == "range" {
                            if v["from"] != r.found || v["to"] != r.tip[0] || r.ranged { return bad("protocol", format!("operation {}: blocks from {} to {} were asked for after the intersection {} and the tip {}", e.id, v["from"], v["to"], r.found, r.tip[0])); }
                            r.ranged = true;
                        } else if let Some(b) = v["b"].as_str() {
                            // the first is the intersection itself, the others follow it
                            let own = if r.last.is_empty() { r.found[1] == json!(b) } else { blocks.get(b).is_some_and(|x| x.0 == r.last) };
                            if own { r.last = b.into(); }
                            if r.skip { r.skip = false; }
                            else if v["bad"] == json!(true) { r.todo.push_back(Entry::Malformed); r.ended = true; }
                            else if !r.ended { r.todo.push_back(if own { Entry::Block(b.into()) } else { Entry::Foreign(b.into()) }); }
                        }
                    }
                }
            }
            "clear" => cand.clear(),
            "stopped" => { if e.v != json!(true) { return bad("hang", format!("operation {}: stopping never finished although the node had answered everything", e.id)); } }
            "got" => {
                let k = e.v["k"].as_str().unwrap();
                let v = &e.v["v"];
                cand.push(e.id);
                if k == "hang" { return bad("hang", format!("operation {}: the poll never finished although the node had answered everything", e.id)); }
                if k == "cancelled" || k == "stalled" { continue; }
                let mut done = false;
                for i in 0..cand.len() {
                    let Some(r) = reqs.get_mut(&cand[i]) else { continue };
                    if let Some(Entry::MaybeTip(t)) = r.todo.front() { if k != "tip" || t != v { r.todo.pop_front(); } }
                    match r.todo.front().cloned() {
                        Some(x) => {
                            let ok = match &x {
                                Entry::Tip(t) | Entry::MaybeTip(t) => k == "tip" && t == v,
                                Entry::Block(b) => k == "block" && v[0] == json!(b),
                                // sent, but not for this request
                                Entry::Foreign(_) => false,
                                Entry::Malformed => k == "err",
                            };
                            if !ok { return bad("events", format!("operation {}: {} where {} was due, for the request of the poll {}", e.id, told(k, v), due(&x), cand[i])); }
                            r.todo.pop_front();
                            // a notice that nobody can attribute to this request for sure may be the one of the next
                            if let (Entry::MaybeTip(t), true, true) = (&x, r.ended, r.todo.is_empty()) {
                                for j in i + 1..cand.len() {
                                    let Some(r) = reqs.get_mut(&cand[j]) else { continue };
                                    if let Some(f) = r.todo.front_mut() { if *f == Entry::Tip(t.clone()) { *f = Entry::MaybeTip(t.clone()); } }
                                    if !r.ended || r.todo.iter().any(|x| !matches!(x, Entry::MaybeTip(_))) { break; }
                                }
                            }
                            cand.drain(..i);
                            done = true;
                            break;
                        }
                        None if !r.ended => return bad("events", format!("operation {}: {} while the node still owes the rest of the request of the poll {}", e.id, told(k, v), cand[i])),
                        None => {}
                    }
                }
                if !done {
                    if k != "none" { return bad("events", format!("operation {}: {}, which the node did not send", e.id, told(k, v))); }
                    if !reqs.contains_key(&e.id) && !refused.contains(&e.id) { return bad("events", format!("operation {}: the poll ended with nothing, without having asked the node", e.id)); }
                }
                if k == "block" {
                    let id = v[0].as_str().unwrap();
                    let Some(b) = blocks.get(id) else { return bad("block", format!("operation {}: the node has no block {id}", e.id)) };
                    let ep = if b.3 >= 2 { 7 + (b.2 - era_first) / epoch } else { b.4 };
                    let want = json!([id, b.0, b.1, b.2, ep, b.3 == 0, true]);
                    if *v != want { return bad("block", format!("operation {}: block {v} is not {want}", e.id)); }
                    received.insert(id.into());
                }
            }
            "drained" => {
                if !received.contains(&best) && best != start[1].as_str().unwrap_or("") { return bad("stuck", format!("operation {}: with the node answering everything the block {} at its tip never came", e.id, short(&best))); }
            }
            _ => {}
        }
    }
    Ok(())
}
fn show(v: &[serde_json::Value]) -> String { v.iter().map(|p| format!("{}@{}", short(p[1].as_str().unwrap_or("")), p[0])).collect::<Vec<_>>().join(" ") }
fn told(k: &str, v: &serde_json::Value) -> String {
    match k { "block" => format!("the block {} at {} came", short(v[0].as_str().unwrap()), v[2]), "tip" => format!("a notice of the tip {} came", v[1]), "none" => "nothing came".into(), _ => format!("the error {v} came") }
}
fn due(x: &Entry) -> String { match x { Entry::Tip(t) | Entry::MaybeTip(t) => format!("a notice of the tip {}", t[1]), Entry::Block(b) => format!("the block {}", short(b)), Entry::Foreign(b) => format!("an error or a new connection, the block {} being of an abandoned range,", short(b)), Entry::Malformed => "an error for a malformed block".into() } }

// ---------------------------------------------------------------- plans
fn gen(prop: &str, rng: &mut Rng, thorough: bool) -> Plan<Op> {
    let mut knobs = BTreeMap::new();
    let marked = rng.chance(0.75);
    knobs.insert("marked".into(), marked as i64);
    knobs.insert("style".into(), rng.idx(3) as i64);
    knobs.insert("start".into(), 1 + rng.idx(8) as i64);
    knobs.insert("from".into(), if rng.chance(0.35) { -1 } else { rng.idx(5) as i64 });
    knobs.insert("preset".into(), rng.idx(5) as i64);
    let pace = *rng.pick(&[0i64, 1, 1_000, 20_000, 20_000, 600_000, 5_000_000]);
    knobs.insert("pace_ms".into(), pace);
    knobs.insert("era_first".into(), *rng.pick(&[0i64, 1, 10, 40]));
    knobs.insert("even".into(), rng.chance(0.3) as i64);
    knobs.insert("epoch".into(), *rng.pick(&[1i64, 5, 20, 432000]));
    knobs.insert("yields".into(), 1 + rng.idx(3) as i64);
    let nasty = *rng.pick(&[0.0, 0.05, 0.15, 0.4]);
    let rude = if marked { *rng.pick(&[0.0, 0.1, 0.3]) } else { 0.0 };
    let big = rng.chance(0.02);
    let mut id = 0u32;
    let mut next = || { id += 1; id };
    fn reply(rng: &mut Rng, pace: i64) -> Reply {
        match rng.idx(12) {
            0 | 1 => Reply::Break,
            2 => Reply::Refuse,
            3 | 4 => Reply::Garble(rng.idx(3) as u8),
            5 => Reply::Switch { back: 1 + rng.below(4), add: 1 + rng.below(3) },
            6 => Reply::Grow { n: 1 + rng.below(4) },
            7 | 8 => Reply::Sleep { ms: *rng.pick(&[1, 500, pace as u64 / 2 + 1, pace as u64 + 1]) },
            _ => Reply::Wait { n: 1 + rng.idx(6) as u32 },
        }
    }
    fn acts(rng: &mut Rng, nasty: f64, pace: i64) -> Vec<Reply> { (0..rng.idx(12)).map(|_| if rng.chance(nasty) { reply(rng, pace) } else { Reply::Good }).collect() }
    let mut i = Inc::new(serial_sched());
    let first = rng.chance(0.7);
    i.pre.push((next(), Op::Connect { acts: if first { vec![] } else { acts(rng, nasty, pace) } }));
    if big {
        i.pre.push((next(), Op::Node { act: Reply::Grow { n: 1100 + rng.below(1200) } }));
        // the node sends more than the client takes
        if rng.chance(0.6) { i.pre.push((next(), Op::Pull { from: From::Tail { n: 1 }, acts: vec![], stall: false, cancel: None })); i.pre.push((next(), Op::Idle { steps: 2600, acts: vec![] })); }
    }
    let steps = 4 + rng.idx(if thorough { 60 } else { 35 });
    let abandon = if marked && rng.chance(0.4) { 0.1 } else { 0.0 };
    for _ in 0..steps {
        // a range is given up while it is being received, and another is asked for
        if rng.chance(abandon) {
            let clean = rng.chance(0.7);
            let pull = |rng: &mut Rng, next: &mut dyn FnMut() -> u32, cancel| (next(), Op::Pull { from: From::Tail { n: 1 + rng.idx(4) }, acts: if clean { vec![] } else { acts(rng, nasty, pace) }, stall: false, cancel });
            i.pre.push((next(), Op::Node { act: Reply::Grow { n: *rng.pick(&[3, 12, 40, 120]) } }));
            for _ in 0..1 + rng.idx(3) { let p = pull(rng, &mut next, None); i.pre.push(p); }
            if rng.chance(0.3) { let c = Some(rng.idx(6) as u32); let p = pull(rng, &mut next, c); i.pre.push(p); }
            i.pre.push((next(), Op::Clear));
            if rng.chance(0.3) { i.pre.push((next(), Op::Node { act: Reply::Switch { back: 1 + rng.below(5), add: 1 + rng.below(6) } })); }
            if rng.chance(0.3) { i.pre.push((next(), Op::Idle { steps: 1 + rng.idx(10) as u32, acts: vec![] })); }
            for _ in 0..1 + rng.idx(3) { let p = pull(rng, &mut next, None); i.pre.push(p); }
        }
        let op = match rng.weighted(&[60, 8, if marked { 4 } else { 0 }, 2, 14]) {
            0 => {
                let from = match rng.idx(12) { 0 => From::Any { picks: (0..1 + rng.idx(4)).map(|_| rng.idx(200)).collect() }, 1 if !marked => From::Default, 2 if !marked => From::Genesis, 3 => From::Unknown, _ => From::Tail { n: 1 + rng.idx(9) } };
                let from = if !marked && rng.chance(0.2) { From::Default } else { from };
                let stall = rng.chance(rude * 0.5);
                Op::Pull { from, acts: acts(rng, nasty, pace), stall, cancel: if rng.chance(rude) { Some(rng.idx(12) as u32) } else { None } }
            }
            1 => Op::Idle { steps: 1 + rng.idx(30) as u32, acts: acts(rng, nasty, pace) },
            2 => Op::Clear,
            3 => Op::Stop { acts: acts(rng, nasty, pace) },
            _ => Op::Node { act: match rng.idx(4) { 0 => Reply::Switch { back: 1 + rng.below(5), add: 1 + rng.below(3) }, 1 => Reply::Sleep { ms: *rng.pick(&[1, 1000, pace as u64 / 2 + 1, pace as u64 + 1]) }, _ => Reply::Grow { n: 1 + rng.below(*rng.clone().pick(&[2, 6, 20])) } } },
        };
        let stop = matches!(op, Op::Stop { .. });
        i.pre.push((next(), op));
        if stop { i.pre.push((next(), Op::Connect { acts: acts(rng, nasty, pace) })); }
    }
    if rng.chance(0.2) { i.pre.push((next(), Op::Stop { acts: acts(rng, nasty, pace) })); }
    i.pre.push((next(), Op::Drain));
    Plan { prop: prop.into(), seed: 0, knobs, incs: vec![i] }
}

pub fn config(prop: &str, tier: &str) -> Config {
    let thorough = tier == "thorough";
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    Config {
        prop: prop.into(), tier: tier.into(), seed: 1, runs: if thorough { 40_000_000 } else { 150_000 }, secs: if thorough { 900 } else { 50 }, workers: 8,
        rule: "one client polling, idling, clearing buffers, stopping and reconnecting; each question to the node answered well, late, with a broken or refused connection, no blocks, a malformed block, or after the node grew or switched forks; polls cancelled or given up at any step; at the end the node behaves and the client drains it; non-trivial: two blocks delivered and a failure or cancellation; distinct by the hash of the history".into(),
        real: s(&["dcspark-blockchain-source cardano module (CardanoSource, request handler, block conversion, points, eras)", "tokio's current-thread runtime and channels", "cardano-sdk points and tips"]),
        stubs: s(&["cardano-net (every call is a question the simulator answers)", "the node (scripted)", "cardano-multiplatform-lib block decoding (a fixed binary layout)", "the clock"]),
        assumptions: s(&["a node answers on one connection in order", "the node sends the blocks of the range it was asked for"]),
        level: "exploration".into(), verif: String::new(), fault_kinds: vec![], probes_expected: vec![], program: String::new(),
    }
}
pub fn make(_p: &str) -> Sim { Sim }
