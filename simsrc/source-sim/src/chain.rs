//! MultiverseSource and ForkHandlingSource over a scripted node: growth, forks, requests that end early, errors,
//! repeats, tip notices, cancelled polls, crashes and restarts.
use anyhow::anyhow;
use dcspark_blockchain_source::multiverse::rollback::{Event as ForkEvent, ForkHandlingSource};
use dcspark_blockchain_source::multiverse::MultiverseSource;
use dcspark_blockchain_source::{EventObject, GetNextFrom, PullFrom, Source};
use dcspark_core::BlockNumber;
use multiverse::{Multiverse, Variant};
use serde::{Deserialize, Serialize};
use serde_json::json;
use simrt::driver::*;
use simrt::hist::{ev, Ev};
use simrt::raw;
use simrt::rng::{hash_bytes, Rng};
use simrt::sched::{Crash, Fault};
use simrt::shared;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct K(pub String);
impl PullFrom for K {}
impl std::fmt::Display for K { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
impl AsRef<[u8]> for K { fn as_ref(&self) -> &[u8] { self.0.as_ref() } }
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct P { pub h: u64, pub id: String }
impl PullFrom for P {}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum V { Block { id: K, parent: K, num: u64 }, Tip(String) }
impl EventObject for V { fn is_blockchain_tip(&self) -> bool { matches!(self, V::Tip(_)) } }
impl Variant for V {
    type Key = K;
    fn id(&self) -> &K { match self { V::Block { id, .. } => id, V::Tip(_) => panic!("a tip notice has no identifier") } }
    fn parent_id(&self) -> &K { match self { V::Block { parent, .. } => parent, V::Tip(_) => panic!("a tip notice has no parent") } }
    fn block_number(&self) -> BlockNumber { match self { V::Block { num, .. } => BlockNumber::new(*num), V::Tip(_) => panic!("a tip notice has no number") } }
}
impl GetNextFrom for V {
    type From = P;
    fn next_from(&self) -> Option<P> { match self { V::Block { id, num, .. } => Some(P { h: *num, id: id.0.clone() }), V::Tip(_) => None } }
}

// ---------------------------------------------------------------- the node
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Blk { id: String, parent: String, num: u64 }
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Node { blocks: BTreeMap<String, Blk>, best: String, top: u64, made: u64 }
impl Node {
    /// from the first block to `id`
    fn chain(&self, id: &str) -> Vec<&Blk> {
        let mut v = vec![];
        let mut c = id;
        while let Some(b) = self.blocks.get(c) { v.push(b); c = &b.parent; }
        v.reverse();
        v
    }
    fn add(&mut self, parent: String, style: u64) -> String {
        self.made += 1;
        let n = self.made;
        let id = match style { 0 => format!("b{n}"), 1 => format!("{}{n}", ["", "a", "ab", "abc"][(n % 4) as usize]), _ => format!("{:06x}", hash_bytes(3, &n.to_le_bytes()) & 0xffffff) };
        let num = self.blocks.get(&parent).map_or(1, |b| b.num + 1);
        self.blocks.insert(id.clone(), Blk { id: id.clone(), parent, num });
        id
    }
    fn adopt(&mut self, id: String) { self.best = id; self.top = self.top.max(self.height()); }
    fn height(&self) -> u64 { self.blocks.get(&self.best).map_or(0, |b| b.num) }
}
/// what outlives a crash: the node, and the consumer's saved position
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct World { node: Node, saved: Option<P>, asked: bool }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    /// the next block of the request, or of a new request when there is none; a new request stops after `cut` blocks
    Go { cut: Option<usize>, err: bool },
    /// an error; the request goes on afterwards or not
    Err { drop: bool },
    Nothing { drop: bool },
    Tip,
    /// a block handed out earlier, again
    Dup { back: usize },
}
#[derive(Default)]
pub struct Script { pend: u32, act: Option<Act>, used: Vec<&'static str> }
pub struct Shared { w: World, script: Script, handed: Vec<Blk>, gave: u64, depth: u64, op: u32 }
#[derive(Default)]
pub struct Request { left: VecDeque<Blk>, cut: Option<usize>, err: bool, open: bool }
pub struct Inner { s: Arc<Mutex<Shared>>, req: Request }

struct Yield(u32);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<()> { if self.0 == 0 { Poll::Ready(()) } else { self.0 -= 1; c.waker().wake_by_ref(); Poll::Pending } }
}

#[async_trait::async_trait]
impl Source for Inner {
    type Event = V;
    type From = Vec<P>;
    async fn pull(&mut self, from: &Vec<P>) -> anyhow::Result<Option<V>> {
        let pend = self.s.lock().unwrap().script.pend;
        if pend > 0 { shared::count("node", "poll_pending"); }
        Yield(pend).await;
        let mut g = self.s.lock().unwrap();
        let s = &mut *g;
        let act = s.script.act.clone().unwrap_or(Act::Go { cut: None, err: false });
        // only the first call of a poll is scripted
        s.script.act = None;
        match act {
            Act::Err { drop } => { if drop { self.req = Request::default(); } s.script.used.push("err"); shared::count("node", "error"); Err(anyhow!("node error")) }
            Act::Nothing { drop } => { if drop { self.req = Request::default(); } shared::count("node", "empty_poll"); Ok(None) }
            Act::Tip => { s.script.used.push("tip"); shared::count("node", "tip_notice"); Ok(Some(V::Tip(s.w.node.best.clone()))) }
            Act::Dup { back } => {
                let low = s.w.node.top.saturating_sub(s.depth);
                // a node does not go back to a branch it has abandoned
                let now: std::collections::HashSet<&str> = s.w.node.chain(&s.w.node.best).into_iter().map(|b| b.id.as_str()).collect();
                let c: Vec<&Blk> = s.handed.iter().rev().filter(|b| b.num > low && now.contains(b.id.as_str())).take(6).collect();
                let Some(b) = c.get(back).copied().cloned() else { return Ok(None) };
                shared::count("node", "repeated_block");
                ev("hand", s.op, json!({"b": b.id, "dup": 1}));
                Ok(Some(block(&b)))
            }
            Act::Go { cut, err } => {
                if self.req.open && self.req.left.is_empty() { self.req.open = false; if self.req.cut.is_some() { shared::count("node", "request_cut_short"); if self.req.err { s.script.used.push("err"); return Err(anyhow!("connection lost")); } return Ok(None); } }
                if !self.req.open {
                    let chain: Vec<Blk> = s.w.node.chain(&s.w.node.best).into_iter().cloned().collect();
                    let at = if from.is_empty() { Some(0) } else {
                        from.iter().filter_map(|p| chain.iter().position(|b| b.id == p.id && b.num == p.h)).max().map(|i| i + 1)
                    };
                    ev("req", s.op, json!({"from": from.iter().map(|p| &p.id).collect::<std::collections::BTreeSet<_>>(), "at": at}));
                    let Some(at) = at else { shared::count("node", "no_intersection"); return Ok(None) };
                    if at == chain.len() { shared::count("node", "up_to_date"); return Ok(None); }
                    shared::count("node", "request");
                    let mut left: VecDeque<Blk> = chain[at..].iter().cloned().collect();
                    let mut cut = cut;
                    if let Some(n) = cut { if n < left.len() { left.truncate(n.max(1)); } else { cut = None; } }
                    self.req = Request { left, cut, err, open: true };
                }
                let Some(b) = self.req.left.pop_front() else { return Ok(None) };
                if self.req.left.is_empty() && self.req.cut.is_none() { self.req.open = false; }
                if !s.handed.iter().any(|h| h.id == b.id) || s.handed.last().map_or(true, |h| h.id != b.id) { s.handed.push(b.clone()); }
                s.gave += 1;
                ev("hand", s.op, json!({"b": b.id}));
                if !s.w.node.chain(&s.w.node.best).iter().any(|x| x.id == b.id) { shared::count("node", "block_of_an_abandoned_branch"); }
                Ok(Some(block(&b)))
            }
        }
    }
}
fn block(b: &Blk) -> V { V::Block { id: K(b.id.clone()), parent: K(b.parent.clone()), num: b.num } }

fn noop() -> Waker {
    fn clone(_: *const ()) -> RawWaker { RawWaker::new(std::ptr::null(), &VT) }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
/// None when the future was dropped after `limit` polls
fn drive<T>(f: impl Future<Output = T>, limit: Option<u32>) -> Option<T> {
    let mut f = Box::pin(f);
    let w = noop();
    let mut c = Context::from_waker(&w);
    let mut n = 0;
    loop {
        if limit == Some(n) { return None; }
        if let Poll::Ready(x) = f.as_mut().poll(&mut c) { return Some(x); }
        n += 1;
        assert!(n < 1000, "the future never completes");
    }
}

// ---------------------------------------------------------------- operations
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Grow { n: u64 },
    /// leaves the best chain `back` blocks below its tip, for a new branch of `add` blocks
    Reorg { back: u64, add: u64 },
    /// goes back to a branch abandoned earlier, longer by `add` blocks than the present chain
    Return { pick: usize, add: u64 },
    Poll { pend: u32, cancel: Option<u32>, act: Act, accept: bool, save: bool },
    /// the node is quiet: polls until all is delivered
    Drain,
}
pub struct Sim;
pub struct St { root: String, kind: u8, depth: usize, style: u64, fixed: bool, sh: Arc<Mutex<Shared>> }
pub enum Src { Stable(MultiverseSource<K, V, Inner>), Fork(ForkHandlingSource<K, V, Inner, ForkEvent<V, P>>) }
pub struct Tl { src: Option<Src>, pos: Option<P>, start: Option<P> }
enum Got { Block(V), Tip, Back(P), Nothing, Failed(String), Cancelled }

impl Sim {
    fn save(&self, st: &St) { let g = st.sh.lock().unwrap(); raw::write_file(&format!("{}.node", st.root), &serde_json::to_vec(&g.w).unwrap()); }
    fn poll(&self, st: &St, tl: &mut Tl, id: u32, pend: u32, cancel: Option<u32>, act: Option<Act>, accept: bool, save: bool) -> Got {
        if st.sh.lock().unwrap().w.saved != tl.pos {
            { let mut g = st.sh.lock().unwrap(); g.w.saved = tl.pos.clone(); }
            self.save(st);
        }
        { let mut g = st.sh.lock().unwrap(); g.op = id; g.script = Script { pend, act, used: vec![] }; }
        let from = if st.kind == 2 && st.fixed { tl.start.clone() } else { tl.pos.clone() };
        ev("poll", id, json!({"from": from}));
        let got = match tl.src.as_mut().unwrap() {
            Src::Stable(s) => match drive(s.pull(&from), cancel) { None => Got::Cancelled, Some(Err(e)) => Got::Failed(format!("{e:#}")), Some(Ok(None)) => Got::Nothing, Some(Ok(Some(V::Tip(_)))) => Got::Tip, Some(Ok(Some(b))) => Got::Block(b) },
            Src::Fork(s) => match drive(s.pull(&from), cancel) {
                None => Got::Cancelled, Some(Err(e)) => Got::Failed(format!("{e:#}")), Some(Ok(None)) => Got::Nothing,
                Some(Ok(Some(ForkEvent::Rollback(p)))) => Got::Back(p), Some(Ok(Some(ForkEvent::InnerEvent(V::Tip(_))))) => Got::Tip, Some(Ok(Some(ForkEvent::InnerEvent(b)))) => Got::Block(b),
            },
        };
        let used = st.sh.lock().unwrap().script.used.clone();
        match &got {
            Got::Block(V::Block { id: b, parent, num }) => {
                ev("got", id, json!({"b": [b.0, parent.0, num], "accept": accept, "used": used}));
                if accept {
                    tl.pos = Some(P { h: *num, id: b.0.clone() });
                    if save { st.sh.lock().unwrap().w.saved = tl.pos.clone(); self.save(st); }
                }
            }
            Got::Block(_) => unreachable!(),
            Got::Back(p) => { ev("got", id, json!({"back": p, "used": used})); tl.pos = Some(p.clone()); }
            Got::Tip => ev("got", id, json!({"tip": 1, "used": used})),
            Got::Nothing => ev("got", id, json!({"none": 1, "used": used})),
            Got::Failed(e) => ev("got", id, json!({"err": e, "used": used})),
            Got::Cancelled => { shared::count("node", "poll_cancelled"); ev("got", id, json!({"cancelled": 1, "used": used})) }
        }
        got
    }
}
impl Scenario for Sim {
    type Op = Op;
    type St = St;
    type Tl = Tl;
    fn start(&self, plan: &Plan<Op>, inc: usize, root: &str) -> St {
        let file = format!("{root}.node");
        if inc == 0 { raw::unlink(&file); }
        let style = plan.knob("style") as u64;
        let w = match raw::read_file(&file) {
            Some(b) => serde_json::from_slice(&b).unwrap(),
            None => {
                let mut n = Node::default();
                let mut at = "origin".to_string();
                for _ in 0..plan.knob("start") { at = n.add(at, style); }
                n.adopt(at);
                World { node: n, saved: None, asked: false }
            }
        };
        let depth = plan.knob("depth") as usize;
        St { root: root.into(), kind: match plan.prop.as_str() { "C30" => 0, "C31" => 1, _ => 2 }, depth, style, fixed: plan.knob("fixed") != 0,
            sh: Arc::new(Mutex::new(Shared { w, script: Script::default(), handed: vec![], gave: 0, depth: depth as u64, op: 0 })) }
    }
    fn thread(&self, st: &St, _n: usize) -> Tl {
        let mv: Multiverse<K, V> = Multiverse::open(format!("{}/mv", st.root), "blocks", BlockNumber::MIN).expect("open");
        let inner = Inner { s: st.sh.clone(), req: Request::default() };
        let mut g = st.sh.lock().unwrap();
        let start = if g.w.asked { g.w.saved.clone() } else { g.w.node.blocks.get(&g.w.node.best).map(|b| P { h: b.num, id: b.id.clone() }) };
        ev("start", 0, json!({"pos": start, "stored": mv.iter().map(|b| b.id().0.clone()).collect::<Vec<_>>(), "node": g.w.node.blocks.values().collect::<Vec<_>>(), "best": g.w.node.best, "top": g.w.node.top}));
        let new = !g.w.asked;
        if new { g.w.saved = start.clone(); g.w.asked = true; }
        drop(g);
        if new { self.save(st); }
        let src = if st.kind == 2 { Src::Fork(ForkHandlingSource::new(mv, st.depth, inner)) } else { Src::Stable(MultiverseSource::new(mv, st.depth, inner)) };
        Tl { src: Some(src), pos: start.clone(), start }
    }
    fn exec(&self, st: &St, tl: &mut Tl, id: u32, op: &Op) {
        match op {
            Op::Grow { n } => {
                let mut g = st.sh.lock().unwrap();
                for _ in 0..*n { let p = if g.w.node.best.is_empty() { "origin".to_string() } else { g.w.node.best.clone() }; let b = g.w.node.add(p, st.style); g.w.node.adopt(b); }
                node_ev(&g, id);
                drop(g);
                self.save(st);
            }
            Op::Reorg { back, add } => {
                let mut g = st.sh.lock().unwrap();
                let h = g.w.node.height();
                let fork = h.saturating_sub(*back);
                // only blocks with less than `depth` confirmations may be abandoned
                if *back == 0 || *back > h || fork < tl.start.as_ref().map_or(0, |p| p.h).min(fork + 1) || fork + (st.depth as u64) < g.w.node.top { return; }
                if fork < st_start(&g, tl) { return; }
                if st.kind == 2 && st_none(tl) && fork == 0 { return; }
                shared::count("node", "reorganisation");
                let mut at = g.w.node.chain(&g.w.node.best.clone()).get((fork as usize).wrapping_sub(1)).map_or("origin".to_string(), |b| b.id.clone());
                for _ in 0..(*add).max(*back) { at = g.w.node.add(at, st.style); }
                g.w.node.adopt(at);
                node_ev(&g, id);
                drop(g);
                self.save(st);
            }
            Op::Return { pick, add } => {
                let mut g = st.sh.lock().unwrap();
                let n = &g.w.node;
                let best: HashSet<String> = n.chain(&n.best).iter().map(|b| b.id.clone()).collect();
                let low = st_start(&g, tl);
                // the blocks of other branches that fork off within the depth
                let c: Vec<String> = n.blocks.values().filter(|b| !best.contains(&b.id)).filter(|b| {
                    let fork = n.chain(&b.id).iter().filter(|x| best.contains(&x.id)).map(|x| x.num).max().unwrap_or(0);
                    fork + st.depth as u64 >= n.top && fork >= low && !(st.kind == 2 && st_none(tl) && fork == 0)
                }).map(|b| b.id.clone()).collect();
                if c.is_empty() { return; }
                shared::count("node", "return_to_an_abandoned_branch");
                let mut at = c[pick % c.len()].clone();
                let h = n.height();
                while g.w.node.blocks[&at].num < h + add { at = g.w.node.add(at, st.style); }
                g.w.node.adopt(at);
                node_ev(&g, id);
                drop(g);
                self.save(st);
            }
            Op::Poll { pend, cancel, act, accept, save } => { shared::count("op", "poll"); self.poll(st, tl, id, *pend, *cancel, Some(act.clone()), *accept, *save); }
            Op::Drain => {
                shared::count("op", "drain");
                let n = st.sh.lock().unwrap().w.node.blocks.len();
                ev("drain", id, json!(null));
                let mut quiet = 0;
                for _ in 0..8 * n + 12 * st.depth + 60 {
                    let before = st.sh.lock().unwrap().gave;
                    let got = self.poll(st, tl, id, 0, None, None, true, false);
                    match got { Got::Nothing | Got::Failed(_) if st.sh.lock().unwrap().gave == before => quiet += 1, _ => quiet = 0 }
                    if quiet > 6 { break; }
                }
                ev("drained", id, json!({"pos": tl.pos}));
            }
        }
    }
    fn gen(&self, prop: &str, rng: &mut Rng, thorough: bool) -> Plan<Op> { gen(prop, rng, thorough) }
    fn check(&self, plan: &Plan<Op>, hist: &[Ev]) -> Option<Violation> { judge(plan, plan.prop == "C32", hist).err().map(|(c, d)| violation(&plan.prop, &c, d)) }
    fn simplify(&self, op: &Op) -> Vec<Op> {
        match op {
            Op::Grow { n } if *n > 1 => vec![Op::Grow { n: 1 }, Op::Grow { n: n / 2 }, Op::Grow { n: n - 1 }],
            Op::Reorg { back, add } => { let mut v = vec![]; if *back > 1 { v.push(Op::Reorg { back: back - 1, add: *add }); } if *add > *back { v.push(Op::Reorg { back: *back, add: add - 1 }); } v }
            Op::Return { pick, add } if *add > 1 => vec![Op::Return { pick: *pick, add: 1 }],
            Op::Poll { pend, cancel, act, accept, save } => {
                let mut v = vec![];
                if *pend > 0 || cancel.is_some() { v.push(Op::Poll { pend: 0, cancel: None, act: act.clone(), accept: *accept, save: *save }); }
                if *act != (Act::Go { cut: None, err: false }) { v.push(Op::Poll { pend: *pend, cancel: *cancel, act: Act::Go { cut: None, err: false }, accept: *accept, save: *save }); }
                if !accept { v.push(Op::Poll { pend: *pend, cancel: *cancel, act: act.clone(), accept: true, save: *save }); }
                if !save { v.push(Op::Poll { pend: *pend, cancel: *cancel, act: act.clone(), accept: *accept, save: true }); }
                v
            }
            _ => vec![],
        }
    }
    fn nontrivial(&self, plan: &Plan<Op>, hist: &[Ev]) -> bool {
        let got = hist.iter().filter(|e| e.k == "got" && e.v["b"].is_array()).count();
        let forks = hist.iter().filter(|e| e.k == "node" && e.v["fork"] == json!(true)).count();
        match plan.prop.as_str() { "C31" => got > 1 && hist.iter().filter(|e| e.k == "start").count() > 1, _ => got > 1 && forks > 0 }
    }
}
fn st_none(tl: &Tl) -> bool { tl.start.is_none() }
/// height of the consumer's first position
fn st_start(_g: &Shared, tl: &Tl) -> u64 { tl.start.as_ref().map_or(0, |p| p.h) }
fn node_ev(g: &Shared, id: u32) {
    let n = &g.w.node;
    let forks = { let mut c: HashMap<&str, u32> = HashMap::new(); for b in n.blocks.values() { *c.entry(&b.parent).or_default() += 1; } c.values().any(|v| *v > 1) };
    ev("node", id, json!({"best": n.best, "chain": n.chain(&n.best).iter().rev().take(200).map(|b| (&b.id, &b.parent, b.num)).collect::<Vec<_>>(), "fork": forks}));
}

// ---------------------------------------------------------------- oracle
pub type Bad = (String, String);
pub fn bad<T>(c: &str, d: String) -> Result<T, Bad> { Err((c.into(), d)) }

/// also used by pipe.rs, whose history has the same events
pub fn judge<O>(plan: &Plan<O>, fork: bool, hist: &[Ev]) -> Result<(), Bad> {
    for e in hist {
        if e.k == "fatal" { return bad(&e.kind, format!("{} (operation {})", e.msg, e.op)); }
        if e.k == "panic" { return bad("panic", format!("operation {}: {}", e.id, e.v.as_str().unwrap_or(""))); }
    }
    let depth = plan.knob("depth") as u64;
    let mut blocks: HashMap<String, (String, u64)> = HashMap::new();
    let mut best = String::new();
    let mut handed: HashSet<String> = HashSet::new();
    // the consumer
    let mut pos: Option<P> = None;
    let mut first: Option<Option<P>> = None;
    let mut chain: Vec<String> = vec![];
    let mut base = "origin".to_string();
    let mut low = 0;
    let mut due: Option<(Option<P>, String)> = None;
    let mut drained = false;
    let storage = |i: u32, op: u32| plan.incs.get(i as usize).map_or(false, |x| x.faults.iter().any(|f| f.op == op));
    let sticky = |i: u32, op: u32| plan.incs.get(i as usize).map_or(false, |x| x.faults.iter().any(|f| f.op == op && f.sticky));
    let (mut stored, mut given) = (false, false);
    let mut cur_from: Option<P> = None;
    let mut broken_inc = usize::MAX;
    let mut inc = 0usize;
    let mut restarted = false;
    for e in hist {
        match e.k.as_str() {
            "start" => {
                inc = e.i as usize;
                restarted = first.is_some();
                let p: Option<P> = serde_json::from_value(e.v["pos"].clone()).unwrap();
                for b in e.v["node"].as_array().unwrap() { let b: Blk = serde_json::from_value(b.clone()).unwrap(); blocks.insert(b.id, (b.parent, b.num)); }
                best = e.v["best"].as_str().unwrap().into();
                if first.is_none() { first = Some(p.clone()); if let Some(b) = e.v["base"].as_str() { base = b.into(); low = e.v["low"].as_u64().unwrap(); } else if let Some(p) = &p { base = p.id.clone(); low = p.h; } }
                pos = p;
                due = None;
                drained = false;
                stored = !e.v["stored"].as_array().unwrap().is_empty();
            }
            "node" => {
                best = e.v["best"].as_str().unwrap().into();
                let c: Vec<(String, String, u64)> = serde_json::from_value(e.v["chain"].clone()).unwrap();
                for (i, p, n) in c { blocks.insert(i, (p, n)); }
            }
            "hand" => { given = true; handed.insert(e.v["b"].as_str().unwrap().into()); }
            "poll" => { given = false; cur_from = serde_json::from_value(e.v["from"].clone()).unwrap(); }
            "drain" => drained = true,
            "got" => {
                let used: Vec<String> = serde_json::from_value(e.v["used"].clone()).unwrap();
                let faulted = storage(e.i, e.id);
                if let Some(x) = e.v["err"].as_str() {
                    if sticky(e.i, e.id) { broken_inc = inc; }
                    // a failure to store the very first block leaves nothing to tell what comes next
                    else if faulted && !stored { return Ok(()); }
                    let excused = used.iter().any(|u| u == "err") || faulted || broken_inc == inc || (restarted && !drained);
                    if !excused && !restarted { return bad("error", format!("operation {}: asking for the block after {} failed although neither the node nor the storage did: {x}", e.id, show(&cur_from))); }
                    if !fork { if let Some((p, b)) = &due { if *p == cur_from && !faulted && broken_inc != inc { return bad("repeat", format!("operation {}: {b} was delivered for the position {}, asking again failed: {x}", e.id, show(p))); } } }
                    continue;
                }
                if e.v["cancelled"] == json!(1) {
                    if !fork { if let Some((p, b)) = &due { if *p == cur_from { return bad("repeat", format!("operation {}: {b} was delivered for the position {}, asking again did not return", e.id, show(p))); } } }
                    continue;
                }
                if given { stored = true; }
                if e.v["tip"] != json!(1) && used.iter().any(|u| u == "tip") { return bad("tip", format!("operation {}: a tip notice of the node was not passed on", e.id)); }
                if e.v["tip"] == json!(1) && !used.iter().any(|u| u == "tip") { return bad("tip", format!("operation {}: a tip notice the node did not send", e.id)); }
                if let Some(p) = e.v.get("back").filter(|p| !p.is_null()) {
                    let p: P = serde_json::from_value(p.clone()).unwrap();
                    if p.id == base { chain.clear(); }
                    else {
                        match chain.iter().position(|c| *c == p.id) { Some(i) => chain.truncate(i + 1), None => return bad("rollback", format!("operation {}: a rollback to {}, which the consumer does not hold (it holds {base} {chain:?})", e.id, p.id)) }
                    }
                    continue;
                }
                if let Some(b) = e.v["b"].as_array() {
                    let (b, parent, num): (String, String, u64) = (b[0].as_str().unwrap().into(), b[1].as_str().unwrap().into(), b[2].as_u64().unwrap());
                    match blocks.get(&b) { Some(x) if *x == (parent.clone(), num) => {}, _ => return bad("block", format!("operation {}: the node never had a block {b} <- {parent} at {num}", e.id)) }
                    if fork {
                        let last = chain.last().cloned().unwrap_or(base.clone());
                        if parent != last { return bad("gap", format!("operation {}: the block {b}, child of {parent}, was delivered while the consumer's last block is {last}", e.id)); }
                        chain.push(b);
                        continue;
                    }
                    let want = cur_from.as_ref().map_or(base.clone(), |p| p.id.clone());
                    if parent != want { return bad("order", format!("operation {}: the block {b}, child of {parent} at {num}, was delivered for the position {}", e.id, show(&cur_from))); }
                    if !handed.iter().any(|h| blocks.get(h).map_or(false, |x| x.1 >= num + depth) && descends(&blocks, h, &b, num)) {
                        return bad("depth", format!("operation {}: {b} at {num} was delivered before a block with {depth} confirmations above it was received", e.id));
                    }
                    if !descends(&blocks, &best, &b, num) { return bad("unstable", format!("operation {}: {b} at {num} is not on the node's chain", e.id)); }
                    due = Some((cur_from.clone(), b.clone()));
                    if e.v["accept"] == json!(true) { pos = Some(P { h: num, id: b }); due = None; }
                } else if !fork {
                    if let Some((p, b)) = &due { if *p == cur_from { return bad("repeat", format!("operation {}: {b} was delivered for the position {}, asking again gave {}", e.id, show(p), e.v)); } }
                }
            }
            "drained" => {
                if broken_inc == inc { continue; }
                let mut path = vec![];
                let mut c = best.clone();
                while let Some((p, n)) = blocks.get(&c) { if c == base { break; } path.push((c.clone(), *n)); c = p.clone(); }
                path.reverse();
                if fork {
                    let want: Vec<String> = path.into_iter().map(|x| x.0).collect();
                    if chain != want { return bad("stuck", format!("after the node stopped changing the consumer holds {base} {chain:?}, the node {base} {want:?}")); }
                } else {
                    let top = blocks.get(&best).map_or(0, |b| b.1);
                    let want = top.saturating_sub(depth).max(low);
                    let have = pos.as_ref().map_or(low, |p| p.h);
                    if have < want { return bad("stuck", format!("after the node stopped changing at height {top} with {depth} confirmations needed, the consumer's position stays at {have}, not {want}")); }
                }
            }
            _ => {}
        }
    }
    Ok(())
}
fn show(p: &Option<P>) -> String { p.as_ref().map_or("none".into(), |p| format!("{}@{}", p.id, p.h)) }
fn descends(blocks: &HashMap<String, (String, u64)>, from: &str, to: &str, num: u64) -> bool {
    let mut c = from.to_string();
    loop {
        if c == to { return true; }
        match blocks.get(&c) { Some((p, n)) if *n > num => c = p.clone(), _ => return false }
    }
}

// ---------------------------------------------------------------- plans
fn gen(prop: &str, rng: &mut Rng, thorough: bool) -> Plan<Op> {
    let scale = if thorough { 3 } else { 1 };
    let mut knobs = BTreeMap::new();
    // long forks: a deep confirmation depth, and the consumer catches up between the changes of the node
    let deep = rng.chance(0.08);
    let depth = if deep { *rng.pick(&[10i64, 14, 20]) } else { *rng.pick(&[0i64, 1, 1, 2, 2, 3, 3, 4, 5, 8]) };
    let depth = if prop == "C32" { depth.max(1) } else { depth };
    knobs.insert("depth".into(), depth);
    knobs.insert("style".into(), rng.idx(3) as i64);
    knobs.insert("start".into(), if rng.chance(0.3) { 0 } else { 1 + rng.idx(4) as i64 });
    knobs.insert("fixed".into(), rng.chance(0.3) as i64);
    knobs.insert("kv_bg".into(), *rng.pick(&[0, 0, 20, 100, 300, 1000]));
    let incs_n = if prop == "C31" { 2 + rng.idx(3) } else { 1 };
    let mut id = 0u32;
    let mut next = || { id += 1; id };
    let (lazy, nasty) = (*rng.pick(&[0.0, 0.1, 0.4]), *rng.pick(&[0.0, 0.1, 0.25, 0.5]));
    let node_rate = *rng.pick(&[4u32, 10, 25]);
    let forky = *rng.pick(&[2u32, 10, 30]);
    let mut incs = vec![];
    for k in 0..incs_n {
        let mut i = Inc::new(serial_sched());
        if k == 0 || rng.chance(0.3) { i.pre.push((next(), Op::Grow { n: 1 + rng.below(2 * depth as u64 + 6) })); }
        let long = rng.chance(0.3);
        let steps = 4 + rng.idx(if long { 60 } else { 25 } * scale);
        for _ in 0..steps {
            if deep && rng.chance(0.25) { i.pre.push((next(), Op::Drain)); }
            let op = match rng.weighted(&[60, node_rate, forky, forky / 2]) {
                0 => {
                    let act = if rng.chance(nasty) { match rng.idx(7) { 0 => Act::Err { drop: rng.chance(0.5) }, 1 => Act::Nothing { drop: rng.chance(0.5) }, 2 => Act::Tip, 3 | 4 => Act::Dup { back: rng.idx(4) }, _ => Act::Go { cut: Some(1 + rng.idx(4)), err: rng.chance(0.5) } } } else { Act::Go { cut: None, err: false } };
                    let pend = if rng.chance(nasty * 0.5) { 1 + rng.idx(3) as u32 } else { 0 };
                    let cancel = if pend > 0 && rng.chance(0.6) { Some(1 + rng.idx(pend as usize) as u32) } else { None };
                    Op::Poll { pend, cancel, act, accept: prop == "C32" || !rng.chance(lazy), save: rng.chance(0.5) }
                }
                1 if deep => Op::Grow { n: 1 + rng.below(depth as u64) },
                1 => Op::Grow { n: 1 + rng.below(*rng.clone().pick(&[1, 1, 3, 10])) },
                2 => { let back = if deep && rng.chance(0.5) { depth as u64 - rng.below(3) } else { 1 + rng.below(depth.max(1) as u64) }; Op::Reorg { back, add: back + rng.below(3) } }
                _ => Op::Return { pick: rng.idx(8), add: 1 + rng.below(2) },
            };
            i.pre.push((next(), op));
        }
        let last = k + 1 == incs_n;
        if last || rng.chance(0.3) { i.pre.push((next(), Op::Drain)); }
        if !last && rng.chance(0.7) {
            let ops: Vec<u32> = i.pre.iter().filter(|o| matches!(o.1, Op::Poll { .. } | Op::Drain)).map(|o| o.0).collect();
            if !ops.is_empty() {
                let op = *rng.pick(&ops);
                let drain = i.pre.iter().any(|o| o.0 == op && o.1 == Op::Drain);
                i.crash = Some(Crash { kind: "power".into(), op, at: "sys".into(), nth: if drain { 1 + rng.below(60) } else { 1 + rng.below(6) }, image: gen_image(rng) });
            }
        }
        if rng.chance(0.3) {
            let polls: Vec<u32> = i.pre.iter().filter(|o| matches!(o.1, Op::Poll { .. } | Op::Drain)).map(|o| o.0).collect();
            let last_op = i.pre.last().map(|o| (o.0, o.1 == Op::Drain));
            if !last && rng.chance(0.4) {
                // the database fails for good
                let at = rng.idx(polls.len().max(1));
                for op in polls.iter().skip(at) { for kind in ["kv_insert", "kv_remove", "kv_flush"] { i.faults.push(Fault { op: *op, kind: kind.into(), nth: 1, errno: 5, sticky: true }); } }
            } else {
                for _ in 0..1 + rng.idx(4) {
                    if polls.is_empty() { break; }
                    let op = *rng.pick(&polls);
                    let in_drain = last_op == Some((op, true));
                    i.faults.push(Fault { op, kind: (*rng.pick(&["kv_insert", "kv_insert", "kv_remove"])).into(), nth: 1 + rng.below(if in_drain { 10 } else { 1 }) as u32, errno: *rng.pick(&[5, 28]), sticky: false });
                }
            }
        }
        incs.push(i);
    }
    Plan { prop: prop.into(), seed: 0, knobs, incs }
}

pub fn config(prop: &str, tier: &str) -> Config {
    let thorough = tier == "thorough";
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let rule = match prop {
        "C30" => "one process polling a MultiverseSource over a scripted node: growth, forks above the confirmed depth, returns to abandoned branches, requests cut short, errors, empty polls, repeated blocks, tip notices, cancelled polls, blocks not accepted at first; non-trivial: two blocks delivered and a fork; distinct by the hash of the history",
        "C31" => "as C30 over 2 to 4 incarnations, most ended by a crash at a random storage operation with a random prefix of the unflushed writes kept, the consumer's position saved at once or only when it asks again; non-trivial: two blocks delivered and a restart; distinct by the hash of the history",
        _ => "as C30 with a ForkHandlingSource, the events replayed by a consumer that holds a chain; non-trivial: two blocks delivered and a fork; distinct by the hash of the history",
    };
    Config {
        prop: prop.into(), tier: tier.into(), seed: 1, runs: if thorough { 40_000_000 } else { 150_000 }, secs: if thorough { 900 } else { 50 }, workers: 8,
        rule: rule.into(),
        real: s(&["dcspark-blockchain-source multiverse module", "multiverse", "dcspark-core", "serde_json", "Rust std collections (hash order from the simulated getrandom)"]),
        stubs: s(&["the node and the inner source (scripted)", "sled (model: atomic operations, prefix durability)", "cardano-multiplatform-lib and cardano-net (not used by these properties)", "the async executor (polls by hand, cancellation)"]),
        assumptions: s(&["the node never abandons a block with as many confirmations as the confirmation depth", "block numbers grow by one from parent to child", "the consumer saves its position before it asks for the next block", "sled keeps its contract: a crash keeps a prefix of the operations that is not shorter than what was flushed"]),
        level: "exploration".into(), verif: String::new(), fault_kinds: if prop == "C31" { s(&["kv_insert", "kv_remove", "kv_flush"]) } else { s(&["kv_insert", "kv_remove"]) }, probes_expected: if prop == "C31" { s(&["crash_dropped_kv_suffix"]) } else { vec![] }, program: String::new(),
    }
}
pub fn make(_p: &str) -> Sim { Sim }
