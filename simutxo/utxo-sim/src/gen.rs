use super::*;
use std::collections::BTreeSet;

fn utxo(rng: &mut Rng, id: u32, st: &Style) -> U {
    let value = match rng.below(10) { 0 => rng.below(st.small), 1..=6 => 1 + rng.below(st.max), 7 => st.max, _ => st.max / 2 };
    let mut assets = vec![];
    let mut have = BTreeSet::new();
    if rng.chance(st.assets) {
        for _ in 0..1 + if rng.chance(st.mixed) { rng.idx(3) } else { 0 } {
            let t = rng.below(st.tokens as u64) as u8;
            if have.insert(t) { assets.push((t, if rng.chance(0.04) { 0 } else { 1 + rng.below(st.qty) })); }
        }
    }
    U { id, value: value.max(st.floor), assets }
}
/// How far an estimate is beyond the cost.
fn more(rng: &mut Rng) -> u64 { if rng.chance(0.75) { 0 } else { 1 + rng.below(9) } }
struct Style { tokens: u8, max: u64, small: u64, qty: u64, assets: f64, mixed: f64, floor: u64 }

pub fn gen(prop: &str, rng: &mut Rng, thorough: bool) -> Plan<Op> {
    let mut p = if prop == "C42" { balance(rng, thorough) } else if prop == "C40" { selection(rng, thorough) } else { stores(rng, thorough) };
    // how large a unit of the plan is; thermostat takes fees for machine words and halves in whole units
    let thermo = p.incs[0].pre.iter().any(|o| matches!(o.1, Op::New { alg: 2, .. }));
    if rng.chance(0.35) {
        let any = [-12, -3, -1, 1, 6, 15, 20, 30];
        let (m, a) = if thermo { (*rng.pick(&[0, 0, 1, 2, 3]), *rng.pick(&[0, 1, 6, 15, 20, 30])) } else { (*rng.pick(&any), *rng.pick(&any)) };
        p.knobs.insert("exp".into(), m);
        p.knobs.insert("asset_exp".into(), a);
    }
    if rng.chance(0.3) { p.knobs.insert("forms".into(), 1 + rng.below(2) as i64); }
    p
}
fn selection(rng: &mut Rng, thorough: bool) -> Plan<Op> {
    let alg = rng.below(3) as u8;
    let st = Style { tokens: 1 + rng.below(4) as u8, max: *rng.pick(&[6, 100, 1000, 1000, 100_000, 40_000_000_000_000]), small: 5, qty: *rng.pick(&[3, 50, 1000]), assets: *rng.pick(&[0.0, 0.3, 0.7]), mixed: *rng.pick(&[0.0, 0.5, 1.0]), floor: *rng.pick(&[0, 1, 10]) };
    // what thermostat cannot refuse
    let ample = alg == 2 && rng.chance(0.3);
    let mut id = 0u32;
    let mut n = |op: Op| { id += 1; (id, op) };
    let mut uid = 0;
    let pool = |rng: &mut Rng, uid: &mut u32| {
        let k = *rng.pick(&[0usize, 1, 2, 4, 8, 16, 30]);
        let k = if k > 0 { 1 + rng.idx(k) } else { 0 };
        if rng.chance(0.15) { *uid = 0; }
        let mut v = (0..k).map(|_| { *uid += 1; utxo(rng, *uid, &st) }).collect::<Vec<_>>();
        if ample { for _ in 0..1 + rng.idx(4) { *uid += 1; v.push(U { id: *uid, value: st.max * (10 + rng.below(40)), assets: vec![] }); } }
        v
    };
    let mut i = Inc::new(serial_sched());
    let mut cur = pool(rng, &mut uid);
    let lo = rng.below(st.max / 2 + 2);
    let c = (1 + rng.idx(4), 1 + rng.idx(4), lo, lo + rng.below(st.max));
    i.pre.push(n(Op::New { alg, pool: cur.clone(), store: rng.chance(0.5), cfg: c }));
    let floor = st.floor.min(cur.iter().map(|u| u.value).min().unwrap_or(0));
    for _ in 0..1 + rng.idx(if thorough { 10 } else { 6 }) {
        match rng.weighted(&[12, 2, 1]) {
            0 => {
                let share = if ample { *rng.pick(&[0.01, 0.05, 0.2]) } else { *rng.pick(&[0.02, 0.1, 0.3, 0.6, 1.0, 1.3]) };
                let total: u64 = cur.iter().map(|u| u.value).sum();
                let k = *rng.pick(&[0usize, 1, 1, 2, 3, 5]);
                let mut outs: Vec<(u8, u64, Vec<(u8, u64)>)> = vec![];
                for _ in 0..k {
                    if !outs.is_empty() && rng.chance(0.2) { let o = rng.pick(&outs).clone(); outs.push(o); continue; }
                    let v = if rng.chance(0.08) { 0 } else { rng.below((total as f64 * share / k as f64) as u64 + 2) };
                    let mut assets = vec![];
                    let mut have = BTreeSet::new();
                    if rng.chance(st.assets) {
                        for _ in 0..1 + rng.idx(2) {
                            let t = rng.below(st.tokens as u64) as u8;
                            let q: u64 = cur.iter().flat_map(|u| &u.assets).filter(|a| a.0 == t).map(|a| a.1).sum();
                            if have.insert(t) { assets.push((t, if rng.chance(0.05) { 0 } else { rng.below((q as f64 * share / k as f64) as u64 + 2) })); }
                        }
                    }
                    outs.push((rng.below(3) as u8, v, assets));
                }
                let fixed = if rng.chance(0.25) { (0..1 + rng.idx(2)).map(|_| { uid += 1; let tokens = Style { tokens: (st.tokens + rng.below(2) as u8).min(5), ..st }; utxo(rng, uid, &tokens) }).collect() } else { vec![] };
                let per_in = match rng.below(6) { 0 => 0, 1..=3 => floor, 4 => rng.below(st.max / 20 + 2), _ => 1 };
                let est = EstSpec { base: rng.below(st.max / 10 + 2), per_in, per_out: *rng.pick(&[0, 1, 3, 40]), min_out: rng.below(st.max / 5 + 2), more_in: more(rng), more_out: more(rng), max_size: if ample { 1 << 50 } else { *rng.pick(&[200, 2000, 16384, 16384, 1 << 50]) },
                    fail_at: if !ample && rng.chance(0.3) { Some(rng.log(60)) } else { None } };
                i.pre.push(n(Op::Select { outs, fixed, change: rng.chance(0.9), est }));
            }
            1 => { cur = pool(rng, &mut uid); i.pre.push(n(Op::Set { pool: cur.clone(), store: rng.chance(0.5) })); }
            _ => i.pre.push(n(Op::Reset)),
        }
    }
    Plan { prop: String::new(), seed: 0, knobs: BTreeMap::new(), incs: vec![i] }
}
fn balance(rng: &mut Rng, thorough: bool) -> Plan<Op> {
    let mut i = Inc::new(serial_sched());
    let mut uid = 0;
    for k in 0..1 + rng.idx(if thorough { 12 } else { 8 }) {
        let st = Style { tokens: 1 + rng.below(4) as u8, max: *rng.pick(&[6, 100, 1000, 100_000, 40_000_000_000_000]), small: 5, qty: *rng.pick(&[2, 50, 1000]), assets: *rng.pick(&[0.0, 0.3, 0.7]), mixed: *rng.pick(&[0.0, 0.5, 1.0]), floor: *rng.pick(&[0, 1, 10]) };
        let mut some = |rng: &mut Rng, k: usize| (0..k).map(|_| { uid += 1; utxo(rng, uid, &st) }).collect::<Vec<_>>();
        let sel = if rng.chance(0.4) { Some(rng.below(2) as u8) } else { None };
        let (pool, fixed) = if sel.is_some() { (1 + rng.idx(12), rng.idx(3)) } else { (if rng.chance(0.2) { 1 + rng.idx(4) } else { 0 }, rng.idx(6)) };
        let (pool, fixed) = (some(rng, pool), some(rng, fixed));
        let from: Vec<&U> = if sel.is_some() { pool.iter().collect() } else { fixed.iter().collect() };
        let mut totals: BTreeMap<u8, u64> = BTreeMap::new();
        for (t, q) in from.iter().flat_map(|u| &u.assets) { *totals.entry(*t).or_default() += q; }
        let n = *rng.pick(&[0usize, 1, 1, 2, 3]);
        let est = EstSpec { base: rng.below(st.max / 10 + 2), per_in: *rng.pick(&[0, 1, 1, 7]), per_out: *rng.pick(&[0, 1, 3, 40]), min_out: rng.below(st.max / 5 + 2), more_in: more(rng), more_out: more(rng), max_size: *rng.pick(&[200, 16384, 1 << 50]),
            fail_at: if rng.chance(0.3) { Some(rng.log(30)) } else { None } };
        let have: u64 = from.iter().map(|u| u.value).sum();
        let cost = est.base + est.per_in * from.len() as u64 + est.per_out * n as u64;
        // around what can just be paid, or any share
        let mut left = match rng.below(4) { 0 => have.saturating_sub(cost), 1 => (have + rng.below(4)).saturating_sub(cost + rng.below(4)), 2 => have.saturating_sub(cost + est.per_out + rng.below(3)), _ => rng.below(have + 2) };
        let exact = rng.chance(if sel.is_some() { 0.2 } else { 0.6 });
        let mut outs: Vec<(u8, u64, Vec<(u8, u64)>)> = vec![];
        for o in 0..n {
            let v = if o + 1 == n { left } else { rng.below(left + 1) };
            left -= v;
            let mut assets = vec![];
            for (t, q) in totals.iter_mut() {
                let more = rng.chance(0.1) as u64;
                let x = if exact && o + 1 == n { *q } else if rng.chance(0.5) { rng.below(*q + 1 + more) } else { 0 };
                *q -= x.min(*q);
                if x > 0 || rng.chance(0.05) { assets.push((*t, x)); }
            }
            if rng.chance(0.05) && !assets.iter().any(|a| a.0 == 5) { assets.push((5, rng.below(2))); }
            outs.push((rng.below(3) as u8, v, assets));
        }
        i.pre.push((k as u32 + 1, Op::Balance { single: rng.chance(0.6), sel, pool, outs, fixed, change: rng.chance(0.9), est, times: rng.chance(0.4) as u8 }));
    }
    Plan { prop: String::new(), seed: 0, knobs: BTreeMap::new(), incs: vec![i] }
}
fn stores(rng: &mut Rng, thorough: bool) -> Plan<Op> {
    let st = Style { tokens: 1 + rng.below(4) as u8, max: *rng.pick(&[2, 6, 100, 1_000_000_000_000]), small: 3, qty: *rng.pick(&[2, 5, 1000]), assets: *rng.pick(&[0.2, 0.6, 0.9]), mixed: *rng.pick(&[0.2, 0.8]), floor: 0 };
    let universe = *rng.pick(&[6u32, 12, 40]);
    let slots = 1 + rng.idx(4);
    let mut id = 0u32;
    let mut n = |op: Op| { id += 1; (id, op) };
    let edits = |rng: &mut Rng, k: usize| (0..1 + rng.idx(k)).map(|_| { let u = rng.below(universe as u64) as u32; if rng.chance(0.6) { Edit::Ins(utxo(rng, u, &st)) } else { Edit::Rem(u) } }).collect::<Vec<_>>();
    let mut i = Inc::new(gen_sched(rng));
    for _ in 0..1 + rng.idx(3) { let e = edits(rng, if universe > 20 { 30 } else { 12 }); i.pre.push(n(Op::Derive { from: rng.idx(slots), to: rng.idx(slots), edits: e, compat: rng.chance(0.2) })); }
    let mut ops = |rng: &mut Rng, k: usize| (0..1 + rng.idx(k)).map(|_| {
        let op = match rng.weighted(&[6, 2, 2, 2, 1]) {
            0 => Op::Derive { from: rng.idx(slots), to: rng.idx(slots), edits: edits(rng, 8), compat: rng.chance(0.2) },
            1 => Op::Check { slot: rng.idx(slots) },
            2 => Op::Hold { slot: rng.idx(slots) },
            3 => Op::CheckHeld,
            _ => Op::DropHeld,
        };
        n(op)
    }).collect::<Vec<_>>();
    let threads = rng.idx(4);
    for _ in 0..threads { let o = ops(rng, if thorough { 12 } else { 7 }); i.threads.push(o); }
    if threads == 0 { let o = ops(rng, 12); i.pre.extend(o); }
    for s in 0..slots { i.post.push(n(Op::Check { slot: s })); }
    i.post.push(n(Op::CheckHeld));
    let mut knobs = BTreeMap::new();
    knobs.insert("slots".into(), slots as i64);
    knobs.insert("tokens".into(), st.tokens as i64);
    knobs.insert("universe".into(), universe as i64);
    Plan { prop: String::new(), seed: 0, knobs, incs: vec![i] }
}
pub fn simplify(op: &Op) -> Vec<Op> {
    let mut r = vec![];
    match op {
        Op::New { alg, pool, store, cfg } => for k in 0..pool.len() { let mut p = pool.clone(); p.remove(k); r.push(Op::New { alg: *alg, pool: p, store: *store, cfg: *cfg }); },
        Op::Set { pool, store } => for k in 0..pool.len() { let mut p = pool.clone(); p.remove(k); r.push(Op::Set { pool: p, store: *store }); },
        Op::Select { outs, fixed, change, est } => {
            for k in 0..outs.len() { let mut o = outs.clone(); o.remove(k); r.push(Op::Select { outs: o, fixed: fixed.clone(), change: *change, est: est.clone() }); }
            for k in 0..fixed.len() { let mut f = fixed.clone(); f.remove(k); r.push(Op::Select { outs: outs.clone(), fixed: f, change: *change, est: est.clone() }); }
            for k in 0..outs.len() { for a in 0..outs[k].2.len() { let mut o = outs.clone(); o[k].2.remove(a); r.push(Op::Select { outs: o, fixed: fixed.clone(), change: *change, est: est.clone() }); } }
        }
        Op::Balance { single, sel, pool, outs, fixed, change, est, times } => {
            let again = |pool: &Vec<U>, outs: &Vec<(u8, u64, Vec<(u8, u64)>)>, fixed: &Vec<U>, times: u8| Op::Balance { single: *single, sel: *sel, pool: pool.clone(), outs: outs.clone(), fixed: fixed.clone(), change: *change, est: est.clone(), times };
            if *times > 0 { r.push(again(pool, outs, fixed, 0)); }
            for k in 0..pool.len() { let mut p = pool.clone(); p.remove(k); r.push(again(&p, outs, fixed, *times)); }
            for k in 0..outs.len() { let mut o = outs.clone(); o.remove(k); r.push(again(pool, &o, fixed, *times)); }
            for k in 0..fixed.len() { let mut f = fixed.clone(); f.remove(k); r.push(again(pool, outs, &f, *times)); }
            for k in 0..outs.len() { for a in 0..outs[k].2.len() { let mut o = outs.clone(); o[k].2.remove(a); r.push(again(pool, &o, fixed, *times)); } }
        }
        Op::Derive { from, to, edits, compat } => for k in 0..edits.len() { let mut e = edits.clone(); e.remove(k); r.push(Op::Derive { from: *from, to: *to, edits: e, compat: *compat }); },
        _ => {}
    }
    r
}
