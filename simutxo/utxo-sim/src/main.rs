//! UTxO selection and the UTxO store under simulation: seeded random draws and hash orders, estimators that fail at any
//! call, threads that derive stores from shared ones under every interleaving.
mod gen;
use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
use dcspark_core::{Address, Regulated, TokenId, UTxOStore, Value};
use instr_utxo::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use simrt::driver::*;
use simrt::hist::{ev, Ev};
use simrt::shared;
use simrt::rng::{hash_bytes, Rng};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};
use utxo_selection::algorithms::{FeeChangeBalancer, LargestFirst, RandomImprove, SingleOutputChangeBalancer, Thermostat, ThermostatAlgoConfig};
use utxo_selection::{InputOutputSetup, InputSelectionAlgorithm, InputSelectionResult, TransactionFeeEstimator, UTxOStoreSupport};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EstSpec { pub base: u64, pub per_in: u64, pub per_out: u64, pub min_out: u64, pub max_size: usize, #[serde(default)] pub more_in: u64, #[serde(default)] pub more_out: u64, #[serde(default)] pub fail_at: Option<u64> }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    // selection
    New { alg: u8, pool: Vec<U>, store: bool, cfg: (usize, usize, u64, u64) },
    Set { pool: Vec<U>, store: bool },
    Select { outs: Vec<(u8, u64, Vec<(u8, u64)>)>, fixed: Vec<U>, change: bool, est: EstSpec },
    Reset,
    /// Balance the change of a transaction, of fixed inputs or of a selection made by an algorithm from the pool.
    Balance { single: bool, sel: Option<u8>, pool: Vec<U>, outs: Vec<(u8, u64, Vec<(u8, u64)>)>, fixed: Vec<U>, change: bool, est: EstSpec, times: u8 },
    // stores
    Derive { from: usize, to: usize, edits: Vec<Edit>, compat: bool },
    Check { slot: usize },
    Hold { slot: usize },
    CheckHeld,
    DropHeld,
}

pub struct Est { s: EstSpec, ins: u64, outs: u64, calls: Cell<u64>, pub failed: Cell<bool> }
impl Est {
    fn new(s: &EstSpec, ins: u64, outs: u64) -> Est { Est { s: s.clone(), ins, outs, calls: Cell::new(0), failed: Cell::new(false) } }
    fn call(&self) -> anyhow::Result<()> {
        self.calls.set(self.calls.get() + 1);
        if Some(self.calls.get()) == self.s.fail_at { self.failed.set(true); shared::count("fault", "estimator_error"); anyhow::bail!("injected estimator failure"); }
        Ok(())
    }
    fn fee(&self) -> u64 { self.s.base + self.ins * self.s.per_in + self.outs * self.s.per_out }
}
impl TransactionFeeEstimator for Est {
    type InputUtxo = UTxODetails;
    type OutputUtxo = UTxOBuilder;
    fn min_required_fee(&self) -> anyhow::Result<Value<Regulated>> { self.call()?; Ok(main_value(self.fee())) }
    fn fee_for_input(&self, _: &UTxODetails) -> anyhow::Result<Value<Regulated>> { self.call()?; Ok(main_value(self.s.per_in + self.s.more_in)) }
    fn add_input(&mut self, _: UTxODetails) -> anyhow::Result<()> { self.call()?; self.ins += 1; Ok(()) }
    fn fee_for_output(&self, _: &UTxOBuilder) -> anyhow::Result<Value<Regulated>> { self.call()?; Ok(main_value(self.s.per_out + self.s.more_out)) }
    fn add_output(&mut self, _: UTxOBuilder) -> anyhow::Result<()> { self.call()?; self.outs += 1; Ok(()) }
    fn min_value_for_output(&mut self, _: UTxOBuilder) -> anyhow::Result<Value<Regulated>> { self.call()?; Ok(main_value(self.s.min_out)) }
    fn current_size(&self) -> anyhow::Result<usize> { self.call()?; Ok(self.fee() as usize) }
    fn max_size(&self) -> anyhow::Result<usize> { self.call()?; Ok(self.s.max_size) }
}

enum Alg { Largest(LargestFirst), Random(RandomImprove), Thermo(Thermostat) }
impl Alg {
    fn available(&self) -> Vec<UTxODetails> { match self { Alg::Largest(a) => a.available_inputs(), Alg::Random(a) => a.available_inputs(), Alg::Thermo(a) => a.available_inputs() } }
    fn store(&mut self) -> Option<UTxOStore> { match self { Alg::Largest(a) => a.get_available_utxos().ok(), Alg::Random(_) => None, Alg::Thermo(a) => a.get_available_utxos().ok() } }
    fn set(&mut self, pool: &[U], store: bool) -> Result<(), String> {
        let v: Vec<_> = pool.iter().map(details).collect();
        match self {
            Alg::Largest(a) => if store { a.set_available_utxos(to_store(pool)) } else { a.set_available_inputs(v) },
            Alg::Random(a) => a.set_available_inputs(v),
            Alg::Thermo(a) => if store { a.set_available_utxos(to_store(pool)) } else { a.set_available_inputs(v) },
        }.map_err(|e| format!("{e:#}"))
    }
    fn select(&mut self, e: &mut Est, s: InputOutputSetup<UTxODetails, UTxOBuilder>) -> anyhow::Result<InputSelectionResult<UTxODetails, UTxOBuilder>> {
        match self { Alg::Largest(a) => a.select_inputs(e, s), Alg::Random(a) => a.select_inputs(e, s), Alg::Thermo(a) => a.select_inputs(e, s) }
    }
}
fn to_store(pool: &[U]) -> UTxOStore { let mut m = UTxOStore::new().thaw(); for u in pool { m.insert(details(u)).expect("distinct UTxOs"); } m.freeze() }
fn content(pool: &[U]) -> Content { pool.iter().map(|u| (u.id, u.clone())).collect() }
type Cfg = (usize, usize, u64, u64);
fn cfg(c: &Cfg) -> ThermostatAlgoConfig {
    serde_json::from_value(json!({"num_accumulators": c.0, "num_accumulators_assets": c.1, "native_utxo_thermostat_min": main_value(c.2), "native_utxo_thermostat_max": main_value(c.3), "main_token": TokenId::MAIN})).expect("configuration")
}
type Slot = Arc<(UTxOStore, Content)>;
pub struct Sim;
pub struct St { slots: Mutex<Vec<Slot>>, n: usize, tokens: u8, universe: u32 }
#[derive(Default)]
pub struct Tl { single: SingleOutputChangeBalancer, fee: FeeChangeBalancer, single_avail: Content, fee_avail: Content, cfg: Cfg, alg: Option<(u8, Alg)>, avail: Content, held: Vec<(Slot, UTxOStore)> }

fn sums<'a>(ins: impl Iterator<Item = (&'a Value<Regulated>, &'a Vec<TransactionAsset>)>) -> (Value<Regulated>, BTreeMap<TokenId, Value<Regulated>>) {
    let (mut v, mut m) = (Value::zero(), BTreeMap::<TokenId, Value<Regulated>>::new());
    for (x, a) in ins { v += x; for t in a { *m.entry(t.fingerprint.clone()).or_default() += &t.quantity; } }
    m.retain(|_, q| *q != Value::zero());
    (v, m)
}
fn reported(m: &HashMap<TokenId, TransactionAsset>) -> Result<BTreeMap<TokenId, Value<Regulated>>, String> {
    let mut r = BTreeMap::new();
    for (t, a) in m {
        if a.fingerprint != *t || token_no(t).map(ids) != Some((a.policy_id.clone(), a.asset_name.clone())) { return Err(format!("the balance of {t} is reported as {a:?}")); }
        if a.quantity != Value::zero() { r.insert(t.clone(), a.quantity.clone()); }
    }
    Ok(r)
}
type Bad = (&'static str, String);
fn available_is(alg: &mut Alg, avail: &Content) -> Result<(), String> {
    let mut seen = BTreeSet::new();
    for d in alg.available() {
        let id = id_of(&d.pointer);
        if avail.get(&id).map(details).as_ref() != Some(&d) { return Err(format!("{} is available and should not be", d.pointer)); }
        if !seen.insert(id) { return Err(format!("{} is available twice", d.pointer)); }
    }
    if let Some(x) = avail.keys().find(|k| !seen.contains(k)) { return Err(format!("{} is no longer available", pointer(*x))); }
    if let Some(s) = alg.store() { observe(&s, avail, 6, 0)?; }
    Ok(())
}
/// Judges a successful selection; gives the chosen identifiers.
fn judge(kind: u8, r: &InputSelectionResult<UTxODetails, UTxOBuilder>, avail: &Content, fixed: &[UTxODetails], outs: &[UTxOBuilder], e: &Est, tmin: u64, change: Option<&Address>) -> Result<Vec<u32>, Bad> {
    let mut ids = vec![];
    for d in &r.chosen_inputs {
        let id = id_of(&d.pointer);
        if avail.get(&id).map(details).as_ref() != Some(d) { return Err(("not-available", format!("chose {}, which is not available", d.pointer))); }
        if ids.contains(&id) { return Err(("twice", format!("chose {} twice", d.pointer))); }
        ids.push(id);
    }
    if r.fixed_inputs != fixed || r.fixed_outputs != outs { return Err(("fixed", "the fixed inputs or outputs are not those asked for".into())); }
    if let Some(c) = r.changes.iter().find(|c| Some(&c.address) != change) { return Err(("changes", format!("made a change to {:?}, the change address is {change:?}", c.address))); }
    if kind > 2 && !r.chosen_inputs.is_empty() { return Err(("chose", "balancing the change chose inputs".into())); }
    if kind == 3 && (r.changes.len() != 1) { return Err(("changes", format!("made the changes {:?}", r.changes))); }
    if r.changes.iter().any(|c| c.value < Value::zero() || c.assets.iter().any(|a| a.quantity < Value::zero())) || r.fee < Value::zero() { return Err(("negative", format!("fee {}, changes {:?}", r.fee, r.changes))); }
    if (kind < 2 || kind == 4) && !r.changes.is_empty() { return Err(("changes", "made change outputs".into())); }
    let (iv, ia) = sums(r.fixed_inputs.iter().chain(&r.chosen_inputs).map(|d| (&d.value, &d.assets)));
    let (ov, oa) = sums(r.fixed_outputs.iter().chain(&r.changes).map(|d| (&d.value, &d.assets)));
    let (ria, roa) = (reported(&r.input_asset_balance).map_err(|x| ("reported", x))?, reported(&r.output_asset_balance).map_err(|x| ("reported", x))?);
    if r.input_balance != iv { return Err(("reported", format!("reports {} of the main coin in the inputs, which hold {iv}", r.input_balance))); }
    if r.output_balance != ov { return Err(("reported", format!("reports {} of the main coin in the outputs, which hold {ov}", r.output_balance))); }
    if ria != ia { return Err(("reported", format!("reports {ria:?} in the inputs, which hold {ia:?}"))); }
    if roa != oa { return Err(("reported", format!("reports {roa:?} in the outputs, which hold {oa:?}"))); }
    for (t, q) in &oa { if ia.get(t).cloned().unwrap_or_default() < *q { return Err(("uncovered", format!("the inputs hold {:?} of {t}, the outputs {q}", ia.get(t)))); } }
    let total = &ov + &r.fee;
    if iv < total { return Err(("uncovered", format!("the inputs hold {iv}, outputs and fee need {total}"))); }
    if kind >= 2 && (iv != total || ia != oa) { return Err(("unbalanced", format!("inputs {iv} {ia:?}, outputs and fee {total} {oa:?}"))); }
    // what the estimator asks for the transaction reported, whatever of it the algorithm told the estimator
    let quote = main_value(e.s.base + e.s.per_in * (r.fixed_inputs.len() + r.chosen_inputs.len()) as u64 + e.s.per_out * (r.fixed_outputs.len() + r.changes.len()) as u64);
    if tmin >= e.s.min_out {
        if let Some(c) = r.changes.iter().find(|c| c.value < main_value(e.s.min_out)) { return Err(("below-minimum", format!("a change holds {}, the estimator asks for {} in an output", c.value, e.s.min_out))); }
    }
    if let Some(c) = r.changes.iter().find(|c| c.assets.iter().any(|a| a.quantity == Value::zero())) { return Err(("nothing-of-asset", format!("a change lists none of an asset: {:?}", c.assets))); }
    if e.failed.get() { shared::count("op", "selected_despite_estimator_error"); }
    if r.fee < quote { return Err(("fee", format!("the fee is {}, the estimator asks for {quote}", r.fee))); }
    // the estimator is the caller's: what it is asked afterwards (by whoever balances or builds on this) is about the whole of it
    if main_value(e.fee()) < quote { return Err(("estimate", format!("the estimator was told of {} inputs and {} outputs, the transaction has {} and {}", e.ins, e.outs, r.fixed_inputs.len() + r.chosen_inputs.len(), r.fixed_outputs.len() + r.changes.len()))); }
    Ok(ids)
}
/// Must a request succeed? Some only where the algorithm leaves no doubt.
fn must(kind: u8, avail: &Content, fixed: &[U], outs: &[(u8, u64, Vec<(u8, u64)>)], e: &EstSpec, c: &Cfg, change: bool) -> Option<bool> {
    if e.fail_at.is_some() || avail.values().any(|u| u.value < e.per_in + e.more_in) { return None; }
    let need: u64 = outs.iter().map(|o| o.1).sum::<u64>() + e.base + (e.per_in + e.more_in) * (avail.len() + fixed.len()) as u64 + (e.per_out + e.more_out) * outs.len() as u64;
    let have: u64 = avail.values().chain(fixed).map(|u| u.value).sum();
    match kind {
        0 => {
            let q = |v: &Vec<(u8, u64)>, t: u8| v.iter().find(|a| a.0 == t).map_or(0, |a| a.1);
            let tokens = (0..8).all(|t| avail.values().chain(fixed).map(|u| q(&u.assets, t)).sum::<u64>() >= outs.iter().map(|o| q(&o.2, t)).sum::<u64>());
            Some(tokens && have >= need)
        }
        // with a change address and room for everything: enough UTxOs of just the main coin and of just each asset
        2 if change && !outs.is_empty() && e.max_size >= 1 << 50 => {
            let tokens: BTreeSet<u8> = fixed.iter().flat_map(|u| &u.assets).map(|a| a.0).chain(outs.iter().flat_map(|o| &o.2).map(|a| a.0)).collect();
            let sum = |t: u8| -> u64 { avail.values().filter(|u| u.assets.len() == 1 && u.assets[0].0 == t).map(|u| u.assets[0].1).sum::<u64>() + fixed.iter().flat_map(|u| &u.assets).filter(|a| a.0 == t).map(|a| a.1).sum::<u64>() };
            let assets = tokens.iter().all(|t| sum(*t) >= outs.iter().flat_map(|o| &o.2).filter(|a| a.0 == *t).map(|a| a.1).sum());
            let most = need + 2 * (tokens.len() as u64 + 1) * (c.3.max(e.min_out) + 2 * (e.per_out + e.more_out));
            let main: u64 = avail.values().filter(|u| u.assets.is_empty()).map(|u| u.value).sum::<u64>();
            // something has to be selected
            let some = fixed.iter().map(|u| u.value).sum::<u64>() < outs.iter().map(|o| o.1).sum::<u64>() + e.base;
            if assets && some && main >= most { Some(true) } else { None }
        }
        1 if outs.len() <= 1 && fixed.is_empty() && outs.iter().all(|o| o.2.is_empty()) => Some(have >= need),
        _ => None,
    }
}
fn outputs(o: &[(u8, u64, Vec<(u8, u64)>)]) -> Vec<UTxOBuilder> { o.iter().map(|(a, v, t)| UTxOBuilder::new(Address::new(format!("to{a}")), main_value(*v), t.iter().map(|x| asset(x.0, x.1)).collect())).collect() }

impl Scenario for Sim {
    type Op = Op;
    type St = St;
    type Tl = Tl;
    fn start(&self, plan: &Plan<Op>, _inc: usize, _root: &str) -> St {
        for (k, n) in ["exp", "asset_exp", "forms"].iter().enumerate() { EXP[k].store(plan.knob(n), std::sync::atomic::Ordering::Relaxed); }
        St { slots: Mutex::new(vec![]), n: plan.knob("slots").max(1) as usize, tokens: plan.knob("tokens") as u8, universe: plan.knob("universe") as u32 }
    }
    fn thread(&self, st: &St, n: usize) -> Tl {
        // not before the simulation started: the maps draw hash keys
        if n == 0 { *st.slots.lock().unwrap() = (0..st.n).map(|_| Arc::new((UTxOStore::new(), Content::new()))).collect(); }
        Tl::default()
    }
    fn exec(&self, st: &St, tl: &mut Tl, id: u32, op: &Op) {
        let bad = |c: &str, d: String| ev("bad", id, json!([c, d]));
        match op {
            Op::New { alg, pool, store, cfg: c } => {
                let v: Vec<_> = pool.iter().map(details).collect();
                shared::count("op", ["new_largest_first", "new_random_improve", "new_thermostat"][*alg as usize]);
                let a = match alg {
                    0 => if *store { LargestFirst::try_from(to_store(pool)) } else { LargestFirst::try_from(v) }.map(Alg::Largest),
                    1 => if *store { RandomImprove::try_from(to_store(pool)) } else { RandomImprove::try_from(v) }.map(Alg::Random),
                    _ => { let mut t = Thermostat::new(cfg(c)); if *store { t.set_available_utxos(to_store(pool)) } else { t.set_available_inputs(v) }.map(|_| Alg::Thermo(t)) }
                };
                match a {
                    Ok(mut a) => {
                        tl.cfg = *c;
                        tl.avail = content(pool);
                        if let Err(x) = available_is(&mut a, &tl.avail) { bad("available", x); }
                        tl.alg = Some((*alg, a));
                    }
                    Err(x) => bad("refused", format!("{x:#}")),
                }
            }
            Op::Set { pool, store } => {
                let Some((_, a)) = tl.alg.as_mut() else { return };
                shared::count("op", "set_available");
                match a.set(pool, *store) {
                    Ok(()) => { tl.avail = content(pool); if let Err(x) = available_is(a, &tl.avail) { bad("available", format!("after replacing the available inputs: {x}")); } }
                    Err(x) => bad("refused", x),
                }
            }
            Op::Select { outs, fixed, change, est } => {
                let Some((kind, a)) = tl.alg.as_mut() else { return };
                let (o, f) = (outputs(outs), fixed.iter().map(details).collect::<Vec<_>>());
                let mut e = Est::new(est, f.len() as u64, o.len() as u64);
                let to = if *change { Some(Address::new(format!("change{id}"))) } else { None };
                let setup = InputOutputSetup::from_fixed_inputs_and_outputs(f.clone(), o.clone(), to.clone());
                shared::count("op", "select");
                let due = must(*kind, &tl.avail, fixed, outs, est, &tl.cfg, *change) == Some(true);
                if due { shared::count("op", ["due_largest_first", "due_random_improve", "due_thermostat"][*kind as usize]); }
                match a.select(&mut e, setup) {
                    Ok(r) => match judge(*kind, &r, &tl.avail, &f, &o, &e, tl.cfg.2, to.as_ref()) {
                        Ok(ids) => {
                            shared::count("op", ["selected_largest_first", "selected_random_improve", "selected_thermostat"][*kind as usize]);
                            if !r.changes.is_empty() { shared::count("op", "made_change"); }
                            for i in &ids { tl.avail.remove(i); }
                            if let Err(x) = available_is(a, &tl.avail) { bad("available", format!("after a selection of {} inputs: {x}", ids.len())); }
                            ev("selected", id, json!({"ids": ids, "fee": r.fee, "changes": r.changes.len()}));
                        }
                        Err((c, d)) => bad(c, d),
                    },
                    Err(x) => {
                        shared::count("op", "select_failed");
                        if let Err(x) = available_is(a, &tl.avail) { bad("lost", format!("after a failed selection: {x}")); }
                        if due { bad("refused", format!("a request that can be met failed: {x:#}")); }
                        ev("failed", id, json!(format!("{x:#}")));
                    }
                }
            }
            Op::Balance { single, sel, pool, outs, fixed, change, est, times } => {
                let (o, f) = (outputs(outs), fixed.iter().map(details).collect::<Vec<_>>());
                let address = if *change { Some(Address::new("change")) } else { None };
                let mut setup = InputOutputSetup::from_fixed_inputs_and_outputs(f, o.clone(), address.clone());
                let mut e = Est::new(est, fixed.len() as u64, outs.len() as u64);
                if let Some(kind) = sel {
                    let v = pool.iter().map(details).collect::<Vec<_>>();
                    let mut a = match kind { 0 => Alg::Largest(LargestFirst::try_from(v).expect("distinct UTxOs")), _ => Alg::Random(RandomImprove::try_from(v).expect("a list")) };
                    let Ok(r) = a.select(&mut e, setup) else { shared::count("op", "select_failed"); return };
                    shared::count("op", "balance_of_selection");
                    setup = InputOutputSetup { input_balance: r.input_balance, input_asset_balance: r.input_asset_balance, output_balance: r.output_balance, output_asset_balance: r.output_asset_balance,
                        fixed_inputs: r.chosen_inputs.into_iter().chain(r.fixed_inputs).collect(), fixed_outputs: r.fixed_outputs, change_address: address.clone() };
                } else if !pool.is_empty() {
                    let (v, store) = (pool.iter().map(details).collect::<Vec<_>>(), pool.len() % 2 == 0);
                    let done = match (*single, store) {
                        (true, true) => tl.single.set_available_utxos(to_store(pool)), (true, false) => tl.single.set_available_inputs(v),
                        (false, true) => tl.fee.set_available_utxos(to_store(pool)), (false, false) => tl.fee.set_available_inputs(v),
                    };
                    if let Err(x) = done { bad("refused", format!("{x:#}")); return; }
                    if *single { tl.single_avail = content(pool) } else { tl.fee_avail = content(pool) }
                }
                let fixed = setup.fixed_inputs.clone();
                let (iv, ia) = sums(fixed.iter().map(|d| (&d.value, &d.assets)));
                let (ov, oa) = sums(o.iter().map(|d| (&d.value, &d.assets)));
                // what the transaction costs with the change it is given
                let quote = main_value(est.base + est.per_in * fixed.len() as u64 + est.per_out * o.len() as u64 + if *single { est.per_out + est.more_out } else { 0 });
                let can = iv >= &ov + &quote && if *single { *change && oa.iter().all(|(t, q)| ia.get(t).is_some_and(|i| i >= q)) } else { ia == oa };
                let calls = e.calls.get();
                for k in 0..1 + *times as u64 {
                    // each time with a fresh estimate of the same transaction; only the first fails
                    let mut e = Est { calls: Cell::new(calls), s: if k == 0 { est.clone() } else { EstSpec { fail_at: None, ..est.clone() } }, ..Est::new(est, fixed.len() as u64, o.len() as u64) };
                    shared::count("op", if *single { "balance_single_output" } else { "balance_fee" });
                    let r = if *single { tl.single.select_inputs(&mut e, setup.clone()) } else { tl.fee.select_inputs(&mut e, setup.clone()) };
                    match r {
                        Ok(r) => {
                            shared::count("op", "balanced");
                            if let Err((c, d)) = judge(if *single { 3 } else { 4 }, &r, &Content::new(), &fixed, &o, &e, 0, address.as_ref()) { bad(c, d); return; }
                            if !can { bad("balanced-anyway", format!("inputs {iv} {ia:?}, outputs {ov} {oa:?}, fee {quote}")); }
                            ev("selected", id, json!({"fee": r.fee, "changes": r.changes.iter().map(|c| format!("{} {:?}", c.value, sums(std::iter::once((&c.value, &c.assets))).1)).collect::<Vec<_>>()}));
                        }
                        Err(x) => { shared::count("op", "balance_failed"); if can && !e.failed.get() { bad("refused", format!("inputs {iv} {ia:?}, outputs {ov} {oa:?}, fee {quote}: {x:#}")); } }
                    }
                    let (got, want) = if *single { (tl.single.available_inputs(), &tl.single_avail) } else { (tl.fee.available_inputs(), &tl.fee_avail) };
                    if got.iter().map(|d| (id_of(&d.pointer), d.clone())).collect::<BTreeMap<_, _>>() != want.iter().map(|(i, u)| (*i, details(u))).collect() || got.len() != want.len() { bad("available", "balancing the change touched the available inputs".into()); }
                }
            }
            Op::Reset => { if let Some((_, Alg::Thermo(t))) = tl.alg.as_mut() { t.reset(); if let Err(x) = available_is(&mut tl.alg.as_mut().unwrap().1, &tl.avail) { bad("lost", format!("after a reset: {x}")); } } }
            Op::Derive { from, to, edits, compat } => {
                let s = { st.slots.lock().unwrap()[*from].clone() };
                shared::count("op", "derive");
                match derive(&s.0, &s.1, edits, st.tokens, *compat) {
                    Ok((n, c)) => {
                        if let Err(x) = observe(&n, &c, st.tokens, st.universe) { bad("derived", x); }
                        if let Err(x) = observe(&s.0, &s.1, st.tokens, st.universe) { bad("source-changed", x); }
                        ev("derived", id, json!({"n": c.len(), "h": hash_bytes(5, format!("{c:?}").as_bytes())}));
                        let n = Arc::new((n, c));
                        let old = { std::mem::replace(&mut st.slots.lock().unwrap()[*to], n) };
                        drop(old);
                    }
                    Err(x) => bad("derive", x),
                }
            }
            Op::Check { slot } => { let s = { st.slots.lock().unwrap()[*slot].clone() }; shared::count("op", "check"); if let Err(x) = observe(&s.0, &s.1, st.tokens, st.universe) { bad("frozen-changed", x); } }
            Op::Hold { slot } => { let s = { st.slots.lock().unwrap()[*slot].clone() }; let c = s.0.clone(); tl.held.push((s, c)); }
            Op::CheckHeld => for (s, c) in &tl.held {
                shared::count("op", "check_held");
                if let Err(x) = observe(c, &s.1, st.tokens, st.universe) { bad("clone-changed", x); }
                if let Err(x) = observe(&s.0, &s.1, st.tokens, st.universe) { bad("frozen-changed", x); }
            },
            Op::DropHeld => tl.held.clear(),
        }
    }
    fn gen(&self, prop: &str, rng: &mut Rng, thorough: bool) -> Plan<Op> { gen::gen(prop, rng, thorough) }
    fn check(&self, plan: &Plan<Op>, hist: &[Ev]) -> Option<Violation> {
        for e in hist {
            match e.k.as_str() {
                "bad" => return Some(violation(&plan.prop, e.v[0].as_str().unwrap(), format!("operation {}: {}", e.id, e.v[1].as_str().unwrap()))),
                "panic" => return Some(violation(&plan.prop, "panic", format!("operation {}: {}", e.id, e.v))),
                "fatal" => return Some(violation(&plan.prop, &e.kind, e.msg.clone())),
                _ => {}
            }
        }
        None
    }
    fn simplify(&self, op: &Op) -> Vec<Op> { gen::simplify(op) }
    fn nontrivial(&self, plan: &Plan<Op>, hist: &[Ev]) -> bool {
        let n = |k: &str| hist.iter().filter(|e| e.k == k).count();
        if plan.prop != "C41" { n("selected") > 0 } else { n("derived") > 1 }
    }
}

fn config(prop: &str, tier: &str) -> Config {
    let thorough = tier == "thorough";
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    Config {
        prop: prop.into(), tier: tier.into(), seed: 1, runs: if thorough { 40_000_000 } else { 400_000 }, secs: if thorough { 900 } else { 50 }, workers: 8,
        rule: if prop == "C40" { "sequences of selections, replacements of the available inputs and resets over one algorithm, with pools of tied, mixed and small UTxOs, fixed inputs, repeated and zero outputs, estimators failing at a random call, and the random generator and the hash keys drawn from the seed; non-trivial: a selection succeeded; distinct by the hash of the history" }
            else if prop == "C42" { "the change of transactions of fixed inputs, or of what largest-first or random-improve selected, balanced to a single output or to the fee, with assets left over, exact, short or missing, excesses around the cost of a change, estimators failing at a random call and the call repeated afterwards, hash keys and random choices drawn from the seed; non-trivial: a balance was made; distinct by the hash of the history" }
            else { "1 to 4 threads derive stores from shared slots by thawing, inserting, removing and freezing, hold clones, and check everything a store shows, interleaved at memory accesses; non-trivial: two derivations; distinct by schedule and history" }.into(),
        real: s(&["utxo-selection algorithms (without the two estimators that need cardano-multiplatform-lib)", "dcspark-core UTxOStore, values and balances (instrumented)", "imbl, rand, bigdecimal"]),
        stubs: s(&["fee estimator (linear, fails on demand)", "getrandom"]),
        assumptions: s(&["the UTxOs given have distinct pointers, an output lists an asset once, the setup's balances are those of its fixed inputs and outputs", "sequentially consistent memory"]),
        level: "exploration".into(), verif: String::new(), fault_kinds: if prop != "C41" { s(&["estimator_error"]) } else { vec![] }, probes_expected: vec![], program: String::new(),
    }
}
fn make(_p: &str) -> Sim { Sim }
fn main() { std::process::exit(main_with(make, config)); }
