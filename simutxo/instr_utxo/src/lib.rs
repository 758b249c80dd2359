//! The store's operations, compiled with the instrumentation, and what a store must show for a given content.
use dcspark_core::tx::{TransactionAsset, TransactionId, UTxODetails, UtxoPointer};
use dcspark_core::{Address, AssetName, OutputIndex, PolicyId, Regulated, TokenId, UTxOStore, UTxOStoreMut, Value};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use std::sync::Arc;

/// Powers of ten by which the numbers of the plan are multiplied: the main coin, the assets, and whether the decimals are
/// written in different ways.
pub static EXP: [AtomicI64; 3] = [AtomicI64::new(0), AtomicI64::new(0), AtomicI64::new(0)];
fn decimal(x: u64, exp: i64) -> bigdecimal::BigDecimal {
    use bigdecimal::BigDecimal;
    // x * 10^exp, as the digits times a power of ten, or with the power written out, or with decimals
    let d = BigDecimal::new(x.into(), -exp);
    match EXP[2].load(Relaxed) { 0 => if exp >= 0 { d.with_scale(0) } else { d }, 1 => d, _ => match x % 3 { 0 => d.with_scale(exp.unsigned_abs() as i64), 1 => d.with_scale(3 + exp.unsigned_abs() as i64), _ => d } }
}
/// An amount of the main coin, and one of an asset.
pub fn main_value(x: u64) -> Value<Regulated> { Value::new(decimal(x, EXP[0].load(Relaxed))) }
pub fn asset_value(x: u64) -> Value<Regulated> { Value::new(decimal(x, EXP[1].load(Relaxed))) }
pub fn value_of(main: bool, x: u64) -> Value<Regulated> { if main { main_value(x) } else { asset_value(x) } }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct U { pub id: u32, pub value: u64, #[serde(default)] pub assets: Vec<(u8, u64)> }
pub type Content = BTreeMap<u32, U>;

pub fn token(t: u8) -> TokenId { TokenId::new(format!("asset1{t}")) }
pub fn token_no(t: &TokenId) -> Option<u8> { t.as_ref().strip_prefix("asset1")?.parse().ok() }
pub fn ids(t: u8) -> (PolicyId, AssetName) { (PolicyId::new(format!("policy{}", t / 2)), AssetName::new(format!("name{t}"))) }
pub fn asset(t: u8, q: u64) -> TransactionAsset { let (policy_id, asset_name) = ids(t); TransactionAsset { policy_id, asset_name, fingerprint: token(t), quantity: asset_value(q) } }
pub fn pointer(id: u32) -> UtxoPointer { UtxoPointer { transaction_id: TransactionId::new(format!("tx{}", id / 3)), output_index: OutputIndex::new((id % 3) as u64) } }
pub fn id_of(p: &UtxoPointer) -> u32 {
    let t: u32 = AsRef::<str>::as_ref(&p.transaction_id).strip_prefix("tx").and_then(|x| x.parse().ok()).unwrap_or(u32::MAX / 3 - 1);
    (0..3).find(|i| p.output_index == OutputIndex::new(*i as u64)).map_or(u32::MAX, |i| t * 3 + i)
}
pub fn details(u: &U) -> UTxODetails {
    UTxODetails { pointer: pointer(u.id), address: Address::new(format!("addr{}", u.id % 4)), value: main_value(u.value), assets: u.assets.iter().map(|a| asset(a.0, a.1)).collect(), metadata: Arc::new(Default::default()), extra: if u.id % 5 == 0 { Some(format!("x{}", u.id)) } else { None } }
}
/// (identifier, quantity) of what is listed under a token; None stands for the main coin
fn expected(c: &Content, t: Option<u8>) -> Vec<(u32, u64)> {
    c.values().filter_map(|u| match t { None => Some((u.id, u.value)), Some(t) => u.assets.iter().find(|a| a.0 == t).map(|a| (u.id, a.1)) }).collect()
}
fn same<'a>(what: &str, c: &Content, got: impl Iterator<Item = &'a UTxODetails>, want: &[(u32, u64)], order: i32) -> Result<(), String> {
    let mut seen = vec![];
    let mut last: Option<u64> = None;
    for d in got {
        let id = id_of(&d.pointer);
        let Some(w) = want.iter().find(|w| w.0 == id) else { return Err(format!("{what} lists {}, which should not be there", d.pointer)) };
        if c.get(&id).map(details).as_ref() != Some(d) { return Err(format!("{what} lists {} with a wrong content", d.pointer)); }
        if seen.contains(&id) { return Err(format!("{what} lists {} twice", d.pointer)); }
        seen.push(id);
        if let Some(l) = last { if (order > 0 && l > w.1) || (order < 0 && l < w.1) { return Err(format!("{what} is not ordered: {l} before {}", w.1)); } }
        last = Some(w.1);
    }
    if seen.len() != want.len() { return Err(format!("{what} lists {} UTxOs instead of {}", seen.len(), want.len())); }
    Ok(())
}
/// Everything the store shows, against its content.
pub fn observe(s: &UTxOStore, c: &Content, tokens: u8, universe: u32) -> Result<(), String> {
    if s.len() != c.len() || s.is_empty() != c.is_empty() { return Err(format!("len {} and is_empty {} for {} UTxOs", s.len(), s.is_empty(), c.len())); }
    let main = expected(c, None);
    for (p, d) in s.iter() { if *p != d.pointer { return Err(format!("{p} leads to {}", d.pointer)); } }
    same("iter", c, s.iter().map(|x| x.1.as_ref()), &main, 0)?;
    same("iter_ordered_by_wmain", c, s.iter_ordered_by_wmain(), &main, 1)?;
    for id in 0..universe {
        let p = pointer(id);
        let want = c.get(&id).map(details);
        if s.get(&p) != want.as_ref() || s.contains(&p) != want.is_some() { return Err(format!("get or contains is wrong for {p}")); }
    }
    for t in std::iter::once(None).chain((0..tokens).map(Some)) {
        let tk = t.map_or(TokenId::MAIN, token);
        let want = expected(c, t);
        let total: u64 = want.iter().map(|w| w.1).sum();
        for (p, d) in s.iter_token(&tk) { if *p != d.pointer { return Err(format!("{p} leads to {}", d.pointer)); } }
        same(&format!("iter_token({tk})"), c, s.iter_token(&tk).map(|x| x.1.as_ref()), &want, 0)?;
        same(&format!("iter_token_ordered_by_value({tk})"), c, s.iter_token_ordered_by_value(&tk), &want, 1)?;
        same(&format!("iter_token_ordered_by_value_rev({tk})"), c, s.iter_token_ordered_by_value_rev(&tk), &want, -1)?;
        if s.number_utxos_for_token(&tk) != want.len() { return Err(format!("number_utxos_for_token({tk}) is {} instead of {}", s.number_utxos_for_token(&tk), want.len())); }
        let b = s.get_balance_of(&tk);
        if b.clone().unwrap_or_else(Value::zero) != value_of(t.is_none(), total) || (b.is_none() && !want.is_empty()) { return Err(format!("the balance of {tk} is {b:?} instead of {total}")); }
        if let Some(t) = t {
            if s.contains_token(&tk) != !want.is_empty() { return Err(format!("contains_token({tk}) is {}", s.contains_token(&tk))); }
            if let Some(i) = s.get_asset_ids(&tk) { if *i != ids(t) { return Err(format!("get_asset_ids({tk}) is {i:?}")); } } else if !want.is_empty() { return Err(format!("get_asset_ids({tk}) is unknown")); }
        }
    }
    Ok(())
}
pub fn observe_mut(s: &UTxOStoreMut, c: &Content, tokens: u8) -> Result<(), String> {
    let total: u64 = c.values().map(|u| u.value).sum();
    if s.balance() != main_value(total) { return Err(format!("balance() is {} instead of {total}", s.balance())); }
    for t in std::iter::once(None).chain((0..tokens).map(Some)) {
        let tk = t.map_or(TokenId::MAIN, token);
        let want = expected(c, t);
        let total: u64 = want.iter().map(|w| w.1).sum();
        let b = s.token_balance(&tk);
        if b.clone().unwrap_or_else(Value::zero) != value_of(t.is_none(), total) || (b.is_none() && !want.is_empty()) { return Err(format!("token_balance({tk}) is {b:?} instead of {total}")); }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit { Ins(U), Rem(u32) }
/// Thaws, edits, freezes. What the edits must do is judged against the content.
pub fn derive(s: &UTxOStore, c: &Content, edits: &[Edit], tokens: u8, compat: bool) -> Result<(UTxOStore, Content), String> {
    let mut m = s.thaw();
    let mut c = c.clone();
    let mut named: Vec<u8> = (0..tokens).filter(|t| s.get_asset_ids(&token(*t)).is_some()).collect();
    for e in edits {
        match e {
            Edit::Ins(u) => {
                let r = if compat { m.insert_compat(details(u)) } else { m.insert(details(u)) };
                let new = !c.contains_key(&u.id);
                if r.is_ok() != new { return Err(format!("inserting {}, {}, gave {r:?}", pointer(u.id), if new { "which is new" } else { "which is there" })); }
                if new { named.extend(u.assets.iter().map(|a| a.0)); c.insert(u.id, u.clone()); }
            }
            Edit::Rem(id) => {
                let r = m.remove(&pointer(*id));
                let was = c.remove(id).is_some();
                if r.is_ok() != was { return Err(format!("removing {}, {}, gave {r:?}", pointer(*id), if was { "which is there" } else { "which is not there" })); }
            }
        }
        observe_mut(&m, &c, tokens).map_err(|x| format!("after {e:?}: {x}"))?;
    }
    let f = m.freeze();
    if let Some(t) = (0..tokens).find(|t| f.get_asset_ids(&token(*t)).is_some() && !named.contains(t)) { return Err(format!("get_asset_ids({}) is known, although no UTxO with it was ever inserted", token(t))); }
    Ok((f, c))
}
