//! Instantiates multiverse's generic code in a crate that is compiled with instrumentation.
use dcspark_core::BlockNumber;
use multiverse::{BestBlockSelectionRule, EntryRef, Multiverse, Variant};
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct K(pub String);
impl AsRef<[u8]> for K { fn as_ref(&self) -> &[u8] { self.0.as_bytes() } }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct B { pub id: K, pub parent: K, pub num: u64, pub data: u64 }
impl Variant for B {
    type Key = K;
    fn id(&self) -> &K { &self.id }
    fn parent_id(&self) -> &K { &self.parent }
    fn block_number(&self) -> BlockNumber { BlockNumber::new(self.num) }
}
pub struct Db(sled::Db);
pub struct Mv(Multiverse<K, B>);
/// A reference to a block that the caller keeps.
pub enum Held { Entry(EntryRef<K>), Key(Arc<K>) }
pub struct Best { pub selected: Option<K>, pub discarded: Vec<K>, sel: Option<EntryRef<K>>, dis: Vec<EntryRef<K>> }
impl Best { pub fn keep(self) -> Vec<Held> { self.sel.into_iter().chain(self.dis).map(Held::Entry).collect() } }

fn s<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> { r.map_err(|e| e.to_string()) }
impl Db {
    pub fn open(path: &str) -> Result<Db, String> { s(sled::Config::new().path(path).open()).map(Db) }
    pub fn flush(&self) -> Result<(), String> { s(self.0.flush()).map(|_| ()) }
}
impl Mv {
    pub fn open(path: &str, domain: &str, from: u64) -> Result<Mv, String> { s(Multiverse::open(path, domain, BlockNumber::new(from))).map(Mv) }
    pub fn load(db: &Db, domain: &str, from: u64) -> Result<Mv, String> { s(Multiverse::load_from(db.0.clone(), domain, BlockNumber::new(from))).map(Mv) }
    pub fn temporary() -> Result<Mv, String> { s(Multiverse::temporary()).map(Mv) }
    pub fn insert(&mut self, b: B) -> Result<(), String> { s(self.0.insert(b)) }
    pub fn remove(&mut self, k: &str) -> Result<B, String> { s(self.0.remove(&EntryRef::new(K(k.into())))) }
    /// Removes through a reference the multiverse itself handed out.
    pub fn discard(&mut self, b: &Best, n: usize) -> Result<B, String> { s(self.0.remove(&b.dis[n])) }
    pub fn clear(&mut self) -> Result<(), String> { s(self.0.clear()) }
    pub fn destroy(self) -> Result<(), String> { s(self.0.destroy()) }
    pub fn best(&self, depth: usize, age_gap: usize) -> Best {
        let b = self.0.select_best_block(BestBlockSelectionRule::LongestChain { depth, age_gap });
        let dis: Vec<EntryRef<K>> = b.discarded.into_iter().collect();
        Best { selected: b.selected.as_ref().map(|e| e.inner().clone()), discarded: dis.iter().map(|e| e.inner().clone()).collect(), sel: b.selected, dis }
    }
    pub fn preferred(&self) -> Option<(K, Held)> {
        self.0.preferred_fork_tip(BestBlockSelectionRule::LongestChain { depth: 3, age_gap: 1 }).map(|e| (e.inner().clone(), Held::Entry(e)))
    }
    pub fn tips(&self) -> Vec<Arc<K>> { self.0.tips().into_iter().collect() }
    pub fn iter(&self) -> Vec<B> { self.0.iter().cloned().collect() }
    pub fn get(&self, k: &str) -> Option<B> { self.0.get(&K(k.into())).cloned() }
    pub fn contains(&self, k: &str) -> bool { self.0.contains(&K(k.into())) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
}
