//! Instantiates indexed-log-map's generic code in a crate that is compiled with instrumentation.
use indexed_log_map::config::IndexedLogMapConfig;
use indexed_log_map::storage::{get_next, IndexedLogMap};
use serde::{Deserialize, Serialize};
use std::path::PathBuf;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Val { pub key: u64, pub id: u64, #[serde(with = "pad")] pub pad: Vec<u8> }

/// Long pads go through serde as one byte string: element by element they would take millions of simulated steps.
mod pad {
    use serde::{de::{SeqAccess, Visitor}, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> { if v.len() > 3000 { s.serialize_bytes(v) } else { v.serialize(s) } }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Vec<u8>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("bytes") }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Vec<u8>, E> { Ok(v.to_vec()) }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Vec<u8>, E> { Ok(v) }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<u8>, A::Error> { let mut r = vec![]; while let Some(b) = a.next_element()? { r.push(b); } Ok(r) }
        }
        d.deserialize_any(V)
    }
}

/// The keys of the simulation are numbers; the map's are of several types and shapes.
pub enum Map { Num(IndexedLogMap<u64, Val>), Edges(IndexedLogMap<u64, Val>), Text(IndexedLogMap<String, Val>), Pair(IndexedLogMap<(String, u64), Val>) }
fn num(k: u64) -> u64 { k }
fn edges(k: u64) -> u64 {
    const E: [u64; 12] = [0, u64::MAX, 24, 23, 256, 255, 1 << 32, u32::MAX as u64, 65535, 1 << 53, i64::MAX as u64, 1];
    E.get(k as usize).copied().unwrap_or(k * 0x1_0000_0001)
}
fn text(k: u64) -> String {
    const T: [&str; 8] = ["", "a", "aa", "ab", "a\0", "\0", "é\u{10ffff}", "A"];
    T.get(k as usize).map(|t| t.to_string()).unwrap_or_else(|| format!("{}-{k}", "long".repeat(k as usize % 90)))
}
fn pair(k: u64) -> (String, u64) { (["", "x", "x0"][k as usize % 3].to_string(), k / 3) }
pub type It = Box<dyn Iterator<Item = Result<Val, String>>>;
fn s<T>(r: anyhow::Result<T>) -> Result<T, String> { r.map_err(|e| format!("{e:#}")) }
macro_rules! all { ($map:expr, $m:ident, $k:ident, $e:expr) => { match $map { Map::Num($m) => { #[allow(unused)] let $k = num; $e } Map::Edges($m) => { #[allow(unused)] let $k = edges; $e } Map::Text($m) => { #[allow(unused)] let $k = text; $e } Map::Pair($m) => { #[allow(unused)] let $k = pair; $e } } } }
impl Map {
    pub fn open(path: Option<PathBuf>, readonly: bool, index: bool, style: u64) -> Result<Map, String> {
        let c = IndexedLogMapConfig { storage_path: path, use_key_indexing: index, readonly };
        match style {
            0 => s(IndexedLogMap::new(c)).map(Map::Num),
            1 => s(IndexedLogMap::new(c)).map(Map::Edges),
            2 => s(IndexedLogMap::new(c)).map(Map::Text),
            _ => s(IndexedLogMap::new(c)).map(Map::Pair),
        }
    }
    pub fn append(&self, v: Val) -> Result<(), String> { s(all!(self, m, k, m.append(k(v.key), v))) }
    pub fn get(&self, key: u64) -> Result<Option<Val>, String> { s(all!(self, m, k, m.get(&k(key)))) }
    pub fn contains(&self, key: u64) -> Result<bool, String> { s(all!(self, m, k, m.contains(&k(key)))) }
    pub fn is_empty(&self) -> Result<bool, String> { s(all!(self, m, k, m.is_empty())) }
    pub fn last(&self) -> Result<Option<Val>, String> { s(all!(self, m, k, m.last())) }
    pub fn iter(&self) -> Option<It> { all!(self, m, k, m.iter().map(|i| Box::new(i.map(s)) as It)) }
    pub fn iter_from(&self, key: u64) -> Result<Option<It>, String> { all!(self, m, k, s(m.iter_from(&k(key))).map(|o| o.map(|i| Box::new(i.map(s)) as It))) }
    pub fn next_after(&self, key: Option<u64>) -> Result<Option<Val>, String> { s(all!(self, m, k, get_next(m, &key.map(k)))) }
}
