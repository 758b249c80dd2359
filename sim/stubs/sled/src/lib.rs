//! A model of sled's contract over simrt's simulated key-value log: operations are atomic and visible at once; what
//! survives a crash is a prefix of the operations that is not shorter than what was flushed; dropping the last handle
//! flushes; every operation can be made to fail, with or without its effect.
use simrt::{kv, sched, shared};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::{Bound, Deref, RangeBounds};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::{fmt, io};

pub mod transaction;
pub use transaction::Transactional;

pub type Result<T, E = Error> = std::result::Result<T, E>;

#[derive(Debug)]
pub enum Error {
    CollectionNotFound(IVec),
    Unsupported(String),
    ReportableBug(String),
    Io(io::Error),
    Corruption { at: Option<u64>, bt: () },
}
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self { Error::Io(e) => write!(f, "IO error: {e}"), o => write!(f, "{o:?}") } } }
impl std::error::Error for Error {}
impl Clone for Error {
    fn clone(&self) -> Self {
        match self {
            Error::Io(e) => Error::Io(io::Error::new(e.kind(), format!("{e:?}"))),
            Error::CollectionNotFound(n) => Error::CollectionNotFound(n.clone()),
            Error::Unsupported(s) => Error::Unsupported(s.clone()),
            Error::ReportableBug(s) => Error::ReportableBug(s.clone()),
            Error::Corruption { at, bt } => Error::Corruption { at: *at, bt: *bt },
        }
    }
}
impl PartialEq for Error { fn eq(&self, o: &Self) -> bool { format!("{self:?}") == format!("{o:?}") } }
impl Eq for Error {}
impl From<io::Error> for Error { fn from(e: io::Error) -> Self { Error::Io(e) } }
impl From<Error> for io::Error { fn from(e: Error) -> Self { match e { Error::Io(e) => e, o => io::Error::new(io::ErrorKind::Other, o.to_string()) } } }

#[derive(Clone, Default, Eq, PartialOrd, Ord, Hash)]
pub struct IVec(Arc<Vec<u8>>);
impl IVec { pub fn subslice(&self, a: usize, n: usize) -> IVec { IVec(Arc::new(self.0[a..a + n].to_vec())) } }
impl Deref for IVec { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl std::ops::DerefMut for IVec { fn deref_mut(&mut self) -> &mut [u8] { Arc::make_mut(&mut self.0).as_mut_slice() } }
impl AsRef<[u8]> for IVec { fn as_ref(&self) -> &[u8] { &self.0 } }
impl AsMut<[u8]> for IVec { fn as_mut(&mut self) -> &mut [u8] { self } }
impl std::borrow::Borrow<[u8]> for IVec { fn borrow(&self) -> &[u8] { &self.0 } }
impl std::borrow::Borrow<[u8]> for &IVec { fn borrow(&self) -> &[u8] { &self.0 } }
impl fmt::Debug for IVec { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
impl From<&[u8]> for IVec { fn from(v: &[u8]) -> Self { IVec(Arc::new(v.to_vec())) } }
impl From<Vec<u8>> for IVec { fn from(v: Vec<u8>) -> Self { IVec(Arc::new(v)) } }
impl From<Box<[u8]>> for IVec { fn from(v: Box<[u8]>) -> Self { IVec(Arc::new(v.into_vec())) } }
impl From<&Vec<u8>> for IVec { fn from(v: &Vec<u8>) -> Self { IVec(Arc::new(v.clone())) } }
impl From<&str> for IVec { fn from(v: &str) -> Self { v.as_bytes().into() } }
impl From<String> for IVec { fn from(v: String) -> Self { v.into_bytes().into() } }
impl From<&String> for IVec { fn from(v: &String) -> Self { v.as_bytes().into() } }
impl From<&IVec> for IVec { fn from(v: &IVec) -> Self { v.clone() } }
impl From<IVec> for Vec<u8> { fn from(v: IVec) -> Self { v.0.to_vec() } }
impl<const N: usize> From<&[u8; N]> for IVec { fn from(v: &[u8; N]) -> Self { v[..].into() } }
impl<const N: usize> From<[u8; N]> for IVec { fn from(v: [u8; N]) -> Self { v[..].into() } }
impl<T: ?Sized + AsRef<[u8]>> PartialEq<T> for IVec { fn eq(&self, o: &T) -> bool { self.as_ref() == o.as_ref() } }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode { LowSpace, HighThroughput }

#[derive(Clone, Debug, Default)]
pub struct Config { path: Option<PathBuf>, temporary: bool, create_new: bool }
impl Config {
    pub fn new() -> Self { Self::default() }
    pub fn path<P: AsRef<Path>>(mut self, p: P) -> Self { self.path = Some(p.as_ref().to_path_buf()); self }
    pub fn temporary(mut self, t: bool) -> Self { self.temporary = t; self }
    pub fn create_new(mut self, t: bool) -> Self { self.create_new = t; self }
    pub fn mode(self, _m: Mode) -> Self { self }
    pub fn cache_capacity(self, _m: u64) -> Self { self }
    pub fn flush_every_ms(self, _m: Option<u64>) -> Self { self }
    pub fn use_compression(self, _m: bool) -> Self { self }
    pub fn compression_factor(self, _m: i32) -> Self { self }
    pub fn segment_size(self, _m: usize) -> Self { self }
    pub fn print_profile_on_drop(self, _m: bool) -> Self { self }
    pub fn open(&self) -> Result<Db> {
        point();
        fail("kv_open", || ())?;
        if self.temporary || self.path.is_none() {
            return Ok(Db::from(Core { log: None, trees: Mutex::new(Trees::default()), recovered: false, ids: Default::default() }));
        }
        let path = self.path.clone().unwrap().to_string_lossy().trim_end_matches('/').to_string();
        // as the real one: the directories are made on the way
        if !path.is_empty() { std::fs::create_dir_all(&path)?; }
        let Some(log) = kv::open(&path) else { return Err(Error::Io(io::Error::new(io::ErrorKind::Other, "could not acquire lock"))) };
        let mut t = Trees::default();
        for e in kv::entries(log) { for op in decode(e) { t.apply(&op); } }
        let recovered = !kv::entries(log).is_empty();
        // as the real one: never an id twice, but they jump when the database is opened again
        let ids = (kv::entries(log).len() as u64 * 2_000_000).into();
        Ok(Db::from(Core { log: Some(log), trees: Mutex::new(t), recovered, ids }))
    }
}
pub fn open<P: AsRef<Path>>(p: P) -> Result<Db> { Config::new().path(p).open() }

const DEFAULT: &[u8] = b"__sled__default";

enum Op { Open(Vec<u8>), Drop(Vec<u8>), Put(Vec<u8>, Vec<u8>, Vec<u8>), Del(Vec<u8>, Vec<u8>) }
#[derive(Default)]
struct Trees { t: BTreeMap<Vec<u8>, BTreeMap<Vec<u8>, Vec<u8>>>, dropped: BTreeSet<Vec<u8>> }
impl Trees {
    fn apply(&mut self, op: &Op) {
        match op {
            Op::Open(t) => { self.t.entry(t.clone()).or_default(); self.dropped.remove(t); }
            Op::Drop(t) => { self.t.remove(t); self.dropped.insert(t.clone()); }
            Op::Put(t, k, v) => { self.t.entry(t.clone()).or_default().insert(k.clone(), v.clone()); }
            Op::Del(t, k) => { self.t.entry(t.clone()).or_default().remove(k); }
        }
    }
}
fn encode(ops: &[Op]) -> Vec<u8> {
    let mut v = vec![];
    for op in ops {
        let (c, p): (u8, Vec<&Vec<u8>>) = match op { Op::Open(t) => (0, vec![t]), Op::Drop(t) => (1, vec![t]), Op::Put(t, k, x) => (2, vec![t, k, x]), Op::Del(t, k) => (3, vec![t, k]) };
        v.push(c);
        for x in p { v.extend((x.len() as u32).to_le_bytes()); v.extend(x); }
    }
    v
}
fn decode(mut b: &[u8]) -> Vec<Op> {
    let mut v = vec![];
    fn part(b: &mut &[u8]) -> Vec<u8> { let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize; let x = b[4..4 + n].to_vec(); *b = &b[4 + n..]; x }
    while !b.is_empty() {
        let c = b[0];
        b = &b[1..];
        v.push(match c { 0 => Op::Open(part(&mut b)), 1 => Op::Drop(part(&mut b)), 2 => { let (t, k) = (part(&mut b), part(&mut b)); Op::Put(t, k, part(&mut b)) }, _ => { let t = part(&mut b); Op::Del(t, part(&mut b)) } });
    }
    v
}
fn crc<'a>(m: impl Iterator<Item = (&'a Vec<u8>, &'a Vec<u8>)>) -> u32 { m.flat_map(|(k, v)| k.iter().chain([&0]).chain(v).chain([&1])).fold(7, |h: u32, b| h.wrapping_mul(16777619) ^ *b as u32) }
fn point() { sched::sys_point(true); }
/// A fault with errno 28 strikes after the effect, any other before it.
fn fail<T>(kind: &'static str, effect: impl FnOnce() -> T) -> Result<T> {
    match sched::fault(kind) {
        None => Ok(effect()),
        Some(e) => { if e == 28 { shared::probe("kv_error_after_effect"); effect(); } Err(Error::Io(io::Error::from_raw_os_error(e))) }
    }
}

struct Core { log: Option<usize>, trees: Mutex<Trees>, recovered: bool, ids: std::sync::atomic::AtomicU64 }
impl Core {
    fn id(&self) -> u64 { self.ids.fetch_add(1, std::sync::atomic::Ordering::SeqCst) }
    fn with<T>(&self, f: impl FnOnce(&mut Trees) -> T) -> T { let mut g = self.trees.lock().unwrap_or_else(|e| e.into_inner()); f(&mut g) }
    fn commit(&self, ops: Vec<Op>) {
        if let Some(l) = self.log { kv::append(l, encode(&ops)); }
        self.with(|t| for o in &ops { t.apply(o); });
    }
}
impl Drop for Core { fn drop(&mut self) { if let Some(l) = self.log { kv::close(l); } } }

#[derive(Clone)]
pub struct Db { core: Arc<Core>, default: Tree }
impl Deref for Db { type Target = Tree; fn deref(&self) -> &Tree { &self.default } }
impl fmt::Debug for Db { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Db") } }
impl From<Core> for Db {
    fn from(c: Core) -> Self {
        let core = Arc::new(c);
        let db = Db { core: core.clone(), default: Tree { core, name: Arc::new(DEFAULT.to_vec()) } };
        if db.core.with(|t| !t.t.contains_key(DEFAULT)) { db.core.commit(vec![Op::Open(DEFAULT.to_vec())]); }
        db
    }
}
impl Db {
    pub fn open_tree<V: AsRef<[u8]>>(&self, name: V) -> Result<Tree> {
        point();
        let name = name.as_ref().to_vec();
        fail("kv_open_tree", || ())?;
        if self.core.with(|t| !t.t.contains_key(&name)) { self.core.commit(vec![Op::Open(name.clone())]); }
        Ok(Tree { core: self.core.clone(), name: Arc::new(name) })
    }
    pub fn drop_tree<V: AsRef<[u8]>>(&self, name: V) -> Result<bool> {
        point();
        let name = name.as_ref().to_vec();
        if name == DEFAULT { return Err(Error::Unsupported("cannot remove the core structures".into())); }
        let had = self.core.with(|t| t.t.contains_key(&name));
        fail("kv_drop_tree", || if had { self.core.commit(vec![Op::Drop(name)]) })?;
        Ok(had)
    }
    pub fn tree_names(&self) -> Vec<IVec> { self.core.with(|t| t.t.keys().map(|k| IVec::from(k.clone())).collect()) }
    pub fn was_recovered(&self) -> bool { self.core.recovered }
    pub fn size_on_disk(&self) -> Result<u64> { Ok(self.core.log.map_or(0, |l| kv::entries(l).iter().map(|e| e.len() as u64).sum())) }
    pub fn generate_id(&self) -> Result<u64> { Ok(self.core.id()) }
    pub fn checksum(&self) -> Result<u32> { Ok(self.core.with(|t| crc(t.t.values().flatten()))) }
}

#[derive(Clone)]
pub struct Tree { core: Arc<Core>, name: Arc<Vec<u8>> }
impl fmt::Debug for Tree { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Tree({:?})", self.name) } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CompareAndSwapError { pub current: Option<IVec>, pub proposed: Option<IVec> }
pub type CompareAndSwapResult = Result<std::result::Result<(), CompareAndSwapError>>;

impl Tree {
    fn peek(&self, k: &[u8]) -> Option<IVec> { self.core.with(|t| t.t.get(&*self.name).and_then(|m| m.get(k)).map(|v| IVec::from(v.clone()))) }
    fn exists(&self) -> Result<()> {
        if self.core.with(|t| t.dropped.contains(&*self.name)) { return Err(Error::CollectionNotFound(IVec::from((*self.name).clone()))); }
        Ok(())
    }
    fn put(&self, k: &[u8], v: Vec<u8>) { self.core.commit(vec![Op::Put((*self.name).clone(), k.to_vec(), v)]) }
    fn del(&self, k: &[u8]) { self.core.commit(vec![Op::Del((*self.name).clone(), k.to_vec())]) }
    pub fn name(&self) -> IVec { IVec::from((*self.name).clone()) }
    pub fn insert<K: AsRef<[u8]>, V: Into<IVec>>(&self, k: K, v: V) -> Result<Option<IVec>> {
        point(); self.exists()?;
        let old = self.peek(k.as_ref());
        let v: IVec = v.into();
        fail("kv_insert", || self.put(k.as_ref(), v.to_vec()))?;
        shared::count("op", "kv_insert");
        Ok(old)
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<IVec>> { point(); self.exists()?; fail("kv_get", || self.peek(k.as_ref())) }
    pub fn contains_key<K: AsRef<[u8]>>(&self, k: K) -> Result<bool> { point(); self.exists()?; fail("kv_get", || self.peek(k.as_ref()).is_some()) }
    pub fn remove<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<IVec>> {
        point(); self.exists()?;
        let old = self.peek(k.as_ref());
        fail("kv_remove", || if old.is_some() { self.del(k.as_ref()) })?;
        shared::count("op", "kv_remove");
        Ok(old)
    }
    pub fn compare_and_swap<K: AsRef<[u8]>, OV: AsRef<[u8]>, NV: Into<IVec>>(&self, k: K, old: Option<OV>, new: Option<NV>) -> CompareAndSwapResult {
        point(); self.exists()?;
        let cur = self.peek(k.as_ref());
        let new: Option<IVec> = new.map(|x| x.into());
        if cur.as_deref() != old.as_ref().map(|x| x.as_ref()) { return Ok(Err(CompareAndSwapError { current: cur, proposed: new })); }
        fail("kv_insert", || match &new { Some(v) => self.put(k.as_ref(), v.to_vec()), None => if cur.is_some() { self.del(k.as_ref()) } })?;
        Ok(Ok(()))
    }
    pub fn update_and_fetch<K: AsRef<[u8]>, V: Into<IVec>, F: FnMut(Option<&[u8]>) -> Option<V>>(&self, k: K, mut f: F) -> Result<Option<IVec>> {
        loop {
            let cur = { point(); self.exists()?; self.peek(k.as_ref()) };
            let new: Option<IVec> = f(cur.as_deref()).map(|x| x.into());
            if self.compare_and_swap(k.as_ref(), cur, new.clone())?.is_ok() { return Ok(new); }
        }
    }
    pub fn fetch_and_update<K: AsRef<[u8]>, V: Into<IVec>, F: FnMut(Option<&[u8]>) -> Option<V>>(&self, k: K, mut f: F) -> Result<Option<IVec>> {
        loop {
            let cur = { point(); self.exists()?; self.peek(k.as_ref()) };
            let new: Option<IVec> = f(cur.as_deref()).map(|x| x.into());
            if self.compare_and_swap(k.as_ref(), cur.clone(), new)?.is_ok() { return Ok(cur); }
        }
    }
    pub fn apply_batch(&self, b: Batch) -> Result<()> {
        point(); self.exists()?;
        let n = (*self.name).clone();
        fail("kv_insert", || self.core.commit(b.0.into_iter().map(|(k, v)| match v { Some(v) => Op::Put(n.clone(), k, v), None => Op::Del(n.clone(), k) }).collect()))
    }
    /// Not atomic, as the real one: one key after the other.
    pub fn clear(&self) -> Result<()> {
        point(); self.exists()?;
        let keys: Vec<Vec<u8>> = self.core.with(|t| t.t.get(&*self.name).map(|m| m.keys().cloned().collect()).unwrap_or_default());
        for k in keys { point(); fail("kv_clear", || self.del(&k))?; }
        Ok(())
    }
    pub fn flush(&self) -> Result<usize> {
        point();
        let n = fail("kv_flush", || ());
        n?;
        if let Some(l) = self.core.log { kv::flush(l); }
        shared::count("op", "kv_flush");
        Ok(0)
    }
    pub fn checksum(&self) -> Result<u32> { Ok(self.core.with(|t| crc(t.t.get(&*self.name).into_iter().flatten()))) }
    pub fn verify_integrity(&self) -> Result<()> { Ok(()) }
    pub async fn flush_async(&self) -> Result<usize> { self.flush() }
    pub fn len(&self) -> usize { self.iter().count() }
    pub fn is_empty(&self) -> bool { self.iter().next().is_none() }
    pub fn first(&self) -> Result<Option<(IVec, IVec)>> { self.iter().next().transpose() }
    pub fn last(&self) -> Result<Option<(IVec, IVec)>> { self.iter().next_back().transpose() }
    pub fn get_lt<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<(IVec, IVec)>> { self.range::<&[u8], _>(..k.as_ref()).next_back().transpose() }
    pub fn get_gt<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<(IVec, IVec)>> { self.range::<&[u8], _>((Bound::Excluded(k.as_ref()), Bound::Unbounded)).next().transpose() }
    pub fn pop_min(&self) -> Result<Option<(IVec, IVec)>> { let x = self.first()?; if let Some((k, _)) = &x { self.remove(k)?; } Ok(x) }
    pub fn pop_max(&self) -> Result<Option<(IVec, IVec)>> { let x = self.last()?; if let Some((k, _)) = &x { self.remove(k)?; } Ok(x) }
    pub fn iter(&self) -> Iter { Iter { tree: self.clone(), lo: Bound::Unbounded, hi: Bound::Unbounded, done: false } }
    pub fn range<K: AsRef<[u8]>, R: RangeBounds<K>>(&self, r: R) -> Iter {
        let b = |x: Bound<&K>| match x { Bound::Included(k) => Bound::Included(k.as_ref().to_vec()), Bound::Excluded(k) => Bound::Excluded(k.as_ref().to_vec()), Bound::Unbounded => Bound::Unbounded };
        Iter { tree: self.clone(), lo: b(r.start_bound()), hi: b(r.end_bound()), done: false }
    }
    pub fn scan_prefix<P: AsRef<[u8]>>(&self, p: P) -> Iter {
        let mut hi = p.as_ref().to_vec();
        while let Some(x) = hi.pop() { if x < 255 { hi.push(x + 1); break; } }
        Iter { tree: self.clone(), lo: Bound::Included(p.as_ref().to_vec()), hi: if hi.is_empty() { Bound::Unbounded } else { Bound::Excluded(hi) }, done: false }
    }
}
impl<'a> IntoIterator for &'a Tree { type Item = Result<(IVec, IVec)>; type IntoIter = Iter; fn into_iter(self) -> Iter { self.iter() } }

#[derive(Clone, Debug, Default)]
pub struct Batch(Vec<(Vec<u8>, Option<Vec<u8>>)>);
impl Batch {
    pub fn insert<K: Into<IVec>, V: Into<IVec>>(&mut self, k: K, v: V) { self.0.push((k.into().to_vec(), Some(v.into().to_vec()))); }
    pub fn remove<K: Into<IVec>>(&mut self, k: K) { self.0.push((k.into().to_vec(), None)); }
}

pub struct Iter { tree: Tree, lo: Bound<Vec<u8>>, hi: Bound<Vec<u8>>, done: bool }
impl Iter {
    fn step(&mut self, back: bool) -> Option<Result<(IVec, IVec)>> {
        if self.done { return None; }
        point();
        if let Err(e) = self.tree.exists() { self.done = true; return Some(Err(e)); }
        if let Err(e) = fail("kv_iter", || ()) { return Some(Err(e)); }
        match (&self.lo, &self.hi) {
            (Bound::Included(a), Bound::Included(b)) if a > b => return None,
            (Bound::Included(a), Bound::Excluded(b)) | (Bound::Excluded(a), Bound::Included(b)) if a > b || (a == b) => return None,
            (Bound::Excluded(a), Bound::Excluded(b)) if a >= b => return None,
            _ => {}
        }
        let r = self.tree.core.with(|t| {
            let m = t.t.get(&*self.tree.name)?;
            let mut r = m.range((self.lo.clone(), self.hi.clone()));
            (if back { r.next_back() } else { r.next() }).map(|(k, v)| (k.clone(), v.clone()))
        });
        let (k, v) = r?;
        if back { self.hi = Bound::Excluded(k.clone()) } else { self.lo = Bound::Excluded(k.clone()) }
        Some(Ok((k.into(), v.into())))
    }
    pub fn keys(self) -> impl DoubleEndedIterator<Item = Result<IVec>> + Send + Sync { self.map(|r| r.map(|x| x.0)) }
    pub fn values(self) -> impl DoubleEndedIterator<Item = Result<IVec>> + Send + Sync { self.map(|r| r.map(|x| x.1)) }
}
impl Iterator for Iter { type Item = Result<(IVec, IVec)>; fn next(&mut self) -> Option<Self::Item> { self.step(false) } }
impl DoubleEndedIterator for Iter { fn next_back(&mut self) -> Option<Self::Item> { self.step(true) } }

