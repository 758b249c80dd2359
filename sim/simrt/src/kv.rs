//! Durable logs for stubs (the simulated sled): appends are ordered, a crash keeps some prefix that is not shorter
//! than what was flushed.
use crate::disk::ImageSpec;
use crate::raw;
use crate::rng::{mix2, Rng};
use crate::shared;

pub struct Log { pub path: String, pub entries: Vec<Vec<u8>>, pub flushed: usize, pub open: bool }
struct Kv { root: String, logs: Vec<Log>, rng: Rng, bg: f64 }
static mut K: *mut Kv = std::ptr::null_mut();
#[allow(clippy::mut_from_ref)]
fn kv() -> &'static mut Kv {
    unsafe {
        if K.is_null() { K = Box::leak(Box::new(Kv { root: String::new(), logs: vec![], rng: Rng::new(1), bg: 0.0 })); }
        &mut *K
    }
}
fn file(root: &str) -> String { format!("{root}.kv") }
pub fn load(root: &str, seed: u64, bg: f64) {
    let k = kv();
    k.root = root.to_string(); k.bg = bg; k.rng = Rng::new(mix2(seed, 88)); k.logs = vec![];
    if let Some(b) = raw::read_file(&file(root)) {
        let v: Vec<(String, Vec<Vec<u8>>, usize)> = serde_json::from_slice(&b).unwrap();
        k.logs = v.into_iter().map(|(path, entries, flushed)| Log { path, entries, flushed, open: false }).collect();
    }
}
pub fn save() {
    let k = kv();
    if k.root.is_empty() { return; }
    if k.logs.is_empty() { raw::unlink(&file(&k.root)); return; }
    let v: Vec<(&String, &Vec<Vec<u8>>, usize)> = k.logs.iter().map(|l| (&l.path, &l.entries, l.flushed)).collect();
    raw::write_file(&file(&k.root), &serde_json::to_vec(&v).unwrap());
}
pub fn crash(img: &ImageSpec) {
    let k = kv();
    let mut rng = Rng::new(mix2(img.seed, 99));
    for l in k.logs.iter_mut() {
        let n = l.entries.len();
        let keep = match rng.idx(4) { 0 => l.flushed, 1 => n, _ => l.flushed + rng.idx(n - l.flushed + 1) };
        if keep < n { shared::probe("crash_dropped_kv_suffix"); }
        l.entries.truncate(keep);
        l.flushed = keep;
    }
    save();
}
/// Opens a log; None if it is already open.
pub fn open(path: &str) -> Option<usize> {
    let k = kv();
    if let Some(i) = k.logs.iter().position(|l| l.path == path) {
        if k.logs[i].open { return None; }
        k.logs[i].open = true;
        return Some(i);
    }
    k.logs.push(Log { path: path.to_string(), entries: vec![], flushed: 0, open: true });
    Some(k.logs.len() - 1)
}
pub fn close(i: usize) { let l = &mut kv().logs[i]; l.flushed = l.entries.len(); l.open = false; }
pub fn remove(i: usize) { let l = &mut kv().logs[i]; l.entries.clear(); l.flushed = 0; l.open = false; }
pub fn entries(i: usize) -> &'static [Vec<u8>] { &kv().logs[i].entries }
pub fn append(i: usize, e: Vec<u8>) {
    let k = kv();
    k.logs[i].entries.push(e);
    if k.bg > 0.0 && k.rng.chance(k.bg) { let l = &mut k.logs[i]; l.flushed = l.entries.len(); shared::count("disk", "kv_background_flush"); }
}
pub fn flush(i: usize) { let l = &mut kv().logs[i]; l.flushed = l.entries.len(); }
pub fn len(i: usize) -> (usize, usize) { let l = &kv().logs[i]; (l.entries.len(), l.flushed) }
