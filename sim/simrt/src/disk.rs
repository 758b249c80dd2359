//! The simulated disk. Live files are real files under a scratch root (so the kernel's mmap semantics apply);
//! beside them we keep what a power loss would leave: durable names and contents, and the journal of metadata
//! changes not yet committed. A sync commits all earlier metadata and the sectors it covers. Any subset of the other
//! dirty sectors may have reached the disk by themselves, within the committed length of their file.
use crate::raw;
use crate::rng::{hash_bytes, mix2, Rng};
use crate::shared;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ImageSpec {
    pub seed: u64,
    /// chance that a dirty sector has been written back
    pub keep: f64,
    /// chance that a pending metadata change (in order) has been committed
    pub meta: f64,
    /// bytes per atomically written sector (512 or 4096)
    pub sector: usize,
    /// per file, instead of `keep`: draw it from {0, keep, 1}
    #[serde(default)]
    pub per_file: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Meta { Create(String, usize, bool), SetLen(usize, u64), Unlink(String), Rename(String, String) }

#[derive(Default, Serialize, Deserialize, Clone)]
struct Inode { durable: Vec<u8>, dir: bool }

struct Mapping { addr: usize, len: usize, ino: usize, off: u64, shared: bool, write: bool }

pub struct Disk {
    root: String,
    inodes: Vec<Inode>,
    fds: Vec<(i32, usize)>,
    own: Vec<i32>,
    live: BTreeMap<String, usize>,
    names: BTreeMap<String, usize>,
    journal: Vec<Meta>,
    maps: Vec<Mapping>,
    rng: Rng,
    writeback: f64,
    pub unsynced_end: usize,
}
#[derive(Serialize, Deserialize)]
struct Saved { inodes: Vec<Inode>, live: BTreeMap<String, usize>, names: BTreeMap<String, usize>, journal: Vec<Meta> }

static mut D: *mut Disk = std::ptr::null_mut();
#[allow(clippy::mut_from_ref)]
fn d() -> Option<&'static mut Disk> { unsafe { if D.is_null() { None } else { Some(&mut *D) } } }

fn statefile(root: &str) -> String { format!("{root}.state") }

pub fn load(root: &str, seed: u64, writeback: f64) {
    let mut disk = Disk { root: root.to_string(), inodes: vec![], fds: vec![], own: vec![], live: BTreeMap::new(), names: BTreeMap::new(),
        journal: vec![], maps: vec![], rng: Rng::new(mix2(seed, 77)), writeback, unsynced_end: 0 };
    if let Some(b) = raw::read_file(&statefile(root)) {
        let sv: Saved = decode(&b);
        disk.inodes = sv.inodes; disk.live = sv.live; disk.names = sv.names; disk.journal = sv.journal;
    } else {
        scan(&mut disk, "");
        disk.live = disk.names.clone();
    }
    disk.own = vec![-1; disk.inodes.len()];
    for (n, i) in disk.live.clone() {
        if !disk.inodes[i].dir { disk.own[i] = raw::open(&format!("{root}/{n}"), libc::O_RDWR, 0); }
    }
    unsafe { D = Box::leak(Box::new(disk)); }
}
fn scan(disk: &mut Disk, rel: &str) {
    let base = if rel.is_empty() { disk.root.clone() } else { format!("{}/{}", disk.root, rel) };
    let mut l: Vec<_> = match std::fs::read_dir(&base) { Ok(r) => r.filter_map(|e| e.ok()).collect(), Err(_) => return };
    l.sort_by_key(|e| e.file_name());
    for e in l {
        let n = e.file_name().to_string_lossy().to_string();
        let r = if rel.is_empty() { n } else { format!("{rel}/{n}") };
        let dir = e.file_type().map(|t| t.is_dir()).unwrap_or(false);
        let durable = if dir { vec![] } else { raw::read_file(&format!("{}/{}", disk.root, r)).unwrap_or_default() };
        let id = disk.inodes.len();
        disk.inodes.push(Inode { durable, dir });
        disk.names.insert(r.clone(), id);
        if dir { scan(disk, &r); }
    }
}
// compact encoding of the state (JSON for the structure, raw bytes for the contents)
fn encode(s: &Saved) -> Vec<u8> {
    let head = serde_json::to_vec(&(s.inodes.iter().map(|i| (i.durable.len(), i.dir)).collect::<Vec<_>>(), &s.live, &s.names, &s.journal)).unwrap();
    let mut v = (head.len() as u64).to_le_bytes().to_vec();
    v.extend(head);
    for i in &s.inodes { v.extend(&i.durable); }
    v
}
fn decode(b: &[u8]) -> Saved {
    let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
    #[allow(clippy::type_complexity)]
    let (li, live, names, journal): (Vec<(usize, bool)>, BTreeMap<String, usize>, BTreeMap<String, usize>, Vec<Meta>) = serde_json::from_slice(&b[8..8 + n]).unwrap();
    let mut o = 8 + n;
    let inodes = li.into_iter().map(|(l, dir)| { let i = Inode { durable: b[o..o + l].to_vec(), dir }; o += l; i }).collect();
    Saved { inodes, live, names, journal }
}
/// Ends an incarnation without a crash, or with a process kill: the page cache survives.
pub fn save() {
    let Some(k) = d() else { return };
    let s = Saved { inodes: std::mem::take(&mut k.inodes), live: k.live.clone(), names: k.names.clone(), journal: k.journal.clone() };
    raw::write_file(&statefile(&k.root), &encode(&s));
}

impl Disk {
    fn rel(&self, path: &str) -> Option<String> {
        let r = path.strip_prefix(&self.root)?.strip_prefix('/')?;
        let r = r.trim_end_matches('/').replace("//", "/");
        if r.is_empty() { None } else { Some(r) }
    }
    fn live_bytes(&self, ino: usize) -> Vec<u8> {
        let fd = self.own[ino];
        if fd < 0 { return vec![]; }
        let n = raw::size_of_fd(fd) as usize;
        let mut v = vec![0; n];
        let g = raw::pread(fd, &mut v, 0);
        v.truncate(g);
        v
    }
    fn apply(&mut self, m: &Meta) {
        match m {
            Meta::Create(n, i, _) => { self.names.insert(n.clone(), *i); }
            Meta::SetLen(i, l) => self.inodes[*i].durable.resize(*l as usize, 0),
            Meta::Unlink(n) => { self.names.remove(n); }
            Meta::Rename(a, b) => if let Some(i) = self.names.remove(a) { self.names.insert(b.clone(), i); },
        }
    }
    fn commit(&mut self, n: usize) {
        let j: Vec<Meta> = self.journal.drain(..n).collect();
        for m in &j { self.apply(m); }
    }
    fn commit_all(&mut self) { let n = self.journal.len(); self.commit(n); }
    /// File length changes made through write() and friends.
    fn note_len(&mut self, ino: usize) {
        let l = raw::size_of_fd(self.own[ino]);
        let known = self.journal.iter().rev().find_map(|m| match m { Meta::SetLen(i, l) if *i == ino => Some(*l), _ => None })
            .unwrap_or(self.inodes[ino].durable.len() as u64);
        if l != known { self.journal.push(Meta::SetLen(ino, l)); }
    }
    fn sync(&mut self, ino: usize, from: u64, to: u64) {
        self.commit_all();
        let live = self.live_bytes(ino);
        let du = &mut self.inodes[ino].durable;
        let to = (to as usize).min(du.len()).min(live.len());
        let from = (from as usize).min(to);
        du[from..to].copy_from_slice(&live[from..to]);
    }
    fn partial_sync(&mut self, ino: usize, from: u64, to: u64, keep: f64) {
        let n = self.rng.idx(self.journal.len() + 1);
        self.commit(n);
        let mut r = self.rng.clone();
        self.overlay(ino, from, to, keep, 512, &mut r);
        self.rng = r;
    }
    /// Writes back each dirty sector of [from, to) with the given chance.
    fn overlay(&mut self, ino: usize, from: u64, to: u64, keep: f64, sector: usize, rng: &mut Rng) -> u64 {
        if self.inodes[ino].dir { return 0; }
        let live = self.live_bytes(ino);
        // a pending truncation makes what was written beyond it unreachable until it is committed
        let cut = self.journal.iter().filter_map(|m| match m { Meta::SetLen(i, l) if *i == ino => Some(*l as usize), _ => None }).min().unwrap_or(usize::MAX);
        let du = &mut self.inodes[ino].durable;
        let end = (to as usize).min(du.len()).min(live.len()).min(cut);
        let mut a = (from as usize) / sector * sector;
        let mut n = 0;
        while a < end {
            let b = (a + sector).min(end);
            if du[a..b] != live[a..b] {
                if rng.chance(keep) { du[a..b].copy_from_slice(&live[a..b]); n += 1; }
                else { n += 1 << 32; }
            }
            a += sector;
        }
        n
    }
    fn background(&mut self) {
        if self.writeback <= 0.0 || !self.rng.chance(self.writeback) { return; }
        shared::count("disk", "background_writeback");
        let n = self.rng.idx(self.journal.len() + 1);
        if self.rng.chance(0.5) { self.commit(n); }
        let keep = *self.rng.pick(&[0.1, 0.5, 1.0]);
        let only = if self.inodes.len() > 1 && self.rng.chance(0.6) { Some(self.rng.idx(self.inodes.len())) } else { None };
        let mut r = self.rng.clone();
        for i in 0..self.inodes.len() {
            if only.map_or(true, |o| o == i) { self.overlay(i, 0, u64::MAX, keep, 512, &mut r); }
        }
        self.rng = r;
    }
}

// ---- events from the interposed calls ----
pub fn on_open(path: &str, fd: i32, flags: i32) {
    let Some(k) = d() else { return };
    let Some(r) = k.rel(path) else { return };
    let ino = match k.live.get(&r) {
        Some(i) => *i,
        None => {
            let i = k.inodes.len();
            k.inodes.push(Inode::default());
            k.own.push(raw::open(path, libc::O_RDWR, 0));
            k.live.insert(r.clone(), i);
            k.journal.push(Meta::Create(r, i, false));
            i
        }
    };
    if flags & libc::O_TRUNC != 0 { k.note_len(ino); }
    k.fds.retain(|x| x.0 != fd);
    k.fds.push((fd, ino));
    k.background();
}
pub fn on_mkdir(path: &str) {
    let Some(k) = d() else { return };
    let Some(r) = k.rel(path) else { return };
    let i = k.inodes.len();
    k.inodes.push(Inode { durable: vec![], dir: true });
    k.own.push(-1);
    k.live.insert(r.clone(), i);
    k.journal.push(Meta::Create(r, i, true));
}
pub fn on_unlink(path: &str) {
    let Some(k) = d() else { return };
    let Some(r) = k.rel(path) else { return };
    if k.live.remove(&r).is_some() { k.journal.push(Meta::Unlink(r)); }
}
pub fn on_rename(a: &str, b: &str) {
    let Some(k) = d() else { return };
    let (Some(a), Some(b)) = (k.rel(a), k.rel(b)) else { return };
    if let Some(i) = k.live.remove(&a) { k.live.insert(b.clone(), i); k.journal.push(Meta::Rename(a, b)); }
}
pub fn ino_of(fd: i32) -> Option<usize> { d()?.fds.iter().find(|x| x.0 == fd).map(|x| x.1) }
pub fn on_close(fd: i32) { if let Some(k) = d() { k.fds.retain(|x| x.0 != fd); } }
pub fn on_setlen(fd: i32) {
    let Some(k) = d() else { return };
    if let Some(i) = ino_of(fd) { k.note_len(i); k.background(); }
}
pub fn on_write(fd: i32) { on_setlen(fd) }
pub fn on_fsync(fd: i32) {
    let Some(k) = d() else { return };
    if let Some(i) = ino_of(fd) { k.sync(i, 0, u64::MAX); shared::count("disk", "fsync"); }
}
pub fn on_fsync_failed(fd: i32) {
    let Some(k) = d() else { return };
    if let Some(i) = ino_of(fd) { let p = *k.rng.pick(&[0.0, 0.5, 0.9]); k.partial_sync(i, 0, u64::MAX, p); }
}
pub fn on_mmap(addr: usize, len: usize, fd: i32, off: u64, shared: bool, write: bool) {
    let Some(k) = d() else { return };
    if let Some(ino) = ino_of(fd) { k.maps.push(Mapping { addr, len, ino, off, shared, write }); if crate::sched::full() { protect_map(k, k.maps.len() - 1, true); } k.background(); }
}
/// The mapping has become read-only (or writable).
pub fn on_mprotect(addr: usize, len: usize, write: bool) {
    let Some(k) = d() else { return };
    for m in k.maps.iter_mut().filter(|m| m.addr >= addr && m.addr < addr + len.max(1)) { m.write = write; }
}
pub fn on_munmap(addr: usize, len: usize) {
    let Some(k) = d() else { return };
    k.maps.retain(|m| !(m.addr >= addr && m.addr < addr + len.max(1)));
}
fn ranges(k: &Disk, addr: usize, len: usize) -> Vec<(usize, u64, u64)> {
    k.maps.iter().filter(|m| m.shared && m.addr < addr + len && addr < m.addr + m.len).map(|m| {
        let a = addr.max(m.addr) - m.addr;
        let b = (addr + len).min(m.addr + m.len) - m.addr;
        (m.ino, (m.off + a as u64) & !4095, (m.off + b as u64 + 4095) & !4095)
    }).collect()
}
pub fn on_msync(addr: usize, len: usize) {
    let Some(k) = d() else { return };
    shared::count("disk", "msync");
    for (i, a, b) in ranges(k, addr, len) { k.sync(i, a, b); }
    k.background();
}
pub fn on_msync_failed(addr: usize, len: usize) {
    let Some(k) = d() else { return };
    let p = *k.rng.pick(&[0.0, 0.3, 0.9]);
    for (i, a, b) in ranges(k, addr, len) { k.partial_sync(i, a, b, p); }
}

/// Is any block of the range not allocated (or beyond the end of the file)?
pub fn has_hole(fd: i32, off: u64, len: u64) -> bool {
    let Some(k) = d() else { return false };
    let Some(i) = ino_of(fd) else { return false };
    hole(k.own[i], off, off + len)
}
fn hole(fd: i32, from: u64, to: u64) -> bool {
    let from = from & !4095;
    let end = raw::size_of_fd(fd);
    if to > (end + 4095) & !4095 { return true; }
    let data = raw::seek(fd, from as i64, libc::SEEK_DATA);
    if data < 0 || data as u64 > from { return true; }
    let h = raw::seek(fd, from as i64, libc::SEEK_HOLE);
    h >= 0 && (h as u64) < to.min(end)
}
/// While the disk is full, writing to a hole of a mapped file ends the process with a signal: such pages are made
/// read-only for the time being.
pub fn protect_holes(protect: bool) {
    let Some(k) = d() else { return };
    for n in 0..k.maps.len() { protect_map(k, n, protect); }
}
fn protect_map(k: &Disk, n: usize, protect: bool) {
    let m = &k.maps[n];
    if !m.shared || !m.write { return; }
    if !protect { unsafe { raw::sc3(libc::SYS_mprotect, m.addr, (m.len + 4095) & !4095, (libc::PROT_READ | libc::PROT_WRITE) as usize); } return; }
    let mut a = 0;
    while a < m.len {
        if hole(k.own[m.ino], m.off + a as u64, m.off + a as u64 + 1) { unsafe { raw::sc3(libc::SYS_mprotect, m.addr + a, 4096, libc::PROT_READ as usize); } }
        a += 4096;
    }
}

/// Called from the scheduler at the instant of the crash. On a power loss, replaces the live files by a post-crash image.
pub fn crash(kind: &str, img: &ImageSpec) {
    let Some(k) = d() else { return };
    if kind != "power" { save(); return; }
    let mut rng = Rng::new(img.seed);
    let mut n = 0;
    while n < k.journal.len() && rng.chance(img.meta) { n += 1; }
    if n < k.journal.len() { shared::probe("power_loss_dropped_metadata"); }
    k.commit(n);
    let mut sig = 0u64;
    for i in 0..k.inodes.len() {
        let keep = if img.per_file { *rng.pick(&[0.0, img.keep, 1.0]) } else { img.keep };
        let w = k.overlay(i, 0, u64::MAX, keep, img.sector, &mut rng);
        if w >> 32 > 0 { shared::probe("power_loss_dropped_sector"); }
        if w & 0xffff_ffff > 0 && w >> 32 > 0 { shared::probe("power_loss_mixed_sectors"); }
    }
    for (n, i) in &k.live { if !k.inodes[*i].dir { raw::unlink(&format!("{}/{}", k.root, n)); } }
    let mut dirs: Vec<&String> = k.live.iter().filter(|x| k.inodes[*x.1].dir).map(|x| x.0).collect();
    dirs.reverse();
    for n in dirs { let c = std::ffi::CString::new(format!("{}/{}", k.root, n)).unwrap(); unsafe { raw::sc1(libc::SYS_rmdir, c.as_ptr() as usize); } }
    for (n, i) in &k.names {
        let p = format!("{}/{}", k.root, n);
        if k.inodes[*i].dir { raw::mkdir(&p); } else {
            raw::write_file(&p, &k.inodes[*i].durable);
            sig = mix2(sig, hash_bytes(1, &k.inodes[*i].durable));
        }
    }
    shared::state_sig(sig);
    raw::unlink(&statefile(&k.root));
}
