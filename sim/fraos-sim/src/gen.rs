//! Plan generators: one per property, sharing their pieces.
use crate::log::Op;
use simrt::driver::*;
use simrt::rng::Rng;
use simrt::sched::Fault;
use std::collections::BTreeMap;

struct G<'a> { rng: &'a mut Rng, id: u32, min: i64, style: usize, total: u32, big: u32 }
impl G<'_> {
    fn n(&mut self, op: Op) -> (u32, Op) { self.id += 1; (self.id, op) }
    fn size(&mut self) -> u32 {
        let m = if self.min == 0 { 524_288 } else { self.min } as u32;
        match self.rng.weighted(&[40, 25, 10, 10, 4]) {
            0 => 1 + self.rng.below(16) as u32,
            1 => 1 + self.rng.below(200) as u32,
            2 => 1 + self.rng.below(1500) as u32,
            3 => { let d = self.rng.below(3) as u32; let b = *self.rng.pick(&[m, m / 2, 512, 4096]); (b + d).saturating_sub(1).clamp(1, 9000) }
            _ => 1 + self.rng.below(9000) as u32,
        }
    }
    fn sizes(&mut self) -> Vec<u32> {
        // up to two records around the sizes of buffers, 16-bit numbers and the built-in maps
        if self.style == 4 && self.big < 2 && self.rng.chance(0.4) {
            self.big += 1;
            let b = *self.rng.pick(&[16_384u32, 32_768, 65_536, 65_536, 131_072, 262_144, 524_288, 600_000]);
            let mut v = vec![b + self.rng.below(3) as u32 - 1];
            for _ in 0..self.rng.idx(3) { let k = self.rng.idx(v.len() + 1); v.insert(k, 1 + self.rng.below(300) as u32); }
            return v;
        }
        // once a batch whose index is larger than such a buffer
        if self.style == 5 && self.big < 1 && self.rng.chance(0.4) {
            self.big += 1;
            let n = *self.rng.pick(&[1024u32, 2048, 4096, 4096]) + self.rng.below(3) as u32 - 1;
            return (0..n).map(|_| 1 + self.rng.below(3) as u32).collect();
        }
        let (n, small) = match self.style {
            // batches that fill whole sectors of the index
            1 => (*self.rng.pick(&[32, 32, 32, 64, 64, 96, 128, 160]), true),
            // long batches: several pages of index
            2 => (*self.rng.pick(&[1, 31, 33, 100, 256, 257, 300, 512, 600]), true),
            // one record at a time
            3 => (1, false),
            _ => (match self.rng.weighted(&[50, 25, 5]) { 0 => 1 + self.rng.below(3) as usize, 1 => 1 + self.rng.below(12) as usize, _ => 20 + self.rng.below(60) as usize }, false),
        };
        let n = if self.total > 3000 { n.min(4) } else { n };
        self.total += n as u32;
        (0..n).map(|_| if small { 1 + self.rng.below(12) as u32 } else { self.size() }).collect()
    }
    fn append(&mut self, h: usize) -> (u32, Op) { let sizes = if self.rng.chance(0.02) { vec![] } else if self.rng.chance(0.02) { vec![3, 0, 2] } else { self.sizes() }; self.n(Op::Append { h, sizes }) }
    fn seq(&mut self) -> i64 { match self.rng.weighted(&[60, 20, 4]) { 0 => self.rng.below(8) as i64, 1 => self.rng.below(60) as i64, _ => -1 - self.rng.below(4) as i64 } }
    fn read(&mut self, h: usize) -> (u32, Op) {
        let op = match self.rng.weighted(&[40, 20, 20, 4]) { 0 => Op::Get { h, n: self.seq() }, 1 => Op::Last { h }, 2 => Op::Len { h }, _ => Op::Dump { h } };
        self.n(op)
    }
}
fn knobs(rng: &mut Rng, small: bool) -> BTreeMap<String, i64> {
    let mut k = BTreeMap::new();
    let min = if small { *rng.pick(&[16, 32, 64, 128, 256, 512, 1024, 4096]) } else { *rng.pick(&[0, 32, 64, 256, 512, 1024, 2048, 4096, 8192, 20000]) };
    k.insert("min_mmap".into(), min);
    k.insert("max_mmaps".into(), *rng.pick(&[0, 0, 1, 2, 3, 5]));
    k
}
fn err(rng: &mut Rng, kind: &str) -> i32 {
    match kind {
        "full" => 28,
        "extend" => *rng.pick(&[28, 5, 27]), // ENOSPC EIO EFBIG
        "mmap" | "mprotect" => 12,           // ENOMEM
        "msync" | "shrink" | "fsync" | "write" => 5,
        _ => *rng.pick(&[24, 23, 5]), // EMFILE ENFILE EIO
    }
}

pub fn gen(prop: &str, rng: &mut Rng, thorough: bool) -> Plan<Op> {
    let small = matches!(prop, "C03" | "C04" | "C06") || rng.chance(0.5);
    let mut knobs = knobs(rng, small);
    let style = match prop { "C01" => rng.weighted(&[50, 15, 15, 20]), "C02" => rng.weighted(&[30, 30, 30, 10]), "C07" => rng.weighted(&[40, 15, 25, 20]), "C03" | "C05" => rng.weighted(&[70, 3, 5, 22]), _ => rng.weighted(&[60, 5, 10, 25]) };
    let style = match rng.idx(100) { 0..=2 => 4, 3 => 5, _ => style };
    let min = knobs["min_mmap"];
    let mut g = G { rng, id: 0, min, style, total: 0, big: 0 };
    let scale = if thorough { 2 } else { 1 };
    let mut incs = vec![];
    match prop {
        "C01" | "C02" => {
            let n = 1 + g.rng.below(3) as usize + (g.rng.chance(0.2) as usize) * 2;
            let threads = if g.rng.chance(0.25) { 2 + g.rng.idx(2) } else { 0 };
            let wb = *g.rng.pick(&[0.0, 0.0, 0.05, 0.3]);
            for k in 0..=n {
                let mut i = Inc::new(if threads > 0 { gen_sched(g.rng) } else { serial_sched() });
                i.writeback = wb;
                i.pre.push(g.n(Op::Open));
                let last = k == n;
                let m = 1 + g.rng.idx(if last { 3 } else { 5 * scale });
                for _ in 0..m {
                    match g.rng.weighted(&[70, 6, 4, 5, 5, 3]) {
                        1 => { let x = g.read(0); i.pre.push(x); }
                        2 => { i.pre.push(g.n(Op::Close)); i.pre.push(g.n(Op::Open)); }
                        3 => { i.pre.push(g.n(Op::Clone { slot: 0 })); let x = g.append(0); i.pre.push(x); if g.rng.chance(0.7) { i.pre.push(g.n(Op::Drop { slot: 0 })); } }
                        4 => { i.pre.push(g.n(Op::OpenRo { slot: 1 })); }
                        5 => { i.pre.push(g.n(Op::Dump { h: 0 })); }
                        _ => { let x = g.append(0); i.pre.push(x); }
                    }
                }
                for _ in 0..threads {
                    let mut t = vec![];
                    for _ in 0..1 + g.rng.idx(3) { let x = if g.rng.chance(0.8) { g.append(0) } else { g.read(0) }; t.push(x); }
                    i.threads.push(t);
                }
                if last { i.post.push(g.n(Op::Dump { h: 0 })); i.post.push(g.n(Op::Close)); i.post.push(g.n(Op::Sizes)); i.post.push(g.n(Op::Open)); }
                else {
                    if g.rng.chance(0.3) { i.post.push(g.n(Op::Close)); }
                    let ops: Vec<u32> = i.ops().map(|o| o.0).collect();
                    let apps: Vec<u32> = i.ops().filter(|o| matches!(o.1, Op::Append { .. })).map(|o| o.0).collect();
                    let op = if !apps.is_empty() && g.rng.chance(if prop == "C02" { 0.9 } else { 0.6 }) { *g.rng.pick(&apps) } else { *g.rng.pick(&ops) };
                    i.crash = Some(gen_crash(g.rng, op, 0.7));
                }
                incs.push(i);
            }
        }
        "C03" => {
            let mem = g.rng.chance(0.4);
            if mem { knobs.insert("memory".into(), 1); }
            let mut i = Inc::new(gen_sched(g.rng));
            i.pre.push(g.n(if mem { Op::OpenMem } else { Op::Open }));
            for _ in 0..g.rng.idx(4) { let x = g.append(0); i.pre.push(x); }
            let nt = 2 + g.rng.idx(3);
            for t in 0..nt {
                let mut v = vec![];
                let writer = t == 0 || g.rng.chance(0.4);
                let h = if g.rng.chance(0.4) { v.push(g.n(Op::Clone { slot: 0 })); 1 } else { 0 };
                if g.rng.chance(0.4) { let from = g.rng.idx(6); v.push(g.n(Op::IterNew { h, slot: 1, from })); }
                for _ in 0..1 + g.rng.idx(5 * scale) {
                    let x = if writer && g.rng.chance(0.7) { g.append(h) } else if g.rng.chance(0.25) { let n = 1 + g.rng.idx(5); g.n(Op::IterNext { slot: 1, n }) } else { g.read(h) };
                    v.push(x);
                }
                i.threads.push(v);
            }
            i.post.push(g.n(Op::Dump { h: 0 }));
            i.post.push(g.n(Op::Close));
            if !mem { i.post.push(g.n(Op::Open)); }
            incs.push(i);
        }
        "C04" => {
            let mem = g.rng.chance(0.1);
            if mem { knobs.insert("memory".into(), 1); }
            let n = if mem { 1 } else { 1 + g.rng.idx(3) };
            let threads = if g.rng.chance(0.15) { 2 } else { 0 };
            for k in 0..n {
                let mut i = Inc::new(if threads > 0 { gen_sched(g.rng) } else { serial_sched() });
                i.writeback = *g.rng.pick(&[0.0, 0.1]);
                for _ in 0..1 + g.rng.idx(2) { i.pre.push(g.n(if mem { Op::OpenMem } else { Op::Open })); }
                for _ in 0..2 + g.rng.idx(6 * scale) {
                    match g.rng.weighted(&[70, 12, 6, 3, 4]) {
                        1 => { let x = g.read(0); i.pre.push(x); }
                        2 if !mem => { i.pre.push(g.n(Op::Close)); i.pre.push(g.n(Op::Open)); i.pre.push(g.n(Op::Open)); }
                        3 if !mem => i.pre.push(g.n(Op::OpenRo { slot: 0 })),
                        4 => { i.pre.push(g.n(Op::IterNew { h: 0, slot: 1, from: 0 })); i.pre.push(g.n(Op::IterNext { slot: 1, n: 20 })); }
                        _ => { let x = g.append(0); i.pre.push(x); }
                    }
                }
                for _ in 0..threads {
                    let mut t = vec![];
                    for _ in 0..1 + g.rng.idx(3) { let x = if g.rng.chance(0.7) { g.append(0) } else { g.read(0) }; t.push(x); }
                    i.threads.push(t);
                }
                i.post.push(g.n(Op::Dump { h: 0 }));
                let x = g.append(0);
                i.post.push(x);
                i.post.push(g.n(Op::Dump { h: 0 }));
                if !mem && g.rng.chance(0.7) { i.post.push(g.n(Op::Close)); i.post.push(g.n(Op::Open)); }
                // faults: mostly inside appends
                let ops: Vec<(u32, Op)> = i.ops().cloned().collect();
                for (id, op) in &ops {
                    let p = match op { Op::Append { .. } => 0.35, Op::Open => 0.12, Op::OpenRo { .. } => 0.3, Op::Close => 0.2, _ => 0.0 };
                    if !g.rng.chance(p) { continue; }
                    let kind = match op {
                        Op::Append { .. } => *g.rng.pick(&["extend", "mmap", "msync", "msync", "mprotect", "extend", "full", "write"]),
                        Op::Close => "shrink",
                        _ => *g.rng.pick(&["open", "mmap", "mkdir", "fsync", "shrink"]),
                    };
                    let errno = err(g.rng, kind);
                    i.faults.push(Fault { op: *id, kind: kind.into(), nth: 1 + g.rng.below(3) as u32, errno, sticky: g.rng.chance(0.15) });
                }
                if k + 1 < n {
                    let ids: Vec<u32> = ops.iter().filter(|o| matches!(o.1, Op::Append { .. })).map(|o| o.0).collect();
                    if !ids.is_empty() && g.rng.chance(0.6) { let op = *g.rng.pick(&ids); i.crash = Some(gen_crash(g.rng, op, 0.6)); }
                }
                incs.push(i);
            }
            if !mem { let mut i = Inc::new(serial_sched()); i.pre.push(g.n(Op::Open)); let x = g.append(0); i.pre.push(x); i.pre.push(g.n(Op::Dump { h: 0 })); incs.push(i); }
        }
        "C05" => {
            let mut i = Inc::new(gen_sched(g.rng));
            i.pre.push(g.n(Op::Open));
            for _ in 0..g.rng.idx(4) { let x = g.append(0); i.pre.push(x); }
            let gift = g.rng.chance(0.6);
            if gift { i.pre.push(g.n(Op::Gift)); if g.rng.chance(0.7) { i.pre.push(g.n(Op::Close)); } }
            let nt = 2 + g.rng.idx(2);
            for _ in 0..nt {
                let mut v = vec![];
                if !gift { v.push(g.n(Op::Clone { slot: 0 })); }
                let role = g.rng.idx(3);
                for _ in 0..1 + g.rng.idx(5 * scale) {
                    match (role, g.rng.weighted(&[30, 25, 15, 12, 10, 12])) {
                        (0, 0) | (0, 1) => { let x = g.append(1); v.push(x); }
                        (_, 0) => { let s = 1 + g.rng.idx(2); v.push(g.n(Op::Clone { slot: s })); }
                        (_, 1) => { let s = 1 + g.rng.idx(2); v.push(g.n(Op::Drop { slot: s })); }
                        (_, 2) => { let s = 1 + g.rng.idx(2); let from = g.rng.idx(4); v.push(g.n(Op::IterNew { h: 1, slot: s, from })); v.push(g.n(Op::IterNext { slot: s, n: 3 })); }
                        (_, 3) => { let s = 1 + g.rng.idx(3); v.push(g.n(Op::OpenRo { slot: s })); }
                        (_, 4) => { let h = 1 + g.rng.idx(4); let x = g.read(h); v.push(x); }
                        (_, _) => { let x = if g.rng.chance(0.5) { g.append(1) } else { g.read(1) }; v.push(x); }
                    }
                }
                for s in 1..3 { if g.rng.chance(0.3) { v.push(g.n(Op::Dump { h: s + 1 })); } }
                if g.rng.chance(0.5) { v.push(g.n(Op::Drop { slot: 0 })); }
                i.threads.push(v);
            }
            if !gift { let x = g.append(0); i.post.push(x); }
            i.post.push(g.n(Op::Dump { h: 0 }));
            i.post.push(g.n(Op::Close));
            i.post.push(g.n(Op::Sizes));
            i.post.push(g.n(Op::Open));
            let x = g.append(0);
            i.post.push(x);
            if g.rng.chance(0.3) { let ops: Vec<u32> = i.ops().map(|o| o.0).collect(); let op = *g.rng.pick(&ops); i.crash = Some(gen_crash(g.rng, op, 0.6)); }
            incs.push(i);
            let mut i = Inc::new(serial_sched());
            i.pre.push(g.n(Op::Open));
            let x = g.append(0);
            i.pre.push(x);
            i.pre.push(g.n(Op::Close));
            i.pre.push(g.n(Op::Open));
            incs.push(i);
        }
        "C06" => {
            let mem = g.rng.chance(0.25);
            if mem { knobs.insert("memory".into(), 1); }
            let n = if mem { 1 } else { 1 + g.rng.idx(3) };
            for k in 0..n {
                let reader = g.rng.chance(0.25);
                let mut i = Inc::new(if reader { gen_sched(g.rng) } else { serial_sched() });
                i.pre.push(g.n(if mem { Op::OpenMem } else { Op::Open }));
                let m = 3 + g.rng.idx(12 * scale);
                for _ in 0..m {
                    match g.rng.weighted(&[60, 14, 8, 6, 6, 3]) {
                        1 => { let x = g.read(0); i.pre.push(x); }
                        2 => { let s = g.rng.idx(3); let from = g.rng.idx(10); i.pre.push(g.n(Op::IterNew { h: 0, slot: s, from })); }
                        3 => { let s = g.rng.idx(3); let n = 1 + g.rng.idx(8); i.pre.push(g.n(Op::IterNext { slot: s, n })); }
                        4 if !mem => { i.pre.push(g.n(Op::Close)); if g.rng.chance(0.4) { i.pre.push(g.n(Op::Sizes)); } i.pre.push(g.n(Op::Open)); }
                        5 if !mem => { i.pre.push(g.n(Op::OpenRo { slot: 3 })); let x = g.read(4); i.pre.push(x); }
                        _ => { let x = g.append(0); i.pre.push(x); }
                    }
                }
                if reader {
                    let mut a = vec![];
                    for _ in 0..2 + g.rng.idx(5) { let x = g.append(0); a.push(x); }
                    let mut b = vec![g.n(Op::IterNew { h: 0, slot: 0, from: 0 })];
                    for _ in 0..2 + g.rng.idx(5) { let x = if g.rng.chance(0.5) { g.n(Op::IterNext { slot: 0, n: 4 }) } else { g.read(0) }; b.push(x); }
                    i.threads = vec![a, b];
                }
                for s in 0..3 { i.post.push(g.n(Op::IterNext { slot: s, n: 30 })); }
                let x = g.seq();
                i.post.push(g.n(Op::Get { h: 0, n: x }));
                i.post.push(g.n(Op::Dump { h: 0 }));
                if !mem {
                    i.post.push(g.n(Op::OpenRo { slot: 3 }));
                    if g.rng.chance(0.6) { i.post.push(g.n(Op::Close)); i.post.push(g.n(Op::Dump { h: 4 })); i.post.push(g.n(Op::Sizes)); }
                }
                if k + 1 < n && g.rng.chance(0.5) { let ops: Vec<u32> = i.ops().map(|o| o.0).collect(); let op = *g.rng.pick(&ops); i.crash = Some(gen_crash(g.rng, op, 0.0)); }
                incs.push(i);
            }
            if !mem { let mut i = Inc::new(serial_sched()); i.pre.push(g.n(Op::Open)); i.pre.push(g.n(Op::Dump { h: 0 })); incs.push(i); }
        }
        _ => {
            // C07
            let mut i = Inc::new(gen_sched(g.rng));
            i.pre.push(g.n(Op::Open));
            for _ in 0..g.rng.idx(4) { let x = g.append(0); i.pre.push(x); }
            if g.rng.chance(0.3) { i.pre.push(g.n(Op::Close)); i.pre.push(g.n(Op::Open)); }
            for _ in 0..1 + g.rng.idx(2) {
                let mut v = vec![];
                for _ in 0..2 + g.rng.idx(5 * scale) { let x = if g.rng.chance(0.85) { g.append(0) } else { g.read(0) }; v.push(x); }
                i.threads.push(v);
            }
            let chunk = *g.rng.pick(&[512, 512, 1024, 4096, 65536]);
            i.threads.push(vec![g.n(Op::Copy { chunk })]);
            if g.rng.chance(0.3) { i.post.push(g.n(Op::OpenCopy { ro: true, slot: 0 })); i.post.push(g.n(Op::Dump { h: 1 })); i.post.push(g.n(Op::Drop { slot: 0 })); }
            i.post.push(g.n(Op::OpenCopy { ro: false, slot: 0 }));
            for _ in 0..1 + g.rng.idx(3) { let x = g.append(1); i.post.push(x); let x = g.read(1); i.post.push(x); }
            i.post.push(g.n(Op::Dump { h: 1 }));
            i.post.push(g.n(Op::Drop { slot: 0 }));
            let ro = g.rng.chance(0.5);
            i.post.push(g.n(Op::OpenCopy { ro, slot: 0 }));
            i.post.push(g.n(Op::Dump { h: 1 }));
            i.post.push(g.n(Op::Dump { h: 0 }));
            i.post.push(g.n(Op::Drop { slot: 0 }));
            incs.push(i);
        }
    }
    Plan { prop: prop.into(), seed: 0, knobs, incs }
}

pub fn config(prop: &str, tier: &str) -> Config {
    let thorough = tier == "thorough";
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let (faults, probes): (&[&str], &[&str]) = match prop {
        "C01" | "C02" => (&[], &["power_loss_dropped_sector", "power_loss_mixed_sectors", "power_loss_dropped_metadata"]),
        "C04" => (&["extend", "mmap", "msync", "full", "open", "shrink", "fsync"], &[]),
        "C03" | "C05" => (&[], &["futex_blocked"]),
        _ => (&[], &[]),
    };
    let rule = match prop {
        "C01" | "C02" => "1 to 6 process incarnations per run, appends of random batches (also sector-aligned and multi-page index batches), each incarnation but the last ended by a kill or power loss at a random system call or memory access; non-trivial: at least one acknowledged append and one crash; distinct by the hash of history and schedule",
        "C03" => "2 to 4 threads appending and reading one database, context switches at random memory accesses, atomics and system calls; non-trivial: at least two successful appends and five context switches; distinct by the hash of history and schedule",
        "C04" => "histories of appends, reopens and crashes with failing extend, mmap, msync, mprotect, open, shrink calls at random positions; non-trivial: a call of the database failed and another append succeeded; distinct by the hash of history and schedule",
        "C05" => "2 to 3 threads cloning, dropping, iterating and opening read-only beside appends, then reopen or crash; non-trivial: an append succeeded and at least five context switches; distinct by the hash of history and schedule",
        "C06" => "batches with sizes around the map limits, reopen modes, kills, live iterators; non-trivial: at least three successful appends; distinct by the hash of history and schedule",
        _ => "threads appending while another copies the files page by page, index first, then the copy is opened, appended to and reopened; non-trivial: an append succeeded and the copy was opened; distinct by the hash of history and schedule",
    };
    Config {
        prop: prop.into(), tier: tier.into(), seed: 1, runs: if thorough { 40_000_000 } else { 60_000 }, secs: if thorough { 1500 } else { 75 }, workers: 8,
        rule: rule.into(),
        real: s(&["fraos (all of it, compiled from /repo with memory-access instrumentation)", "memmap2", "Rust std (locks, files)", "kernel mmap and page-cache semantics (files on tmpfs)"]),
        stubs: s(&["thread scheduler (futex and instrumentation seam)", "durability of files and metadata after power loss (simulated disk)", "failing system calls", "getrandom, clock"]),
        assumptions: s(&["sequentially consistent memory (no weak-memory reordering is simulated)", "file metadata changes are journalled in order and any sync commits the earlier ones", "sectors of 512 or 4096 bytes are written atomically", "msync(MS_SYNC) is durable when it returns success", "storage tuning constants are reduced through cfg(dst) knobs in most runs, built-in values in the others"]),
        level: "exploration".into(), verif: String::new(), fault_kinds: s(faults), probes_expected: s(probes), program: String::new(),
    }
}
