//! Reference model of an append-only log: decides whether a recorded history could have come from one.
use std::collections::BTreeMap;

/// A record as seen: (length, hash of the bytes).
pub type R = (u64, u64);

#[derive(Clone, Debug)]
pub struct Batch { pub id: u32, pub inv: usize, pub ret: usize, pub recs: Vec<R>, pub seqno: Option<usize>, pub failed: bool }
#[derive(Clone, Debug)]
pub enum ReadKind { Get(usize), Last, Len }
#[derive(Clone, Debug)]
pub struct Read { pub inv: usize, pub ret: usize, pub kind: ReadKind, pub rec: Option<R>, pub len: usize, pub id: u32 }

/// One possible explanation of a session.
#[derive(Clone, Debug)]
pub struct Alt {
    /// records certainly there: everything up to the last acknowledged batch
    pub log: Vec<R>,
    /// un-acknowledged batches that may follow, in this order
    pub trailing: Vec<Vec<R>>,
}

/// `base`: content at the beginning. `crashed`: the session ended without the in-flight calls returning.
pub fn explain(base: &[R], batches: &[Batch], reads: &[Read], crashed: bool) -> Result<Vec<Alt>, String> {
    let mut ok: BTreeMap<usize, &Batch> = BTreeMap::new();
    let mut flight: Vec<&Batch> = vec![];
    for b in batches {
        if b.failed { continue; }
        if b.ret == usize::MAX { flight.push(b); continue; }
        let s = match b.seqno { Some(s) => s, None => if b.recs.is_empty() { continue } else { return Err(format!("append {} succeeded without a sequence number", b.id)) } };
        if b.recs.is_empty() { return Err(format!("append {} of nothing returned a sequence number", b.id)); }
        if let Some(o) = ok.insert(s, b) { return Err(format!("appends {} and {} were both given sequence number {}", o.id, b.id, s)); }
    }
    if !crashed && !flight.is_empty() { return Err(format!("append {} never returned", flight[0].id)); }
    let flight: Vec<&Batch> = flight.into_iter().filter(|b| !b.recs.is_empty()).collect();
    let mut out = vec![];
    let mut err = String::new();
    let mut seq: Vec<&Batch> = vec![];
    place(base, base.len(), &ok, &flight, &mut vec![false; flight.len()], &mut seq, 0, reads, &mut out, &mut err);
    if out.is_empty() { Err(err) } else { Ok(out) }
}
#[allow(clippy::too_many_arguments)]
fn place<'a>(base: &[R], pos: usize, ok: &BTreeMap<usize, &'a Batch>, flight: &[&'a Batch], used: &mut Vec<bool>, seq: &mut Vec<&'a Batch>, placed_ok: usize,
    reads: &[Read], out: &mut Vec<Alt>, err: &mut String) {
    if out.len() > 64 { return; }
    if let Some(b) = ok.get(&pos) {
        if let Some((s, o)) = ok.range(pos + 1..).next() { if *s < pos + b.recs.len() { if err.is_empty() { *err = format!("append {} at {} overlaps append {} at {}", o.id, s, b.id, pos); } return; } }
        seq.push(b);
        place(base, pos + b.recs.len(), ok, flight, used, seq, placed_ok + 1, reads, out, err);
        seq.pop();
        return;
    }
    if placed_ok == ok.len() {
        match feasible(base, seq, reads) {
            Ok(()) => out.push(build(base, seq)),
            Err(e) => if err.is_empty() { *err = e },
        }
    } else if flight.is_empty() && err.is_empty() {
        let (s, b) = ok.range(pos..).next().or_else(|| ok.iter().next()).unwrap();
        *err = format!("append {} was given sequence number {} but the log ended at {}", b.id, s, pos);
    }
    for i in 0..flight.len() {
        if used[i] { continue; }
        used[i] = true;
        seq.push(flight[i]);
        place(base, pos + flight[i].recs.len(), ok, flight, used, seq, placed_ok, reads, out, err);
        seq.pop();
        used[i] = false;
    }
    if err.is_empty() { *err = format!("no order of the appends fits the sequence numbers they were given (log end {pos})"); }
}
fn build(base: &[R], seq: &[&Batch]) -> Alt {
    let lastok = seq.iter().rposition(|b| b.ret != usize::MAX);
    let n = lastok.map_or(0, |i| i + 1);
    let mut log = base.to_vec();
    for b in &seq[..n] { log.extend(&b.recs); }
    Alt { log, trailing: seq[n..].iter().map(|b| b.recs.clone()).collect() }
}
/// Can instants be chosen at which the batches became visible, in this order, each between call and return, such that
/// every read saw exactly the log of some instant during the read?
fn feasible(base: &[R], seq: &[&Batch], reads: &[Read]) -> Result<(), String> {
    let k = seq.len();
    let mut bounds = vec![base.len()];
    for b in seq { bounds.push(bounds.last().unwrap() + b.recs.len()); }
    let total = *bounds.last().unwrap();
    let rec = |i: usize| -> R { if i < base.len() { base[i] } else { let j = bounds.partition_point(|x| *x <= i) - 1; seq[j].recs[i - bounds[j]] } };
    let mut lo: Vec<(usize, String)> = seq.iter().map(|b| (b.inv, format!("append {} began", b.id))).collect();
    let mut hi: Vec<(usize, String)> = seq.iter().map(|b| (b.ret, format!("append {} returned", b.id))).collect();
    let up = |lo: &mut Vec<(usize, String)>, j: usize, t: usize, why: String| if t > lo[j].0 { lo[j] = (t, why) };
    let dn = |hi: &mut Vec<(usize, String)>, j: usize, t: usize, why: String| if t < hi[j].0 { hi[j] = (t, why) };
    for r in reads {
        match r.kind {
            ReadKind::Get(i) => match r.rec {
                Some(x) => {
                    if i >= total { return Err(format!("read {} found a record at {} but only {} were ever appended", r.id, i, total)); }
                    if x != rec(i) { return Err(format!("read {} at {} returned (length {}, hash {:x}) instead of (length {}, hash {:x})", r.id, i, x.0, x.1, rec(i).0, rec(i).1)); }
                    if i >= base.len() { let j = bounds.partition_point(|y| *y <= i) - 1; dn(&mut hi, j, r.ret, format!("read {} saw record {}", r.id, i)); }
                }
                None => {
                    if i < base.len() { return Err(format!("read {} found nothing at {} although the log held {} records from the start", r.id, i, base.len())); }
                    if i < total { let j = bounds.partition_point(|y| *y <= i) - 1; up(&mut lo, j, r.inv, format!("read {} did not see record {}", r.id, i)); }
                }
            },
            ReadKind::Len => {
                let Ok(j) = bounds.binary_search(&r.len) else { return Err(format!("length {} (read {}) is not the end of any batch; ends are {:?}", r.len, r.id, bounds)) };
                if j > 0 { dn(&mut hi, j - 1, r.ret, format!("read {} saw length {}", r.id, r.len)); }
                if j < k { up(&mut lo, j, r.inv, format!("read {} saw length {}", r.id, r.len)); }
            }
            ReadKind::Last => {
                let c: Vec<usize> = match r.rec {
                    None => if base.is_empty() { vec![0] } else { vec![] },
                    Some(x) => (0..=k).filter(|j| bounds[*j] > 0 && rec(bounds[*j] - 1) == x).collect(),
                };
                if c.is_empty() { return Err(format!("last record (read {}) was {:?}, which never was the last record of the log", r.id, r.rec)); }
                if c.len() == 1 {
                    let j = c[0];
                    if j > 0 { dn(&mut hi, j - 1, r.ret, format!("read {} saw the last record of batch ending at {}", r.id, bounds[j])); }
                    if j < k { up(&mut lo, j, r.inv, format!("read {} saw as last record the one at {}", r.id, bounds[j] as i64 - 1)); }
                }
            }
        }
    }
    let mut cur: (usize, String) = (0, "start".into());
    for j in 0..k {
        if lo[j].0 > cur.0 { cur = lo[j].clone(); }
        if cur.0 >= hi[j].0 { return Err(format!("append {} (records {}..{}) must have become visible before event {} ({}) but not before event {} ({})", seq[j].id, bounds[j], bounds[j + 1], hi[j].0, hi[j].1, cur.0, cur.1)); }
    }
    Ok(())
}
/// Does `content` follow from one of the explanations: everything acknowledged, then a prefix of what was under way?
/// `failed`: batches whose append reported an error.
pub fn reopened(alts: &[Alt], failed: &[Vec<R>], content: &[R]) -> Result<(), String> {
    let mut err = String::new();
    for a in alts {
        if content.len() < a.log.len() { if err.is_empty() { err = format!("{} records after reopening, but {} had been acknowledged", content.len(), a.log.len()); } continue; }
        if let Some(i) = (0..a.log.len()).find(|i| content[*i] != a.log[*i]) { if err.is_empty() { err = format!("record {} is (length {}, hash {:x}) after reopening, was (length {}, hash {:x})", i, content[i].0, content[i].1, a.log[i].0, a.log[i].1); } continue; }
        let rest = &content[a.log.len()..];
        let mut t: Vec<R> = a.trailing.concat();
        if t.starts_with(rest) { return Ok(()); }
        for f in failed {
            let n = t.len();
            t.extend(f);
            if t.starts_with(rest) { return Ok(()); }
            t.truncate(n);
        }
        if err.is_empty() { err = format!("after the {} acknowledged records, {} more appeared that are no prefix of an interrupted append: {:?}", a.log.len(), rest.len(), &rest[..rest.len().min(6)]); }
    }
    Err(err)
}
