//! The recorded history: one JSON object per line, in the order in which things happened.
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Ev {
    pub k: String,
    #[serde(default)]
    pub id: u32,
    #[serde(default)]
    pub t: i64,
    /// incarnation
    #[serde(default)]
    pub i: u32,
    #[serde(default)]
    pub v: Value,
    #[serde(default)]
    pub kind: String,
    #[serde(default)]
    pub msg: String,
    #[serde(default)]
    pub op: u32,
}
static mut INC: u32 = 0;
pub fn set_inc(i: u32) { unsafe { INC = i } }
pub fn inc() -> u32 { unsafe { INC } }
pub fn ev(k: &str, id: u32, v: Value) {
    let e = Ev { k: k.into(), id, t: if crate::sched::sim() { crate::sched::me() as i64 } else { -1 }, i: inc(), v, kind: String::new(), msg: String::new(), op: 0 };
    crate::shared::hist_push(&serde_json::to_vec(&e).unwrap());
    if crate::shared::sh().hist_overflow != 0 && crate::sched::on() { crate::sched::fatal("endless", "the run went on without end: more events than can be recorded"); }
}
pub fn parse() -> Vec<Ev> {
    crate::shared::hist_bytes().split(|b| *b == b'\n').filter(|l| !l.is_empty())
        .map(|l| serde_json::from_slice(l).unwrap_or_else(|e| panic!("history line {:?}: {e}", String::from_utf8_lossy(l)))).collect()
}
