//! Stand-in for cardano-net: every call becomes a question in a hub that the simulator answers when it likes.
use cardano_sdk::chaininfo::ChainInfo;
use cardano_sdk::protocol::{Point, Tip, Version};
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Debug)]
pub struct NetworkDescription {
    pub anchor_hosts: Vec<(String, u16)>,
    pub chain_info: ChainInfo,
    pub net_versions: Vec<Version>,
    pub known_points: Vec<(u64, Point)>,
}
#[derive(Debug, thiserror::Error)]
pub enum ProtocolError {
    #[error("I/O error {0}")]
    IoError(#[from] std::io::Error),
    #[error("Stream cut short expected at least={expecting:?} got={got:?}")]
    StreamError { expecting: usize, got: usize },
    #[error("Unexpected type of {0} message {1}")]
    UnexpectedVariant(String, String),
}
#[derive(Debug, thiserror::Error)]
pub enum NetworkError {
    #[error("protocol error {0}")]
    ProtocolError(#[from] ProtocolError),
    #[error("Connect I/O error {0:?}")]
    ConnectError(Vec<std::io::Error>),
}
pub enum ChainIntersection { Found(Point, Tip), NotFound(Tip) }
pub struct ChainSync;
pub struct BlockFetch;
pub struct Channel<P> { conn: u64, p: PhantomData<fn() -> P> }
pub struct NetworkHandle { conn: u64, pub chainsync: Channel<ChainSync>, pub blockfetch: Channel<BlockFetch> }
pub struct BlockFetcher<'b> { channel: &'b mut Channel<BlockFetch>, done: bool }
#[derive(Debug, Clone)]
pub struct SerializedBlock(Vec<u8>);
impl AsRef<[u8]> for SerializedBlock { fn as_ref(&self) -> &[u8] { &self.0 } }

fn odd(what: &str, a: sim::Ans) -> ProtocolError {
    match a {
        sim::Ans::Broken => ProtocolError::StreamError { expecting: 1, got: 0 },
        a => ProtocolError::UnexpectedVariant(what.into(), format!("{a:?}")),
    }
}
impl NetworkHandle {
    pub async fn start(d: &NetworkDescription) -> Result<NetworkHandle, NetworkError> {
        match sim::ask(sim::Ask::Connect { hosts: d.anchor_hosts.clone() }).await {
            sim::Ans::Connected(conn) => Ok(NetworkHandle { conn, chainsync: Channel { conn, p: PhantomData }, blockfetch: Channel { conn, p: PhantomData } }),
            sim::Ans::Broken => Err(ProtocolError::StreamError { expecting: 1, got: 0 }.into()),
            _ => Err(NetworkError::ConnectError(vec![std::io::Error::from(std::io::ErrorKind::ConnectionRefused)])),
        }
    }
    pub async fn stop(self) { sim::ask(sim::Ask::Stop { conn: self.conn }).await; }
}
impl Drop for NetworkHandle { fn drop(&mut self) { sim::closed(self.conn); } }
impl Channel<ChainSync> {
    pub async fn intersect(&mut self, points: Vec<Point>) -> Result<ChainIntersection, ProtocolError> {
        match sim::ask(sim::Ask::Intersect { conn: self.conn, points }).await {
            sim::Ans::Found(p, t) => Ok(ChainIntersection::Found(p, t)),
            sim::Ans::NotFound(t) => Ok(ChainIntersection::NotFound(t)),
            a => Err(odd("chainsync", a)),
        }
    }
    pub async fn get_tip(&mut self) -> Result<Tip, ProtocolError> {
        match self.intersect(vec![]).await? { ChainIntersection::Found(_, t) | ChainIntersection::NotFound(t) => Ok(t) }
    }
}
impl Channel<BlockFetch> {
    pub async fn request_range<'b>(&'b mut self, from: Point, to: Point) -> Result<Option<BlockFetcher<'b>>, ProtocolError> {
        match sim::ask(sim::Ask::Range { conn: self.conn, from, to }).await {
            sim::Ans::Blocks => Ok(Some(BlockFetcher { channel: self, done: false })),
            sim::Ans::NoBlocks => Ok(None),
            a => Err(odd("blockfetch", a)),
        }
    }
}
impl<'b> BlockFetcher<'b> {
    pub async fn next(&mut self) -> Result<Option<SerializedBlock>, ProtocolError> {
        if self.done { return Ok(None); }
        match sim::ask(sim::Ask::Next { conn: self.channel.conn }).await {
            sim::Ans::Block(b) => Ok(Some(SerializedBlock(b))),
            sim::Ans::Done => { self.done = true; Ok(None) }
            a => Err(odd("blockfetch", a)),
        }
    }
}

pub mod sim {
    use super::*;
    use std::sync::Mutex;
    #[derive(Clone, Debug)]
    pub enum Ask { Connect { hosts: Vec<(String, u16)> }, Intersect { conn: u64, points: Vec<Point> }, Range { conn: u64, from: Point, to: Point }, Next { conn: u64 }, Stop { conn: u64 } }
    #[derive(Clone, Debug)]
    pub enum Ans { Connected(u64), Refused, Broken, Found(Point, Tip), NotFound(Tip), Blocks, NoBlocks, Block(Vec<u8>), Done, Stopped }
    struct Call { id: u64, ask: Ask, ans: Option<Ans>, waker: Option<Waker> }
    #[derive(Default)]
    struct Hub { next: u64, calls: Vec<Call>, closed: Vec<u64> }
    static HUB: Mutex<Option<Hub>> = Mutex::new(None);
    fn hub<T>(f: impl FnOnce(&mut Hub) -> T) -> T { f(HUB.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(Hub::default)) }
    pub(crate) struct Wait { id: u64 }
    pub(crate) fn ask(ask: Ask) -> Wait { hub(|h| { h.next += 1; let id = h.next; h.calls.push(Call { id, ask, ans: None, waker: None }); Wait { id } }) }
    pub(crate) fn closed(conn: u64) { hub(|h| h.closed.push(conn)) }
    impl Future for Wait {
        type Output = Ans;
        fn poll(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Ans> {
            hub(|h| { let x = h.calls.iter_mut().find(|x| x.id == self.id).unwrap(); match x.ans.take() { Some(a) => Poll::Ready(a), None => { x.waker = Some(c.waker().clone()); Poll::Pending } } })
        }
    }
    impl Drop for Wait { fn drop(&mut self) { hub(|h| h.calls.retain(|x| x.id != self.id)) } }
    /// the questions without an answer, oldest first
    pub fn open() -> Vec<(u64, Ask)> { hub(|h| h.calls.iter().filter(|c| c.ans.is_none()).map(|c| (c.id, c.ask.clone())).collect()) }
    pub fn answer(id: u64, a: Ans) {
        let w = hub(|h| h.calls.iter_mut().find(|c| c.id == id).and_then(|c| { c.ans = Some(a); c.waker.take() }));
        if let Some(w) = w { w.wake(); }
    }
    /// connections given up since the last call
    pub fn take_closed() -> Vec<u64> { hub(|h| std::mem::take(&mut h.closed)) }
}
