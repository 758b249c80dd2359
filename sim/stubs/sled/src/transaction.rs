//! sled's transactions: serializable, atomic, retried on conflict.
use crate::{fail, point, Batch, Error, IVec, Op, Result, Tree};
use std::{cell::{Cell, RefCell}, collections::BTreeMap, fmt, rc::Rc};

#[derive(Debug, Clone, PartialEq)]
pub enum UnabortableTransactionError { Conflict, Storage(Error) }
#[derive(Debug, Clone, PartialEq)]
pub enum ConflictableTransactionError<T = Error> { Abort(T), Conflict, Storage(Error) }
#[derive(Debug, Clone, PartialEq)]
pub enum TransactionError<T = Error> { Abort(T), Storage(Error) }
pub type ConflictableTransactionResult<T, E = ()> = std::result::Result<T, ConflictableTransactionError<E>>;
pub type TransactionResult<T, E = ()> = std::result::Result<T, TransactionError<E>>;
type Unabortable<T> = std::result::Result<T, UnabortableTransactionError>;

impl fmt::Display for UnabortableTransactionError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self { Self::Conflict => write!(f, "Conflict during transaction"), Self::Storage(e) => e.fmt(f) } }
}
impl<E: fmt::Display> fmt::Display for ConflictableTransactionError<E> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self { Self::Abort(e) => e.fmt(f), Self::Conflict => write!(f, "Conflict during transaction"), Self::Storage(e) => e.fmt(f) } }
}
impl<E: fmt::Display> fmt::Display for TransactionError<E> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self { Self::Abort(e) => e.fmt(f), Self::Storage(e) => e.fmt(f) } }
}
impl std::error::Error for UnabortableTransactionError {}
impl<E: std::error::Error> std::error::Error for ConflictableTransactionError<E> {}
impl<E: std::error::Error> std::error::Error for TransactionError<E> {}
impl From<Error> for UnabortableTransactionError { fn from(e: Error) -> Self { Self::Storage(e) } }
impl<T> From<Error> for ConflictableTransactionError<T> { fn from(e: Error) -> Self { Self::Storage(e) } }
impl<T> From<Error> for TransactionError<T> { fn from(e: Error) -> Self { Self::Storage(e) } }
impl<E> From<UnabortableTransactionError> for ConflictableTransactionError<E> {
    fn from(e: UnabortableTransactionError) -> Self { match e { UnabortableTransactionError::Conflict => Self::Conflict, UnabortableTransactionError::Storage(e) => Self::Storage(e) } }
}
pub fn abort<A, T>(t: T) -> ConflictableTransactionResult<A, T> { Err(ConflictableTransactionError::Abort(t)) }

type Cells = Rc<RefCell<BTreeMap<IVec, Option<IVec>>>>;
#[derive(Clone)]
pub struct TransactionalTree { tree: Tree, writes: Cells, reads: Cells, flush: Rc<Cell<bool>> }
impl TransactionalTree {
    pub fn insert<K: AsRef<[u8]> + Into<IVec>, V: Into<IVec>>(&self, k: K, v: V) -> Unabortable<Option<IVec>> {
        let old = self.get(k.as_ref())?;
        self.writes.borrow_mut().insert(k.into(), Some(v.into()));
        Ok(old)
    }
    pub fn remove<K: AsRef<[u8]> + Into<IVec>>(&self, k: K) -> Unabortable<Option<IVec>> {
        let old = self.get(k.as_ref())?;
        self.writes.borrow_mut().insert(k.into(), None);
        Ok(old)
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Unabortable<Option<IVec>> {
        let key = IVec::from(k.as_ref());
        if let Some(x) = self.writes.borrow().get(&key) { return Ok(x.clone()); }
        if let Some(x) = self.reads.borrow().get(&key) { return Ok(x.clone()); }
        let v = self.tree.get(&key)?;
        self.reads.borrow_mut().insert(key, v.clone());
        Ok(v)
    }
    pub fn apply_batch(&self, b: &Batch) -> Unabortable<()> {
        for (k, v) in &b.0 { match v { Some(v) => self.insert(k.as_slice(), v.as_slice())?, None => self.remove(k.as_slice())? }; }
        Ok(())
    }
    pub fn flush(&self) { self.flush.set(true) }
    pub fn generate_id(&self) -> Result<u64> { Ok(self.tree.core.id()) }
}

pub trait Transactional<E = ()> {
    type View;
    fn view(&self) -> (Self::View, Vec<TransactionalTree>);
    fn transaction<F: Fn(&Self::View) -> ConflictableTransactionResult<A, E>, A>(&self, f: F) -> TransactionResult<A, E> {
        loop {
            let (view, parts) = self.view();
            let r = f(&view);
            match r {
                Err(ConflictableTransactionError::Conflict) => continue,
                Err(ConflictableTransactionError::Abort(e)) => return Err(TransactionError::Abort(e)),
                Err(ConflictableTransactionError::Storage(e)) => return Err(TransactionError::Storage(e)),
                Ok(a) => {
                    point();
                    if parts.iter().any(|p| p.reads.borrow().iter().any(|(k, v)| p.tree.peek(k) != *v)) { continue; }
                    let ops: Vec<Op> = parts.iter().flat_map(|p| {
                        let n = (*p.tree.name).clone();
                        p.writes.borrow().iter().map(|(k, v)| match v { Some(v) => Op::Put(n.clone(), k.to_vec(), v.to_vec()), None => Op::Del(n.clone(), k.to_vec()) }).collect::<Vec<_>>()
                    }).collect();
                    if !ops.is_empty() { fail("kv_insert", || parts[0].tree.core.commit(ops))?; }
                    if parts.iter().any(|p| p.flush.get()) { parts[0].tree.flush()?; }
                    return Ok(a);
                }
            }
        }
    }
}
fn one(t: &Tree) -> TransactionalTree { TransactionalTree { tree: t.clone(), writes: Default::default(), reads: Default::default(), flush: Default::default() } }
impl<E> Transactional<E> for &Tree { type View = TransactionalTree; fn view(&self) -> (Self::View, Vec<TransactionalTree>) { let a = one(self); (a.clone(), vec![a]) } }
impl<E> Transactional<E> for &&Tree { type View = TransactionalTree; fn view(&self) -> (Self::View, Vec<TransactionalTree>) { let a = one(self); (a.clone(), vec![a]) } }
impl<E> Transactional<E> for Tree { type View = TransactionalTree; fn view(&self) -> (Self::View, Vec<TransactionalTree>) { let a = one(self); (a.clone(), vec![a]) } }
impl<E> Transactional<E> for [Tree] { type View = Vec<TransactionalTree>; fn view(&self) -> (Self::View, Vec<TransactionalTree>) { let a: Vec<_> = self.iter().map(one).collect(); (a.clone(), a) } }
impl<E> Transactional<E> for [&Tree] { type View = Vec<TransactionalTree>; fn view(&self) -> (Self::View, Vec<TransactionalTree>) { let a: Vec<_> = self.iter().map(|t| one(t)).collect(); (a.clone(), a) } }
impl<E> Transactional<E> for (&Tree, &Tree) { type View = (TransactionalTree, TransactionalTree); fn view(&self) -> (Self::View, Vec<TransactionalTree>) { let (a, b) = (one(self.0), one(self.1)); ((a.clone(), b.clone()), vec![a, b]) } }
impl<E> Transactional<E> for (&Tree, &Tree, &Tree) { type View = (TransactionalTree, TransactionalTree, TransactionalTree); fn view(&self) -> (Self::View, Vec<TransactionalTree>) { let (a, b, c) = (one(self.0), one(self.1), one(self.2)); ((a.clone(), b.clone(), c.clone()), vec![a, b, c]) } }
impl Tree {
    pub fn transaction<F: Fn(&TransactionalTree) -> ConflictableTransactionResult<A, E>, A, E>(&self, f: F) -> TransactionResult<A, E> { Transactional::<E>::transaction(&self, f) }
}
