//! Environment model standing in for the `hypercore` crate (not available in this sandbox).
//! A [`Hypercore`] here is a handle on a [`CoreModel`]: the log of blocks, which a harness may make
//! symbolic (lazily created blocks, nondeterministic faults, nondeterministic suspension points).
//! The default model is a faithful in-memory append-only log.
use std::{
    collections::BTreeMap,
    fmt::Debug,
    future::Future,
    path::{Path, PathBuf},
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll},
};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Info {
    pub length: u64,
    pub byte_length: u64,
    pub contiguous_length: u64,
    pub fork: u64,
    pub writeable: bool,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct AppendOutcome {
    pub length: u64,
    pub byte_length: u64,
}
#[derive(thiserror::Error, Debug)]
#[non_exhaustive]
pub enum HypercoreError {
    #[error("Bad argument. {context}")]
    BadArgument { context: String },
    #[error("Not writable")]
    NotWritable,
    #[error("Invalid operation. {context}")]
    InvalidOperation { context: String },
    #[error("Unexpected IO error occured. {context:?}")]
    IO { context: Option<String> },
}

/// The storage operations hyperbee performs.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Op {
    Info,
    Has,
    Get,
    Append,
    Attach,
}

/// The environment: what the log does.
pub trait CoreModel: Send + Sync + 'static {
    fn info(&self) -> Info;
    fn get(&self, index: u64) -> Result<Option<Vec<u8>>, HypercoreError>;
    fn append(&self, data: &[u8]) -> Result<AppendOutcome, HypercoreError>;
    fn has(&self, index: u64) -> bool {
        matches!(self.get(index), Ok(Some(_)))
    }
    /// How many times the operation suspends before (`after == false`) and after it takes effect.
    fn suspends(&self, _op: Op, _after: bool) -> u32 {
        0
    }
    /// A stream to replicate over. Whoever ignores it drops it.
    fn attach_stream(&self, _stream: Box<dyn std::any::Any + Send + Sync>, _is_initiator: bool) {}
}

/// Plain in-memory append-only log.
#[derive(Default)]
pub struct MemLog {
    pub blocks: Mutex<Vec<Vec<u8>>>,
}
impl CoreModel for MemLog {
    fn info(&self) -> Info {
        let b = self.blocks.lock().unwrap();
        let n = b.len() as u64;
        Info { length: n, byte_length: b.iter().map(|x| x.len() as u64).sum(), contiguous_length: n, fork: 0, writeable: true }
    }
    fn get(&self, index: u64) -> Result<Option<Vec<u8>>, HypercoreError> {
        Ok(self.blocks.lock().unwrap().get(index as usize).cloned())
    }
    fn append(&self, data: &[u8]) -> Result<AppendOutcome, HypercoreError> {
        let mut b = self.blocks.lock().unwrap();
        b.push(data.to_vec());
        Ok(AppendOutcome { length: b.len() as u64, byte_length: b.iter().map(|x| x.len() as u64).sum() })
    }
}

#[doc(hidden)]
pub struct Suspend(pub u32);
impl Future for Suspend {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

pub struct Hypercore {
    model: Arc<dyn CoreModel>,
}
impl Debug for Hypercore {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Hypercore")
    }
}
impl Hypercore {
    pub fn from_model(model: Arc<dyn CoreModel>) -> Self {
        Self { model }
    }
}

static DISKS: Mutex<BTreeMap<PathBuf, Arc<MemLog>>> = Mutex::new(BTreeMap::new());

/// Where a [`Hypercore`] is stored. "Disk" storages live in a process-wide table keyed by path, so
/// that reopening a path finds what an earlier instance wrote.
pub struct Storage {
    model: Arc<dyn CoreModel>,
}
impl Debug for Storage {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Storage")
    }
}
impl Storage {
    pub async fn new_memory() -> Result<Self, HypercoreError> {
        Ok(Self { model: Arc::new(MemLog::default()) })
    }
    pub async fn new_disk(dir: &PathBuf, overwrite: bool) -> Result<Self, HypercoreError> {
        Ok(Self { model: disk(dir, overwrite) })
    }
    pub fn from_model(model: Arc<dyn CoreModel>) -> Self {
        Self { model }
    }
}
/// The log behind a "disk" path.
pub fn disk(dir: &Path, overwrite: bool) -> Arc<MemLog> {
    let mut d = DISKS.lock().unwrap();
    if overwrite {
        d.remove(dir);
    }
    d.entry(dir.to_owned()).or_default().clone()
}
#[derive(Debug)]
pub struct HypercoreBuilder {
    storage: Storage,
}
impl HypercoreBuilder {
    pub fn new(storage: Storage) -> Self {
        Self { storage }
    }
    pub fn open(self, _open: bool) -> Self {
        self
    }
    pub async fn build(self) -> Result<Hypercore, HypercoreError> {
        Ok(Hypercore { model: self.storage.model })
    }
}

pub mod replication {
    use super::*;
    #[derive(thiserror::Error, Debug)]
    pub enum CoreMethodsError {
        #[error("Got a hypercore error: [{0}]")]
        HypercoreError(#[from] HypercoreError),
    }
    #[derive(Clone)]
    pub struct SharedCore(Arc<dyn CoreModel>);
    impl Debug for SharedCore {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "SharedCore")
        }
    }
    impl From<Hypercore> for SharedCore {
        fn from(h: Hypercore) -> Self {
            SharedCore(h.model)
        }
    }
    impl SharedCore {
        pub fn from_hypercore(h: Hypercore) -> Self {
            h.into()
        }
        pub fn model(&self) -> &Arc<dyn CoreModel> {
            &self.0
        }
    }
    pub trait CoreInfo {
        fn info(&self) -> impl Future<Output = Info> + Send;
    }
    pub trait CoreMethods: CoreInfo {
        fn has(&self, index: u64) -> impl Future<Output = bool> + Send;
        fn get(&self, index: u64) -> impl Future<Output = Result<Option<Vec<u8>>, CoreMethodsError>> + Send;
        fn append(&self, data: &[u8]) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send;
        fn append_batch<A: AsRef<[u8]>, B: AsRef<[A]> + Send>(
            &self,
            batch: B,
        ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send;
    }
    impl CoreInfo for SharedCore {
        async fn info(&self) -> Info {
            Suspend(self.0.suspends(Op::Info, false)).await;
            let r = self.0.info();
            Suspend(self.0.suspends(Op::Info, true)).await;
            r
        }
    }
    impl CoreMethods for SharedCore {
        async fn has(&self, index: u64) -> bool {
            Suspend(self.0.suspends(Op::Has, false)).await;
            let r = self.0.has(index);
            Suspend(self.0.suspends(Op::Has, true)).await;
            r
        }
        async fn get(&self, index: u64) -> Result<Option<Vec<u8>>, CoreMethodsError> {
            Suspend(self.0.suspends(Op::Get, false)).await;
            let r = self.0.get(index);
            Suspend(self.0.suspends(Op::Get, true)).await;
            Ok(r?)
        }
        async fn append(&self, data: &[u8]) -> Result<AppendOutcome, CoreMethodsError> {
            Suspend(self.0.suspends(Op::Append, false)).await;
            let r = self.0.append(data);
            Suspend(self.0.suspends(Op::Append, true)).await;
            Ok(r?)
        }
        async fn append_batch<A: AsRef<[u8]>, B: AsRef<[A]> + Send>(
            &self,
            batch: B,
        ) -> Result<AppendOutcome, CoreMethodsError> {
            let mut out = None;
            Suspend(self.0.suspends(Op::Append, false)).await;
            for x in batch.as_ref() {
                out = Some(self.0.append(x.as_ref())?);
            }
            Suspend(self.0.suspends(Op::Append, true)).await;
            let i = self.0.info();
            Ok(out.unwrap_or(AppendOutcome { length: i.length, byte_length: i.byte_length }))
        }
    }
}
