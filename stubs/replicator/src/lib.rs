//! Environment model standing in for the `replicator` crate (a git dependency that is not available
//! in this sandbox): a [`ReplicatingCore`] forwards to the shared core it wraps.
use futures_lite::{AsyncRead, AsyncWrite};
use hypercore::{
    replication::{CoreInfo, CoreMethods, CoreMethodsError, SharedCore},
    AppendOutcome, Info, Op, Suspend,
};

#[derive(thiserror::Error, Debug)]
#[non_exhaustive]
pub enum ReplicatorError {
    #[error("replication: {0}")]
    Other(String),
}

#[derive(Debug, Clone)]
pub struct ReplicatingCore {
    core: SharedCore,
}
impl From<SharedCore> for ReplicatingCore {
    fn from(core: SharedCore) -> Self {
        Self { core }
    }
}
impl ReplicatingCore {
    pub async fn add_stream<S: AsyncRead + AsyncWrite + Send + Sync + Unpin + 'static>(&self, stream: S, is_initiator: bool) {
        let m = self.core.model();
        Suspend(m.suspends(Op::Attach, false)).await;
        m.attach_stream(Box::new(stream), is_initiator);
        Suspend(m.suspends(Op::Attach, true)).await;
    }
}
impl CoreInfo for ReplicatingCore {
    async fn info(&self) -> Info {
        self.core.info().await
    }
}
impl CoreMethods for ReplicatingCore {
    async fn has(&self, index: u64) -> bool {
        self.core.has(index).await
    }
    async fn get(&self, index: u64) -> Result<Option<Vec<u8>>, CoreMethodsError> {
        self.core.get(index).await
    }
    async fn append(&self, data: &[u8]) -> Result<AppendOutcome, CoreMethodsError> {
        self.core.append(data).await
    }
    async fn append_batch<A: AsRef<[u8]>, B: AsRef<[A]> + Send>(&self, batch: B) -> Result<AppendOutcome, CoreMethodsError> {
        self.core.append_batch(batch).await
    }
}
