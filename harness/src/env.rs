//! Environment wrappers: nondeterministic faults and suspension points around another log model.
use crate::{rt::Cell, sym};
use hypercore::{AppendOutcome, CoreModel, HypercoreError, Info, Op};
use std::sync::Arc;

pub struct Env {
    pub inner: Arc<dyn CoreModel>,
    pub c: Cell<Ctl>,
}
#[derive(Default)]
pub struct Ctl {
    /// how many more operations may be made to fail (case split at each operation)
    pub faults: u32,
    /// kinds of fault: 1 read error, 2 block missing, 4 append error
    pub kinds: u32,
    pub faulted: u32,
    pub fault_on_append: bool,
    /// how many more suspension points may suspend (case split at each one)
    pub may_suspend: u32,
    /// suspend at every point (for schedule exploration)
    pub always: bool,
    pub points: u32,
    pub suspended: u32,
    pub reads: u32,
    pub appends: u32,
    /// which block was missing, and what a read error says
    pub missed: Option<u64>,
    pub says: Option<&'static str>,
    /// streams attached, with their roles
    pub streams: Vec<(Box<dyn std::any::Any + Send + Sync>, bool)>,
}
impl Env {
    pub fn new(inner: Arc<dyn CoreModel>) -> Arc<Env> {
        Arc::new(Env { inner, c: Cell::new(Ctl::default()) })
    }
    #[allow(clippy::mut_from_ref)]
    pub fn ctl(&self) -> &mut Ctl {
        self.c.get()
    }
}
impl CoreModel for Env {
    fn info(&self) -> Info {
        self.inner.info()
    }
    fn get(&self, index: u64) -> Result<Option<Vec<u8>>, HypercoreError> {
        let c = self.ctl();
        c.reads += 1;
        if c.faults > 0 && c.kinds & 3 != 0 && sym::flip() {
            c.faults -= 1;
            c.faulted += 1;
            let miss = match c.kinds & 3 {
                1 => false,
                2 => true,
                _ => sym::flip(),
            };
            if miss {
                c.missed = Some(index);
                return Ok(None);
            }
            return Err(HypercoreError::InvalidOperation { context: c.says.unwrap_or_default().to_string() });
        }
        self.inner.get(index)
    }
    fn append(&self, data: &[u8]) -> Result<AppendOutcome, HypercoreError> {
        let c = self.ctl();
        c.appends += 1;
        if c.faults > 0 && c.kinds & 4 != 0 && sym::flip() {
            c.faults -= 1;
            c.faulted += 1;
            c.fault_on_append = true;
            return Err(HypercoreError::NotWritable);
        }
        self.inner.append(data)
    }
    fn attach_stream(&self, stream: Box<dyn std::any::Any + Send + Sync>, is_initiator: bool) {
        self.ctl().streams.push((stream, is_initiator));
    }
    fn suspends(&self, _op: Op, _after: bool) -> u32 {
        let c = self.ctl();
        c.points += 1;
        if c.always {
            return 1;
        }
        if c.may_suspend > 0 && sym::flip() {
            c.may_suspend -= 1;
            c.suspended += 1;
            return 1;
        }
        0
    }
}
