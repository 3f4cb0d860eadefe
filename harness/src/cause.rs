//! What an error says.
use crate::{
    codec::{self, Block, Level},
    entries,
    env::Env,
    hist::{prepare, Log, Map},
    lazy::{LazyTree, Shape},
    robust::{run, K, LEAF, SMALL, TALL},
    rt::block_on,
    sym::{self, check, cover},
    trees::open_model,
};
use futures_lite::StreamExt;
use hypercore::{AppendOutcome, CoreModel, HypercoreError, Info};
use hyperbee::{traverse::TraverseConfig, Hyperbee, HyperbeeError};
use std::sync::Arc;

/// Everything an error tells.
fn told(e: &HyperbeeError) -> String {
    let mut s = format!("{e}");
    check(!s.is_empty(), "an error has no message");
    s += &format!("|{e:?}");
    let mut c: Option<&dyn std::error::Error> = std::error::Error::source(e);
    while let Some(x) = c {
        s += &format!("|{x}");
        c = x.source();
    }
    s
}
/// `n` as a number of its own in `s`.
fn names(s: &str, n: u64) -> bool {
    s.split(|c: char| !c.is_ascii_digit()).any(|w| w == n.to_string())
}
/// The first error of an operation: 0 get, 1 put, 2 del, 3-4 conditional, 5-6 traversal, 7-8 height and print, 9-14 through a sub.
fn fails(hb: &Hyperbee, op: u32, q: &[u8]) -> Option<HyperbeeError> {
    match op {
        0 => block_on(hb.get(q)).err(),
        1 => block_on(run(hb, K::Put, q)).err(),
        2 => block_on(run(hb, K::Del, q)).err(),
        3 => block_on(run(hb, K::PutCas, q)).err(),
        4 => block_on(run(hb, K::DelCas, q)).err(),
        7 => block_on(hb.height()).err(),
        8 => block_on(hb.print()).err(),
        9..=14 => {
            // through a sub that is all of the tree
            let s = hb.sub(b"", hyperbee::prefixed::PrefixedConfig { seperator: vec![] });
            match op {
                9 => block_on(s.get(q)).err(),
                10 => block_on(s.put(q, None)).err(),
                11 => block_on(s.del(q)).err(),
                12 => block_on(s.put_compare_and_swap(q, None, |_, _| true)).err(),
                13 => block_on(s.del_compare_and_swap(q, |_| true)).err(),
                _ => match block_on(s.traverse(&TraverseConfig::default())) {
                    Err(e) => Some(e),
                    Ok(s) => {
                        let mut s = Box::pin(s);
                        while let Some(x) = block_on(s.next()) {
                            if let Err(e) = x {
                                return Some(e);
                            }
                        }
                        None
                    }
                },
            }
        }
        _ => {
            let c = TraverseConfig { reversed: op == 6, ..Default::default() };
            match block_on(hb.traverse(c)) {
                Err(e) => Some(e),
                Ok(s) => {
                    let mut s = Box::pin(s);
                    while let Some(x) = block_on(s.next()) {
                        if let Err(e) = x {
                            return Some(e);
                        }
                    }
                    None
                }
            }
        }
    }
}
/// Storage fails: the error tells what the storage said, or which block is missing.
fn storage(sh: Shape, ops: &[u32]) {
    let m = Arc::new(LazyTree::new(sh));
    let env = Env::new(m.clone());
    let hb = open_model(env.clone());
    let q = if sh.kb == 1 { vec![sym::u8()] } else { sym::u16().to_be_bytes().to_vec() };
    let op = ops[sym::choice(ops.len() as u32) as usize];
    let c = env.ctl();
    c.faults = 1;
    c.kinds = 7;
    c.says = Some("E4711");
    let e = fails(&hb, op, &q);
    if c.faulted == 0 {
        sym::assume(false);
    }
    let Some(e) = e else { sym::fail("an operation succeeds although its storage failed") };
    let s = told(&e);
    match c.missed {
        Some(i) => {
            check(names(&s, i), "an error does not tell which block is missing");
            check(!s.contains("E4711"), "a missing block is reported as a storage error");
            cover(0);
        }
        None if c.fault_on_append => {
            check(s.contains("NotWritable") || s.contains("Not writable"), "an error does not tell what the storage said");
            cover(1);
        }
        None => {
            check(s.contains("E4711"), "an error does not tell what the storage said");
            cover(2);
        }
    }
    check(!matches!(e, HyperbeeError::NoRootError | HyperbeeError::HeaderAlreadyExists | HyperbeeError::KeyFromUtf8Error(_)), "a storage failure is reported as something else");
}
/// The other errors: no tree, a header that exists, blocks that hold no tree.
fn others() {
    let n = sym::choice(3);
    let log = Log::new();
    let hb = open_model(log.clone());
    prepare(&hb, &mut Map::default(), n);
    let q = vec![sym::u8()];
    match sym::choice(3) {
        0 => {
            // a tree without entries has nothing to go through
            let e = fails(&hb, 5 + sym::choice(2), &q);
            if n == 0 {
                check(matches!(e, None | Some(HyperbeeError::NoRootError)), "traversing a log without a tree fails for another reason than that");
            } else {
                check(e.is_none(), "traversing a valid tree fails");
            }
            cover(0);
        }
        1 => {
            let r = block_on(hb.create_header(None));
            check(r.is_ok() == (n == 0), "a header is refused exactly if there is one");
            if let Err(e) = r {
                check(matches!(e, HyperbeeError::HeaderAlreadyExists), "a second header is refused for another reason than that");
            }
            cover(1);
        }
        _ => {
            // a newest block that is not one
            let len = log.blocks().len();
            let bad = match sym::choice(3) {
                0 => vec![0x0a, 0x7f],
                1 => {
                    let levels = vec![Level { keys: vec![1], children: vec![(len as u64, 3), (len as u64, 4)] }];
                    codec::encode(&Block { levels, key: q.clone(), value: None })
                }
                _ => codec::encode(&Block { levels: vec![], key: q.clone(), value: None }),
            };
            sym::assume(n > 0);
            log.blocks().push(bad);
            let q = vec![sym::u8()];
            if let Some(e) = fails(&open_model(log.clone()), sym::choice(7), &q) {
                let s = told(&e);
                check(!matches!(e, HyperbeeError::NoRootError | HyperbeeError::HeaderAlreadyExists), "a malformed block is reported as something else");
                check(!s.contains("HypercoreError("), "a malformed block is reported as a storage error");
                cover(2);
            }
        }
    }
}
/// A log of which one block is missing.
struct Gap {
    len: u64,
    gone: u64,
    root: Vec<u8>,
}
impl CoreModel for Gap {
    fn info(&self) -> Info {
        Info { length: self.len, byte_length: 0, contiguous_length: 0, fork: 0, writeable: true }
    }
    fn get(&self, i: u64) -> Result<Option<Vec<u8>>, HypercoreError> {
        if i == self.gone {
            return Ok(None);
        }
        if i == self.len - 1 {
            return Ok(Some(self.root.clone()));
        }
        Ok(Some(codec::encode(&Block { levels: vec![Level { keys: vec![2, 3, 4, 5], children: vec![] }], key: vec![i as u8], value: None })))
    }
    fn append(&self, _: &[u8]) -> Result<AppendOutcome, HypercoreError> {
        sym::fail("an operation that fails writes")
    }
}
/// Positions of any size are named as they are.
fn far() {
    const AT: [u64; 12] =
        [200, 255, 256, 65535, 65536, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, (1 << 53) + 1, (1 << 63) + 3, u64::MAX - 5];
    let at = AT[sym::choice(AT.len() as u32) as usize];
    let kind = sym::choice(3);
    // the newest block, a key of its root, or a child
    let (len, keys, children) = match kind {
        0 => (at + 1, vec![100], vec![]),
        1 => (at + 3, vec![at], vec![]),
        _ => (at + 3, vec![100], vec![(at, 0), (at, 0)]),
    };
    let root = codec::encode(&Block { levels: vec![Level { keys, children }], key: vec![1], value: None });
    let hb = open_model(Arc::new(Gap { len, gone: at, root }));
    let op = sym::choice(7);
    // (a deletion looks for a key that is not the root's)
    let q = [30 + sym::choice(2) as u8];
    let Some(e) = fails(&hb, op, &q) else { sym::fail("an operation succeeds although a block it needs is missing") };
    check(names(&told(&e), at), "an error does not tell which block is missing");
    cover(kind);
}
/// The C interface and the exported objects pass the message on.
fn exported() {
    let dir = std::path::Path::new("/nowhere/cause");
    let disk = hypercore::disk(dir, true);
    let log = Log::new();
    prepare(&open_model(log.clone()), &mut Map::default(), 1);
    log.blocks().push(vec![0x0a, 0x7f]);
    *disk.blocks.lock().unwrap() = log.blocks().clone();
    let hb = open_model(log.clone());
    let exp = sym::must(block_on(hyperbee::ffi::ApiHyperbee::dir("/nowhere/cause")), "the exported constructor fails");
    let q = vec![sym::u8()];
    let (a, b) = match sym::choice(3) {
        0 => (block_on(exp.get(&q)).err(), fails(&hb, 0, &q)),
        1 => (block_on(exp.put(&q, None)).err(), fails(&hb, 1, &q)),
        _ => (block_on(exp.delete(&q)).err(), fails(&hb, 2, &q)),
    };
    let (Some(a), Some(b)) = (a, b) else { sym::fail("an operation succeeds on a log that cannot be read") };
    check(told(&a) == told(&b), "the exported objects report another error");
    cover(0);
    hypercore::disk(dir, true);
}
const ALL: &[u32] = &[0, 1, 2, 3, 4, 5, 6];
entries! {
    h_cause1 => storage(LEAF, ALL);
    h_cause2 => storage(SMALL, &[0, 1, 2]);
    h_cause2t => storage(Shape { root: &[1], leaf: &[4], kb: 1, ..SMALL }, &[5, 6]);
    h_cause_sub => storage(LEAF, &[9, 10, 11, 12, 13, 14]);
    h_cause_sub2 => storage(SMALL, &[9, 10, 11]);
    h_cause_look => storage(TALL, &[7]);
    h_cause_print => storage(Shape { root: &[1], leaf: &[4], kb: 1, ..SMALL }, &[8]);
    h_cause3 => storage(TALL, &[0, 1]);
    h_cause_other => others();
    h_cause_far => far();
    h_cause_exported => exported();
}
