//! Bounded histories on a real in-memory log, against a reference map.
use crate::{
    codec, entries,
    rt::{block_on, Cell},
    sym::{self, check, cover},
    trees::open_model,
};
use futures_lite::StreamExt;
use hyperbee::{Hyperbee, Metadata};
use hypercore::{AppendOutcome, CoreModel, HypercoreError, Info};
use std::sync::Arc;

/// Append-only log that also knows how often it was asked to append.
#[derive(Default)]
pub struct Log(pub Cell<Vec<Vec<u8>>>);
impl Default for Cell<Vec<Vec<u8>>> {
    fn default() -> Self {
        Cell::new(vec![])
    }
}
impl Log {
    pub fn new() -> Arc<Log> {
        Arc::new(Log::default())
    }
    pub fn with(blocks: Vec<Vec<u8>>) -> Arc<Log> {
        Arc::new(Log(Cell::new(blocks)))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn blocks(&self) -> &mut Vec<Vec<u8>> {
        self.0.get()
    }
    pub fn copy(&self) -> Arc<Log> {
        Log::with(self.blocks().clone())
    }
}
impl CoreModel for Log {
    fn info(&self) -> Info {
        let length = self.blocks().len() as u64;
        Info { length, byte_length: self.blocks().iter().map(|b| b.len() as u64).sum(), contiguous_length: length, fork: 0, writeable: true }
    }
    fn get(&self, index: u64) -> Result<Option<Vec<u8>>, HypercoreError> {
        Ok(self.blocks().get(index as usize).cloned())
    }
    fn append(&self, data: &[u8]) -> Result<AppendOutcome, HypercoreError> {
        self.blocks().push(data.to_vec());
        let i = self.info();
        Ok(AppendOutcome { length: i.length, byte_length: i.byte_length })
    }
}

/// A replica of a log that is written elsewhere: without the header, so with a gap, and read-only.
struct Replica(Arc<Log>, Cell<Option<u64>>);
impl Replica {
    fn of(log: &Arc<Log>, late: Option<u64>) -> Arc<Replica> {
        Arc::new(Replica(log.clone(), Cell::new(late)))
    }
}
impl CoreModel for Replica {
    fn info(&self) -> Info {
        Info { contiguous_length: 0, writeable: false, ..self.0.info() }
    }
    fn get(&self, index: u64) -> Result<Option<Vec<u8>>, HypercoreError> {
        // the second is a block that has not arrived yet
        if index == 0 || *self.1.get() == Some(index) {
            return Ok(None);
        }
        self.0.get(index)
    }
    fn append(&self, _: &[u8]) -> Result<AppendOutcome, HypercoreError> {
        sym::fail("a handle that only reads appends")
    }
}

#[derive(Clone)]
pub struct Ent {
    pub key: Vec<u8>,
    pub value: Option<Vec<u8>>,
    pub seq: u64,
}
/// The reference: what the map holds.
#[derive(Clone, Default)]
pub struct Map(pub Vec<Ent>);
impl Map {
    pub fn find(&self, k: &[u8]) -> Option<usize> {
        // at most one entry is equal: no ordering involved
        self.0.iter().position(|e| sym::eq(&e.key, k))
    }
    /// position such that the entries stay sorted
    pub fn place(&self, k: &[u8]) -> usize {
        self.0.iter().position(|e| sym::cmp(k, &e.key) < 0).unwrap_or(self.0.len())
    }
    pub fn put(&mut self, k: &[u8], v: Option<&[u8]>, seq: u64) -> Option<u64> {
        let e = Ent { key: k.to_vec(), value: v.map(|x| x.to_vec()), seq };
        match self.find(k) {
            Some(i) => Some(std::mem::replace(&mut self.0[i], e).seq),
            None => {
                let p = self.place(k);
                self.0.insert(p, e);
                None
            }
        }
    }
    pub fn del(&mut self, k: &[u8]) -> Option<u64> {
        let i = self.find(k)?;
        Some(self.0.remove(i).seq)
    }
}
pub fn same_val(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => sym::eq(a, b),
        _ => false,
    }
}
pub fn check_get(hb: &Hyperbee, m: &Map, q: &[u8]) {
    let r = sym::must(block_on(hb.get(q)), "get fails");
    match (r, m.find(q)) {
        (None, None) => cover(0),
        (Some((seq, v)), Some(i)) => {
            cover(1);
            check(seq == m.0[i].seq, "get reports another entry than the latest one put");
            check(same_val(&v, &m.0[i].value), "get returns another value than the latest one put");
        }
        (Some(_), None) => sym::fail("get finds a key that is not in the map"),
        (None, Some(_)) => sym::fail("get does not find a key that is in the map"),
    }
}
pub fn check_all(hb: &Hyperbee, m: &Map, reversed: bool) {
    let c = hyperbee::traverse::TraverseConfig { reversed, ..Default::default() };
    let mut s = match block_on(hb.traverse(c)) {
        Ok(s) => Box::pin(s),
        Err(hyperbee::HyperbeeError::NoRootError) => {
            check(m.0.is_empty(), "traverse finds no tree although there are entries");
            return;
        }
        Err(_) => sym::fail("traverse fails"),
    };
    let mut want: Vec<&Ent> = m.0.iter().collect();
    if reversed {
        want.reverse();
    }
    let mut n = 0;
    let mut good = true;
    while let Some(x) = block_on(s.next()) {
        let x = sym::must(x, "traverse yields an error");
        if n >= want.len() {
            sym::fail("traverse yields more entries than the map holds");
        }
        check(x.seq == want[n].seq, "traverse yields other entries than the map holds");
        good &= sym::eq(&x.key, &want[n].key) & same_val(&x.value, &want[n].value);
        n += 1;
    }
    check(good, "traverse yields another key or value than was put");
    check(n == want.len(), "traverse yields fewer entries than the map holds");
}
fn key(k: u32) -> Vec<u8> {
    // 0: one symbolic byte; 1: between zero and three symbolic bytes
    if k == 0 {
        vec![sym::u8()]
    } else {
        (0..sym::choice(k + 1)).map(|_| sym::u8()).collect()
    }
}
fn val(i: u32) -> Option<Vec<u8>> {
    match (i + sym::choice(3)) % 3 {
        0 => None,
        1 => Some(vec![]),
        _ => Some(vec![sym::u8(), i as u8]),
    }
}
/// `pre` entries with concrete keys, put through the real code.
pub fn prepare(hb: &Hyperbee, m: &mut Map, pre: u32) {
    for i in 0..pre {
        // not in ascending order
        let k = [((i * 13) % pre * (256 / (pre + 1)) + 8) as u8];
        let (old, seq) = sym::must(block_on(hb.put(&k, Some(b"pre"))), "put fails");
        check(old.is_none(), "put replaced a key that was not there");
        m.put(&k, Some(b"pre"), seq);
    }
}
/// Any history of `n` mutations after `pre` puts, then anything a user can look at.
fn history(pre: u32, n: u32, kind: u32, what: u32) {
    let log = Log::new();
    let hb = open_model(log.clone());
    let mut m = Map::default();
    prepare(&hb, &mut m, pre);
    let mut states = vec![];
    for i in 0..n {
        let k = key(kind);
        let len = log.blocks().len();
        check(block_on(hb.version()) == len as u64, "version is not the length of the log");
        if sym::flip() {
            let v = if what == 1 { val(i) } else { Some(vec![i as u8]) };
            let (old, seq) = sym::must(block_on(hb.put(&k, v.as_deref())), "put fails");
            let want = len.max(1) as u64;
            check(seq == want, "put reports a seq other than the position of its block");
            check(log.blocks().len() as u64 == want + 1, "put appends other than one block");
            let o = m.put(&k, v.as_deref(), seq);
            check(o == old, "put reports another replaced entry than the one in the map");
            cover(2);
        } else {
            let r = sym::must(block_on(hb.del(&k)), "del fails");
            let o = m.del(&k);
            check(r == o, "del reports another entry than the one in the map");
            if len > 0 {
                check(log.blocks().len() == len + o.is_some() as usize, "del appends other than one block per removed key");
            } else {
                check(log.blocks().len() <= 1, "del on an empty log writes more than a header");
            }
            cover(if o.is_some() { 3 } else { 4 });
        }
        states.push((log.blocks().len(), m.clone()));
    }
    match what {
        // same handle
        0 | 1 => check_get(&hb, &m, &key(kind)),
        // same handle and a fresh one, whole contents
        2 => {
            let rev = sym::flip();
            check_all(&hb, &m, rev);
            check_all(&open_model(log.clone()), &m, rev);
        }
        // every prefix of the log is the tree as it was then
        3 => {
            let i = sym::choice(n) as usize;
            let (len, m) = &states[i];
            let cut = Log::with(log.blocks()[..*len].to_vec());
            let h = open_model(cut.clone());
            check(block_on(h.version()) == *len as u64, "version is not the length of the log");
            check_all(&h, m, false);
            check_get(&h, m, &key(kind));
            check(cut.blocks().len() == *len, "reading appends to the log");
        }
        _ => {}
    }
}
/// A second handle on the same log follows what the first one writes.
fn follow(pre: u32, n: u32) {
    let log = Log::new();
    let hb = open_model(log.clone());
    let reader = open_model(Replica::of(&log, None));
    let mut m = Map::default();
    if sym::flip() {
        check_get(&reader, &m, b"a");
    }
    prepare(&hb, &mut m, pre);
    for i in 0..n {
        // look (and fill the reader's cache) or not
        match sym::choice(3) {
            0 => {}
            1 => check_get(&reader, &m, &key(0)),
            _ => check_all(&reader, &m, false),
        }
        let k = key(0);
        if sym::flip() {
            let (_, seq) = sym::must(block_on(hb.put(&k, Some(&[i as u8]))), "put fails");
            m.put(&k, Some(&[i as u8]), seq);
        } else {
            sym::must(block_on(hb.del(&k)), "del fails");
            m.del(&k);
        }
        check(block_on(reader.version()) == log.blocks().len() as u64, "a reader does not see the log grow");
    }
    check_get(&reader, &m, &key(0));
    check_all(&reader, &m, true);
}
/// A reader that looks while a block has not arrived, and again when it has.
fn late(pre: u32, looks: u32) {
    let log = Log::new();
    let hb = open_model(log.clone());
    let mut m = Map::default();
    prepare(&hb, &mut m, pre);
    let replica = Replica::of(&log, Some(1 + sym::choice(log.blocks().len() as u32 - 1) as u64));
    let reader = open_model(replica.clone());
    let mut failed = false;
    for _ in 0..looks {
        match sym::choice(4) {
            0 => {
                let q = key(0);
                match block_on(reader.get(&q)) {
                    Ok(r) => {
                        let want = m.find(&q).map(|i| &m.0[i]);
                        check(r.as_ref().map(|r| r.0) == want.map(|e| e.seq), "a reader finds another entry than the one in the map");
                    }
                    Err(_) => failed = true,
                }
            }
            1 => {
                if let Ok(s) = block_on(reader.traverse(Default::default())) {
                    let mut s = Box::pin(s);
                    while let Some(x) = block_on(s.next()) {
                        failed |= x.is_err();
                    }
                } else {
                    failed = true;
                }
            }
            2 => failed |= block_on(reader.height()).is_err(),
            _ => {}
        }
    }
    cover(failed as u32);
    if sym::flip() {
        let k = if pre < 8 { key(0) } else { vec![100] };
        let (_, seq) = sym::must(block_on(hb.put(&k, None)), "put fails");
        m.put(&k, None, seq);
    }
    *replica.1.get() = None;
    check_get(&reader, &m, &key(0));
    check_all(&reader, &m, sym::flip());
    check(block_on(reader.version()) == log.blocks().len() as u64, "a reader does not see the log grow");
}
/// The reader may itself write afterwards: it continues from the newest state.
fn handover(pre: u32) {
    let log = Log::new();
    let a = open_model(log.clone());
    let b = open_model(log.clone());
    let mut m = Map::default();
    prepare(&a, &mut m, pre);
    check_all(&b, &m, false);
    for i in 0..3 {
        let h = if i % 2 == 0 { &a } else { &b };
        let k = key(0);
        if sym::flip() {
            let (old, seq) = sym::must(block_on(h.put(&k, None)), "put fails");
            check(m.put(&k, None, seq) == old, "a handle does not continue from what another one wrote");
        } else {
            let r = sym::must(block_on(h.del(&k)), "del fails");
            check(m.del(&k) == r, "a handle does not continue from what another one wrote");
        }
    }
    check_get(&a, &m, &key(0));
    check_all(&b, &m, false);
}
/// The header block.
fn headers(long: bool) {
    let log = Log::new();
    let hb = open_model(log.clone());
    let opt = |i: u32| -> Option<Vec<u8>> {
        if long {
            return Some(crate::long::text(crate::long::VLENS[sym::choice(crate::long::VLENS.len() as u32) as usize]));
        }
        match sym::choice(3) {
            0 => None,
            1 => Some(vec![]),
            _ => Some((0..i).map(|_| sym::u8()).collect()),
        }
    };
    let meta = match (long, sym::flip()) {
        (false, false) => None,
        (false, true) => Some(Metadata { content_feed: opt(2), user_data: opt(3) }),
        (true, false) => Some(Metadata { content_feed: opt(2), user_data: None }),
        (true, true) => Some(Metadata { content_feed: Some(vec![1; 32]), user_data: opt(3) }),
    };
    let want = codec::header(meta.as_ref().map(|m| (m.content_feed.as_deref(), m.user_data.as_deref())));
    let r = sym::must(block_on(hb.create_header(meta.clone())), "creating a header on an empty log fails");
    check(r.length == 1, "creating a header reports a wrong length");
    check(log.blocks().len() == 1, "creating a header appends other than one block");
    check(sym::eq(&log.blocks()[0], &want), "the header is not encoded as JavaScript Hyperbee does");
    sym::observe_bytes(&want);
    check(block_on(hb.version()) == 1, "version does not count the header");
    // once only
    let again = sym::choice(3);
    if again < 2 {
        let r = block_on(hb.create_header(if again == 0 { None } else { meta.clone() }));
        check(matches!(r, Err(hyperbee::HyperbeeError::HeaderAlreadyExists)), "a second header is not refused");
        check(log.blocks().len() == 1, "a refused header is written");
    }
    check(sym::must(block_on(hb.get(b"k")), "get fails on a log with only a header").is_none(), "a header is mistaken for an entry");
    let d = sym::must(block_on(hb.del(b"k")), "del fails on a log with only a header");
    check(d.is_none() && log.blocks().len() == 1, "del on a log with only a header does something");
    let r = sym::must(block_on(hb.put(b"k", Some(b"v"))), "put fails after creating a header");
    check(r == (None, 1), "the first entry is not the block after the header");
    check(log.blocks().len() == 2 && sym::eq(&log.blocks()[0], &want), "put writes another header or damages it");
    let r = block_on(hb.create_header(None));
    check(matches!(r, Err(hyperbee::HyperbeeError::HeaderAlreadyExists)), "a header is accepted after an entry");
    check(log.blocks().len() == 2, "a refused header is written");
    cover(0);
}
/// The first mutation of an empty log writes the standard header, exactly once.
fn first_write() {
    let log = Log::new();
    let hb = open_model(log.clone());
    let k = key(2);
    match sym::choice(4) {
        0 => {
            let r = sym::must(block_on(hb.put(&k, Some(b"v"))), "put fails on an empty log");
            check(r == (None, 1), "the first entry is not the block after the header");
            check(log.blocks().len() == 2, "the first put does not write exactly a header and an entry");
            check_get(&hb, &Map(vec![Ent { key: k.clone(), value: Some(b"v".to_vec()), seq: 1 }]), &key(2));
            cover(2);
        }
        1 => {
            let r = sym::must(block_on(hb.put_compare_and_swap(&k, None, |o, n| o.is_none() && n.seq == 1)), "put fails on an empty log");
            check(r == (None, Some(1)), "compare-and-swap on an empty log sees an old entry or a wrong seq");
            check(log.blocks().len() == 2, "the first put does not write exactly a header and an entry");
            cover(3);
        }
        2 => {
            let r = sym::must(block_on(hb.put_compare_and_swap(&k, None, |_, _| false)), "put fails on an empty log");
            check(r == (None, None), "a rejected compare-and-swap reports an entry");
            check(log.blocks().len() <= 1, "a rejected compare-and-swap writes an entry");
            cover(4);
        }
        _ => {
            let r = sym::must(block_on(hb.del(&k)), "del fails on an empty log");
            check(r.is_none(), "del on an empty log finds something");
            check(log.blocks().len() <= 1, "del on an empty log writes an entry");
            cover(5);
        }
    }
    if !log.blocks().is_empty() {
        check(sym::eq(&log.blocks()[0], &codec::header(None)), "the first block is not the standard header");
    }
    let (_, seq) = sym::must(block_on(hb.put(b"next", None)), "put fails");
    check(seq == log.blocks().len() as u64 - 1, "put reports a wrong seq");
    check(sym::eq(&log.blocks()[0], &codec::header(None)), "the first block is not the standard header");
    check(codec::decode(&log.blocks()[1]).is_some(), "a second header was written");
}
/// Looking never writes, whatever the log holds.
fn reads(pre: u32) {
    let log = Log::new();
    let hb = open_model(log.clone());
    let mut m = Map::default();
    prepare(&hb, &mut m, pre);
    if pre == 0 && sym::flip() {
        sym::must(block_on(hb.create_header(None)), "creating a header fails");
    }
    let before = log.blocks().clone();
    let hb = if sym::flip() { hb } else { open_model(log.clone()) };
    for _ in 0..2 {
        match sym::choice(8) {
            0 => check_get(&hb, &m, &key(0)),
            1 => check_all(&hb, &m, sym::flip()),
            2 => {
                let h = sym::must(block_on(hb.height()), "height fails");
                check((h == 0) == (pre == 0), "height is zero exactly for a log without a tree");
            }
            3 => {
                let _ = block_on(hb.print());
            }
            4 => {
                let r = sym::must(block_on(hb.del_compare_and_swap(&key(0), |_| false)), "a rejected delete fails");
                if let Some((b, _)) = r {
                    check(!b, "a rejected delete reports success");
                }
                if before.is_empty() && log.blocks().len() == 1 {
                    // a mutation, even one that does nothing, may create the header
                    sym::assume(false);
                }
            }
            5 => {
                if before.is_empty() {
                    sym::assume(false);
                }
                let r = sym::must(block_on(hb.put_compare_and_swap(&key(0), None, |_, _| false)), "a rejected put fails");
                check(r.1.is_none(), "a rejected put reports a new entry");
            }
            6 => {
                let s = hb.sub(b"p", Default::default());
                let g = sym::must(block_on(s.get(&key(0))), "get through a sub fails");
                check(g.is_none(), "a sub sees keys outside its prefix");
            }
            _ => {
                check(block_on(hb.version()) == before.len() as u64, "version is not the length of the log");
            }
        }
    }
    check(log.blocks().len() == before.len(), "an operation that only looks appends to the log");
    cover(2);
}

entries! {
    h_hist_get => history(0, 3, 0, 0);
    h_hist_get4 => history(0, 4, 0, 0);
    h_hist_vals => history(0, 2, 0, 1);
    h_hist_vals3 => history(0, 3, 0, 1);
    h_hist_len => history(0, 2, 2, 1);
    h_hist_len3 => history(0, 3, 2, 0);
    h_hist_all => history(0, 3, 0, 2);
    h_hist_all4 => history(0, 4, 0, 2);
    h_hist_split => history(8, 2, 0, 0);
    h_hist_split_all => history(8, 2, 0, 2);
    h_hist_two => history(14, 2, 0, 0);
    h_hist_two_all => history(14, 2, 0, 2);
    h_hist_deep => history(14, 3, 0, 0);
    h_hist_three => history(60, 1, 0, 2);
    h_prefix => history(0, 3, 0, 3);
    h_prefix_split => history(8, 2, 0, 3);
    h_prefix_two => history(14, 2, 0, 3);
    h_prefix4 => history(0, 4, 0, 3);
    h_follow => follow(0, 2);
    h_follow_split => follow(8, 1);
    h_late2 => late(2, 2);
    h_late => late(9, 1);
    h_late14 => late(14, 1);
    h_follow_two => follow(14, 1);
    h_follow3 => follow(3, 2);
    h_handover => handover(2);
    h_handover_split => handover(8);
    h_header => headers(false);
    h_header_long => headers(true);
    h_first => first_write();
    h_reads0 => reads(0);
    h_reads3 => reads(3);
    h_reads9 => reads(9);
}
