//! Failed, cancelled and suspended operations on an arbitrary stored tree; differential oracle: a
//! handle that went through the trouble must behave like a fresh handle on the same log.
use crate::{
    entries,
    env::Env,
    lazy::{LazyTree, Shape},
    rt::{self, block_on},
    sym::{self, check, cover},
    trees::open_model,
};
use futures_lite::StreamExt;
use hyperbee::{Hyperbee, HyperbeeError};
use hypercore::MemLog;
use std::{future::Future, pin::Pin, sync::Arc, task::Poll};

pub const SMALL: Shape = Shape { height: 2, root: &[2], inner: &[4], leaf: &[4, 8], base: 30, len: 1000, kb: 2 };
pub const TINY: Shape = Shape { height: 2, root: &[1], inner: &[4], leaf: &[4, 8], base: 30, len: 1000, kb: 2 };
pub const MINI: Shape = Shape { height: 2, root: &[1], inner: &[4], leaf: &[4], base: 30, len: 1000, kb: 2 };
pub const FULL: Shape = Shape { height: 2, root: &[8], inner: &[4], leaf: &[8], base: 30, len: 1000, kb: 2 };
pub const WIDE: Shape = Shape { height: 2, root: &[1, 2, 3, 8], inner: &[4], leaf: &[4, 5, 8], base: 30, len: 1000, kb: 2 };
pub const LEAF: Shape = Shape { height: 1, root: &[0, 1, 2, 8], inner: &[4], leaf: &[4], base: 30, len: 1000, kb: 2 };
pub const TALL: Shape = Shape { height: 3, root: &[1], inner: &[4], leaf: &[4, 8], base: 30, len: 1000, kb: 2 };

fn q() -> Vec<u8> {
    sym::u16().to_be_bytes().to_vec()
}
#[derive(PartialEq, Clone, Copy)]
pub enum K {
    Put,
    Del,
    PutCas,
    DelCas,
}
type R = Result<(Option<u64>, Option<u64>), HyperbeeError>;
pub async fn run(hb: &Hyperbee, k: K, key: &[u8]) -> R {
    match k {
        K::Put => hb.put(key, Some(b"1")).await.map(|(a, b)| (a, Some(b))),
        K::Del => hb.del(key).await.map(|a| (a, None)),
        K::PutCas => hb.put_compare_and_swap(key, None, |_, _| true).await,
        K::DelCas => hb.del_compare_and_swap(key, |_| true).await.map(|a| (a.map(|x| x.1), None)),
    }
}
/// The two handles must agree on one more operation; `m` is the lazily created log under both.
///
/// `how`: 0 get of any key or a mutation of the same key, 1 also a mutation of any key,
/// 2 also a traversal, 3 only operations on the same key
pub fn agree(m: &Arc<LazyTree>, used: &Hyperbee, same: &[u8], how: u32) {
    let fresh = open_model(m.clone());
    let op = sym::choice(if how == 2 { 4 } else { 3 });
    let k2 = if (op == 0 && how < 3) || (how >= 1 && how < 3 && op < 3 && sym::flip()) { q() } else { same.to_vec() };
    let n = m.st().appended.len();
    check(block_on(used.version()) == block_on(fresh.version()), "the handle reports another version than a fresh handle");
    match op {
        0 => {
            let a = sym::must(block_on(used.get(&k2)), "get fails after an operation that had no effect");
            let b = sym::must(block_on(fresh.get(&k2)), "get fails on a fresh handle");
            check(a.is_some() == b.is_some(), "a get sees effects of an operation that did not happen");
            if let (Some(a), Some(b)) = (a, b) {
                check(a.0 == b.0, "a get sees effects of an operation that did not happen");
            }
        }
        1 => {
            let a = sym::must(block_on(run(used, K::Put, &k2)), "put fails after an operation that had no effect");
            let blk = m.st().appended.split_off(n);
            let b = sym::must(block_on(run(&fresh, K::Put, &k2)), "put fails on a fresh handle");
            check(a == b, "a later put is affected by an operation that did not happen");
            same_blocks(&blk, &m.st().appended[n..]);
        }
        2 => {
            let a = sym::must(block_on(run(used, K::Del, &k2)), "del fails after an operation that had no effect");
            let blk = m.st().appended.split_off(n);
            let b = sym::must(block_on(run(&fresh, K::Del, &k2)), "del fails on a fresh handle");
            check(a == b, "a later del is affected by an operation that did not happen");
            same_blocks(&blk, &m.st().appended[n..]);
        }
        _ => {
            let a = keys(used);
            let b = keys(&fresh);
            check(a.len() == b.len(), "a later traversal is affected by an operation that did not happen");
            for (x, y) in a.iter().zip(&b) {
                check(x.0 == y.0 && sym::eq(&x.1, &y.1), "a later traversal is affected by an operation that did not happen");
            }
        }
    }
}
/// Another writer appends next: the handle that went through the trouble must see what a fresh one sees.
fn overtaken(m: &Arc<LazyTree>, used: &Hyperbee, same: &[u8], trav: bool) {
    let k2 = q();
    let writer = open_model(m.clone());
    let r = sym::must(block_on(run(&writer, if sym::flip() { K::Put } else { K::Del }, &k2)), "a mutation through another handle fails");
    cover(if r.0.is_some() { 2 } else { 3 });
    let fresh = open_model(m.clone());
    check(block_on(used.version()) == block_on(fresh.version()), "the handle reports another version than a fresh handle");
    if trav && sym::flip() {
        let (a, b) = (keys(used), keys(&fresh));
        check(a.len() == b.len(), "after another handle's mutation a traversal sees effects of an operation that did not happen");
        for (x, y) in a.iter().zip(&b) {
            check(x.0 == y.0 && sym::eq(&x.1, &y.1), "after another handle's mutation a traversal sees effects of an operation that did not happen");
        }
        return;
    }
    let k3 = if sym::flip() { &k2[..] } else { same };
    let a = sym::must(block_on(used.get(k3)), "get fails after an operation that had no effect");
    let b = sym::must(block_on(fresh.get(k3)), "get fails on a fresh handle");
    check(a.is_some() == b.is_some(), "after another handle's mutation a get sees effects of an operation that did not happen");
    if let (Some(a), Some(b)) = (a, b) {
        check(a.0 == b.0 && crate::hist::same_val(&a.1, &b.1), "after another handle's mutation a get sees effects of an operation that did not happen");
    }
}
fn after(m: &Arc<LazyTree>, used: &Hyperbee, same: &[u8], how: u32) {
    match how {
        4 | 5 => overtaken(m, used, same, how == 5),
        _ => agree(m, used, same, how),
    }
}
fn keys(hb: &Hyperbee) -> Vec<(u64, Vec<u8>)> {
    let s = sym::must(block_on(hb.traverse(Default::default())), "traverse fails after an operation that had no effect");
    let mut s = Box::pin(s);
    let mut out = vec![];
    while let Some(x) = block_on(s.next()) {
        let x = sym::must(x, "traverse fails after an operation that had no effect");
        out.push((x.seq, x.key));
    }
    out
}
fn same_blocks(a: &[Vec<u8>], b: &[Vec<u8>]) {
    check(a.len() == b.len(), "a later mutation appends another number of blocks");
    for (x, y) in a.iter().zip(b) {
        check(sym::eq(x, y), "a later mutation writes other bytes than a fresh handle would");
    }
}
/// A mutation fails at any one storage operation: it must report it, and leave no trace.
fn failed(sh: Shape, kind: K, how: u32) {
    let m = Arc::new(LazyTree::new(sh));
    let env = Env::new(m.clone());
    let hb = open_model(env.clone());
    let c = env.ctl();
    c.faults = 1;
    c.kinds = 7;
    let key = q();
    let r = block_on(run(&hb, kind, &key));
    c.faults = 0;
    if c.faulted == 0 {
        sym::assume(false);
    }
    check(r.is_err(), "an operation whose storage access failed reports success");
    check(m.st().appended.is_empty(), "a failed operation changed the log");
    cover(if c.fault_on_append { 1 } else { 0 });
    after(&m, &hb, &key, how);
}
/// A mutation is dropped at any one suspension point.
fn cancelled(sh: Shape, kind: K, how: u32) {
    let m = Arc::new(LazyTree::new(sh));
    let env = Env::new(m.clone());
    let hb = open_model(env.clone());
    let c = env.ctl();
    c.may_suspend = 1;
    let key = q();
    {
        let mut f = Box::pin(run(&hb, kind, &key));
        if rt::poll_once(f.as_mut()).is_ready() {
            sym::assume(false);
        }
    }
    c.may_suspend = 0;
    let n = m.st().appended.len();
    check(n <= 1, "a cancelled operation appended more than one block");
    cover(n as u32);
    after(&m, &hb, &key, how);
}
/// First mutation on an empty log: the header or the entry fails or is cancelled; a retry works.
fn fresh_log(cancel: bool) {
    let log = Arc::new(MemLog::default());
    let env = Env::new(log.clone());
    let hb = open_model(env.clone());
    let key = q();
    let c = env.ctl();
    if cancel {
        c.may_suspend = 1;
        let mut f = Box::pin(hb.put(&key, Some(b"1")));
        if rt::poll_once(f.as_mut()).is_ready() {
            sym::assume(false);
        }
    } else {
        c.faults = 1;
        c.kinds = 7;
        let r = block_on(hb.put(&key, Some(b"1")));
        if c.faulted == 0 {
            sym::assume(false);
        }
        check(r.is_err(), "a put whose storage access failed reports success");
    }
    c.may_suspend = 0;
    c.faults = 0;
    let n = log.blocks.lock().unwrap().len();
    cover(8 + n as u32);
    check(n <= if cancel { 2 } else { 1 }, "a put that did not complete wrote too much");
    let r = sym::must(block_on(hb.put(b"zz", Some(b"2"))), "put fails after a put that did not complete");
    let blocks = log.blocks.lock().unwrap().clone();
    check(blocks.len() == if n == 2 { 3 } else { 2 }, "put after a put that did not complete writes a wrong number of blocks");
    check(blocks[0] == crate::codec::header(None), "the header is damaged");
    check(r.1 == blocks.len() as u64 - 1, "put reports a wrong seq");
    let fresh = open_model(log.clone());
    for h in [&hb, &fresh] {
        let g = sym::must(block_on(h.get(b"zz")), "get fails");
        check(g == Some((r.1, Some(b"2".to_vec()))), "get does not find what was put");
        if key != b"zz" {
            let g = sym::must(block_on(h.get(&key)), "get fails");
            check(g.is_some() == (n == 2), "an operation that did not complete left a trace");
        }
    }
}
/// Any single read that fails (error or missing block) makes a read operation report an error.
fn read_fault(sh: Shape) {
    let m = Arc::new(LazyTree::new(sh));
    let env = Env::new(m.clone());
    let hb = open_model(env.clone());
    let c = env.ctl();
    c.faults = 1;
    c.kinds = 3;
    let k = q();
    let r = block_on(hb.get(&k));
    c.faults = 0;
    if c.faulted == 0 {
        sym::assume(false);
    }
    cover(0);
    check(r.is_err(), "get reports a result although a block could not be read");
    let r2 = sym::must(block_on(hb.get(&k)), "get fails although all blocks are readable again");
    let s = m.st();
    match r2 {
        Some((seq, _)) => check(sym::eq(&s.key(seq), &k), "get returns another key's entry after a failed read"),
        None => check(s.absent(&k), "get finds nothing after a failed read although the key is in the tree"),
    }
}
fn traverse_fault(sh: Shape) {
    let m = Arc::new(LazyTree::new(sh));
    let env = Env::new(m.clone());
    let hb = open_model(env.clone());
    let c = env.ctl();
    c.faults = 1;
    c.kinds = 3;
    let rev = sym::flip();
    let conf = hyperbee::traverse::TraverseConfig { reversed: rev, ..Default::default() };
    let s = block_on(hb.traverse(conf));
    let mut s = match s {
        Err(_) => {
            check(c.faulted == 1, "traverse fails on a valid tree");
            cover(1);
            return;
        }
        Ok(s) => Box::pin(s),
    };
    let (mut errs, mut oks, mut at_fault) = (0, vec![], None);
    for _ in 0..200 {
        match block_on(s.next()) {
            None => {
                if c.faulted == 0 {
                    sym::assume(false);
                }
                cover(2);
                check(errs >= 1, "a traversal ends as if complete although a block could not be read");
                // what it yielded before the failure is the beginning of what the tree holds
                let mut ord = m.st().order.clone();
                if rev {
                    ord.reverse();
                }
                for (i, k) in oks[..at_fault.unwrap_or(0)].iter().enumerate() {
                    check(ord.get(i) == Some(&crate::lazy::Item::K(*k)), "a traversal skips entries before reporting an error");
                }
                return;
            }
            Some(Ok(kv)) => oks.push(kv.seq),
            Some(Err(_)) => {
                check(c.faulted == 1, "traversal of a valid tree yields an error");
                errs += 1;
                at_fault.get_or_insert(oks.len());
            }
        }
    }
    sym::fail("a traversal does not end after an error");
}
/// Operations through a sub while one block can not be read.
fn sub_fault(n: u8, op: u32) {
    let log = crate::hist::Log::new();
    let mut inside = vec![];
    {
        let hb = open_model(log.clone());
        let s = hb.sub(b"p", Default::default());
        for i in 0..n {
            let k = [16 + i * 5 % n * 8];
            sym::must(block_on(hb.put(&k, None)), "put fails");
            sym::must(block_on(hb.put(&[b'q', k[0]], None)), "put fails");
            sym::must(block_on(s.put(&k, Some(b"v"))), "put through a sub fails");
            inside.push(k[0]);
        }
    }
    inside.sort();
    let env = Env::new(log.clone());
    let hb = open_model(env.clone());
    let s = hb.sub(b"p", Default::default());
    let c = env.ctl();
    c.faults = 1;
    c.kinds = 3;
    if op == 0 {
        let rev = sym::flip();
        if rev {
            inside.reverse();
        }
        let conf = hyperbee::traverse::TraverseConfig { reversed: rev, ..Default::default() };
        let (mut errs, mut good, mut i) = (0, true, 0);
        match block_on(s.traverse(&conf)) {
            Err(_) => errs = 1,
            Ok(st) => {
                let mut st = Box::pin(st);
                let mut left = 300;
                while let Some(x) = block_on(st.next()) {
                    left -= 1;
                    check(left > 0, "a traversal does not end after an error");
                    match x {
                        Err(_) => errs += 1,
                        Ok(kv) => {
                            good &= errs > 0 || (kv.key.len() == 1 && inside.get(i) == Some(&kv.key[0]));
                            i += 1;
                        }
                    }
                }
            }
        }
        check(good, "a traversal of a sub skips entries before reporting an error");
        check((errs > 0) == (c.faulted > 0), "a traversal of a sub ends as if complete although a block could not be read");
        check(errs > 0 || i == inside.len(), "a traversal of a sub is not complete");
    } else {
        let k = [sym::u8()];
        let before = log.blocks().len();
        let failed = match sym::choice(5) {
            0 => block_on(s.get(&k)).is_err(),
            1 => block_on(s.put(&k, None)).is_err(),
            2 => block_on(s.del(&k)).is_err(),
            3 => block_on(s.put_compare_and_swap(&k, None, |_, _| true)).is_err(),
            _ => block_on(s.del_compare_and_swap(&k, |_| true)).is_err(),
        };
        check(failed == (c.faulted > 0), "an operation through a sub reports a result although a block could not be read");
        check(!failed || log.blocks().len() == before, "an operation through a sub that fails appends to the log");
        c.faults = 0;
        let r = sym::must(block_on(s.get(&[inside[0]])), "get through a sub fails although all blocks are readable");
        let gone = !failed && log.blocks().len() > before && sym::eq(&k, &[inside[0]]);
        check(gone || r.is_some(), "an entry is taken for absent after a failed operation");
    }
    cover(c.faulted);
}
/// Every operation completes under an executor that polls only when woken, whatever suspends.
fn live(sh: Shape, op: u32, budget: u32) {
    let m = Arc::new(LazyTree::new(sh));
    let env = Env::new(m.clone());
    let hb = open_model(env.clone());
    env.ctl().may_suspend = budget;
    let k = q();
    let msg = "an operation stalls: it is pending and nothing will wake it";
    match op {
        0 => drop(sym::must(rt::block_on_woken(hb.get(&k), msg), "get fails")),
        1 => drop(sym::must(rt::block_on_woken(hb.put(&k, None), msg), "put fails")),
        2 => drop(sym::must(rt::block_on_woken(hb.del(&k), msg), "del fails")),
        4 => drop(sym::must(rt::block_on_woken(hb.height(), msg), "height fails")),
        5 => {
            // a bound at either end
            let mut conf = hyperbee::traverse::TraverseConfig { reversed: sym::flip(), ..Default::default() };
            if sym::flip() {
                (conf.min_value, conf.min_inclusive) = (hyperbee::traverse::LimitValue::Finite(k), sym::flip());
            } else {
                (conf.max_value, conf.max_inclusive) = (hyperbee::traverse::LimitValue::Finite(k), sym::flip());
            }
            let mut s = Box::pin(sym::must(rt::block_on_woken(hb.traverse(conf), msg), "traverse fails"));
            while let Some(x) = rt::block_on_woken(s.next(), msg) {
                sym::must(x, "traverse fails");
            }
        }
        6 => {
            let sub = hb.sub(&[sym::u8()], hyperbee::prefixed::PrefixedConfig::default());
            let mut s = Box::pin(sym::must(rt::block_on_woken(sub.traverse(&hyperbee::traverse::TraverseConfig { reversed: sym::flip(), ..Default::default() }), msg), "traverse fails"));
            while let Some(x) = rt::block_on_woken(s.next(), msg) {
                sym::must(x, "traverse fails");
            }
        }
        _ => {
            let conf = hyperbee::traverse::TraverseConfig { reversed: sym::flip(), ..Default::default() };
            let mut s = Box::pin(sym::must(rt::block_on_woken(hb.traverse(conf), msg), "traverse fails"));
            let mut n = 0;
            while let Some(x) = rt::block_on_woken(s.next(), msg) {
                sym::must(x, "traverse fails");
                n += 1;
            }
            let total = m.st().order.len();
            check(n == total, "a traversal that suspends loses or repeats entries");
        }
    }
    cover(env.ctl().suspended);
}

/// Scheduler for several futures on one thread: polls any future that has been woken.
pub fn schedule<T>(mut fs: Vec<Pin<Box<dyn Future<Output = T> + '_>>>, mut bound: u32) -> Vec<T> {
    let flags: Vec<_> = fs.iter().map(|_| rt::Flag::new()).collect();
    let mut ready = vec![true; fs.len()];
    let mut out: Vec<Option<T>> = fs.iter().map(|_| None).collect();
    let mut last = 0;
    loop {
        for (i, f) in flags.iter().enumerate() {
            if f.0.take() {
                ready[i] = true;
            }
        }
        let run: Vec<usize> = (0..fs.len()).filter(|i| ready[*i] && out[*i].is_none()).collect();
        if run.is_empty() {
            if out.iter().all(|o| o.is_some()) {
                break;
            }
            sym::fail("deadlock: operations are pending and nothing will wake them");
        }
        // a context switch away from a runnable future costs one of `bound`
        let i = if run.len() == 1 {
            run[0]
        } else if run.contains(&last) && bound == 0 {
            last
        } else {
            run[sym::choice(run.len() as u32) as usize]
        };
        if i != last && run.contains(&last) {
            bound -= bound.min(1);
        }
        last = i;
        ready[i] = false;
        if let Poll::Ready(v) = fs[i].as_mut().poll(&mut std::task::Context::from_waker(&flags[i].1)) {
            out[i] = Some(v);
        }
    }
    out.into_iter().map(|o| o.unwrap()).collect()
}

entries! {
    h_fail_put => failed(SMALL, K::Put, 0);
    h_fail_del => failed(SMALL, K::Del, 0);
    h_fail_full => failed(FULL, if sym::flip() { K::Put } else { K::Del }, 3);
    h_fail_wide => failed(WIDE, if sym::flip() { K::Put } else { K::Del }, 1);
    h_fail_cas => failed(LEAF, if sym::flip() { K::PutCas } else { K::DelCas }, 2);
    h_fail_tiny => failed(TINY, if sym::flip() { K::Put } else { K::Del }, 1);
    h_fail_trav => failed(MINI, if sym::flip() { K::Put } else { K::Del }, 2);
    h_fail_tall => failed(TALL, if sym::flip() { K::Put } else { K::Del }, 3);
    h_fail_over1 => failed(LEAF, if sym::flip() { K::Put } else { K::Del }, 5);
    h_fail_over2 => failed(MINI, if sym::flip() { K::Put } else { K::Del }, 4);
    h_cancel_over1 => cancelled(LEAF, if sym::flip() { K::Put } else { K::Del }, 5);
    h_cancel_over2 => cancelled(MINI, if sym::flip() { K::Put } else { K::Del }, 4);
    h_fail_new => fresh_log(false);
    h_cancel_put => cancelled(SMALL, K::Put, 0);
    h_cancel_del => cancelled(SMALL, K::Del, 0);
    h_cancel_full => cancelled(FULL, if sym::flip() { K::Put } else { K::Del }, 3);
    h_cancel_wide => cancelled(WIDE, if sym::flip() { K::Put } else { K::Del }, 1);
    h_cancel_cas => cancelled(LEAF, if sym::flip() { K::PutCas } else { K::DelCas }, 2);
    h_cancel_tiny => cancelled(TINY, if sym::flip() { K::Put } else { K::Del }, 1);
    h_cancel_trav => cancelled(MINI, if sym::flip() { K::Put } else { K::Del }, 2);
    h_cancel_tall => cancelled(TALL, if sym::flip() { K::Put } else { K::Del }, 3);
    h_cancel_new => fresh_log(true);
    h_readfault1 => read_fault(LEAF);
    h_readfault2 => read_fault(SMALL);
    h_readfault3 => read_fault(TALL);
    h_subfault_trav => sub_fault(1 + sym::choice(3) as u8 * 3, 0);
    h_subfault1 => sub_fault(1, 1);
    h_subfault4 => sub_fault(4, 1);
    h_subfault7 => sub_fault(7, 1);
    h_travfault1 => traverse_fault(LEAF);
    h_travfault2 => traverse_fault(Shape { root: &[1, 2], leaf: &[4], ..SMALL });
    h_live_get => live(SMALL, 0, 2);
    h_live_put => live(SMALL, 1, 1);
    h_live_del => live(SMALL, 2, 1);
    h_live_put2 => live(LEAF, 1, 3);
    h_live_del2 => live(LEAF, 2, 3);
    h_live_trav => live(Shape { root: &[1], leaf: &[4], ..SMALL }, 3, 2);
    h_live_height => live(SMALL, 4, 3);
    h_live_bound => live(MINI, 5, 2);
    h_live_sub => live(MINI, 6, 2);
    h_live_get_deep => live(TALL, 0, 3);
    h_live_put_deep => live(TALL, 1, 2);
    h_live_del_deep => live(TALL, 2, 2);
}
