//! Prefixed views.
use crate::{
    codec::{self, Block, Level},
    entries,
    hist::Log,
    lazy::{Item, LazyTree, Shape},
    robust::{LEAF, SMALL, TINY},
    rt::block_on,
    sym::{self, check, cover},
    trav::{conf, End},
    trees::{open, open_model},
};
use futures_lite::StreamExt;
use hyperbee::prefixed::{Prefixed, PrefixedConfig, PrefixedConfigBuilder};
use std::sync::Arc;

fn bytes(max: u32) -> Vec<u8> {
    (0..sym::choice(max + 1)).map(|_| sym::u8()).collect()
}
fn config(custom: bool) -> (PrefixedConfig, Vec<u8>) {
    match sym::choice(if custom { 4 } else { 2 }) {
        0 => (PrefixedConfig::default(), vec![0]),
        1 => match PrefixedConfigBuilder::default().build() {
            Ok(c) => (c, vec![0]),
            Err(_) => sym::fail("the default sub configuration is refused"),
        },
        2 => (PrefixedConfig { seperator: vec![] }, vec![]),
        _ => {
            let s = vec![sym::u8()];
            match PrefixedConfigBuilder::default().seperator(s.clone()).build() {
                Ok(c) => (c, s),
                Err(_) => sym::fail("a sub configuration is refused"),
            }
        }
    }
}
/// An operation through a sub is the same operation on the whole tree with the prefixed key.
fn same(sh: Shape) {
    let m = Arc::new(LazyTree::new(sh));
    let (c, sep) = config(true);
    let prefix = bytes(1);
    let key = bytes(1);
    let full = [&prefix[..], &sep[..], &key[..]].concat();
    let hb = open(&m);
    let sub = hb.sub(&prefix, c);
    check(sym::eq(&sub.prefix, &prefix), "a sub has another prefix than the one given");
    let v: Option<&[u8]> = [None, Some(&b""[..]), Some(&b"w"[..])][sym::choice(3) as usize];
    let op = sym::choice(5);
    let accept = op < 3 || sym::flip();
    let other = open(&m);
    let msg = "an operation through a sub fails on a valid tree";
    let msg2 = "an operation fails on a valid tree";
    let (mut seen, mut seen2) = (None, None);
    let (a, b, w): (Vec<Option<u64>>, Vec<Option<u64>>, Vec<Vec<u8>>) = match op {
        0 => {
            let a = sym::must(block_on(sub.get(&key)), msg);
            let w = m.st().appended.split_off(0);
            let b = sym::must(block_on(other.get(&full)), msg2);
            check(a.is_some() == b.is_some(), "get through a sub finds another entry than get of the prefixed key");
            if let (Some(a), Some(b)) = (&a, &b) {
                check(crate::hist::same_val(&a.1, &b.1), "get through a sub returns another value");
            }
            (vec![a.map(|x| x.0)], vec![b.map(|x| x.0)], w)
        }
        1 => {
            let a = sym::must(block_on(sub.put(&key, v)), msg);
            let w = m.st().appended.split_off(0);
            let b = sym::must(block_on(other.put(&full, v)), msg2);
            (vec![a.0, Some(a.1)], vec![b.0, Some(b.1)], w)
        }
        2 => {
            let a = sym::must(block_on(sub.del(&key)), msg);
            let w = m.st().appended.split_off(0);
            let b = sym::must(block_on(other.del(&full)), msg2);
            (vec![a], vec![b], w)
        }
        3 => {
            let a = sym::must(block_on(sub.put_compare_and_swap(&key, v, |o, n| { seen = Some((o.cloned(), Some(n.clone()))); accept })), msg);
            let w = m.st().appended.split_off(0);
            let b = sym::must(block_on(other.put_compare_and_swap(&full, v, |o, n| { seen2 = Some((o.cloned(), Some(n.clone()))); accept })), msg2);
            (vec![a.0, a.1], vec![b.0, b.1], w)
        }
        _ => {
            let a = sym::must(block_on(sub.del_compare_and_swap(&key, |o| { seen = Some((Some(o.clone()), None)); accept })), msg);
            let w = m.st().appended.split_off(0);
            let b = sym::must(block_on(other.del_compare_and_swap(&full, |o| { seen2 = Some((Some(o.clone()), None)); accept })), msg2);
            (vec![a.map(|x| x.0 as u64), a.map(|x| x.1)], vec![b.map(|x| x.0 as u64), b.map(|x| x.1)], w)
        }
    };
    check(a == b, "an operation through a sub reports other than the operation on the prefixed key");
    check(w.len() == m.st().appended.len(), "an operation through a sub appends another number of blocks");
    if let (Some(x), Some(y)) = (w.first(), m.st().appended.first()) {
        check(sym::eq(x, y), "an operation through a sub writes other bytes than the operation on the prefixed key");
        cover(1);
    }
    check(seen.is_some() == seen2.is_some(), "compare-and-swap through a sub is not asked");
    if let (Some((a, b)), Some((c, d))) = (seen, seen2) {
        for (x, y) in [(a, c), (b, d)] {
            check(x.is_some() == y.is_some(), "compare-and-swap through a sub is shown another entry");
            if let (Some(x), Some(y)) = (x, y) {
                check(x.seq == y.seq && crate::hist::same_val(&x.value, &y.value), "compare-and-swap through a sub is shown another entry");
            }
        }
    }
    cover(2 + op);
}
/// Every operation through a sub on a leaf of keys of several lengths, among them keys that begin with
/// the prefix, are equal to it, or differ only in the separator.
fn lengths(n: usize) {
    let (log, keys) = leaf(n, 3);
    let hb = open_model(log.clone());
    let (c, sep) = config(false);
    let prefix = vec![sym::u8()];
    let key = bytes(2);
    let full = [&prefix[..], &sep[..], &key[..]].concat();
    let sub = hb.sub(&prefix, c);
    // which entry is meant
    let at = keys.iter().position(|k| k.len() == full.len() && sym::eq(k, &full)).map(|i| i as u64 + 1);
    let msg = "an operation through a sub fails on a valid tree";
    let op = sym::choice(3);
    cover(op * 2 + at.is_some() as u32);
    match op {
        0 => {
            let r = sym::must(block_on(sub.get(&key)), msg).map(|x| x.0);
            check(r == at, "get through a sub finds another entry than the one under the prefixed key");
        }
        1 => {
            let r = sym::must(block_on(sub.put(&key, None)), msg);
            check(r == (at, n as u64 + 1), "put through a sub replaces another entry than the one under the prefixed key");
            let b = codec::decode(log.blocks().last().unwrap());
            check(b.map_or(false, |b| sym::eq(&b.key, &full)), "put through a sub writes another key");
        }
        _ => {
            let r = sym::must(block_on(sub.del(&key)), msg);
            check(r == at, "del through a sub removes another entry than the one under the prefixed key");
            check(log.blocks().len() == n + 1 + at.is_some() as usize, "del through a sub writes a wrong number of blocks");
        }
    }
}
pub fn collect(sub: &Prefixed, c: &hyperbee::traverse::TraverseConfig) -> Vec<hyperbee::KeyValueData> {
    let mut s = Box::pin(sym::must(block_on(sub.traverse(c)), "traverse of a sub fails on a valid tree"));
    let mut out = vec![];
    while let Some(x) = block_on(s.next()) {
        out.push(sym::must(x, "traverse of a sub yields an error on a valid tree"));
        if out.len() > 200 {
            sym::fail("traverse of a sub does not end");
        }
    }
    out
}
fn limit(lower: bool, all: bool, max: u32) -> End {
    crate::trav::end(lower, all, &|| bytes(max))
}
/// Is the entry inside the sub and its bounds? Without branching on the bytes.
fn inside(k: &[u8], pre: &[u8], lo: &End, hi: &End) -> bool {
    k.len() >= pre.len() && (sym::eq(&k[..pre.len()], pre) & lo.above(&k[pre.len()..]) & hi.below(&k[pre.len()..]))
}
/// A leaf of `n` arbitrary keys of up to `klen` bytes.
pub fn leaf(n: usize, klen: u32) -> (Arc<Log>, Vec<Vec<u8>>) {
    let keys: Vec<Vec<u8>> = (0..n).map(|_| bytes(klen)).collect();
    for w in keys.windows(2) {
        sym::assume(sym::cmp(&w[0], &w[1]) < 0);
    }
    let mut blocks = vec![codec::header(None)];
    for (i, k) in keys.iter().enumerate() {
        let levels = vec![Level { keys: (1..=i as u64 + 1).collect(), children: vec![] }];
        blocks.push(codec::encode(&Block { levels, key: k.clone(), value: if i % 2 == 0 { Some(vec![i as u8]) } else { None } }));
    }
    (Log::with(blocks), keys)
}
fn trav_leaf(n: usize, klen: u32, plen: u32, blen: u32, all: bool) {
    let (log, keys) = leaf(n, klen);
    let hb = open_model(log.clone());
    let (c, sep) = config(all);
    let prefix = bytes(plen);
    let pre = [&prefix[..], &sep[..]].concat();
    let (lo, hi) = (limit(true, all, blen), limit(false, all, blen));
    let rev = sym::flip();
    let got = collect(&hb.sub(&prefix, c), &conf(&lo, &hi, rev));
    let mut seqs: Vec<u64> = got.iter().map(|x| x.seq).collect();
    if rev {
        seqs.reverse();
    }
    let (mut at, mut good) = (0, true);
    for (i, k) in keys.iter().enumerate() {
        let want = inside(k, &pre, &lo, &hi);
        if at < seqs.len() && seqs[at] == i as u64 + 1 {
            let g = &got[if rev { got.len() - 1 - at } else { at }];
            at += 1;
            good &= want;
            good &= k.len() >= pre.len() && sym::eq(&g.key, &k[pre.len()..]);
            good &= g.value == if i % 2 == 0 { Some(vec![i as u8]) } else { None };
        } else {
            good &= !want;
        }
    }
    check(at == seqs.len(), "traverse of a sub yields an entry twice or out of order");
    check(good, "traverse of a sub does not yield exactly its own entries inside the bounds, with the prefix stripped");
    check(log.blocks().len() == n + 1, "traverse of a sub appends to the log");
    cover(got.len().min(3) as u32);
    cover(4 + rev as u32);
}
fn trav_tree(sh: Shape, blen: u32) {
    let m = Arc::new(LazyTree::new(sh));
    let hb = open(&m);
    let prefix = vec![sym::u8()];
    let (c, sep) = if sym::flip() { (PrefixedConfig::default(), vec![0]) } else { (PrefixedConfig { seperator: vec![] }, vec![]) };
    let pre = [&prefix[..], &sep[..]].concat();
    let (lo, hi) = (limit(true, false, blen), limit(false, false, blen));
    let rev = sym::flip();
    let got = collect(&hb.sub(&prefix, c), &conf(&lo, &hi, rev));
    let s = m.st();
    let mut seqs: Vec<u64> = got.iter().map(|x| x.seq).collect();
    if rev {
        seqs.reverse();
    }
    let (mut at, mut good) = (0, true);
    let ord = s.order.clone();
    for (i, x) in ord.iter().enumerate() {
        match x {
            Item::K(q) => {
                let k = s.key(*q);
                let want = inside(&k, &pre, &lo, &hi);
                if at < seqs.len() && seqs[at] == *q {
                    let g = &got[if rev { got.len() - 1 - at } else { at }];
                    at += 1;
                    good &= want & sym::eq(&g.key, &k[pre.len()..]);
                } else {
                    good &= !want;
                }
            }
            Item::S(_) => {
                // nobody looked below: no key between its neighbours may be inside
                let left = i.checked_sub(1).map(|j| ord[j]).and_then(|x| if let Item::K(k) = x { Some(s.key(k)) } else { None });
                let right = ord.get(i + 1).and_then(|x| if let Item::K(k) = x { Some(s.key(*k)) } else { None });
                // a witness: any two-byte key between them that is inside the sub and its bounds
                let w = sym::u16().to_be_bytes().to_vec();
                let mut between = inside(&w, &pre, &lo, &hi);
                if let Some(l) = &left {
                    between &= sym::cmp(l, &w) < 0;
                }
                if let Some(r) = &right {
                    between &= sym::cmp(&w, r) < 0;
                }
                good &= !between;
            }
        }
    }
    check(at == seqs.len(), "traverse of a sub yields an entry twice or out of order");
    check(good, "traverse of a sub does not yield exactly its own entries inside the bounds, with the prefix stripped");
    cover(got.len().min(3) as u32);
}
const T2: Shape = Shape { height: 2, root: &[1, 2], inner: &[4], leaf: &[4], base: 30, len: 1000, kb: 2 };
entries! {
    h_sub_len2 => lengths(2);
    h_sub_len3 => lengths(3);
    h_sub_same1 => same(LEAF);
    h_sub_same2 => same(TINY);
    h_sub_same2w => same(SMALL);
    h_sub_trav1 => trav_leaf(1, 3, 2, 1, true);
    h_sub_trav2 => trav_leaf(2, 2, 1, 1, true);
    h_sub_trav3 => trav_leaf(3, 2, 1, 0, false);
    h_sub_trav3w => trav_leaf(3, 3, 2, 1, true);
    h_sub_tree => trav_tree(T2, 0);
    h_sub_tree1 => trav_tree(Shape { root: &[1], ..T2 }, 1);
}
