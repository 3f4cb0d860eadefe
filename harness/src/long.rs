//! Long keys, values and prefixes, and handles that have lived long.
use crate::{
    codec::{self, Block, Level},
    entries,
    hist::{check_all, check_get, same_val, Log, Map},
    rt::block_on,
    sym::{self, check, cover},
    trav::{collect, conf, end, End},
    trees::open_model,
};
use futures_lite::StreamExt;
use hyperbee::prefixed::PrefixedConfig;
use std::sync::Arc;

/// Lengths around those at which anything stored in 1, 2, 4, ... bytes, or handled a word or block at a time, changes.
pub const LENS: [usize; 34] = [
    0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 23, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024,
];
pub const VLENS: [usize; 14] = [0, 1, 8, 31, 63, 64, 127, 128, 255, 256, 257, 1024, 16383, 16384];
/// Text of `n` bytes, any at both ends and somewhere between.
pub fn text(n: usize) -> Vec<u8> {
    let mut k = vec![b'm'; n];
    for i in [0, n / 2, n.wrapping_sub(1)] {
        if i < n && k[i] == b'm' {
            k[i] = sym::u8();
        }
    }
    k
}
/// The same text with another length, or another last byte.
pub fn near(k: &[u8], how: u32) -> Vec<u8> {
    let mut k = k.to_vec();
    match how {
        0 => k.push(sym::u8()),
        1 => {
            k.pop();
        }
        2 => {
            if let Some(x) = k.last_mut() {
                *x = sym::u8();
            }
        }
        3 => {
            let i = k.len() / 2;
            if let Some(x) = k.get_mut(i) {
                *x = sym::u8();
            }
        }
        _ => k.extend([b'm'; 9]),
    }
    k
}
fn log_is(log: &Arc<Log>, m: &Map, key: &[u8], value: &Option<Vec<u8>>) {
    let levels = vec![Level { keys: m.0.iter().map(|e| e.seq).collect(), children: vec![] }];
    let want = codec::encode(&Block { levels, key: key.to_vec(), value: value.clone() });
    check(sym::eq(log.blocks().last().unwrap(), &want), "the block written is not what JavaScript Hyperbee writes");
}
/// Mutations and lookups with long keys and values.
fn map(how: u32, kind: u32) {
    let log = Log::new();
    let hb = open_model(log.clone());
    let mut m = Map::default();
    let (klen, vlen) = match kind {
        0 => (LENS[sym::choice(LENS.len() as u32) as usize], 2),
        1 => (1, VLENS[sym::choice(VLENS.len() as u32) as usize]),
        // far beyond
        _ => {
            let n = [4096usize, 65535, 65536, 65537][sym::choice(4) as usize];
            if sym::flip() {
                (n, 1)
            } else {
                (1, n)
            }
        }
    };
    let k = text(klen);
    let v = Some(text(vlen));
    let (old, seq) = sym::must(block_on(hb.put(&k, v.as_deref())), "put fails");
    check(old.is_none() && seq == 1, "put on an empty log reports a wrong position");
    m.put(&k, v.as_deref(), seq);
    log_is(&log, &m, &k, &v);
    let k2 = near(&k, how);
    match sym::choice(5) {
        0 => check_get(&hb, &m, &k2),
        1 => {
            let v2 = if sym::flip() { None } else { v };
            let (old, seq) = sym::must(block_on(hb.put(&k2, v2.as_deref())), "put fails");
            check(seq == 2, "put reports a wrong position");
            check(m.put(&k2, v2.as_deref(), seq) == old, "put reports another replaced entry than the one in the map");
            log_is(&log, &m, &k2, &v2);
            cover(2);
        }
        2 => {
            let r = sym::must(block_on(hb.del(&k2)), "del fails");
            check(m.del(&k2) == r, "del reports another entry than the one in the map");
            if r.is_some() {
                log_is(&log, &m, &k2, &None);
                cover(3);
            }
        }
        3 => {
            let mut shown = None;
            let r = sym::must(block_on(hb.put_compare_and_swap(&k2, None, |o, n| { shown = Some((o.cloned(), n.clone())); true })), "put fails");
            let Some((o, n)) = shown else { sym::fail("compare-and-swap is not asked") };
            check(sym::eq(&n.key, &k2) && n.value.is_none() && n.seq == 2, "compare-and-swap is shown another new entry");
            let at = m.find(&k2);
            check(at.is_some() == o.is_some(), "compare-and-swap is shown an old entry exactly if there is one");
            if let (Some(i), Some(o)) = (at, &o) {
                check(sym::eq(&o.key, &k2) && o.seq == m.0[i].seq && same_val(&o.value, &m.0[i].value), "compare-and-swap is shown another old entry");
            }
            check(r == (m.put(&k2, None, 2), Some(2)), "compare-and-swap reports other entries");
            cover(4);
        }
        _ => {
            let mut shown = None;
            let r = sym::must(block_on(hb.del_compare_and_swap(&k2, |o| { shown = Some(o.clone()); true })), "del fails");
            let at = m.find(&k2);
            check(at.is_some() == shown.is_some(), "compare-and-swap is asked exactly if there is an entry");
            if let (Some(i), Some(o)) = (at, &shown) {
                check(sym::eq(&o.key, &k2) && o.seq == m.0[i].seq && same_val(&o.value, &m.0[i].value), "compare-and-swap is shown another old entry");
            }
            check(r == m.del(&k2).map(|s| (true, s)), "compare-and-swap reports another entry");
        }
    }
    check_get(&hb, &m, &k);
    let fresh = open_model(log.clone());
    check_all(&fresh, &m, sym::flip());
}
/// Two entries with long keys that have much in common.
fn pair(n: usize, how: u32) -> (Arc<Log>, [Vec<u8>; 2]) {
    let a = text(n);
    let b = near(&a, how);
    sym::assume(sym::cmp(&a, &b) < 0);
    let blocks = vec![
        codec::header(None),
        codec::encode(&Block { levels: vec![Level { keys: vec![1], children: vec![] }], key: a.clone(), value: None }),
        codec::encode(&Block { levels: vec![Level { keys: vec![1, 2], children: vec![] }], key: b.clone(), value: None }),
    ];
    (Log::with(blocks), [a, b])
}
fn which(got: &[u64], rev: bool, want: &[bool; 2]) {
    let mut good = true;
    for i in 0..2u64 {
        good &= got.contains(&(i + 1)) == want[i as usize];
    }
    check(good, "a traversal does not yield exactly the entries inside its bounds");
    let sorted = got.windows(2).all(|w| (w[0] < w[1]) != rev);
    check(sorted, "a traversal yields an entry twice or out of order");
    cover(got.len() as u32);
}
/// Ranges over long keys.
fn range(both: bool) {
    let n = LENS[sym::choice(LENS.len() as u32) as usize];
    let (log, keys) = pair(n, if both { 0 } else { 3 * sym::choice(2) });
    let hb = open_model(log.clone());
    let bound = || match sym::choice(2) {
        0 => near(&keys[0], 2),
        _ => near(&keys[1], 1),
    };
    let (lo, hi) = match (both, sym::flip()) {
        (true, _) => (end(true, true, &bound), end(false, true, &bound)),
        (_, true) => (end(true, false, &bound), End::Pos),
        _ => (End::Neg, end(false, false, &bound)),
    };
    let rev = sym::flip();
    let got = sym::must(collect(&hb, conf(&lo, &hi, rev)), "traverse fails");
    let want = [lo.above(&keys[0]) & hi.below(&keys[0]), lo.above(&keys[1]) & hi.below(&keys[1])];
    let mut good = true;
    for kv in &got {
        good &= (1..=2).contains(&kv.seq) && sym::eq(&kv.key, &keys[kv.seq as usize - 1]);
    }
    check(good, "a traversal yields another key than the stored one");
    which(&got.iter().map(|x| x.seq).collect::<Vec<_>>(), rev, &want);
}
/// Long prefixes and long keys below them.
fn sub(plen: &[usize], klen: &[usize]) {
    let prefix = text(plen[sym::choice(plen.len() as u32) as usize]);
    let key = text(klen[sym::choice(klen.len() as u32) as usize]);
    let (c, sep) = match sym::choice(3) {
        0 => (PrefixedConfig::default(), vec![0]),
        1 => (PrefixedConfig { seperator: vec![] }, vec![]),
        _ => {
            let s = vec![b's'; 20];
            (PrefixedConfig { seperator: s.clone() }, s)
        }
    };
    let full = [&prefix[..], &sep[..], &key[..]].concat();
    let log = Log::new();
    let hb = open_model(log.clone());
    let sub = hb.sub(&prefix, c);
    let r = sym::must(block_on(sub.put(&key, Some(b"v"))), "put through a sub fails");
    check(r == (None, 1), "put through a sub reports a wrong position");
    let mut m = Map::default();
    m.put(&full, Some(b"v"), 1);
    log_is(&log, &m, &full, &Some(b"v".to_vec()));
    // a neighbour that is not inside, or is
    let other = near(&[&prefix[..], &sep[..]].concat(), sym::choice(2));
    match sym::choice(3) {
        0 => {
            let g = sym::must(block_on(sub.get(&key)), "get through a sub fails");
            check(g == Some((1, Some(b"v".to_vec()))), "get through a sub does not find what was put through it");
            check_get(&hb, &m, &other);
        }
        1 => {
            let d = sym::must(block_on(sub.del(&key)), "del through a sub fails");
            check(d == Some(1), "del through a sub does not find what was put through it");
            m.del(&full);
            check_all(&hb, &m, false);
        }
        _ => {
            let (old, seq) = sym::must(block_on(hb.put(&other, None)), "put fails");
            check(m.put(&other, None, seq) == old, "put replaces an entry of another key");
            let rev = sym::flip();
            let c = hyperbee::traverse::TraverseConfig { reversed: rev, ..Default::default() };
            let got = crate::subs::collect(&sub, &c);
            let pre = prefix.len() + sep.len();
            let inside = |k: &[u8]| k.len() >= pre && sym::eq(&k[..pre], &full[..pre]);
            let mut want: Vec<_> = m.0.iter().filter(|e| inside(&e.key)).collect();
            if rev {
                want.reverse();
            }
            check(got.len() == want.len(), "traverse of a sub does not yield exactly its own entries");
            for (g, w) in got.iter().zip(&want) {
                check(g.seq == w.seq && sym::eq(&g.key, &w.key[pre..]), "traverse of a sub does not yield its entries with the prefix stripped");
            }
            cover(2 + want.len() as u32);
        }
    }
}

/// Check the stored tree: sizes, depth, references. Its height, and the seqs of its keys in order.
fn walk(log: &Arc<Log>, seq: u64, off: u64, root: bool, out: &mut Vec<u64>, guard: u32) -> u32 {
    let Some(b) = log.blocks().get(seq as usize).and_then(|b| codec::decode(b)) else { sym::fail("shape: the tree references a block that does not exist") };
    let Some(l) = b.levels.get(off as usize) else { sym::fail("shape: the tree references a node that does not exist") };
    if guard > 12 {
        sym::fail("shape: the tree is too deep");
    }
    let (n, c) = (l.keys.len(), l.children.len());
    check(n <= 8, "shape: a node holds more than the maximum number of keys");
    check(root || n >= 4, "shape: a node other than the root holds fewer than the minimum number of keys");
    check(c == 0 || c == n + 1, "shape: number of children is neither zero nor keys plus one");
    let mut h = 0;
    for i in 0..=n {
        if let Some((s, o)) = l.children.get(i) {
            let hc = walk(log, *s, *o, false, out, guard + 1);
            check(i == 0 || hc == h, "shape: leaves at different depths");
            h = hc;
        }
        if i < n {
            out.push(l.keys[i]);
        }
    }
    h + 1
}
fn many_key(i: u32) -> Vec<u8> {
    (i as u16 * 16 + 8).to_be_bytes().to_vec()
}
/// A handle that has already put `n` keys in no particular order and deleted every `gap`th again; then any one operation.
fn many(n: u32, gap: u32, op: u32) {
    let log = Log::new();
    let hb = open_model(log.clone());
    let mut m = Map::default();
    // step and n have no common factor
    let step = [7, 11, 13].into_iter().find(|s| n % s != 0).unwrap();
    for i in 0..n {
        let k = many_key(i * step % n);
        let (old, seq) = sym::must(block_on(hb.put(&k, None)), "put fails");
        check(old.is_none(), "put replaced a key that was not there");
        m.0.push(crate::hist::Ent { key: k, value: None, seq });
    }
    m.0.sort_by(|a, b| a.key.cmp(&b.key));
    for i in (0..n).step_by(gap as usize).skip(1) {
        let k = many_key(i * step % n);
        let r = sym::must(block_on(hb.del(&k)), "del fails");
        let at = m.0.iter().position(|e| e.key == k).unwrap();
        check(r == Some(m.0.remove(at).seq), "del reports another entry than the one in the map");
    }
    let before = log.blocks().len();
    let q = sym::u16().to_be_bytes().to_vec();
    // is that the entry of q?
    let exact = |r: Option<u64>| -> bool {
        match r {
            Some(s) => m.0.iter().any(|e| e.seq == s) && sym::eq(&m_key(&m, s), &q),
            None => !m.0.iter().fold(false, |a, e| a | sym::eq(&e.key, &q)),
        }
    };
    match op {
        0 => {
            let r = sym::must(block_on(hb.get(&q)), "get fails");
            check(exact(r.as_ref().map(|r| r.0)), "get returns another entry than the latest one put, or is wrong about whether there is one");
            if let Some((_, v)) = r {
                check(v.is_none(), "get returns another value than the latest one put");
                cover(0);
            } else {
                cover(1);
            }
        }
        1 => {
            let (old, seq) = sym::must(block_on(hb.put(&q, Some(b"x"))), "put fails");
            check(seq == before as u64 && log.blocks().len() == before + 1, "put reports a wrong position");
            check(exact(old), "put reports another replaced entry than the one in the map");
            let mut out = vec![];
            walk(&log, seq, 0, true, &mut out, 0);
            let p = out.iter().position(|s| *s == seq);
            let Some(p) = p else { sym::fail("put does not put its key into the tree") };
            let left = p == 0 || sym::cmp(&m_key(&m, out[p - 1]), &q) < 0;
            let right = p + 1 == out.len() || sym::cmp(&q, &m_key(&m, out[p + 1])) < 0;
            check(left & right, "put puts its key in the wrong place");
            out.remove(p);
            let rest: Vec<u64> = m.0.iter().map(|e| e.seq).filter(|s| Some(*s) != old).collect();
            check(out == rest, "put changes other entries");
            cover(2);
        }
        _ => {
            let r = sym::must(block_on(hb.del(&q)), "del fails");
            check(exact(r), "del reports another entry than the one in the map");
            check(log.blocks().len() == before + r.is_some() as usize, "del appends other than one block per removed key");
            if let Some(s) = r {
                let mut out = vec![];
                walk(&log, before as u64, 0, true, &mut out, 0);
                let rest: Vec<u64> = m.0.iter().map(|e| e.seq).filter(|x| *x != s).collect();
                check(out == rest, "del changes other entries");
                cover(3);
            }
        }
    }
}
/// A traversal of a tree of three levels, polled any number of times (in steps of `every`), then any two mutations, then the rest.
fn snap(n: u32, every: u32) {
    let log = Log::new();
    let hb = open_model(log.clone());
    let mut want = vec![];
    for i in 0..n {
        let k = many_key(i * 7 % n);
        let (_, seq) = sym::must(block_on(hb.put(&k, Some(&k))), "put fails");
        want.push((k, seq));
    }
    want.sort();
    let reversed = sym::flip();
    if reversed {
        want.reverse();
    }
    let c = hyperbee::traverse::TraverseConfig { reversed, ..Default::default() };
    let mut st = Box::pin(sym::must(block_on(hb.traverse(c)), "traverse fails"));
    let mut got = vec![];
    let mut polls = 0;
    let done = loop {
        if polls % every == 0 && sym::flip() {
            break false;
        }
        polls += 1;
        match crate::rt::poll_once(std::pin::pin!(st.next())) {
            std::task::Poll::Pending => {}
            std::task::Poll::Ready(Some(x)) => got.push(sym::must(x, "traverse yields an error")),
            std::task::Poll::Ready(None) => break true,
        }
    };
    if done {
        sym::assume(false);
    }
    let q = sym::u16().to_be_bytes().to_vec();
    if sym::flip() {
        sym::must(block_on(hb.put(&q, Some(b"new"))), "put fails");
        cover(0);
    } else {
        sym::must(block_on(hb.del(&q)), "del fails");
        cover(1);
    }
    sym::must(block_on(hb.del(&many_key(n / 2))), "del fails");
    while let Some(x) = block_on(st.next()) {
        got.push(sym::must(x, "a traversal fails because of a concurrent mutation"));
    }
    check(got.len() == want.len(), "a traversal in progress is affected by a mutation");
    let mut good = true;
    for (g, (k, s)) in got.iter().zip(&want) {
        good &= g.seq == *s && g.key == *k && g.value.as_ref() == Some(k);
    }
    check(good, "a traversal in progress is affected by a mutation");
}
fn m_key(m: &Map, seq: u64) -> Vec<u8> {
    m.0.iter().find(|e| e.seq == seq).map(|e| e.key.clone()).unwrap_or_default()
}
entries! {
    h_long_key0 => map(0, 0);
    h_long_key1 => map(1, 0);
    h_long_key2 => map(2, 0);
    h_long_key3 => map(3, 0);
    h_long_key4 => map(4, 0);
    h_long_val => map(2, 1);
    h_long_huge => map(2, 2);
    h_long_range => range(false);
    h_long_range2 => range(true);
    h_long_sub => sub(&[2, 16, 33, 64, 127, 128, 256, 1000], &[0, 1, 3]);
    h_long_sub_key => sub(&[1], &[0, 2, 16, 33, 64, 126, 127, 128, 256, 1000]);
    h_snap_poll => snap(60, 12);
    h_snap_poll1 => snap(60, 1);
    h_many_get => many(300, 3, 0);
    h_many_put => many(300, 3, 1);
    h_many_del => many(300, 3, 2);
}
