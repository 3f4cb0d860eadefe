//! Logs whose newest blocks are not what a tree holds, and logs encoded in unusual but valid ways.
use crate::{
    codec::{self, Block, Level},
    entries,
    hist::Log,
    rt::block_on,
    sym::{self, check, cover},
    trees::open_model,
};
use futures_lite::StreamExt;
use hyperbee::{traverse::TraverseConfig, Hyperbee};
use std::sync::Arc;

fn entry(key: &[u8], levels: Vec<Level>) -> Vec<u8> {
    codec::encode(&Block { levels, key: key.to_vec(), value: Some(b"v".to_vec()) })
}
fn lv(keys: &[u64], children: &[(u64, u64)]) -> Level {
    Level { keys: keys.to_vec(), children: children.to_vec() }
}
/// Whatever the operation reports, it reports: no panic, no hang; a failed mutation writes nothing.
fn attempt(log: &Arc<Log>, op: u32) {
    let hb = open_model(log.clone());
    let q = vec![sym::u8()];
    let n = log.blocks().len();
    let ok = match op {
        0 => block_on(hb.get(&q)).is_ok(),
        1 => block_on(hb.put(&q, Some(b"1"))).is_ok(),
        2 => block_on(hb.del(&q)).is_ok(),
        3 => {
            let c = TraverseConfig { reversed: sym::flip(), ..Default::default() };
            match block_on(hb.traverse(c)) {
                Ok(s) => {
                    let mut s = Box::pin(s);
                    let (mut good, mut i) = (true, 0);
                    while let Some(x) = block_on(s.next()) {
                        good &= x.is_ok();
                        i += 1;
                        if i > 1000 {
                            sym::fail("traversal of a malformed log does not end");
                        }
                    }
                    good
                }
                Err(_) => false,
            }
        }
        4 => block_on(hb.height()).is_ok(),
        _ => block_on(hb.print()).is_ok(),
    };
    if !ok {
        check(log.blocks().len() == n, "an operation that fails on a malformed log writes to it");
    }
    cover(op * 2 + ok as u32);
}
/// The newest block is any sequence of bytes.
fn raw(max: u32, ops: u32) {
    let n = sym::choice(max + 1);
    let last: Vec<u8> = (0..n).map(|_| sym::u8()).collect();
    let log = Log::with(vec![codec::header(None), entry(b"a", vec![lv(&[1], &[])]), last]);
    attempt(&log, sym::choice(ops));
}
/// The newest block has any bytes where its nodes are stored.
fn raw_index(max: u32, ops: u32) {
    let n = sym::choice(max + 1);
    let idx: Vec<u8> = (0..n).map(|_| sym::u8()).collect();
    let mut last = vec![];
    codec::put_bytes(&mut last, 1, &idx);
    codec::put_bytes(&mut last, 2, b"k");
    let log = Log::with(vec![codec::header(None), entry(b"a", vec![lv(&[1], &[])]), last]);
    attempt(&log, sym::choice(ops));
}
/// Block 5 is the newest: its nodes have arbitrary numbers of keys and children, which refer to
/// anything that exists, also in a circle, or not.
fn structure(ops: u32, nk: u32, deep: bool) {
    const SELF: u64 = 5;
    let key = || [1u64, 2, 0, 99][sym::choice(4) as usize];
    // node 0 of block 3 is a leaf, of block 4 has no keys; of block 2 an internal node
    let child = |me: u64| -> (u64, u64) {
        match sym::choice(if deep { 11 } else { 9 }) {
            0 => (3, 0),
            1 => (4, 0),
            2 => (3, 9),
            3 => (0, 0),
            4 => (99, 0),
            5 => (SELF, me + 1),
            // the block a mutation will append, and circles
            6 => (SELF + 1, me),
            7 => (SELF + 1, 9),
            8 => (SELF, 0),
            9 => (2, 0),
            _ => (SELF, u64::MAX),
        }
    };
    let mut levels = vec![];
    for me in 0..1 + sym::choice(2) as u64 {
        let n = sym::choice(nk + 1);
        let keys: Vec<u64> = (0..n).map(|i| if i == 0 && me == 0 { key() } else { 2 }).collect();
        let c = if deep { [0, n, n + 1, 1][sym::choice(4) as usize] } else { [0, n + 1, 1][sym::choice(3) as usize] };
        let bad = sym::choice(c.max(1));
        let children: Vec<(u64, u64)> = (0..c).map(|i| if i == bad { child(me) } else { (3, 0) }).collect();
        levels.push(Level { keys, children });
    }
    let mut last = entry(b"k", levels);
    if sym::choice(4) == 0 {
        // half a reference
        let mut l = vec![];
        codec::put_bytes(&mut l, 1, &[1]);
        codec::put_bytes(&mut l, 2, &[3, 0, 3]);
        let mut idx = vec![];
        codec::put_bytes(&mut idx, 1, &l);
        last.clear();
        codec::put_bytes(&mut last, 1, &idx);
        codec::put_bytes(&mut last, 2, b"k");
    }
    let log = Log::with(vec![
        codec::header(None),
        entry(&[100], vec![lv(&[1], &[])]),
        entry(&[200], vec![lv(&[2, 1], &[(3, 0), (3, 0), (3, 0)])]),
        entry(&[50], vec![lv(&[3, 1, 2], &[])]),
        entry(&[60], vec![lv(&[], &[])]),
        last,
    ]);
    attempt(&log, sym::choice(ops));
}
/// Deleting where siblings do not match: leaves next to internal nodes, too few or too many keys.
fn uneven() {
    // key counts of three children, and which of them are leaves
    let mut levels = vec![Level::default()];
    let ks: Vec<u64> = (0..3).map(|_| [1u64, 4, 5, 9][sym::choice(4) as usize]).collect();
    let mut blocks = vec![codec::header(None)];
    for i in 0..30u8 {
        blocks.push(entry(&[i * 8], vec![lv(&[1], &[])]));
    }
    let me = blocks.len() as u64 + 1;
    // a leaf further down
    blocks.push(entry(b"\xf8", vec![lv(&[1, 2, 3, 4], &[])]));
    let mut at = 1u64;
    let mut root = lv(&[], &[]);
    for (i, n) in ks.iter().enumerate() {
        let keys: Vec<u64> = (at..at + n).collect();
        at += n;
        let children = if sym::flip() { vec![] } else { vec![(me - 1, 0); *n as usize + 1] };
        levels.push(Level { keys, children });
        root.children.push((me, i as u64 + 1));
        if i < 2 {
            root.keys.push(at);
            at += 1;
        }
    }
    levels[0] = root;
    blocks.push(entry(b"\xff", levels));
    let log = Log::with(blocks);
    attempt(&log, [1, 2, 3][sym::choice(3) as usize]);
}

// ---- unusual but valid encodings ----
fn unknown(out: &mut Vec<u8>, what: u32) {
    match what {
        1 => codec::put_bytes(out, 9, b"later"),
        2 => {
            codec::put_varint(out, 17 << 3);
            codec::put_varint(out, u64::MAX);
        }
        3 => {
            codec::put_varint(out, 8 << 3 | 5);
            out.extend([1, 2, 3, 4]);
        }
        4 => {
            codec::put_varint(out, 7 << 3 | 1);
            out.extend([1, 2, 3, 4, 5, 6, 7, 8]);
        }
        _ => (),
    }
}
fn ints(out: &mut Vec<u8>, field: u64, v: &[u64], how: u32) {
    match how {
        // one by one
        1 => {
            for x in v {
                codec::put_varint(out, field << 3);
                codec::put_varint(out, *x);
            }
        }
        // in two packed runs
        2 if v.len() > 1 => {
            for part in [&v[..1], &v[1..]] {
                let mut b = vec![];
                part.iter().for_each(|x| codec::put_varint(&mut b, *x));
                codec::put_bytes(out, field, &b);
            }
        }
        // with a longer form of the same numbers
        3 => {
            let mut b = vec![];
            for x in v {
                b.extend([*x as u8 | 0x80, 0x80, 0]);
            }
            codec::put_bytes(out, field, &b);
        }
        _ => {
            if !v.is_empty() {
                let mut b = vec![];
                v.iter().for_each(|x| codec::put_varint(&mut b, *x));
                codec::put_bytes(out, field, &b);
            }
        }
    }
}
fn odd_block(levels: &[Level], key: &[u8], value: Option<&[u8]>) -> Vec<u8> {
    let (how, extra) = (sym::choice(4), sym::choice(5));
    let mut idx = vec![];
    for l in levels {
        let c: Vec<u64> = l.children.iter().flat_map(|c| [c.0, c.1]).collect();
        let mut b = vec![];
        unknown(&mut b, extra);
        if how % 2 == 0 {
            ints(&mut b, 1, &l.keys, how);
            ints(&mut b, 2, &c, how);
        } else {
            ints(&mut b, 2, &c, how);
            ints(&mut b, 1, &l.keys, how);
        }
        codec::put_bytes(&mut idx, 1, &b);
    }
    let mut out = vec![];
    let order = sym::choice(3);
    for i in 0..3 {
        match (i + order) % 3 {
            0 => codec::put_bytes(&mut out, 1, &idx),
            1 => codec::put_bytes(&mut out, 2, key),
            _ => {
                unknown(&mut out, extra);
                if let Some(v) = value {
                    codec::put_bytes(&mut out, 3, v);
                }
            }
        }
    }
    out
}
fn odd_header() -> Vec<u8> {
    match sym::choice(4) {
        0 => codec::header(None),
        1 => codec::header(Some((Some(b"feed"), Some(b"")))),
        2 => {
            let mut h = codec::header(None);
            unknown(&mut h, 1);
            h
        }
        // nobody reads it
        _ => (0..2).map(|_| sym::u8()).collect(),
    }
}
/// A log another writer made, in any valid encoding, reads the same and can be continued.
fn foreign(two: bool, op: u32) {
    let v = Some(&b"v"[..]);
    let k = [vec![50u8], vec![100], vec![150]];
    let canon: Vec<(Vec<Level>, &[u8], Option<&[u8]>)> = if two {
        vec![
            (vec![lv(&[1], &[])], &k[0], v),
            (vec![lv(&[1, 2], &[])], &k[1], None),
            (vec![lv(&[2], &[(3, 1), (3, 2)]), lv(&[1], &[]), lv(&[3], &[])], &k[2], Some(b"")),
        ]
    } else {
        vec![(vec![lv(&[1], &[])], &k[0], v), (vec![lv(&[1, 2], &[])], &k[1], None)]
    };
    let plain = Log::with(
        std::iter::once(codec::header(None))
            .chain(canon.iter().map(|(l, k, v)| codec::encode(&Block { levels: l.clone(), key: k.to_vec(), value: v.map(|v| v.to_vec()) })))
            .collect(),
    );
    // one block, or the header, is unusual
    let which = sym::choice(canon.len() as u32 + 1) as usize;
    let odd = plain.copy();
    odd.blocks()[which] = if which == 0 {
        odd_header()
    } else {
        let (l, k, v) = &canon[which - 1];
        odd_block(l, k, *v)
    };
    let (a, b) = (open_model(odd.clone()), open_model(plain.clone()));
    let q = vec![sym::u8()];
    match op {
        0 => {
            let x = sym::must(block_on(a.get(&q)), "get fails on a valid log of another writer");
            let y = sym::must(block_on(b.get(&q)), "get fails");
            check(x == y, "get gives something else on a valid log of another writer");
            check(listing(&a) == listing(&b), "traverse gives something else on a valid log of another writer");
            check(block_on(a.height()).ok() == block_on(b.height()).ok(), "the height differs on a valid log of another writer");
        }
        1 => {
            let x = sym::must(block_on(a.put(&q, Some(b"new"))), "put fails on a valid log of another writer");
            let y = sym::must(block_on(b.put(&q, Some(b"new"))), "put fails");
            check(x == y, "put reports something else on a valid log of another writer");
        }
        _ => {
            let x = sym::must(block_on(a.del(&q)), "del fails on a valid log of another writer");
            let y = sym::must(block_on(b.del(&q)), "del fails");
            check(x == y, "del reports something else on a valid log of another writer");
        }
    }
    check(odd.blocks().len() == plain.blocks().len(), "another number of blocks is appended to a valid log of another writer");
    if odd.blocks().len() > canon.len() + 1 {
        check(sym::eq(odd.blocks().last().unwrap(), plain.blocks().last().unwrap()), "another block is appended to a valid log of another writer");
        cover(1);
    } else {
        cover(0);
    }
}
fn listing(hb: &Hyperbee) -> Vec<(u64, Vec<u8>, Option<Vec<u8>>)> {
    let mut s = Box::pin(sym::must(block_on(hb.traverse(Default::default())), "traverse fails"));
    let mut out = vec![];
    while let Some(x) = block_on(s.next()) {
        let x = sym::must(x, "traverse yields an error");
        out.push((x.seq, x.key, x.value));
    }
    out
}
entries! {
    h_raw4 => raw(4, 6);
    h_raw6 => raw(6, 2);
    h_rawidx4 => raw_index(4, 6);
    h_rawidx6 => raw_index(6, 2);
    h_malformed => structure(6, 1, false);
    h_malformed2 => structure(6, 2, true);
    h_uneven => uneven();
    h_foreign_get => foreign(true, 0);
    h_foreign_put => foreign(true, 1);
    h_foreign_del => foreign(true, 2);
    h_foreign_flat => foreign(false, sym::choice(3));
}
