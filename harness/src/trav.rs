//! Traversal of an arbitrary stored tree.
use crate::{
    entries,
    lazy::{Item, LazyTree, Shape},
    robust::{run, K},
    rt::block_on,
    sym::{self, check, cover},
    trees::open,
};
use futures_lite::StreamExt;
use hyperbee::{
    traverse::{LimitValue, TraverseConfig, TraverseConfigBuilder},
    Hyperbee, HyperbeeError,
};
use std::sync::Arc;

pub fn neg() -> LimitValue {
    TraverseConfig::default().min_value
}
pub fn pos() -> LimitValue {
    TraverseConfig::default().max_value
}
/// One end of the range, as the checker understands it.
#[derive(Clone)]
pub enum End {
    Neg,
    Pos,
    At(Vec<u8>, bool),
}
impl End {
    pub fn limit(&self) -> (LimitValue, bool) {
        match self {
            End::Neg => (neg(), true),
            End::Pos => (pos(), true),
            End::At(k, i) => (LimitValue::Finite(k.clone()), *i),
        }
    }
    /// k is on the upper side of this end (this end as a minimum)
    pub fn above(&self, k: &[u8]) -> bool {
        match self {
            End::Neg => true,
            End::Pos => false,
            End::At(m, true) => sym::cmp(m, k) <= 0,
            End::At(m, false) => sym::cmp(m, k) < 0,
        }
    }
    pub fn below(&self, k: &[u8]) -> bool {
        match self {
            End::Neg => false,
            End::Pos => true,
            End::At(m, true) => sym::cmp(k, m) <= 0,
            End::At(m, false) => sym::cmp(k, m) < 0,
        }
    }
}
pub fn end(lower: bool, all: bool, key: &dyn Fn() -> Vec<u8>) -> End {
    match sym::choice(if all { 4 } else { 3 }) {
        0 => {
            if lower {
                End::Neg
            } else {
                End::Pos
            }
        }
        1 => End::At(key(), true),
        2 => End::At(key(), false),
        _ => {
            if lower {
                End::Pos
            } else {
                End::Neg
            }
        }
    }
}
pub fn conf(lo: &End, hi: &End, reversed: bool) -> TraverseConfig {
    let ((min_value, min_inclusive), (max_value, max_inclusive)) = (lo.limit(), hi.limit());
    TraverseConfig { min_value, min_inclusive, max_value, max_inclusive, reversed }
}
pub fn collect(hb: &Hyperbee, c: TraverseConfig) -> Result<Vec<hyperbee::KeyValueData>, HyperbeeError> {
    let mut s = Box::pin(block_on(hb.traverse(c))?);
    let mut out = vec![];
    while let Some(x) = block_on(s.next()) {
        out.push(x?);
        if out.len() > 2000 {
            sym::fail("traversal does not end");
        }
    }
    Ok(out)
}
fn key2() -> Vec<u8> {
    vec![sym::u8()]
}
fn range(sh: Shape, all: bool) {
    ranged(sh, end(true, all, &key2), end(false, all, &key2))
}
/// At most one finite bound.
fn one_bound(sh: Shape) {
    match sym::flip() {
        true => ranged(sh, end(true, false, &key2), End::Pos),
        false => ranged(sh, End::Neg, end(false, false, &key2)),
    }
}
fn ranged(sh: Shape, lo: End, hi: End) {
    let m = Arc::new(LazyTree::new(sh));
    let hb = open(&m);
    let rev = sym::flip();
    let got = sym::must(collect(&hb, conf(&lo, &hi, rev)), "traverse fails on a valid tree");
    sym::observe(got.len() as u64);
    let s = m.st();
    check(s.appended.is_empty(), "traverse appends to the log");
    let mut same = true;
    for kv in &got {
        sym::observe(kv.seq);
        same &= sym::eq(&s.key(kv.seq), &kv.key);
        let v = s.value(kv.seq);
        same &= v.is_some() == kv.value.is_some();
        if let (Some(a), Some(b)) = (&v, &kv.value) {
            same &= sym::eq(a, b);
        }
    }
    check(same, "traverse yields another key or value than the stored one");
    let mut seqs: Vec<u64> = got.iter().map(|x| x.seq).collect();
    if rev {
        seqs.reverse();
    }
    // in-order position of what was yielded must be increasing, and membership exact
    let ord = s.order.clone();
    let mut at = 0;
    let mut good = true;
    for (i, x) in ord.iter().enumerate() {
        match x {
            Item::K(k) => {
                let key = s.key(*k);
                let want = lo.above(&key) & hi.below(&key);
                if at < seqs.len() && seqs[at] == *k {
                    at += 1;
                    good &= want;
                } else {
                    good &= !want;
                }
            }
            Item::S(_) => {
                // nobody looked below: it must lie outside the bounds altogether
                let right = match ord.get(i + 1) {
                    Some(Item::K(k)) => {
                        let key = s.key(*k);
                        match &lo {
                            End::Neg => false,
                            End::Pos => true,
                            End::At(m, _) => sym::cmp(&key, m) <= 0,
                        }
                    }
                    _ => matches!(lo, End::Pos),
                };
                let left = match i.checked_sub(1).map(|j| ord[j]) {
                    Some(Item::K(k)) => {
                        let key = s.key(k);
                        match &hi {
                            End::Neg => true,
                            End::Pos => false,
                            End::At(m, _) => sym::cmp(m, &key) <= 0,
                        }
                    }
                    _ => matches!(hi, End::Neg),
                };
                let crossed = match (&lo, &hi) {
                    (End::At(a, _), End::At(b, _)) => sym::cmp(b, a) < 0,
                    (End::Pos, _) | (_, End::Neg) => true,
                    _ => false,
                };
                good &= right | left | crossed;
            }
        }
    }
    check(good, "traverse does not yield exactly the keys inside its bounds, in order");
    check(at == seqs.len(), "traverse yields an entry that is not in the tree, twice, or out of order");
    cover(if got.is_empty() { 0 } else { 1 });
    cover(2 + rev as u32);
}
/// A traversal started before a mutation yields the tree as it was.
fn snapshot(sh: Shape, kind: K) {
    let m = Arc::new(LazyTree::new(sh));
    let hb = open(&m);
    let rev = sym::flip();
    let c = TraverseConfig { reversed: rev, ..Default::default() };
    let mut st = Box::pin(sym::must(block_on(hb.traverse(c)), "traverse fails on a valid tree"));
    let total = 60;
    // mutate after this many yielded entries
    let cut = sym::choice(total + 1);
    let mut got = vec![];
    let mut done = false;
    for _ in 0..cut {
        match block_on(st.next()) {
            Some(x) => got.push(sym::must(x, "traverse yields an error on a valid tree")),
            None => {
                done = true;
                break;
            }
        }
    }
    if done {
        // the same as an earlier cut
        sym::assume(false);
    }
    let q = key2();
    let r = sym::must(block_on(run(&hb, kind, &q)), "mutation fails on a valid tree");
    cover(if r.0.is_some() { 0 } else { 1 });
    // and a second one, on top of the first
    sym::must(block_on(hb.put(b"", None)), "mutation fails on a valid tree");
    loop {
        match block_on(st.next()) {
            Some(x) => got.push(sym::must(x, "a traversal fails because of a concurrent mutation")),
            None => break,
        }
    }
    let mut want: Vec<u64> = m.st().order.iter().map(|x| if let Item::K(s) = x { *s } else { sym::fail("a traversal skips part of its snapshot") }).collect();
    if rev {
        want.reverse();
    }
    check(want.len() == got.len(), "a traversal in progress is affected by a mutation");
    for (w, g) in want.iter().zip(&got) {
        check(*w == g.seq, "a traversal in progress is affected by a mutation");
        check(sym::eq(&m.st().key(*w), &g.key), "a traversal in progress yields a wrong key");
    }
}

/// The infinite bounds compare as they should with every finite key.
fn infinite(lens: &[usize], max: usize) {
    let n = lens[sym::choice(lens.len() as u32) as usize];
    let k: Vec<u8> = (0..n).map(|_| sym::u8()).collect();
    let k = &k[..];
    // the bounds themselves, as a configuration holds them
    let (LimitValue::Infinite(p), LimitValue::Infinite(n)) = (pos(), neg()) else { sym::fail("a default limit is finite") };
    let (p, n) = (if sym::flip() { p.clone() } else { p }, if sym::flip() { n.clone() } else { n });
    use std::cmp::Ordering::*;
    check(p.partial_cmp(k) == Some(Greater), "positive infinity is not greater than a key");
    check(n.partial_cmp(k) == Some(Less), "negative infinity is not less than a key");
    check(k.partial_cmp(&p) == Some(Less), "a key is not less than positive infinity");
    check(k.partial_cmp(&n) == Some(Greater), "a key is not greater than negative infinity");
    check(p > *k && p >= *k && !(p < *k) && !(p <= *k), "comparison operators disagree for positive infinity");
    check(n < *k && n <= *k && !(n > *k) && !(n >= *k), "comparison operators disagree for negative infinity");
    check(*k < p && *k <= p && !(*k > p) && !(*k >= p), "comparison operators disagree for a key and positive infinity");
    check(*k > n && *k >= n && !(*k < n) && !(*k <= n), "comparison operators disagree for a key and negative infinity");
    check(p != *k && n != *k && *k != p && *k != n, "an infinite bound equals a key");
    check(!(p == *k) && !(n == *k) && !(*k == p) && !(*k == n), "an infinite bound equals a key");
    // as range limits
    let (lp, ln) = (pos(), neg());
    check(lp.partial_cmp(k) == Some(Greater) && lp > *k && lp != *k, "the default upper limit is not above every key");
    check(ln.partial_cmp(k) == Some(Less) && ln < *k && ln != *k, "the default lower limit is not below every key");
    let m: Vec<u8> = (0..sym::choice(max as u32 + 1)).map(|_| sym::u8()).collect();
    let f = LimitValue::Finite(m.clone());
    check(f.partial_cmp(k) == Some(m[..].cmp(k)), "a finite limit does not compare like its key");
    check((f == *k) == (m[..] == *k), "a finite limit does not equal its key");
    cover(0);
}
/// The same for keys of every length up to `max`: the length is symbolic, and so are the first bytes.
fn infinite_any_len(max: u32) {
    let mut buf = vec![0xa5u8; max as usize];
    for b in &mut buf[..16] {
        *b = sym::u8();
    }
    let n = sym::u32();
    sym::assume(n <= max);
    let k = &buf[..n as usize];
    let (LimitValue::Infinite(p), LimitValue::Infinite(n)) = (pos(), neg()) else { sym::fail("a default limit is finite") };
    use std::cmp::Ordering::*;
    check(p.partial_cmp(k) == Some(Greater), "positive infinity is not greater than a key");
    check(n.partial_cmp(k) == Some(Less), "negative infinity is not less than a key");
    check(k.partial_cmp(&p) == Some(Less), "a key is not less than positive infinity");
    check(k.partial_cmp(&n) == Some(Greater), "a key is not greater than negative infinity");
    check(!(p == *k) && !(n == *k) && !(*k == p) && !(*k == n), "an infinite bound equals a key");
    let (lp, ln) = (pos(), neg());
    check(lp.partial_cmp(k) == Some(Greater) && !(lp == *k), "the default upper limit is not above every key");
    check(ln.partial_cmp(k) == Some(Less) && !(ln == *k), "the default lower limit is not below every key");
    cover(0);
}
/// Which ranges the configuration builder accepts, and what it builds.
fn builder(max: usize) {
    let key = || -> Vec<u8> { (0..sym::choice(max as u32 + 1)).map(|_| sym::u8()).collect() };
    #[derive(Clone)]
    enum B {
        Unset,
        E(End),
    }
    let pick = || match sym::choice(4) {
        0 => B::Unset,
        1 => B::E(End::Neg),
        2 => B::E(End::Pos),
        _ => B::E(End::At(key(), true)),
    };
    let (lo, hi) = (pick(), pick());
    let inc = || match sym::choice(3) {
        0 => None,
        1 => Some(true),
        _ => Some(false),
    };
    let (li, hi_i) = (inc(), inc());
    let rev = inc();
    let mut b = TraverseConfigBuilder::default();
    if let B::E(e) = &lo {
        b.min_value(e.limit().0);
    }
    if let B::E(e) = &hi {
        b.max_value(e.limit().0);
    }
    if let Some(x) = li {
        b.min_inclusive(x);
    }
    if let Some(x) = hi_i {
        b.max_inclusive(x);
    }
    if let Some(x) = rev {
        b.reversed(x);
    }
    let r = b.build();
    let (lo_unset, hi_unset) = (matches!(lo, B::Unset), matches!(hi, B::Unset));
    let l = if let B::E(e) = &lo { e.clone() } else { End::Neg };
    let h = if let B::E(e) = &hi { e.clone() } else { End::Pos };
    // is the range empty whatever the tree holds?
    let empty = match (&l, &h) {
        (End::Pos, _) | (_, End::Neg) => true,
        (End::At(a, _), End::At(b, _)) => {
            let c = sym::cmp(a, b);
            (c > 0) | ((c == 0) & ((li == Some(false)) | (hi_i == Some(false))))
        }
        _ => false,
    };
    match r {
        Ok(c) => {
            cover(0);
            // with one limit left to its default nothing is rejected
            if !lo_unset && !hi_unset {
                check(!empty, "a range that can never hold a key is accepted");
            }
            check(c.min_inclusive == li.unwrap_or(true) && c.max_inclusive == hi_i.unwrap_or(true), "the configuration does not keep its inclusiveness");
            check(c.reversed == rev.unwrap_or(false), "the configuration does not keep its direction");
            let same = |v: &LimitValue, e: &End| {
                let probe: Vec<u8> = vec![sym::u8()];
                match (v, e) {
                    (LimitValue::Finite(x), End::At(k, _)) => sym::eq(x, k),
                    (v, End::Neg) => *v < probe[..],
                    (v, End::Pos) => *v > probe[..],
                    _ => false,
                }
            };
            check(same(&c.min_value, &l) && same(&c.max_value, &h), "the configuration does not keep its limits");
        }
        Err(_) => {
            cover(1);
            check(empty, "a range that can hold keys is rejected");
        }
    }
}

const T1: Shape = Shape { height: 1, root: &[0, 1, 2, 3, 5, 8], inner: &[4], leaf: &[4], base: 30, len: 1000, kb: 1 };
const T2: Shape = Shape { height: 2, root: &[1, 2], inner: &[4], leaf: &[4], base: 30, len: 1000, kb: 1 };
const T2W: Shape = Shape { height: 2, root: &[1, 2, 3], inner: &[4], leaf: &[4, 5], base: 30, len: 1000, kb: 1 };
const T3: Shape = Shape { height: 3, root: &[1], inner: &[4], leaf: &[4], base: 30, len: 1000, kb: 1 };
entries! {
    h_range1 => range(T1, true);
    h_range2 => range(T2, false);
    h_range3b => one_bound(T3);
    h_range2w => range(T2W, true);
    h_range3 => range(T3, false);
    h_snap1_put => snapshot(T1, K::Put);
    h_snap1_del => snapshot(T1, K::Del);
    h_snap2_put => snapshot(T2, K::Put);
    h_snap2_del => snapshot(T2, K::Del);
    h_snap2w => snapshot(T2W, if sym::flip() { K::Put } else { K::Del });
    h_infinite => infinite(&[0, 1, 2, 3, 4, 5, 8, 9, 16, 32, 33, 64, 255, 256, 257], 3);
    h_infinite_deep => infinite(&[6, 7, 10, 12, 13, 15, 17, 20, 24, 31, 63, 65, 100, 127, 128, 129, 511, 512, 1024], 6);
    h_infinite_len => infinite_any_len(1 << 16);
    h_builder => builder(2);
}
