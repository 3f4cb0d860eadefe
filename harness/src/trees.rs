//! put/get/del on an arbitrary stored tree.
use crate::{
    entries,
    lazy::{Item, LazyTree, Shape, St},
    rt::block_on,
    sym::{self, check, cover},
};
use hyperbee::Hyperbee;
use hypercore::{CoreModel, Hypercore};
use std::sync::Arc;

pub const R: &[u32] = &[1, 2, 3, 4, 5, 6, 7, 8];
pub const I: &[u32] = &[4, 5, 6, 7, 8];
pub const R0: Shape = Shape { height: 1, root: &[0, 1, 2, 3, 4, 5, 6, 7, 8], inner: I, leaf: I, base: 30, len: 1000, kb: 2 };
pub fn shape(height: u32) -> Shape {
    Shape { height, root: R, inner: I, leaf: I, base: 30, len: 1000, kb: 2 }
}
pub fn shape_edge(height: u32) -> Shape {
    Shape { height, root: &[1, 8], inner: &[4, 8], leaf: &[4, 5, 8], base: 30, len: 1000, kb: 2 }
}
pub fn open_model(m: Arc<dyn CoreModel>) -> Hyperbee {
    sym::must(Hyperbee::from_hypercore(Hypercore::from_model(m)), "opening a hypercore fails")
}
pub fn open(m: &Arc<LazyTree>) -> Hyperbee {
    open_model(m.clone())
}
fn q2() -> Vec<u8> {
    sym::u16().to_be_bytes().to_vec()
}

/// Byte-for-byte comparison with what JavaScript Hyperbee would append.
pub fn js(sh: Shape, del: bool) {
    let m = Arc::new(LazyTree::new(sh));
    let hb = open(&m);
    let q = q2();
    if del {
        let r = sym::must(block_on(hb.del(&q)), "del fails on a valid tree");
        let want = crate::jsref::del(m.st(), &q);
        check(r.is_some() == want.is_some(), "del finds a key exactly when JavaScript Hyperbee does");
        let Some(want) = want else { return };
        cover(0);
        check(m.st().appended.len() == 1, "del appends exactly one block");
        check(sym::eq(&m.st().appended[0], &want), "del writes other bytes than JavaScript Hyperbee");
    } else {
        let v: Option<&[u8]> = match sym::choice(3) {
            0 => None,
            1 => Some(b""),
            _ => Some(b"v"),
        };
        sym::must(block_on(hb.put(&q, v)), "put fails on a valid tree");
        let want = crate::jsref::put(m.st(), &q, v);
        cover(0);
        check(m.st().appended.len() == 1, "put appends exactly one block");
        check(sym::eq(&m.st().appended[0], &want), "put writes other bytes than JavaScript Hyperbee");
    }
}
fn put(sh: Shape, shape_only: bool) {
    let m = Arc::new(LazyTree::new(sh));
    let hb = open(&m);
    let q = q2();
    let r = block_on(hb.put(&q, Some(b"new")));
    let s = m.st();
    let (old, seq) = sym::must(r, "put fails on a valid tree");
    check(s.appended.len() == 1, "put appends exactly one block");
    sym::observe_bytes(&s.appended[0]);
    if shape_only {
        let h = s.check_shape(sh.len);
        check(h == sh.height || (h == sh.height + 1), "put changes the height by more than one");
        cover(if h == sh.height { 0 } else { 1 });
        return;
    }
    check(seq == sh.len, "put reports the seq of the block it appended");
    let b = match s.block(sh.len) {
        Some(b) => b,
        None => sym::fail("put: written block does not decode"),
    };
    check(sym::eq(&b.key, &q), "put stores another key than the one given");
    check(b.value.as_deref() == Some(b"new"), "put stores another value than the one given");
    let after = s.flatten(sh.len);
    check_put(s, &q, old, &after);
}
fn check_put(s: &mut St, q: &[u8], old: Option<u64>, after: &[Item]) {
    let n = s.sh.len;
    let before = s.order.clone();
    let Some(i) = after.iter().position(|x| *x == Item::K(n)) else { sym::fail("put: the new entry is not in the tree") };
    if let Some(o) = old {
        cover(2);
        check(after.len() == before.len(), "put (replacing) changes the number of entries");
        check(before[i] == Item::K(o), "put reports another entry as replaced than the one it replaced");
        check(sym::eq(&s.key(o), q), "put replaced an entry with a different key");
        for (j, x) in after.iter().enumerate() {
            check(j == i || *x == before[j], "put (replacing) disturbs another entry");
        }
    } else {
        cover(3);
        check(after.len() == before.len() + 1, "put (inserting) does not add exactly one entry");
        for (j, x) in after.iter().enumerate() {
            check(j == i || *x == before[if j < i { j } else { j - 1 }], "put (inserting) disturbs another entry");
        }
        if i > 0 {
            let Item::K(l) = after[i - 1] else { sym::fail("put inserted next to a subtree it did not search") };
            check(sym::cmp(&s.key(l), q) < 0, "put inserted the key out of order");
        }
        if i + 1 < after.len() {
            let Item::K(r) = after[i + 1] else { sym::fail("put inserted next to a subtree it did not search") };
            check(sym::cmp(q, &s.key(r)) < 0, "put inserted the key out of order");
        }
    }
}
fn get(sh: Shape) {
    let m = Arc::new(LazyTree::new(sh));
    let hb = open(&m);
    let q = q2();
    let r = sym::must(block_on(hb.get(&q)), "get fails on a valid tree");
    let s = m.st();
    check(s.appended.is_empty(), "get appends to the log");
    match r {
        Some((seq, v)) => {
            cover(4);
            sym::observe(seq);
            check(sym::eq(&s.key(seq), &q), "get returns another key's entry");
            let val = s.value(seq);
            check(v.is_some() == val.is_some(), "get confuses an absent value with an empty one");
            if let (Some(a), Some(b)) = (v, val) {
                check(sym::eq(&a, &b), "get returns another value than the stored one");
            }
        }
        None => {
            cover(5);
            check(s.absent(&q), "get finds nothing although the key is in the tree");
        }
    }
}
fn del(sh: Shape, shape_only: bool) {
    let m = Arc::new(LazyTree::new(sh));
    let hb = open(&m);
    let q = q2();
    let r = sym::must(block_on(hb.del(&q)), "del fails on a valid tree");
    let s = m.st();
    match r {
        None => {
            cover(6);
            check(s.appended.is_empty(), "del of an absent key appends to the log");
            check(s.absent(&q), "del finds nothing although the key is in the tree");
        }
        Some(seq) => {
            cover(7);
            check(s.appended.len() == 1, "del appends exactly one block");
            sym::observe_bytes(&s.appended[0]);
            if shape_only {
                let h = s.check_shape(sh.len);
                check(h == sh.height || (h + 1 == sh.height), "del changes the height by more than one");
                cover(if h == sh.height { 0 } else { 1 });
                return;
            }
            check(sym::eq(&s.key(seq), &q), "del reports the entry of another key");
            let after = s.flatten(sh.len);
            let before = s.order.clone();
            let Some(i) = before.iter().position(|x| *x == Item::K(seq)) else { sym::fail("del reports an entry that was not in the tree") };
            check(after.len() + 1 == before.len(), "del does not remove exactly one entry");
            for (j, x) in after.iter().enumerate() {
                check(*x == before[if j < i { j } else { j + 1 }], "del disturbs another entry");
            }
        }
    }
}

/// Taller trees, in which a change is passed on at every level.
fn full(height: u32, root: &'static [u32]) -> Shape {
    Shape { root, inner: &[8], leaf: &[8], ..shape(height) }
}
fn bare(height: u32, n: &'static [u32]) -> Shape {
    Shape { root: &[1], inner: n, leaf: n, ..shape(height) }
}

entries! {
    h_get1 => get(R0);
    h_get2 => get(shape(2));
    h_get3 => get(shape_edge(3));
    h_put1 => put(R0, false);
    h_put2 => put(shape(2), false);
    h_put3 => put(shape_edge(3), false);
    h_del1 => del(R0, false);
    h_del2 => del(shape(2), false);
    h_del3 => del(shape_edge(3), false);
    h_js_put1 => js(R0, false);
    h_js_put2 => js(shape(2), false);
    h_js_put3 => js(shape_edge(3), false);
    h_js_del1 => js(R0, true);
    h_js_del2 => js(shape(2), true);
    h_js_del3 => js(shape_edge(3), true);
    h_put_shape1 => put(R0, true);
    h_put_shape3 => put(shape_edge(3), true);
    h_del_shape1 => del(R0, true);
    h_del_shape3 => del(shape_edge(3), true);
    h_put_shape2 => put(shape(2), true);
    h_del_shape2 => del(shape(2), true);
    h_get5 => get(bare(5, &[4]));
    h_put4 => put(full(4, &[1]), false);
    h_put4w => put(full(4, &[8]), false);
    h_put5 => put(bare(5, &[4]), false);
    h_del4 => del(bare(4, &[4, 5]), false);
    h_del5 => del(bare(5, &[4]), false);
    h_put_shape4 => put(full(4, &[1]), true);
    h_put_shape4w => put(full(4, &[8]), true);
    h_del_shape4 => del(bare(4, &[4, 5]), true);
    h_del_shape5 => del(bare(5, &[4]), true);
    h_js_put4 => js(full(4, &[1]), false);
    h_js_put4w => js(full(4, &[8]), false);
    h_js_del4 => js(bare(4, &[4, 5]), true);
    h_js_del5 => js(bare(5, &[4]), true);
}
