//! Operations read only the part of the tree they need: what a sparse log must hold.
use crate::{
    entries,
    lazy::{LazyTree, Shape, St},
    robust::{run, K},
    rt::block_on,
    sym::{self, check, cover},
    trav::{conf, end, End},
    trees::{open, shape, shape_edge},
};
use futures_lite::StreamExt;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq)]
enum Role {
    /// on the way to the key
    Path,
    /// on the way to the last, or first, entry below
    Max,
    Min,
    /// next to a node that may have become too small
    Side,
}
const EXTRA: &str = "an operation reads a node that is neither on the way to its key nor next to that";
/// Of the nodes below `seq` only those allowed have been read.
fn only(s: &mut St, seq: u64, role: Role, q: &[u8], del: bool) {
    let Some(l) = s.level(seq).cloned() else { return };
    let n = l.children.len();
    let read: Vec<bool> = l.children.iter().map(|c| s.level(c.0).is_some()).collect();
    if !read.contains(&true) {
        return;
    }
    let mut roles: Vec<Option<Role>> = vec![None; n];
    let set = |roles: &mut Vec<Option<Role>>, i: usize, r| {
        if let Some(x) = roles.get_mut(i) {
            if *x == None || r != Role::Side {
                *x = Some(r);
            }
        }
    };
    match role {
        Role::Path => {
            // how the key at `i` compares, if it was read: -1, 0 or 1
            let mut memo: Vec<Option<i32>> = vec![None; l.keys.len()];
            let mut sign = |s: &mut St, i: usize| -> i32 {
                if !s.key_known(l.keys[i]) {
                    return 2;
                }
                *memo[i].get_or_insert_with(|| {
                    let c = sym::cmp(&s.key(l.keys[i]), q);
                    if c < 0 { -1 } else if c == 0 { 0 } else { 1 }
                })
            };
            for j in 0..n {
                // the place of the key is at or next to a node that was read
                if !(read[j] || (del && (j > 0 && read[j - 1] || j + 1 < n && read[j + 1]))) {
                    continue;
                }
                if j + 1 < n && sign(s, j) == 0 {
                    if del {
                        for (j, r) in [(j.wrapping_sub(1), Role::Side), (j + 2, Role::Side), (j, Role::Max), (j + 1, Role::Min)] {
                            set(&mut roles, j, r);
                        }
                    }
                    break;
                }
                if (j == 0 || sign(s, j - 1) == -1) && (j + 1 == n || sign(s, j) == 1) {
                    set(&mut roles, j, Role::Path);
                    if del {
                        set(&mut roles, j.wrapping_sub(1), Role::Side);
                        set(&mut roles, j + 1, Role::Side);
                    }
                    break;
                }
            }
        }
        Role::Max => {
            set(&mut roles, n - 1, Role::Max);
            set(&mut roles, n.wrapping_sub(2), Role::Side);
        }
        Role::Min => {
            set(&mut roles, 0, Role::Min);
            set(&mut roles, 1, Role::Side);
        }
        Role::Side => (),
    }
    for j in 0..n {
        if read[j] {
            let Some(r) = roles[j] else { sym::fail(EXTRA) };
            only(s, l.children[j].0, r, q, del);
        }
    }
}
fn one(sh: Shape, kinds: &[K]) {
    let m = Arc::new(LazyTree::new(sh));
    let hb = open(&m);
    let q = if sh.kb == 1 { vec![sym::u8()] } else { sym::u16().to_be_bytes().to_vec() };
    let mut del = false;
    if kinds.is_empty() {
        sym::must(block_on(hb.get(&q)), "get fails on a valid tree");
    } else {
        let kind = kinds[sym::choice(kinds.len() as u32) as usize];
        del = matches!(kind, K::Del | K::DelCas);
        sym::must(block_on(run(&hb, kind, &q)), "a mutation fails on a valid tree");
    }
    only(m.st(), sh.len - 1, Role::Path, &q, del);
    cover(0);
}
/// Nodes read by a traversal that has yielded up to `last`, or ended.
fn within(s: &mut St, seq: u64, lo: &End, hi: &End, rev: bool, last: &Option<Vec<u8>>, ended: bool) {
    let Some(l) = s.level(seq).cloned() else { return };
    let mut good = true;
    for (j, c) in l.children.iter().enumerate() {
        if s.level(c.0).is_none() {
            continue;
        }
        if !ended && last.is_none() {
            sym::fail("a traversal reads nodes before it is asked for an entry");
        }
        let left = j.checked_sub(1).map(|i| l.keys[i]).filter(|k| s.key_known(*k)).map(|k| s.key(k));
        let right = l.keys.get(j).copied().filter(|k| s.key_known(*k)).map(|k| s.key(k));
        if let (Some(k), End::At(h, _)) = (&left, hi) {
            good &= sym::cmp(k, h) <= 0;
        }
        if let (Some(k), End::At(h, _)) = (&right, lo) {
            good &= sym::cmp(h, k) <= 0;
        }
        if let (false, Some(y)) = (ended, last) {
            if let (Some(k), false) = (&left, rev) {
                good &= sym::cmp(k, y) <= 0;
            }
            if let (Some(k), true) = (&right, rev) {
                good &= sym::cmp(y, k) <= 0;
            }
        }
        within(s, c.0, lo, hi, rev, last, ended);
    }
    check(good, "a traversal reads a node outside its bounds, or ahead of what it has been asked for");
}
fn trav(sh: Shape, both: bool) {
    let m = Arc::new(LazyTree::new(sh));
    let hb = open(&m);
    let key = || vec![sym::u8()];
    let (lo, hi) = match (both, sym::flip()) {
        (true, _) => (end(true, false, &key), end(false, false, &key)),
        (_, true) => (end(true, false, &key), End::Pos),
        _ => (End::Neg, end(false, false, &key)),
    };
    if let (End::At(a, _), End::At(b, _)) = (&lo, &hi) {
        sym::assume(sym::cmp(a, b) <= 0);
    }
    let rev = sym::flip();
    let mut st = Box::pin(sym::must(block_on(hb.traverse(conf(&lo, &hi, rev))), "traverse fails on a valid tree"));
    let (mut last, mut ended) = (None, false);
    // given up after any number of entries
    while !ended && sym::flip() {
        match block_on(st.next()) {
            Some(x) => last = Some(sym::must(x, "a traversal fails on a valid tree").key),
            None => ended = true,
        }
    }
    cover(ended as u32);
    within(m.st(), sh.len - 1, &lo, &hi, rev, &last, ended);
}
/// Through a sub: only what is under its prefix.
fn sub(sh: Shape, whole: bool) {
    let m = Arc::new(LazyTree::new(sh));
    let hb = open(&m);
    let p = sym::u8();
    let s = hb.sub(&[p], hyperbee::prefixed::PrefixedConfig { seperator: vec![] });
    if !whole {
        let k = [sym::u8()];
        sym::must(block_on(s.get(&k)), "get through a sub fails on a valid tree");
        only(m.st(), sh.len - 1, Role::Path, &[p, k[0]], false);
        cover(2);
        return;
    }
    let rev = sym::flip();
    let lo = if sym::flip() { Some(sym::u8()) } else { None };
    let c = hyperbee::traverse::TraverseConfig {
        min_value: lo.map_or(hyperbee::traverse::TraverseConfig::default().min_value, |x| hyperbee::traverse::LimitValue::Finite(vec![x])),
        reversed: rev,
        ..Default::default()
    };
    let mut st = Box::pin(sym::must(block_on(s.traverse(&c)), "traverse of a sub fails on a valid tree"));
    let (mut last, mut ended) = (None, false);
    while !ended && sym::flip() {
        match block_on(st.next()) {
            Some(x) => last = Some([vec![p], sym::must(x, "a traversal fails on a valid tree").key].concat()),
            None => ended = true,
        }
    }
    cover(ended as u32);
    let lo = End::At(lo.map_or(vec![p], |x| vec![p, x]), true);
    let hi = if p == 255 { End::Pos } else { End::At(vec![p + 1], false) };
    within(m.st(), sh.len - 1, &lo, &hi, rev, &last, ended);
}
fn nodes(s: &mut St, seq: u64) -> u32 {
    let Some(l) = s.level(seq).cloned() else { return 0 };
    1 + l.children.iter().map(|c| nodes(s, c.0)).sum::<u32>()
}
/// The height is that of any one leaf.
fn height(sh: Shape) {
    let m = Arc::new(LazyTree::new(sh));
    let hb = open(&m);
    sym::must(block_on(hb.height()), "height fails on a valid tree");
    check(nodes(m.st(), sh.len - 1) <= sh.height, "height reads more nodes than there are levels");
    cover(0);
}
const LOOK: &[K] = &[];
const PUT: &[K] = &[K::Put, K::PutCas];
const DEL: &[K] = &[K::Del, K::DelCas];
const T2: Shape = Shape { height: 2, root: &[1, 2], inner: &[4], leaf: &[4], base: 30, len: 1000, kb: 1 };
const T3: Shape = Shape { height: 3, root: &[1], inner: &[4], leaf: &[4], base: 30, len: 1000, kb: 1 };
entries! {
    h_need_get2 => one(shape(2), LOOK);
    h_need_get3 => one(shape_edge(3), LOOK);
    h_need_put2 => one(shape(2), PUT);
    h_need_put3 => one(shape_edge(3), PUT);
    h_need_del2 => one(shape(2), DEL);
    h_need_del3 => one(shape_edge(3), DEL);
    h_need_sub_get => sub(Shape { kb: 2, ..T2 }, false);
    h_need_sub_trav => sub(Shape { kb: 2, ..T2 }, true);
    h_need_sub_trav1 => sub(Shape { kb: 1, ..T2 }, true);
    h_need_height => height(shape(2));
    h_need_height3 => height(shape_edge(3));
    h_need_trav2 => trav(T2, true);
    h_need_trav3 => trav(T3, false);
    h_need_trav2w => trav(Shape { root: &[1, 2, 3], leaf: &[4, 5], ..T2 }, true);
    h_need_trav3w => trav(T3, true);
}
