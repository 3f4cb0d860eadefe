//! Large numbers, height and the printed tree.
use crate::{
    codec::{self, Block, Level},
    entries,
    lazy::{LazyTree, Shape, St},
    rt::{block_on, Cell},
    sym::{self, check, cover},
    trees::{open, open_model, I},
};
use hypercore::{AppendOutcome, CoreModel, HypercoreError, Info};
use std::sync::Arc;

/// A log of any length whose newest block is the root of a tree of height two: seqs are numbers
/// chosen by the harness, any of which may be symbolic.
struct Wide {
    len: u64,
    root_key: u64,
    kids: [(u64, u64); 2],
    leaf_keys: [u64; 4],
    appended: Cell<Vec<Vec<u8>>>,
}
const ROOT_KEY: u8 = 100;
impl Wide {
    /// which child's keys `leaf_keys` names is irrelevant: left holds 20.. and right 120..
    fn leaf(&self, i: usize) -> Level {
        if i == 0 {
            Level { keys: self.leaf_keys.to_vec(), children: vec![] }
        } else {
            Level { keys: vec![5, 6, 7, 8], children: vec![] }
        }
    }
    fn root(&self) -> Level {
        Level { keys: vec![self.root_key], children: self.kids.to_vec() }
    }
}
fn kv(key: u8, tag: u8) -> Vec<u8> {
    codec::encode(&Block { levels: vec![], key: vec![key], value: Some(vec![tag]) })
}
impl CoreModel for Wide {
    fn info(&self) -> Info {
        let length = self.len + self.appended.get().len() as u64;
        // not held without gaps: what is not read is not known
        Info { length, byte_length: 3, contiguous_length: 0, fork: 1, writeable: true }
    }
    fn get(&self, index: u64) -> Result<Option<Vec<u8>>, HypercoreError> {
        if index == self.len - 1 {
            return Ok(Some(codec::encode(&Block { levels: vec![self.root()], key: b"r".to_vec(), value: None })));
        }
        if index == self.root_key {
            return Ok(Some(kv(ROOT_KEY, 0)));
        }
        for i in 0..4 {
            if index == self.leaf_keys[i] {
                return Ok(Some(kv(20 + 20 * i as u8, 1 + i as u8)));
            }
            if index == 5 + i as u64 {
                return Ok(Some(kv(120 + 20 * i as u8, 5 + i as u8)));
            }
        }
        for (i, (s, o)) in self.kids.iter().enumerate() {
            if index == *s {
                // the node is where the reference says, after others
                let mut levels: Vec<Level> = (0..*o).map(|_| Level { keys: vec![77], children: vec![] }).collect();
                levels.push(self.leaf(i));
                return Ok(Some(codec::encode(&Block { levels, key: b"n".to_vec(), value: None })));
            }
        }
        sym::fail("a block is read that no node refers to")
    }
    fn append(&self, data: &[u8]) -> Result<AppendOutcome, HypercoreError> {
        self.appended.get().push(data.to_vec());
        Ok(AppendOutcome { length: self.len + self.appended.get().len() as u64, byte_length: 0 })
    }
}
/// One number (bit of `which`) is any 64-bit value; what is read and written stays exact.
fn wide(which: u32, op: u32) {
    let n = |i: u32, d: u64| if which >> i & 1 == 1 { sym::u64() } else { d };
    let len = if which & 1 == 1 { sym::u64() } else { u64::MAX - 10 };
    let m = Arc::new(Wide {
        len,
        root_key: n(1, 9),
        kids: [
            (n(2, 10), if which >> 4 & 1 == 1 { [1u64, 127, 128, 300][sym::choice(4) as usize] } else { 0 }),
            (n(3, 11), if which >> 5 & 1 == 1 { sym::u64() } else { 2 }),
        ],
        leaf_keys: [1, n(6, 2), 3, n(7, 4)],
        appended: Cell::new(vec![]),
    });
    sym::assume((len >= 100) & (len <= u64::MAX - 10));
    let seqs = [m.root_key, m.kids[0].0, m.kids[1].0, 1, m.leaf_keys[1], 3, m.leaf_keys[3], 5, 6, 7, 8];
    for (i, a) in seqs.iter().enumerate() {
        sym::assume((*a >= 1) & (*a < len - 1));
        for b in &seqs[..i] {
            sym::assume(a != b);
        }
    }
    let hb = open_model(m.clone());
    let q = sym::u8();
    if which >> 5 & 1 == 1 {
        // the right child is only referred to, not read
        sym::assume(q <= ROOT_KEY);
    }
    let at = |k: u8| -> Option<(u64, u8)> {
        let mut r = None;
        if k == ROOT_KEY {
            r = Some((m.root_key, 0));
        }
        for i in 0..4u8 {
            if k == 20 + 20 * i {
                r = Some((m.leaf_keys[i as usize], 1 + i));
            }
            if k == 120 + 20 * i {
                r = Some((5 + i as u64, 5 + i));
            }
        }
        r
    };
    let found = at(q);
    if op == 0 {
        let r = sym::must(block_on(hb.get(&[q])), "get fails on a tree with large numbers");
        match (found, r) {
            (Some((seq, tag)), Some((s, v))) => {
                cover(0);
                check(s == seq, "get reports another seq than the one the node refers to");
                check(v == Some(vec![tag]), "get gives another value than the one the node refers to");
            }
            (None, None) => cover(1),
            _ => sym::fail("get on a tree with large numbers finds the wrong thing"),
        }
        return;
    }
    let (old, seq) = sym::must(block_on(hb.put(&[q], Some(b"x"))), "put fails on a tree with large numbers");
    check(seq == len, "put reports another seq than that of its block");
    check(old.is_some() == found.is_some(), "put is wrong about whether it replaces a key");
    if let (Some(a), Some((b, _))) = (old, found) {
        check(a == b, "put reports another replaced seq than the one the node refers to");
    }
    let mut root = m.root();
    let mut levels = vec![];
    if q == ROOT_KEY {
        root.keys = vec![len];
        levels.push(root);
        cover(2);
    } else {
        let c = (q > ROOT_KEY) as usize;
        let mut leaf = m.leaf(c);
        let first = 20 + 100 * c as u8;
        let mut i = 0;
        while i < 4 && first + 20 * (i as u8) < q {
            i += 1;
        }
        if i < 4 && first + 20 * (i as u8) == q {
            leaf.keys[i] = len;
            cover(3);
        } else {
            leaf.keys.insert(i, len);
            cover(4);
        }
        root.children[c] = (len, 1);
        levels.push(root);
        levels.push(leaf);
    }
    let want = codec::encode(&Block { levels, key: vec![q], value: Some(b"x".to_vec()) });
    check(m.appended.get().len() == 1, "put appends exactly one block");
    check(sym::eq(&m.appended.get()[0], &want), "put does not keep the numbers of the tree exact");
}
const EDGES: [u64; 12] = [
    1 << 14,
    1 << 16,
    1 << 21,
    1 << 28,
    1 << 31,
    1 << 32,
    1 << 35,
    1 << 42,
    1 << 49,
    1 << 53,
    1 << 63,
    u64::MAX - 20000,
];
/// Logs whose length lies around a point where the encoding of seqs changes.
fn edge(sh: Shape, edges: &[u64], del: bool) {
    let e = edges[sym::choice(edges.len() as u32) as usize];
    let len = e - 1 + sym::choice(2) as u64;
    let sh = Shape { len, base: len - 120, ..sh };
    if del {
        crate::trees::js(sh, true)
    } else {
        crate::trees::js(sh, false)
    }
}
const E2: Shape = Shape { height: 2, root: &[1, 8], inner: I, leaf: &[4, 8], base: 0, len: 0, kb: 2 };

// ---- height and print ----
fn height(sh: Shape) {
    let m = Arc::new(LazyTree::new(sh));
    let hb = open(&m);
    let h = sym::must(block_on(hb.height()), "height fails on a valid tree");
    check(h == sh.height as usize, "height is not the number of levels of the tree");
    check(m.st().appended.is_empty(), "height appends to the log");
    sym::observe(h as u64);
    cover(0);
}
fn walk(st: &mut St, seq: u64, depth: usize, out: &mut Vec<u8>, ascii: &mut bool) {
    let Some(l) = st.level(seq).cloned() else { sym::fail("print leaves out a part of the tree") };
    for j in 0..=l.keys.len() {
        if let Some(c) = l.children.get(j) {
            walk(st, c.0, depth + 1, out, ascii);
        }
        if let Some(k) = l.keys.get(j) {
            let key = st.key(*k);
            out.extend(std::iter::repeat_n(b'\t', depth));
            out.extend(&key);
            out.push(b'\n');
            *ascii &= key.iter().all(|b| *b < 0x80);
        }
    }
}
fn print(sh: Shape) {
    let m = Arc::new(LazyTree::new(sh));
    let hb = open(&m);
    let r = block_on(hb.print());
    check(m.st().appended.is_empty(), "print appends to the log");
    match r {
        Ok(s) => {
            let (mut want, mut ascii) = (vec![], true);
            walk(m.st(), sh.len - 1, 0, &mut want, &mut ascii);
            check(ascii, "print renders a key which is not text");
            check(sym::eq(s.as_bytes(), &want), "print does not show every key once, in order, indented by its depth");
            cover(0);
        }
        Err(_) => {
            // some key that was read is not text
            let st = m.st();
            let mut any = false;
            for x in st.order.clone() {
                if let crate::lazy::Item::K(k) = x {
                    if st.key_known(k) {
                        any |= st.key(k)[0] >= 0x80;
                    }
                }
            }
            check(any, "print fails on a valid tree of printable keys");
            cover(1);
        }
    }
}
/// Height and printed tree while one block can not be read: an error, and the truth once it can.
fn look_fault(sh: Shape, printed: bool) {
    let m = Arc::new(LazyTree::new(sh));
    let env = crate::env::Env::new(m.clone());
    let hb = crate::trees::open_model(env.clone());
    let c = env.ctl();
    c.faults = 1;
    c.kinds = 3;
    if printed {
        let r = block_on(hb.print());
        check(c.faulted == 0 || r.is_err(), "print reports a tree although a block could not be read");
        c.faults = 0;
        if c.faulted == 0 {
            sym::assume(false);
        }
        if let Ok(s) = block_on(hb.print()) {
            let (mut want, mut ascii) = (vec![], true);
            walk(m.st(), sh.len - 1, 0, &mut want, &mut ascii);
            check(ascii && sym::eq(s.as_bytes(), &want), "print does not show the tree once all blocks are readable again");
            cover(1);
        }
    } else {
        let r = block_on(hb.height());
        check(c.faulted == 0 || r.is_err(), "height reports a number although a block could not be read");
        c.faults = 0;
        if c.faulted == 0 {
            sym::assume(false);
        }
        let h = sym::must(block_on(hb.height()), "height fails although all blocks are readable again");
        check(h == sh.height as usize, "height is wrong once all blocks are readable again");
    }
    cover(0);
    check(m.st().appended.is_empty(), "looking at the tree appends to the log");
}
fn no_tree() {
    let hb = open_model(crate::hist::Log::with(vec![]));
    check(matches!(block_on(hb.height()), Ok(0)), "the height of a tree that does not exist is not zero");
    cover(0);
    let hb = open_model(crate::hist::Log::with(vec![codec::header(None)]));
    check(matches!(block_on(hb.height()), Ok(0)), "the height of a tree without blocks is not zero");
    sym::must(block_on(hb.put(b"a", None)), "put fails");
    check(matches!(block_on(hb.height()), Ok(1)), "the height of a tree of one key is not one");
    cover(1);
}
const H: &[u32] = &[1, 4, 8];
const P1: Shape = Shape { height: 1, root: &[0, 1, 3, 8], inner: &[4], leaf: &[4], base: 30, len: 1000, kb: 1 };
const P2: Shape = Shape { height: 2, root: &[1, 2], inner: &[4], leaf: &[4, 5], base: 30, len: 1000, kb: 1 };
const P3: Shape = Shape { height: 3, root: &[1], inner: &[4], leaf: &[4], base: 30, len: 1000, kb: 1 };
const fn hs(height: u32) -> Shape {
    Shape { height, root: H, inner: I, leaf: I, base: 30, len: 1000, kb: 2 }
}
entries! {
    h_wide_get => wide(1 << sym::choice(8), 0);
    h_wide_put => wide(1 << sym::choice(8), 1);
    h_wide_two => wide(1 << sym::choice(8) | 1 << sym::choice(8), 0);
    h_edge_put => edge(E2, &EDGES, false);
    h_edge_del => edge(E2, &EDGES, true);
    h_edge_put1 => edge(crate::trees::R0, &EDGES, false);
    h_edge_del1 => edge(crate::trees::R0, &EDGES, true);
    h_height1 => height(Shape { root: &[0, 1, 8], ..hs(1) });
    h_height2 => height(hs(2));
    h_height3 => height(hs(3));
    h_height5 => height(hs(5));
    h_height0 => no_tree();
    h_heightfault1 => look_fault(Shape { root: &[0, 1, 8], ..hs(1) }, false);
    h_heightfault2 => look_fault(hs(2), false);
    h_heightfault3 => look_fault(hs(3), false);
    h_heightfault5 => look_fault(hs(5), false);
    h_printfault1 => look_fault(P1, true);
    h_printfault2 => look_fault(Shape { root: &[1], leaf: &[4], ..P2 }, true);
    h_printfault3 => look_fault(P3, true);
    h_print1 => print(P1);
    h_print2 => print(P2);
    h_print3 => print(P3);
}
