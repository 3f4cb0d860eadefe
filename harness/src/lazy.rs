//! An arbitrary valid stored tree, materialised on demand.
//!
//! The log holds a B-tree of a given height. A node's size, its keys' bytes and its children come
//! into existence only when the code under test reads the block that holds them: sizes by case
//! split, key bytes as fresh symbolic values constrained only by the order of the keys that exist so
//! far. Parts that were never read stay opaque, so one path stands for every tree that agrees with
//! it on what was read.
use crate::{
    codec::{self, Block, Level},
    rt::Cell,
    sym,
};
use hypercore::{AppendOutcome, CoreModel, HypercoreError, Info};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Item {
    /// a key (by the seq of the block holding it)
    K(u64),
    /// a subtree nobody has looked into (by the seq of the block holding its root)
    S(u64),
}
pub enum V {
    Key { bytes: Option<Vec<u8>>, value: Option<Vec<u8>> },
    Node { depth: u32, offset: u64, level: Option<Level> },
}
#[derive(Clone, Copy)]
pub struct Shape {
    pub height: u32,
    pub root: &'static [u32],
    pub inner: &'static [u32],
    pub leaf: &'static [u32],
    /// number of the last virtual block, and length of the log
    pub base: u64,
    pub len: u64,
    /// bytes per key
    pub kb: u32,
}
pub struct St {
    pub sh: Shape,
    virt: Vec<V>,
    pub order: Vec<Item>,
    pub appended: Vec<Vec<u8>>,
    pub gets: usize,
}
pub struct LazyTree(pub Cell<St>);
/// Virtual blocks are numbered from `base + SPAN` down: a node's children are in older blocks.
const SPAN: u64 = 118;
pub const NODE_BLOCK_KEY: &[u8] = b"\xee\xeenode";

impl St {
    fn new(sh: Shape) -> St {
        // the root node is virtual block 0, but lives at seq len-1
        let virt = vec![V::Node { depth: sh.height - 1, offset: 0, level: None }];
        St { sh, virt, order: vec![Item::S(sh.len - 1)], appended: vec![], gets: 0 }
    }
    pub fn idx(&self, seq: u64) -> Option<usize> {
        if seq == self.sh.len - 1 {
            return Some(0);
        }
        let i = (self.sh.base + SPAN).wrapping_sub(seq);
        if i >= 1 && i < self.virt.len() as u64 {
            Some(i as usize)
        } else {
            None
        }
    }
    fn alloc(&mut self, v: V) -> u64 {
        self.virt.push(v);
        let i = self.virt.len() as u64 - 1;
        if i > SPAN {
            sym::fail("harness: more blocks than there are numbers for")
        }
        self.sh.base + SPAN - i
    }
    /// Bytes of the key stored at `seq`; fails the run if no key was ever referenced there.
    pub fn key(&mut self, seq: u64) -> Vec<u8> {
        if seq >= self.sh.len {
            let Some(b) = self.block(seq) else { sym::fail("the tree references a block that does not exist") };
            return b.key;
        }
        let Some(i) = self.idx(seq) else { sym::fail("the tree references a key that does not exist") };
        if let V::Key { bytes: Some(b), .. } = &self.virt[i] {
            return b.clone();
        }
        if !matches!(self.virt[i], V::Key { .. }) {
            sym::fail("the tree references a node block as a key")
        }
        let (k, b) = if self.sh.kb == 1 {
            let k = sym::u8();
            (k as u16, vec![k])
        } else {
            let k = sym::u16();
            (k, k.to_be_bytes().to_vec())
        };
        // position among the keys that exist so far
        let p = self.order.iter().position(|x| *x == Item::K(seq));
        if let Some(p) = p {
            let lo = self.order[..p].iter().rev().find_map(|x| self.known(x));
            if let Some(lo) = lo {
                sym::assume(lo < k);
            }
            let hi = self.order[p + 1..].iter().find_map(|x| self.known(x));
            if let Some(hi) = hi {
                sym::assume(k < hi);
            }
        }
        let value = match i % 3 {
            0 => None,
            1 => Some(vec![sym::u8(), i as u8]),
            _ => Some(vec![]),
        };
        self.virt[i] = V::Key { bytes: Some(b.clone()), value };
        b
    }
    pub fn value(&mut self, seq: u64) -> Option<Vec<u8>> {
        self.key(seq);
        if seq >= self.sh.len {
            return self.block(seq).unwrap().value;
        }
        match &self.virt[self.idx(seq).unwrap()] {
            V::Key { value, .. } => value.clone(),
            _ => None,
        }
    }
    pub fn key_known(&self, seq: u64) -> bool {
        match self.idx(seq) {
            Some(i) => matches!(&self.virt[i], V::Key { bytes: Some(_), .. }),
            None => false,
        }
    }
    fn known(&self, x: &Item) -> Option<u16> {
        let Item::K(s) = x else { return None };
        match &self.virt[self.idx(*s)?] {
            V::Key { bytes: Some(b), .. } if b.len() == 1 => Some(b[0] as u16),
            V::Key { bytes: Some(b), .. } => Some((b[0] as u16) << 8 | b[1] as u16),
            _ => None,
        }
    }
    /// The node at `seq`, if it has been looked at.
    pub fn level(&self, seq: u64) -> Option<&Level> {
        match &self.virt[self.idx(seq)?] {
            V::Node { level: Some(l), .. } => Some(l),
            _ => None,
        }
    }
    pub fn node_info(&self, seq: u64) -> Option<(u32, u64)> {
        match &self.virt[self.idx(seq)?] {
            V::Node { depth, offset, .. } => Some((*depth, *offset)),
            _ => None,
        }
    }
    /// Bring the node at `seq` into existence.
    pub fn touch(&mut self, seq: u64) -> Option<Level> {
        let i = self.idx(seq)?;
        let (depth, _) = self.node_info(seq)?;
        if let Some(l) = self.level(seq) {
            return Some(l.clone());
        }
        let sizes = if i == 0 {
            self.sh.root
        } else if depth == 0 {
            self.sh.leaf
        } else {
            self.sh.inner
        };
        let n = sizes[sym::choice(sizes.len() as u32) as usize];
        let mut l = Level::default();
        let mut items = vec![];
        for j in 0..=n {
            if depth > 0 {
                let offset = (self.virt.len() % 3) as u64;
                let c = self.alloc(V::Node { depth: depth - 1, offset, level: None });
                l.children.push((c, offset));
                items.push(Item::S(c));
            }
            if j < n {
                let k = self.alloc(V::Key { bytes: None, value: None });
                l.keys.push(k);
                items.push(Item::K(k));
            }
        }
        let p = self.order.iter().position(|x| *x == Item::S(seq)).unwrap();
        self.order.splice(p..p + 1, items);
        if let V::Node { level, .. } = &mut self.virt[i] {
            *level = Some(l.clone());
        }
        Some(l)
    }
    fn raw(&mut self, seq: u64) -> Option<Vec<u8>> {
        if seq >= self.sh.len {
            return self.appended.get((seq - self.sh.len) as usize).cloned();
        }
        if seq == 0 {
            return Some(codec::header(None));
        }
        let i = self.idx(seq)?;
        let b = match &self.virt[i] {
            V::Key { .. } => {
                let key = self.key(seq);
                Block { levels: vec![], key, value: self.value(seq) }
            }
            V::Node { offset, .. } => {
                let offset = *offset;
                let l = self.touch(seq)?;
                let mut levels = vec![];
                for _ in 0..offset {
                    // levels of this block that are not part of the tree any more
                    levels.push(Level { keys: vec![self.sh.len + 7000; 5], children: vec![] });
                }
                levels.push(l);
                if i > 0 {
                    levels.push(Level { keys: vec![self.sh.len + 9000; 4], children: vec![] });
                }
                Block { levels, key: NODE_BLOCK_KEY.to_vec(), value: Some(b"node".to_vec()) }
            }
        };
        Some(codec::encode(&b))
    }
    pub fn block(&self, seq: u64) -> Option<Block> {
        codec::decode(self.appended.get(seq.checked_sub(self.sh.len)? as usize)?)
    }
    /// In-order contents below a node that existed before the operation.
    fn expand(&self, seq: u64, out: &mut Vec<Item>) {
        match self.level(seq) {
            None => out.push(Item::S(seq)),
            Some(l) => {
                for j in 0..=l.keys.len() {
                    if let Some(c) = l.children.get(j) {
                        self.expand(c.0, out);
                    }
                    if let Some(k) = l.keys.get(j) {
                        out.push(Item::K(*k));
                    }
                }
            }
        }
    }
    /// In-order contents of the tree whose root is in appended block `seq`.
    pub fn flatten(&self, seq: u64) -> Vec<Item> {
        let mut out = vec![];
        self.flat(seq, 0, &mut out, 0);
        out
    }
    fn flat(&self, seq: u64, off: u64, out: &mut Vec<Item>, guard: u32) {
        if seq < self.sh.len {
            match self.node_info(seq) {
                Some((_, o)) if o == off => self.expand(seq, out),
                _ => sym::fail("the new tree references a node that does not exist"),
            }
            return;
        }
        if guard > 16 {
            sym::fail("the new tree is too deep")
        }
        let Some(b) = self.block(seq) else { sym::fail("the new tree references a block that does not decode") };
        let Some(l) = b.levels.get(off as usize) else { sym::fail("the new tree references a node its block does not hold") };
        for j in 0..=l.keys.len() {
            if let Some(c) = l.children.get(j) {
                self.flat(c.0, c.1, out, guard + 1);
            }
            if let Some(k) = l.keys.get(j) {
                out.push(Item::K(*k));
            }
        }
    }
    /// Check the shape of the tree written in appended block `seq`; returns its height.
    pub fn check_shape(&self, seq: u64) -> u32 {
        let Some(b) = self.block(seq) else { sym::fail("the written block does not decode") };
        let mut used = vec![0u32; b.levels.len()];
        let h = self.shape(&b, seq, 0, true, &mut used, 0);
        for u in used {
            sym::check(u == 1, "shape: every node in a written block belongs to the new tree exactly once");
        }
        h
    }
    fn shape(&self, b: &Block, seq: u64, off: u64, root: bool, used: &mut Vec<u32>, guard: u32) -> u32 {
        let Some(l) = b.levels.get(off as usize) else { sym::fail("shape: child reference past the end of its block") };
        used[off as usize] += 1;
        if guard > 16 {
            sym::fail("shape: the tree is too deep")
        }
        let (n, c) = (l.keys.len(), l.children.len());
        sym::check(n <= 8, "shape: a node holds more than the maximum number of keys");
        sym::check(root || n >= 4, "shape: a node other than the root holds fewer than the minimum number of keys");
        sym::check(c == 0 || c == n + 1, "shape: number of children is neither zero nor keys plus one");
        sym::check(!(root && n == 0 && c > 0), "shape: a root without keys has children");
        let mut h = 0;
        for (i, (s, o)) in l.children.iter().enumerate() {
            let hc = if *s == seq {
                self.shape(b, seq, *o, false, used, guard + 1)
            } else {
                match self.node_info(*s) {
                    Some((d, off)) if *s != self.sh.len - 1 || off == 0 => {
                        sym::check(off == *o, "shape: child reference to a node that does not exist");
                        // the old root may only become a child if it is big enough
                        if let Some(old) = self.level(*s) {
                            sym::check(old.keys.len() >= 4, "shape: an undersized old node became a child");
                        }
                        d + 1
                    }
                    _ => sym::fail("shape: child reference to a node that does not exist"),
                }
            };
            sym::check(i == 0 || hc == h, "shape: leaves at different depths");
            h = hc;
        }
        h + 1
    }
    /// True (symbolically) if `q` lies strictly between two neighbouring keys of the stored tree.
    pub fn absent(&mut self, q: &[u8]) -> bool {
        let mut found = false;
        let ord = self.order.clone();
        for i in 0..=ord.len() {
            let lo = match i.checked_sub(1).map(|j| ord[j]) {
                None => true,
                Some(Item::K(s)) if self.key_known(s) => sym::cmp(&self.key(s), q) < 0,
                _ => continue,
            };
            let hi = match ord.get(i) {
                None => true,
                Some(Item::K(s)) if self.key_known(*s) => sym::cmp(q, &self.key(*s)) < 0,
                _ => continue,
            };
            found |= lo & hi;
        }
        found
    }
}
impl LazyTree {
    pub fn new(sh: Shape) -> LazyTree {
        LazyTree(Cell::new(St::new(sh)))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn st(&self) -> &mut St {
        self.0.get()
    }
}
impl CoreModel for LazyTree {
    fn info(&self) -> Info {
        let s = self.st();
        let length = s.sh.len + s.appended.len() as u64;
        // not held without gaps: what is not read is not known
        Info { length, byte_length: 3, contiguous_length: 0, fork: 1, writeable: true }
    }
    fn get(&self, index: u64) -> Result<Option<Vec<u8>>, HypercoreError> {
        let s = self.st();
        s.gets += 1;
        Ok(s.raw(index))
    }
    fn append(&self, data: &[u8]) -> Result<AppendOutcome, HypercoreError> {
        let s = self.st();
        s.appended.push(data.to_vec());
        Ok(AppendOutcome { length: s.sh.len + s.appended.len() as u64, byte_length: 0 })
    }
}
