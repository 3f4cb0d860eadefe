//! Reference for the bytes JavaScript Hyperbee writes, after the algorithm of its index.js
//! (`put`, `del`, `rebalance`, `split`, `indexChanges`), on the lazily created tree.
use crate::{
    codec::{self, Block, Level},
    lazy::St,
    sym,
};
use std::cmp::Ordering;

#[derive(Clone)]
struct Kid {
    seq: u64,
    off: u64,
    node: Option<usize>,
}
struct N {
    keys: Vec<u64>,
    kids: Vec<Kid>,
    changed: bool,
}
struct Js<'a> {
    st: &'a mut St,
    a: Vec<N>,
    seq: u64,
    q: Vec<u8>,
}
const MIN: usize = 4;
const MAX: usize = 8;
impl Js<'_> {
    fn load(&mut self, seq: u64) -> usize {
        let Some(l) = self.st.touch(seq) else { sym::fail("reference: no such node") };
        let kids = l.children.iter().map(|(s, o)| Kid { seq: *s, off: *o, node: None }).collect();
        self.a.push(N { keys: l.keys, kids, changed: false });
        self.a.len() - 1
    }
    fn child(&mut self, n: usize, i: usize) -> usize {
        if let Some(c) = self.a[n].kids[i].node {
            return c;
        }
        let c = self.load(self.a[n].kids[i].seq);
        self.a[n].kids[i].node = Some(c);
        c
    }
    fn find(&mut self, n: usize) -> (bool, usize) {
        let (mut lo, mut hi) = (0, self.a[n].keys.len());
        while lo < hi {
            let mid = lo + ((hi - 1 - lo) >> 1);
            let k = self.st.key(self.a[n].keys[mid]);
            match self.q[..].cmp(&k[..]) {
                Ordering::Equal => return (true, mid),
                Ordering::Less => hi = mid,
                Ordering::Greater => lo = mid + 1,
            }
        }
        (false, lo)
    }
    fn levels(&mut self, n: usize, out: &mut Vec<Option<Level>>) -> u64 {
        let at = out.len();
        out.push(None);
        let mut l = Level { keys: self.a[n].keys.clone(), children: vec![] };
        for i in 0..self.a[n].kids.len() {
            let k = self.a[n].kids[i].clone();
            match k.node {
                Some(c) if self.a[c].changed => {
                    let o = self.levels(c, out);
                    l.children.push((self.seq, o));
                }
                _ => l.children.push((k.seq, k.off)),
            }
        }
        out[at] = Some(l);
        at as u64
    }
    fn block(&mut self, root: usize, value: Option<&[u8]>) -> Vec<u8> {
        let mut out = vec![];
        self.levels(root, &mut out);
        let levels = out.into_iter().map(|l| l.unwrap()).collect();
        codec::encode(&Block { levels, key: self.q.clone(), value: value.map(|v| v.to_vec()) })
    }
    fn new_kid(n: usize) -> Kid {
        Kid { seq: 0, off: 0, node: Some(n) }
    }
}
/// The block JavaScript Hyperbee appends for `put(q, value)`.
pub fn put(st: &mut St, q: &[u8], value: Option<&[u8]>) -> Vec<u8> {
    let (seq, root) = (st.sh.len, st.sh.len - 1);
    let mut j = Js { st, a: vec![], seq, q: q.to_vec() };
    let mut root = j.load(root);
    let mut stack: Vec<(usize, usize)> = vec![];
    let mut n = root;
    loop {
        j.a[n].changed = true;
        let (hit, i) = j.find(n);
        if hit {
            j.a[n].keys[i] = seq;
            return j.block(root, value);
        }
        if j.a[n].kids.is_empty() {
            j.a[n].keys.insert(i, seq);
            break;
        }
        stack.push((n, i));
        n = j.child(n, i);
    }
    while j.a[n].keys.len() > MAX {
        let half = j.a[n].keys.len() >> 1;
        let cut = j.a[n].keys.len() - half;
        let rk = j.a[n].keys.split_off(cut);
        let rc = if j.a[n].kids.is_empty() {
            vec![]
        } else {
            let c = j.a[n].kids.len() - (half + 1);
            j.a[n].kids.split_off(c)
        };
        let median = j.a[n].keys.pop().unwrap();
        j.a.push(N { keys: rk, kids: rc, changed: true });
        let right = j.a.len() - 1;
        match stack.pop() {
            Some((p, i)) => {
                j.a[p].keys.insert(i, median);
                j.a[p].kids.insert(i + 1, Js::new_kid(right));
                n = p;
            }
            None => {
                j.a.push(N { keys: vec![median], kids: vec![Js::new_kid(n), Js::new_kid(right)], changed: true });
                root = j.a.len() - 1;
                break;
            }
        }
    }
    j.block(root, value)
}
/// The block JavaScript Hyperbee appends for `del(q)`, if it finds the key.
pub fn del(st: &mut St, q: &[u8]) -> Option<Vec<u8>> {
    let (seq, root) = (st.sh.len, st.sh.len - 1);
    let mut j = Js { st, a: vec![], seq, q: q.to_vec() };
    let root = j.load(root);
    // (node, index of the node in its parent)
    let mut stack: Vec<(usize, usize)> = vec![];
    let (mut n, mut at) = (root, 0);
    loop {
        stack.push((n, at));
        j.a[n].changed = true;
        let (hit, i) = j.find(n);
        if hit {
            if j.a[n].kids.is_empty() {
                j.a[n].keys.remove(i);
            } else {
                let mut side = vec![];
                for right in [false, true] {
                    let mut at = i + right as usize;
                    let mut c = j.child(n, at);
                    let mut path = vec![(c, at)];
                    while !j.a[c].kids.is_empty() {
                        at = if right { 0 } else { j.a[c].kids.len() - 1 };
                        c = j.child(c, at);
                        path.push((c, at));
                    }
                    side.push((j.a[c].keys.len(), path));
                }
                let right = side[0].0 < side[1].0;
                let path = side.swap_remove(right as usize).1;
                for (c, _) in &path {
                    j.a[*c].changed = true;
                }
                let leaf = path[path.len() - 1].0;
                let k = if right { j.a[leaf].keys.remove(0) } else { j.a[leaf].keys.pop().unwrap() };
                j.a[n].keys[i] = k;
                stack.extend(path);
            }
            break;
        }
        if j.a[n].kids.is_empty() {
            return None;
        }
        at = i;
        n = j.child(n, i);
    }
    // rebalance
    while stack.len() > 1 {
        let (n, at) = stack.pop().unwrap();
        let p = stack[stack.len() - 1].0;
        if j.a[n].keys.len() >= MIN {
            break;
        }
        let left = if at > 0 { Some(j.child(p, at - 1)) } else { None };
        if let Some(l) = left {
            if j.a[l].keys.len() > MIN {
                j.a[l].changed = true;
                let k = j.a[l].keys.pop().unwrap();
                let k = std::mem::replace(&mut j.a[p].keys[at - 1], k);
                j.a[n].keys.insert(0, k);
                if let Some(c) = j.a[l].kids.pop() {
                    j.a[n].kids.insert(0, c);
                }
                break;
            }
        }
        let right = if at + 1 < j.a[p].kids.len() { Some(j.child(p, at + 1)) } else { None };
        if let Some(r) = right {
            if j.a[r].keys.len() > MIN {
                j.a[r].changed = true;
                let k = j.a[r].keys.remove(0);
                let k = std::mem::replace(&mut j.a[p].keys[at], k);
                j.a[n].keys.push(k);
                if !j.a[r].kids.is_empty() {
                    let c = j.a[r].kids.remove(0);
                    j.a[n].kids.push(c);
                }
                break;
            }
        }
        let (l, r, i) = match (left, right) {
            (Some(l), _) => (l, n, at - 1),
            (None, Some(r)) => (n, r, at),
            _ => sym::fail("reference: no sibling"),
        };
        j.a[l].changed = true;
        let k = j.a[p].keys.remove(i);
        j.a[p].kids.remove(i + 1);
        j.a[l].keys.push(k);
        let mut rk = std::mem::take(&mut j.a[r].keys);
        let mut rc = std::mem::take(&mut j.a[r].kids);
        j.a[l].keys.append(&mut rk);
        j.a[l].kids.append(&mut rc);
    }
    let mut root = root;
    if j.a[root].keys.is_empty() && !j.a[root].kids.is_empty() {
        root = j.child(root, 0);
    }
    Some(j.block(root, None))
}
