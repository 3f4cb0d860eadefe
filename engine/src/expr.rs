//! Bit-vector expressions.
use crate::ir::{BinOp, Pred};
use std::collections::HashMap;
use std::sync::Arc;

pub type E = Arc<Expr>;

#[derive(Debug)]
pub enum K {
    Var(u32),
    Const(u128),
    Bin(BinOp, E, E),
    Cmp(Pred, E, E), // width 1
    Not(E),          // width 1 only
    Ite(E, E, E),
    Zext(E),
    Sext(E),
    Extract(E, u32), // low bit
    Concat(E, E),    // hi, lo
}
#[derive(Debug)]
pub struct Expr {
    pub k: K,
    pub w: u32,
    pub h: u128,
    pub vars: [u64; 4],
    pub size: u32,
}

fn mix(a: u128, b: u128) -> u128 {
    let x = (a ^ b.rotate_left(37)).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    let x = (x ^ (x >> 67)).wrapping_mul(0xC2B2AE3D27D4EB4F165667B19E3779F9).wrapping_add(b);
    x ^ (x >> 59)
}
pub fn m128(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn mk(k: K, w: u32) -> E {
    let (h, vars, size) = {
        let un = |tag: u128, a: &E| (mix(mix(tag, a.h), w as u128), a.vars, a.size.saturating_add(1));
        let bi = |tag: u128, a: &E, b: &E| {
            let mut v = a.vars;
            for i in 0..4 {
                v[i] |= b.vars[i];
            }
            (mix(mix(mix(tag, a.h), b.h), w as u128), v, a.size.saturating_add(b.size).saturating_add(1))
        };
        match &k {
            K::Var(i) => {
                let mut v = [0u64; 4];
                let b = (*i as usize).min(255);
                v[b / 64] |= 1 << (b % 64);
                (mix(mix(11, *i as u128), w as u128), v, 1)
            }
            K::Const(c) => (mix(mix(13, *c), w as u128), [0; 4], 1),
            K::Bin(o, a, b) => bi(100 + *o as u128, a, b),
            K::Cmp(p, a, b) => bi(200 + *p as u128, a, b),
            K::Not(a) => un(17, a),
            K::Zext(a) => un(19, a),
            K::Sext(a) => un(23, a),
            K::Extract(a, l) => un(3000 + *l as u128, a),
            K::Concat(a, b) => bi(29, a, b),
            K::Ite(c, a, b) => {
                let (h1, v1, s1) = bi(31, a, b);
                let mut v = v1;
                for i in 0..4 {
                    v[i] |= c.vars[i];
                }
                (mix(mix(h1, c.h), 5), v, s1.saturating_add(c.size))
            }
        }
    };
    Arc::new(Expr { k, w, h, vars, size })
}

pub fn var(i: u32, w: u32) -> E {
    mk(K::Var(i), w)
}
pub fn cst(v: u128, w: u32) -> E {
    mk(K::Const(m128(v, w)), w)
}
pub fn as_c(e: &E) -> Option<u128> {
    if let K::Const(c) = e.k {
        Some(c)
    } else {
        None
    }
}
pub fn same(a: &E, b: &E) -> bool {
    Arc::ptr_eq(a, b) || a.h == b.h
}
pub fn not(a: &E) -> E {
    match &a.k {
        K::Const(c) => cst(1 - c, 1),
        K::Not(x) => x.clone(),
        K::Cmp(p, x, y) => {
            let (np, sw) = match p {
                Pred::Eq => (Pred::Ne, false),
                Pred::Ne => (Pred::Eq, false),
                Pred::Ult => (Pred::Ule, true),
                Pred::Ule => (Pred::Ult, true),
                Pred::Slt => (Pred::Sle, true),
                Pred::Sle => (Pred::Slt, true),
                Pred::Ugt => (Pred::Ule, false),
                Pred::Uge => (Pred::Ult, false),
                Pred::Sgt => (Pred::Sle, false),
                Pred::Sge => (Pred::Slt, false),
            };
            if sw {
                mk(K::Cmp(np, y.clone(), x.clone()), 1)
            } else {
                mk(K::Cmp(np, x.clone(), y.clone()), 1)
            }
        }
        _ => mk(K::Not(a.clone()), 1),
    }
}
pub fn and1(a: &E, b: &E) -> E {
    bin(BinOp::And, a, b)
}
pub fn or1(a: &E, b: &E) -> E {
    bin(BinOp::Or, a, b)
}
pub fn ite(c: &E, a: &E, b: &E) -> E {
    if let Some(v) = as_c(c) {
        return if v == 1 { a.clone() } else { b.clone() };
    }
    if same(a, b) {
        return a.clone();
    }
    if a.w == 1 {
        match (as_c(a), as_c(b)) {
            (Some(1), Some(0)) => return c.clone(),
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or1(c, b),
            (Some(0), None) => return and1(&not(c), b),
            (None, Some(1)) => return or1(&not(c), a),
            (None, Some(0)) => return and1(c, a),
            _ => {}
        }
    }
    if let K::Not(x) = &c.k {
        return mk(K::Ite(x.clone(), b.clone(), a.clone()), a.w);
    }
    mk(K::Ite(c.clone(), a.clone(), b.clone()), a.w)
}
/// all leaves of an ite-tree constant?
fn ite_leaves(e: &E, budget: &mut u32) -> bool {
    if *budget == 0 {
        return false;
    }
    *budget -= 1;
    match &e.k {
        K::Const(_) => true,
        K::Ite(_, a, b) => ite_leaves(a, budget) && ite_leaves(b, budget),
        _ => false,
    }
}
fn map_leaves(e: &E, f: &dyn Fn(u128) -> E) -> E {
    match &e.k {
        K::Const(c) => f(*c),
        K::Ite(c, a, b) => {
            let a2 = map_leaves(a, f);
            let b2 = map_leaves(b, f);
            ite(c, &a2, &b2)
        }
        _ => unreachable!(),
    }
}
fn is_ite_const(e: &E) -> bool {
    matches!(e.k, K::Ite(..)) && ite_leaves(e, &mut 64)
}

pub fn zext(a: &E, w: u32) -> E {
    if a.w == w {
        return a.clone();
    }
    if let Some(c) = as_c(a) {
        return cst(c, w);
    }
    if let K::Zext(x) = &a.k {
        return zext(x, w);
    }
    if is_ite_const(a) {
        return map_leaves(a, &|c| cst(c, w));
    }
    mk(K::Zext(a.clone()), w)
}
pub fn sext(a: &E, w: u32) -> E {
    if a.w == w {
        return a.clone();
    }
    if let Some(c) = as_c(a) {
        return cst(sx(c, a.w) as u128, w);
    }
    if let K::Zext(x) = &a.k {
        if x.w < a.w {
            return zext(x, w);
        }
    }
    if is_ite_const(a) {
        let aw = a.w;
        return map_leaves(a, &|c| cst(sx(c, aw) as u128, w));
    }
    mk(K::Sext(a.clone()), w)
}
pub fn extract(a: &E, lo: u32, w: u32) -> E {
    if lo == 0 && a.w == w {
        return a.clone();
    }
    if let Some(c) = as_c(a) {
        return cst(c >> lo, w);
    }
    match &a.k {
        K::Extract(x, l) => return extract(x, l + lo, w),
        K::Zext(x) => {
            if lo >= x.w {
                return cst(0, w);
            }
            if lo + w <= x.w {
                return extract(x, lo, w);
            }
            if lo == 0 {
                return zext(x, w);
            }
            let p = extract(x, lo, x.w - lo);
            return zext(&p, w);
        }
        K::Sext(x) => {
            if lo + w <= x.w {
                return extract(x, lo, w);
            }
            if lo == 0 && w >= x.w {
                return sext(x, w);
            }
        }
        K::Concat(h, l) => {
            if lo >= l.w {
                return extract(h, lo - l.w, w);
            }
            if lo + w <= l.w {
                return extract(l, lo, w);
            }
            let lp = extract(l, lo, l.w - lo);
            let hp = extract(h, 0, w - (l.w - lo));
            return concat(&hp, &lp);
        }
        K::Ite(c, x, y) if as_c(x).is_some() || as_c(y).is_some() => {
            return ite(c, &extract(x, lo, w), &extract(y, lo, w));
        }
        K::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), x, y) => {
            return bin(*op, &extract(x, lo, w), &extract(y, lo, w));
        }
        K::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul), x, y) if lo == 0 => {
            return bin(*op, &extract(x, 0, w), &extract(y, 0, w));
        }
        K::Bin(BinOp::LShr, x, y) => {
            if let Some(s) = as_c(y) {
                let s = s as u32;
                if s + lo + w <= a.w {
                    return extract(x, lo + s, w);
                }
            }
        }
        _ => {}
    }
    mk(K::Extract(a.clone(), lo), w)
}
pub fn concat(h: &E, l: &E) -> E {
    let w = h.w + l.w;
    if let (Some(a), Some(b)) = (as_c(h), as_c(l)) {
        return cst((a << l.w) | b, w);
    }
    if as_c(h) == Some(0) {
        return zext(l, w);
    }
    if let (K::Extract(x, lx), K::Extract(y, ly)) = (&h.k, &l.k) {
        if same(x, y) && *lx == ly + l.w {
            return extract(x, *ly, w);
        }
    }
    // concat(extract(x,lx), concat?) : zext-ed lower pieces
    if let K::Extract(x, lx) = &h.k {
        if *lx == l.w && same(x, l) {
            return l.clone();
        }
        // l may itself be x truncated
        if let K::Concat(h2, l2) = &l.k {
            if let K::Extract(y, ly) = &h2.k {
                if same(x, y) && *lx == ly + h2.w {
                    let nh = extract(x, *ly, h.w + h2.w);
                    return concat(&nh, l2);
                }
            }
        }
    }
    if let (Some(a), K::Concat(h2, l2)) = (as_c(h), &l.k) {
        if let Some(b) = as_c(h2) {
            let nh = cst((a << h2.w) | b, h.w + h2.w);
            return concat(&nh, l2);
        }
    }
    mk(K::Concat(h.clone(), l.clone()), w)
}

pub fn cbin(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    let r = match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                0
            } else {
                a / b
            }
        }
        BinOp::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        BinOp::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                0
            } else {
                x.wrapping_div(y) as u128
            }
        }
        BinOp::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let x = sx(a, w);
            (if b >= w as u128 { x >> 127 } else { x >> b }) as u128
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
    };
    m128(r, w)
}
pub fn ccmp(p: Pred, w: u32, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
    }
}

pub fn bin(op: BinOp, a: &E, b: &E) -> E {
    let w = a.w;
    let (ca, cb) = (as_c(a), as_c(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return cst(cbin(op, w, x, y), w);
    }
    let ones = m128(u128::MAX, w);
    match op {
        BinOp::Add => {
            if ca == Some(0) {
                return b.clone();
            }
            if cb == Some(0) {
                return a.clone();
            }
            if ca.is_some() {
                return bin(op, b, a);
            }
            if let (Some(y), K::Bin(BinOp::Add, x, c)) = (cb, &a.k) {
                if let Some(c) = as_c(c) {
                    return bin(BinOp::Add, x, &cst(c.wrapping_add(y), w));
                }
            }
        }
        BinOp::Sub => {
            if cb == Some(0) {
                return a.clone();
            }
            if same(a, b) {
                return cst(0, w);
            }
            if let Some(y) = cb {
                return bin(BinOp::Add, a, &cst(y.wrapping_neg(), w));
            }
        }
        BinOp::Mul => {
            if ca == Some(0) || cb == Some(0) {
                return cst(0, w);
            }
            if ca == Some(1) {
                return b.clone();
            }
            if cb == Some(1) {
                return a.clone();
            }
        }
        BinOp::And => {
            if ca == Some(0) || cb == Some(0) {
                return cst(0, w);
            }
            if ca == Some(ones) {
                return b.clone();
            }
            if cb == Some(ones) || same(a, b) {
                return a.clone();
            }
            if let Some(c) = cb {
                // low mask
                if (c & (c + 1)) == 0 {
                    let n = 128 - c.leading_zeros();
                    return zext(&extract(a, 0, n), w);
                }
            }
            if w == 1 && same(&not(a), b) {
                return cst(0, 1);
            }
        }
        BinOp::Or => {
            if ca == Some(0) {
                return b.clone();
            }
            if cb == Some(0) || same(a, b) {
                return a.clone();
            }
            if ca == Some(ones) || cb == Some(ones) {
                return cst(ones, w);
            }
            if w == 1 && same(&not(a), b) {
                return cst(1, 1);
            }
            // (x << k) | zext(y) with y.w <= k  => concat
            for (p, q) in [(a, b), (b, a)] {
                if let K::Bin(BinOp::Shl, x, s) = &p.k {
                    if let (Some(s), K::Zext(y)) = (as_c(s), &q.k) {
                        let s = s as u32;
                        if y.w <= s && s < w {
                            let hi = extract(x, 0, w - s);
                            return concat(&hi, &zext(y, s));
                        }
                    }
                }
                if let K::Concat(h, l) = &p.k {
                    if as_c(l) == Some(0) {
                        if let K::Zext(y) = &q.k {
                            if y.w <= l.w {
                                return concat(h, &zext(y, l.w));
                            }
                        }
                    }
                }
            }
        }
        BinOp::Xor => {
            if ca == Some(0) {
                return b.clone();
            }
            if cb == Some(0) {
                return a.clone();
            }
            if same(a, b) {
                return cst(0, w);
            }
            if w == 1 {
                if cb == Some(1) {
                    return not(a);
                }
                if ca == Some(1) {
                    return not(b);
                }
            }
        }
        BinOp::Shl => {
            if let Some(s) = cb {
                if s == 0 {
                    return a.clone();
                }
                if s >= w as u128 {
                    return cst(0, w);
                }
                let s = s as u32;
                return concat(&extract(a, 0, w - s), &cst(0, s));
            }
        }
        BinOp::LShr => {
            if let Some(s) = cb {
                if s == 0 {
                    return a.clone();
                }
                if s >= w as u128 {
                    return cst(0, w);
                }
                let s = s as u32;
                return zext(&extract(a, s, w - s), w);
            }
        }
        BinOp::AShr => {
            if let Some(s) = cb {
                if s == 0 {
                    return a.clone();
                }
                if s < w as u128 {
                    let s = s as u32;
                    return sext(&extract(a, s, w - s), w);
                }
            }
        }
        BinOp::UDiv => {
            if let Some(c) = cb {
                if c.is_power_of_two() {
                    return bin(BinOp::LShr, a, &cst(c.trailing_zeros() as u128, w));
                }
            }
        }
        BinOp::URem => {
            if let Some(c) = cb {
                if c.is_power_of_two() {
                    return bin(BinOp::And, a, &cst(c - 1, w));
                }
            }
        }
        _ => {}
    }
    if w > 1 {
        if let Some(y) = cb {
            if is_ite_const(a) {
                return map_leaves(a, &|c| cst(cbin(op, w, c, y), w));
            }
        }
        if let Some(x) = ca {
            if is_ite_const(b) {
                return map_leaves(b, &|c| cst(cbin(op, w, x, c), w));
            }
        }
    }
    mk(K::Bin(op, a.clone(), b.clone()), w)
}

pub fn cmp(p: Pred, a: &E, b: &E) -> E {
    let w = a.w;
    if let (Some(x), Some(y)) = (as_c(a), as_c(b)) {
        return cst(ccmp(p, w, x, y) as u128, 1);
    }
    if same(a, b) {
        return cst(matches!(p, Pred::Eq | Pred::Uge | Pred::Ule | Pred::Sge | Pred::Sle) as u128, 1);
    }
    // normalise > to <
    match p {
        Pred::Ugt => return cmp(Pred::Ult, b, a),
        Pred::Uge => return cmp(Pred::Ule, b, a),
        Pred::Sgt => return cmp(Pred::Slt, b, a),
        Pred::Sge => return cmp(Pred::Sle, b, a),
        _ => {}
    }
    if w == 1 {
        match p {
            Pred::Eq => {
                if let Some(c) = as_c(b) {
                    return if c == 1 { a.clone() } else { not(a) };
                }
                if as_c(a).is_some() {
                    return cmp(p, b, a);
                }
            }
            Pred::Ne => {
                if let Some(c) = as_c(b) {
                    return if c == 0 { a.clone() } else { not(a) };
                }
                if as_c(a).is_some() {
                    return cmp(p, b, a);
                }
            }
            _ => {}
        }
    }
    if as_c(b).is_some() && is_ite_const(a) {
        let y = as_c(b).unwrap();
        return map_leaves(a, &|c| cst(ccmp(p, w, c, y) as u128, 1));
    }
    if as_c(a).is_some() && is_ite_const(b) {
        let x = as_c(a).unwrap();
        return map_leaves(b, &|c| cst(ccmp(p, w, x, c) as u128, 1));
    }
    if as_c(a).is_some() && matches!(p, Pred::Eq | Pred::Ne) {
        return cmp(p, b, a);
    }
    if let (K::Zext(x), Some(c)) = (&a.k, as_c(b)) {
        let xm = m128(u128::MAX, x.w);
        match p {
            Pred::Eq | Pred::Ne => {
                if c > xm {
                    return cst((p == Pred::Ne) as u128, 1);
                }
                return cmp(p, x, &cst(c, x.w));
            }
            Pred::Ult => {
                if c > xm {
                    return cst(1, 1);
                }
                return cmp(p, x, &cst(c, x.w));
            }
            Pred::Ule => {
                if c >= xm {
                    return cst(1, 1);
                }
                return cmp(p, x, &cst(c, x.w));
            }
            Pred::Slt | Pred::Sle => {
                if sx(c, w) < 0 {
                    return cst(0, 1);
                }
                let q = if p == Pred::Slt { Pred::Ult } else { Pred::Ule };
                return cmp(q, a, b);
            }
            _ => {}
        }
    }
    if let (Some(c), K::Zext(x)) = (as_c(a), &b.k) {
        let xm = m128(u128::MAX, x.w);
        match p {
            Pred::Ult => {
                if c >= xm {
                    return cst(0, 1);
                }
                return cmp(p, &cst(c, x.w), x);
            }
            Pred::Ule => {
                if c > xm {
                    return cst(0, 1);
                }
                return cmp(p, &cst(c, x.w), x);
            }
            Pred::Slt | Pred::Sle => {
                if sx(c, w) < 0 {
                    return cst(1, 1);
                }
                let q = if p == Pred::Slt { Pred::Ult } else { Pred::Ule };
                return cmp(q, a, b);
            }
            _ => {}
        }
    }
    if let (K::Zext(x), K::Zext(y)) = (&a.k, &b.k) {
        if x.w == y.w {
            let q = match p {
                Pred::Slt => Pred::Ult,
                Pred::Sle => Pred::Ule,
                q => q,
            };
            return cmp(q, x, y);
        }
    }
    // trivial unsigned bounds
    match p {
        Pred::Ult => {
            if as_c(b) == Some(0) {
                return cst(0, 1);
            }
            if as_c(b) == Some(1) {
                return cmp(Pred::Eq, a, &cst(0, w));
            }
        }
        Pred::Ule => {
            if as_c(a) == Some(0) {
                return cst(1, 1);
            }
            if as_c(b) == Some(m128(u128::MAX, w)) {
                return cst(1, 1);
            }
        }
        _ => {}
    }
    mk(K::Cmp(p, a.clone(), b.clone()), 1)
}

pub struct Model {
    pub v: Vec<u64>,
}
impl Model {
    pub fn get(&self, i: u32) -> u64 {
        self.v.get(i as usize).copied().unwrap_or(0)
    }
}
pub fn eval(e: &E, m: &Model) -> u128 {
    if e.size <= 48 {
        ev(e, m, &mut None)
    } else {
        ev(e, m, &mut Some(HashMap::new()))
    }
}
fn ev(e: &E, m: &Model, memo: &mut Option<HashMap<*const Expr, u128>>) -> u128 {
    if let Some(mm) = memo {
        if let Some(v) = mm.get(&Arc::as_ptr(e)) {
            return *v;
        }
    }
    let r = match &e.k {
        K::Var(i) => m128(m.get(*i) as u128, e.w),
        K::Const(c) => *c,
        K::Bin(o, a, b) => cbin(*o, e.w, ev(a, m, memo), ev(b, m, memo)),
        K::Cmp(p, a, b) => ccmp(*p, a.w, ev(a, m, memo), ev(b, m, memo)) as u128,
        K::Not(a) => 1 - ev(a, m, memo),
        K::Ite(c, a, b) => {
            if ev(c, m, memo) == 1 {
                ev(a, m, memo)
            } else {
                ev(b, m, memo)
            }
        }
        K::Zext(a) => ev(a, m, memo),
        K::Sext(a) => m128(sx(ev(a, m, memo), a.w) as u128, e.w),
        K::Extract(a, l) => m128(ev(a, m, memo) >> l, e.w),
        K::Concat(h, l) => (ev(h, m, memo) << l.w) | ev(l, m, memo),
    };
    if let Some(mm) = memo {
        mm.insert(Arc::as_ptr(e), r);
    }
    r
}

/// SMT-LIB2 text of an expression (used for the second-solver cross-check).
pub fn smt(e: &E, out: &mut String, defs: &mut HashMap<*const Expr, usize>, body: &mut String) -> String {
    if let Some(n) = defs.get(&Arc::as_ptr(e)) {
        return format!("t{n}");
    }
    let _ = &out;
    let s = match &e.k {
        K::Var(i) => return format!("v{i}"),
        K::Const(c) => return format!("(_ bv{} {})", c, e.w),
        K::Bin(o, a, b) => {
            let n = match o {
                BinOp::Add => "bvadd",
                BinOp::Sub => "bvsub",
                BinOp::Mul => "bvmul",
                BinOp::UDiv => "bvudiv",
                BinOp::SDiv => "bvsdiv",
                BinOp::URem => "bvurem",
                BinOp::SRem => "bvsrem",
                BinOp::Shl => "bvshl",
                BinOp::LShr => "bvlshr",
                BinOp::AShr => "bvashr",
                BinOp::And => "bvand",
                BinOp::Or => "bvor",
                BinOp::Xor => "bvxor",
            };
            let x = smt(a, out, defs, body);
            let y = smt(b, out, defs, body);
            format!("({n} {x} {y})")
        }
        K::Cmp(p, a, b) => {
            let x = smt(a, out, defs, body);
            let y = smt(b, out, defs, body);
            let c = match p {
                Pred::Eq => format!("(= {x} {y})"),
                Pred::Ne => format!("(not (= {x} {y}))"),
                Pred::Ult => format!("(bvult {x} {y})"),
                Pred::Ule => format!("(bvule {x} {y})"),
                Pred::Ugt => format!("(bvugt {x} {y})"),
                Pred::Uge => format!("(bvuge {x} {y})"),
                Pred::Slt => format!("(bvslt {x} {y})"),
                Pred::Sle => format!("(bvsle {x} {y})"),
                Pred::Sgt => format!("(bvsgt {x} {y})"),
                Pred::Sge => format!("(bvsge {x} {y})"),
            };
            format!("(ite {c} #b1 #b0)")
        }
        K::Not(a) => format!("(bvnot {})", smt(a, out, defs, body)),
        K::Ite(c, a, b) => {
            let c = smt(c, out, defs, body);
            let x = smt(a, out, defs, body);
            let y = smt(b, out, defs, body);
            format!("(ite (= {c} #b1) {x} {y})")
        }
        K::Zext(a) => format!("((_ zero_extend {}) {})", e.w - a.w, smt(a, out, defs, body)),
        K::Sext(a) => format!("((_ sign_extend {}) {})", e.w - a.w, smt(a, out, defs, body)),
        K::Extract(a, l) => format!("((_ extract {} {}) {})", l + e.w - 1, l, smt(a, out, defs, body)),
        K::Concat(h, l) => {
            let x = smt(h, out, defs, body);
            let y = smt(l, out, defs, body);
            format!("(concat {x} {y})")
        }
    };
    let n = defs.len();
    defs.insert(Arc::as_ptr(e), n);
    body.push_str(&format!("(define-fun t{n} () (_ BitVec {}) {s})\n", e.w));
    format!("t{n}")
}

pub fn collect_vars(e: &E, seen: &mut std::collections::HashSet<*const Expr>, out: &mut std::collections::BTreeMap<u32, u32>) {
    if !seen.insert(Arc::as_ptr(e)) {
        return;
    }
    match &e.k {
        K::Var(i) => {
            out.insert(*i, e.w);
        }
        K::Const(_) => {}
        K::Bin(_, a, b) | K::Cmp(_, a, b) | K::Concat(a, b) => {
            collect_vars(a, seen, out);
            collect_vars(b, seen, out);
        }
        K::Not(a) | K::Zext(a) | K::Sext(a) | K::Extract(a, _) => collect_vars(a, seen, out),
        K::Ite(c, a, b) => {
            collect_vars(c, seen, out);
            collect_vars(a, seen, out);
            collect_vars(b, seen, out);
        }
    }
}
