//! Z3 (C API) back end, one context per worker thread, plus a shared query cache.
use crate::expr::*;
use crate::ir::{BinOp, Pred};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {e}");
}
pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Default)]
pub struct Stats {
    pub queries: AtomicU64,
    pub cached: AtomicU64,
    pub solver_ns: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub model_hits: AtomicU64,
}

pub enum Ans {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

type CacheV = Option<Arc<Vec<(u32, u64)>>>; // None = unsat
pub struct Shared {
    pub stats: Stats,
    cache: Vec<Mutex<HashMap<u128, CacheV>>>,
    pub dump: Mutex<Vec<(String, bool)>>,
    pub dump_every: u64,
    /// debugging aid: write every query to this file before it is solved
    trace: Option<String>,
}
impl Shared {
    pub fn new(dump_every: u64) -> Self {
        Shared {
            stats: Stats::default(),
            cache: (0..64).map(|_| Mutex::new(HashMap::new())).collect(),
            dump: Mutex::new(vec![]),
            dump_every,
            trace: std::env::var("SYMEX_TRACE_QUERY").ok(),
        }
    }
}

/// one incremental Z3 solver and what is asserted in it
struct Inc {
    s: P,
    memo: HashMap<u128, (P, E)>,
    stack: Vec<u128>,
    since_reset: u32,
    /// order encoding: variables whose range has been asserted, with the stack height
    ranged: Vec<(u32, usize)>,
}
pub struct Solver {
    c: P,
    /// bit-vector encoding; order encoding (bounded integers, see [`Solver::tr_ord`])
    bv: Inc,
    ord: Inc,
    pure: HashMap<u128, (bool, E)>,
    pub sh: Arc<Shared>,
}
unsafe impl Send for Solver {}

impl Solver {
    pub fn new(sh: Arc<Shared>, timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mk = || {
                let s = Z3_mk_simple_solver(c);
                Z3_solver_inc_ref(c, s);
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let ts = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, ts.as_ptr()), timeout_ms);
                Z3_solver_set_params(c, s, p);
                Inc { s, memo: HashMap::new(), stack: vec![], since_reset: 0, ranged: vec![] }
            };
            Solver { c, bv: mk(), ord: mk(), pure: HashMap::new(), sh }
        }
    }
    /// Is this a boolean combination of unsigned comparisons between whole variables and constants?
    /// Such a condition means the same over bounded integers, which Z3 decides much faster.
    fn pure(&mut self, e: &E) -> bool {
        if let Some((r, _)) = self.pure.get(&e.h) {
            return *r;
        }
        let leaf = |x: &E| x.w > 1 && x.w <= 64 && matches!(x.k, K::Var(_) | K::Const(_));
        let r = match &e.k {
            K::Const(_) => e.w == 1,
            K::Not(x) => e.w == 1 && self.pure(x),
            K::Bin(BinOp::And | BinOp::Or | BinOp::Xor, x, y) => e.w == 1 && self.pure(x) && self.pure(y),
            K::Ite(q, x, y) => e.w == 1 && self.pure(q) && self.pure(x) && self.pure(y),
            K::Cmp(p, x, y) => match p {
                Pred::Eq | Pred::Ne if x.w == 1 => self.pure(x) && self.pure(y),
                Pred::Slt | Pred::Sle | Pred::Sgt | Pred::Sge => false,
                _ => leaf(x) && leaf(y),
            },
            _ => false,
        };
        self.pure.insert(e.h, (r, e.clone()));
        r
    }
    fn int_var(&self, i: u32) -> P {
        // symbols of the two encodings are kept apart
        unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, (i + (1 << 24)) as c_int), Z3_mk_int_sort(self.c)) }
    }
    fn tr_ord(&mut self, e: &E) -> P {
        if let Some((p, _)) = self.ord.memo.get(&e.h) {
            return *p;
        }
        let c = self.c;
        let a = unsafe {
            match &e.k {
                K::Var(i) => self.int_var(*i),
                K::Const(v) if e.w == 1 => {
                    let o = Z3_mk_unsigned_int64(c, 1, Z3_mk_int_sort(c));
                    Z3_inc_ref(c, o);
                    let z = Z3_mk_unsigned_int64(c, *v as u64, Z3_mk_int_sort(c));
                    Z3_inc_ref(c, z);
                    Z3_mk_eq(c, o, z)
                }
                K::Const(v) => Z3_mk_unsigned_int64(c, *v as u64, Z3_mk_int_sort(c)),
                K::Not(x) => {
                    let x = self.tr_ord(x);
                    Z3_mk_not(c, x)
                }
                K::Bin(o, x, y) => {
                    let ar = [self.tr_ord(x), self.tr_ord(y)];
                    match o {
                        BinOp::And => Z3_mk_and(c, 2, ar.as_ptr()),
                        BinOp::Or => Z3_mk_or(c, 2, ar.as_ptr()),
                        _ => {
                            let q = Z3_mk_eq(c, ar[0], ar[1]);
                            Z3_inc_ref(c, q);
                            Z3_mk_not(c, q)
                        }
                    }
                }
                K::Ite(q, x, y) => {
                    let (q, x, y) = (self.tr_ord(q), self.tr_ord(x), self.tr_ord(y));
                    Z3_mk_ite(c, q, x, y)
                }
                K::Cmp(p, x, y) => {
                    let (x, y) = (self.tr_ord(x), self.tr_ord(y));
                    match p {
                        Pred::Eq => Z3_mk_eq(c, x, y),
                        Pred::Ne => {
                            let q = Z3_mk_eq(c, x, y);
                            Z3_inc_ref(c, q);
                            Z3_mk_not(c, q)
                        }
                        Pred::Ult => Z3_mk_lt(c, x, y),
                        Pred::Ule => Z3_mk_le(c, x, y),
                        Pred::Ugt => Z3_mk_lt(c, y, x),
                        _ => Z3_mk_le(c, y, x),
                    }
                }
                _ => unreachable!(),
            }
        };
        unsafe { Z3_inc_ref(c, a) };
        self.ord.memo.insert(e.h, (a, e.clone()));
        a
    }
    fn add(&mut self, ord: bool, e: &E) {
        let c = self.c;
        unsafe {
            if !ord {
                let a = self.tr(e);
                Z3_solver_push(c, self.bv.s);
                Z3_solver_assert(c, self.bv.s, a);
                self.bv.stack.push(e.h);
                return;
            }
            let a = self.tr_ord(e);
            Z3_solver_push(c, self.ord.s);
            Z3_solver_assert(c, self.ord.s, a);
            let mut vs = Default::default();
            collect_vars(e, &mut Default::default(), &mut vs);
            let h = self.ord.stack.len() + 1;
            for (i, w) in vs {
                if self.ord.ranged.iter().any(|x| x.0 == i) {
                    continue;
                }
                self.ord.ranged.push((i, h));
                let t = Z3_mk_int_sort(c);
                let v = self.int_var(i);
                Z3_inc_ref(c, v);
                let z = Z3_mk_unsigned_int64(c, 0, t);
                Z3_inc_ref(c, z);
                let m = Z3_mk_unsigned_int64(c, u64::MAX >> (64 - w), t);
                Z3_inc_ref(c, m);
                let lo = Z3_mk_le(c, z, v);
                Z3_inc_ref(c, lo);
                let hi = Z3_mk_le(c, v, m);
                Z3_inc_ref(c, hi);
                Z3_solver_assert(c, self.ord.s, lo);
                Z3_solver_assert(c, self.ord.s, hi);
                for x in [v, z, m, lo, hi] {
                    Z3_dec_ref(c, x);
                }
            }
            self.ord.stack.push(e.h);
        }
    }
    fn cut(&mut self, ord: bool, same: usize) {
        let c = self.c;
        let s = if ord { &mut self.ord } else { &mut self.bv };
        s.since_reset += 1;
        unsafe {
            if s.since_reset > 4000 || same == usize::MAX {
                s.since_reset = 0;
                Z3_solver_reset(c, s.s);
                s.stack.clear();
                s.ranged.clear();
            } else if same < s.stack.len() {
                Z3_solver_pop(c, s.s, (s.stack.len() - same) as c_uint);
                s.stack.truncate(same);
                s.ranged.retain(|x| x.1 <= same);
            }
        }
    }
    fn solve(&mut self, ord: bool, cs: &[E]) -> c_int {
        // consecutive queries share a prefix of the path condition: keep it asserted
        let s = if ord { &self.ord } else { &self.bv };
        let same = s.stack.iter().zip(cs).take_while(|(a, b)| **a == b.h).count();
        self.cut(ord, same);
        let n = if ord { &self.ord } else { &self.bv }.stack.len();
        for e in &cs[n..] {
            self.add(ord, e);
        }
        unsafe { Z3_solver_check(self.c, if ord { self.ord.s } else { self.bv.s }) }
    }
    fn keep(&mut self, e: &E, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        self.bv.memo.insert(e.h, (a, e.clone()));
        a
    }
    /// width-1 expressions are translated to Bool, everything else to bit-vectors
    fn tr(&mut self, e: &E) -> P {
        if let Some((p, _)) = self.bv.memo.get(&e.h) {
            return *p;
        }
        let c = self.c;
        let w = e.w;
        let a = unsafe {
            match &e.k {
                K::Var(i) => {
                    let v = Z3_mk_const(c, Z3_mk_int_symbol(c, *i as c_int), Z3_mk_bv_sort(c, w));
                    if w == 1 {
                        Z3_inc_ref(c, v);
                        Z3_mk_eq(c, v, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                    } else {
                        v
                    }
                }
                K::Const(v) => {
                    if w == 1 {
                        let o = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                        Z3_inc_ref(c, o);
                        let z = Z3_mk_unsigned_int64(c, *v as u64, Z3_mk_bv_sort(c, 1));
                        Z3_inc_ref(c, z);
                        Z3_mk_eq(c, o, z)
                    } else if w <= 64 {
                        Z3_mk_unsigned_int64(c, *v as u64, Z3_mk_bv_sort(c, w))
                    } else {
                        let s = CString::new(v.to_string()).unwrap();
                        Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, w))
                    }
                }
                K::Bin(o, x, y) => {
                    let x = self.tr(x);
                    let y = self.tr(y);
                    if w == 1 {
                        let ar = [x, y];
                        match o {
                            BinOp::And | BinOp::Mul => Z3_mk_and(c, 2, ar.as_ptr()),
                            BinOp::Or => Z3_mk_or(c, 2, ar.as_ptr()),
                            BinOp::Xor | BinOp::Add | BinOp::Sub => {
                                let q = Z3_mk_eq(c, x, y);
                                Z3_inc_ref(c, q);
                                Z3_mk_not(c, q)
                            }
                            _ => panic!("1-bit op {:?}", o),
                        }
                    } else {
                        match o {
                            BinOp::Add => Z3_mk_bvadd(c, x, y),
                            BinOp::Sub => Z3_mk_bvsub(c, x, y),
                            BinOp::Mul => Z3_mk_bvmul(c, x, y),
                            BinOp::UDiv => Z3_mk_bvudiv(c, x, y),
                            BinOp::SDiv => Z3_mk_bvsdiv(c, x, y),
                            BinOp::URem => Z3_mk_bvurem(c, x, y),
                            BinOp::SRem => Z3_mk_bvsrem(c, x, y),
                            BinOp::Shl => Z3_mk_bvshl(c, x, y),
                            BinOp::LShr => Z3_mk_bvlshr(c, x, y),
                            BinOp::AShr => Z3_mk_bvashr(c, x, y),
                            BinOp::And => Z3_mk_bvand(c, x, y),
                            BinOp::Or => Z3_mk_bvor(c, x, y),
                            BinOp::Xor => Z3_mk_bvxor(c, x, y),
                        }
                    }
                }
                K::Cmp(p, x, y) => {
                    let one = x.w == 1;
                    let (mut x, mut y) = (self.tr(x), self.tr(y));
                    if one && !matches!(p, Pred::Eq | Pred::Ne) {
                        x = self.b2v(x);
                        y = self.b2v(y);
                    }
                    match p {
                        Pred::Eq => Z3_mk_eq(c, x, y),
                        Pred::Ne => {
                            let q = Z3_mk_eq(c, x, y);
                            Z3_inc_ref(c, q);
                            Z3_mk_not(c, q)
                        }
                        Pred::Ult => Z3_mk_bvult(c, x, y),
                        Pred::Ule => Z3_mk_bvule(c, x, y),
                        Pred::Ugt => Z3_mk_bvult(c, y, x),
                        Pred::Uge => Z3_mk_bvule(c, y, x),
                        Pred::Slt => Z3_mk_bvslt(c, x, y),
                        Pred::Sle => Z3_mk_bvsle(c, x, y),
                        Pred::Sgt => Z3_mk_bvslt(c, y, x),
                        Pred::Sge => Z3_mk_bvsle(c, y, x),
                    }
                }
                K::Not(x) => {
                    let x = self.tr(x);
                    if w == 1 {
                        Z3_mk_not(c, x)
                    } else {
                        Z3_mk_bvnot(c, x)
                    }
                }
                K::Ite(q, x, y) => {
                    let q = self.tr(q);
                    let x = self.tr(x);
                    let y = self.tr(y);
                    Z3_mk_ite(c, q, x, y)
                }
                K::Zext(x) => {
                    let mut q = self.tr(x);
                    if x.w == 1 {
                        q = self.b2v(q);
                    }
                    Z3_mk_zero_ext(c, w - x.w, q)
                }
                K::Sext(x) => {
                    let mut q = self.tr(x);
                    if x.w == 1 {
                        q = self.b2v(q);
                    }
                    Z3_mk_sign_ext(c, w - x.w, q)
                }
                K::Extract(x, l) => {
                    let q = self.tr(x);
                    let r = Z3_mk_extract(c, l + w - 1, *l, q);
                    if w == 1 {
                        Z3_inc_ref(c, r);
                        let o = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                        Z3_mk_eq(c, r, o)
                    } else {
                        r
                    }
                }
                K::Concat(h, l) => {
                    let mut x = self.tr(h);
                    if h.w == 1 {
                        x = self.b2v(x);
                    }
                    let mut y = self.tr(l);
                    if l.w == 1 {
                        y = self.b2v(y);
                    }
                    Z3_mk_concat(c, x, y)
                }
            }
        };
        self.keep(e, a)
    }
    unsafe fn b2v(&mut self, b: P) -> P {
        let c = self.c;
        let s = Z3_mk_bv_sort(c, 1);
        let o = Z3_mk_unsigned_int64(c, 1, s);
        Z3_inc_ref(c, o);
        let z = Z3_mk_unsigned_int64(c, 0, s);
        Z3_inc_ref(c, z);
        let r = Z3_mk_ite(c, b, o, z);
        Z3_inc_ref(c, r);
        r
    }
    fn gc(&mut self) {
        let c = self.c;
        for m in [&mut self.bv.memo, &mut self.ord.memo] {
            if m.len() > 300_000 {
                for (_, (p, _)) in m.drain() {
                    unsafe { Z3_dec_ref(c, p) };
                }
            }
        }
        if self.pure.len() > 300_000 {
            self.pure.clear();
        }
    }
    /// satisfiability of the conjunction
    pub fn check(&mut self, cs: &[E]) -> Ans {
        debug_assert!(!cs.is_empty());
        let st = self.sh.clone();
        let mut hs: Vec<u128> = cs.iter().map(|e| e.h).collect();
        hs.sort_unstable();
        hs.dedup();
        let mut key = 0x1234567u128;
        for h in hs {
            key = key.wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835).rotate_left(29) ^ h;
        }
        let shard = &st.cache[(key as usize) & 63];
        if let Some(r) = shard.lock().unwrap().get(&key) {
            st.stats.cached.fetch_add(1, Relaxed);
            return match r {
                None => Ans::Unsat,
                Some(m) => Ans::Sat((**m).clone()),
            };
        }
        self.gc();
        let t0 = std::time::Instant::now();
        let n = st.stats.queries.fetch_add(1, Relaxed);
        if let Some(p) = &st.trace {
            let _ = std::fs::write(p, dump_query(cs));
        }
        let mut ord = cs.iter().all(|e| self.pure(e));
        let mut r = self.solve(ord, cs);
        if r == 0 {
            // start afresh, in the other encoding, before giving up
            ord = false;
            self.cut(false, usize::MAX);
            r = self.solve(false, cs);
        }
        let ans = match r {
            1 => unsafe {
                let m = Z3_solver_get_model(self.c, if ord { self.ord.s } else { self.bv.s });
                Z3_model_inc_ref(self.c, m);
                let mut vs = Default::default();
                let mut seen = Default::default();
                for e in cs {
                    collect_vars(e, &mut seen, &mut vs);
                }
                let mut out = vec![];
                for (i, w) in vs {
                    let v = if ord {
                        self.int_var(i)
                    } else {
                        Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i as c_int), Z3_mk_bv_sort(self.c, w))
                    };
                    Z3_inc_ref(self.c, v);
                    let mut o: P = std::ptr::null_mut();
                    let mut u = 0u64;
                    if Z3_model_eval(self.c, m, v, true, &mut o) {
                        Z3_inc_ref(self.c, o);
                        Z3_get_numeral_uint64(self.c, o, &mut u);
                        Z3_dec_ref(self.c, o);
                    }
                    Z3_dec_ref(self.c, v);
                    out.push((i, u));
                }
                Z3_model_dec_ref(self.c, m);
                Ans::Sat(out)
            },
            -1 => Ans::Unsat,
            _ => Ans::Unknown,
        };
        if let Some(p) = &st.trace {
            let ms = t0.elapsed().as_millis();
            if ms > 5 {
                let _ = std::fs::write(format!("{p}.{n}.{ms}ms"), dump_query(cs));
            }
        }
        st.stats.solver_ns.fetch_add(t0.elapsed().as_nanos() as u64, Relaxed);
        match &ans {
            Ans::Sat(m) => {
                st.stats.sat.fetch_add(1, Relaxed);
                shard.lock().unwrap().insert(key, Some(Arc::new(m.clone())));
            }
            Ans::Unsat => {
                st.stats.unsat.fetch_add(1, Relaxed);
                shard.lock().unwrap().insert(key, None);
            }
            Ans::Unknown => {
                st.stats.unknown.fetch_add(1, Relaxed);
            }
        }
        if st.dump_every > 0 && n % st.dump_every == 0 && !matches!(ans, Ans::Unknown) {
            let s = dump_query(cs);
            st.dump.lock().unwrap().push((s, matches!(ans, Ans::Sat(_))));
        }
        ans
    }
}

/// SMT-LIB text of a conjunction
pub fn dump_query(cs: &[E]) -> String {
    let mut vs = Default::default();
    let mut seen = Default::default();
    for e in cs {
        collect_vars(e, &mut seen, &mut vs);
    }
    let mut s = String::from("(set-logic QF_BV)\n");
    for (i, w) in vs {
        s.push_str(&format!("(declare-const v{i} (_ BitVec {w}))\n"));
    }
    let mut defs = HashMap::new();
    let mut body = String::new();
    let mut asserts = String::new();
    let mut dummy = String::new();
    for e in cs {
        let t = smt(e, &mut dummy, &mut defs, &mut body);
        asserts.push_str(&format!("(assert (= {t} #b1))\n"));
    }
    s.push_str(&body);
    s.push_str(&asserts);
    s.push_str("(check-sat)\n");
    s
}
