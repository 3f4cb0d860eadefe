//! Symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    E(E),
    W(Box<u128>),
    A(Arc<Vec<Val>>),
}

pub struct Prog {
    pub m: Module,
    pub gaddr: HashMap<String, u64>,
    pub ext: HashMap<String, u64>,
    pub mem0: Mem,
    pub phis: Vec<Vec<Vec<(u32, Vec<(u32, Opd)>)>>>, // [func][block] -> (pred, copies)
    pub cover: Vec<Vec<AtomicBool>>,
    pub panics: Vec<bool>,
}

const FBASE: u64 = 0x1000;

fn fn_addr(i: usize) -> u64 {
    FBASE + (i as u64) * 16
}

fn intr_of(n: &str) -> Option<Intr> {
    use Intr::*;
    if n.contains("7___rustc") {
        if n.ends_with("12___rust_alloc") {
            return Some(RustAlloc);
        }
        if n.ends_with("14___rust_dealloc") {
            return Some(RustDealloc);
        }
        if n.ends_with("14___rust_realloc") {
            return Some(RustRealloc);
        }
        if n.ends_with("19___rust_alloc_zeroed") {
            return Some(RustAllocZ);
        }
        if n.contains("no_alloc_shim_is_unstable") {
            return Some(Nop);
        }
    }
    Some(match n {
        "sym_u8" => SymU8,
        "sym_u16" => SymU16,
        "sym_u32" => SymU32,
        "sym_u64" => SymU64,
        "sym_choice" => SymChoice,
        "sym_assume" => SymAssume,
        "sym_assert_" => SymAssert,
        "sym_fail_" => SymFail,
        "sym_observe" => SymObserve,
        "sym_cover" => SymCover,
        "sym_cmp_" => SymCmp,
        "sym_ite" => SymIte,
        "sym_is_sym" => SymIsSym,
        "sym_conc" => SymConc,
        "sym_mark" => SymMark,
        "memcmp" | "bcmp" => Memcmp,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "strlen" => Strlen,
        "malloc" => CMalloc,
        "free" => CFree,
        "calloc" => CCalloc,
        "realloc" => CRealloc,
        "abort" => Trap,
        "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_create" | "pthread_key_delete" => Ret0,
        "getenv" => Ret0,
        "gettid" => Ret0,
        "syscall" => Syscall,
        "getrandom" => Getrandom,
        _ => {
            let r = n.strip_prefix("llvm.")?;
            if r.starts_with("memcpy") || r.starts_with("memmove") {
                Memcpy
            } else if r.starts_with("memset") {
                Memset
            } else if r.starts_with("uadd.with.overflow") {
                AddO(false)
            } else if r.starts_with("sadd.with.overflow") {
                AddO(true)
            } else if r.starts_with("usub.with.overflow") {
                SubO(false)
            } else if r.starts_with("ssub.with.overflow") {
                SubO(true)
            } else if r.starts_with("umul.with.overflow") {
                MulO(false)
            } else if r.starts_with("smul.with.overflow") {
                MulO(true)
            } else if r.starts_with("uadd.sat") {
                UaddSat
            } else if r.starts_with("usub.sat") {
                UsubSat
            } else if r.starts_with("sadd.sat") {
                SaddSat
            } else if r.starts_with("ssub.sat") {
                SsubSat
            } else if r.starts_with("umax.") {
                Umax
            } else if r.starts_with("umin.") {
                Umin
            } else if r.starts_with("smax.") {
                Smax
            } else if r.starts_with("smin.") {
                Smin
            } else if r.starts_with("ctlz") {
                Ctlz
            } else if r.starts_with("cttz") {
                Cttz
            } else if r.starts_with("ctpop") {
                Ctpop
            } else if r.starts_with("bswap") {
                Bswap
            } else if r.starts_with("bitreverse") {
                Bitreverse
            } else if r.starts_with("fshl") {
                Fshl
            } else if r.starts_with("fshr") {
                Fshr
            } else if r.starts_with("ucmp") {
                Ucmp
            } else if r.starts_with("scmp") {
                Scmp
            } else if r.starts_with("abs.") {
                Abs
            } else if r.starts_with("expect") {
                Expect
            } else if r.starts_with("threadlocal.address") || r.starts_with("launder") || r.starts_with("strip") {
                Id0
            } else if r.starts_with("trap") || r.starts_with("debugtrap") {
                Trap
            } else if r.starts_with("is.constant") {
                Ret0
            } else if r.starts_with("vector.reduce.or") {
                VecReduceOr
            } else if r.starts_with("vector.reduce.and") {
                VecReduceAnd
            } else if r.starts_with("vector.reduce.add") {
                VecReduceAdd
            } else if r.starts_with("lifetime")
                || r.starts_with("assume")
                || r.starts_with("experimental.noalias")
                || r.starts_with("prefetch")
                || r.starts_with("donothing")
                || r.starts_with("x86.sse2.pause")
                || r.starts_with("invariant")
            {
                Nop
            } else {
                return None;
            }
        }
    })
}

impl Prog {
    pub fn link(mut m: Module) -> Result<Prog, String> {
        let mut gaddr = HashMap::new();
        for (i, f) in m.funcs.iter().enumerate() {
            gaddr.insert(f.name.clone(), fn_addr(i));
        }
        let mut ext = HashMap::new();
        let base = m.funcs.len();
        for (i, d) in m.decls.iter().enumerate() {
            let a = fn_addr(base + i);
            gaddr.entry(d.clone()).or_insert(a);
            ext.insert(d.clone(), a);
        }
        let mut a = GBASE + 64;
        for g in &m.globals {
            a = (a + g.align - 1) / g.align * g.align;
            gaddr.insert(g.name.clone(), a);
            a += g.ty.size().max(1) + 16;
            if g.init.is_none() {
                a += 64;
            }
        }
        if a >= HBASE {
            return Err("globals too large".into());
        }
        // aliases (may chain)
        for _ in 0..3 {
            for (n, c) in &m.aliases {
                if let Ok(v) = const_u64(c, &Ty::Ptr, &gaddr) {
                    gaddr.insert(n.clone(), v);
                }
            }
        }
        let mut mem = Mem::new();
        for g in &m.globals {
            if let Some(c) = &g.init {
                write_const(&mut mem, gaddr[&g.name], &g.ty, c, &gaddr).map_err(|e| format!("init of {}: {e}", g.name))?;
            } else {
                mem.write_bytes_raw(gaddr[&g.name], &vec![0u8; g.ty.size().max(8) as usize])?;
            }
        }
        let mut panics = vec![];
        for f in &m.funcs {
            let p = f.pretty.trim_start_matches('<');
            panics.push(
                (p.starts_with("core::panicking::") || p.starts_with("std::panicking::") || p.starts_with("alloc::alloc::handle_alloc_error") || (f.pretty.is_empty() && f.name.contains("9panicking")))
                    && !p.contains("panic_count"),
            );
        }
        // resolve operands and callees
        let alias_f: HashMap<String, u64> = m.aliases.iter().filter_map(|(n, _)| gaddr.get(n).map(|a| (n.clone(), *a))).collect();
        let fidx = m.fidx.clone();
        let nf = m.funcs.len();
        let mut phis = vec![];
        let mut cover = vec![];
        for f in m.funcs.iter_mut() {
            let mut fp = vec![];
            let mut cv = vec![];
            for b in f.blocks.iter_mut() {
                cv.push(AtomicBool::new(false));
                for i in b.ins.iter_mut() {
                    resolve_inst(i, &gaddr, &fidx, &panics, &alias_f, nf)?;
                }
                let mut edges: Vec<(u32, Vec<(u32, Opd)>)> = vec![];
                for (d, inc) in b.phis.iter_mut() {
                    for (p, o) in inc.iter_mut() {
                        resolve_opd(o, &gaddr)?;
                        match edges.iter_mut().find(|e| e.0 == *p) {
                            Some(e) => {
                                if !e.1.iter().any(|x| x.0 == *d) {
                                    e.1.push((*d, o.clone()))
                                }
                            }
                            None => edges.push((*p, vec![(*d, o.clone())])),
                        }
                    }
                }
                fp.push(edges);
            }
            phis.push(fp);
            cover.push(cv);
        }
        Ok(Prog { m, gaddr, ext, mem0: mem, phis, cover, panics })
    }
}

fn resolve_opd(o: &mut Opd, g: &HashMap<String, u64>) -> Result<(), String> {
    if let Opd::K(k) = o {
        let v = const_val(&k.1, &k.0, g)?;
        *o = match v {
            Val::C(c) => Opd::C(c),
            v => Opd::V(Arc::new(v)),
        };
    }
    Ok(())
}

fn resolve_inst(
    i: &mut I,
    g: &HashMap<String, u64>,
    fidx: &HashMap<String, usize>,
    panics: &[bool],
    alias: &HashMap<String, u64>,
    nf: usize,
) -> Result<(), String> {
    let mut err = None;
    let mut r = |o: &mut Opd| {
        if let Err(e) = resolve_opd(o, g) {
            err = Some(e);
        }
    };
    match i {
        I::Alloca { n, .. } => r(n),
        I::Load { p, .. } => r(p),
        I::Store { v, p, .. } => {
            r(v);
            r(p)
        }
        I::Gep { base, idx, .. } => {
            r(base);
            for x in idx {
                r(&mut x.0)
            }
        }
        I::Bin { a, b, .. } | I::Icmp { a, b, .. } | I::VBin { a, b, .. } | I::VIcmp { a, b, .. } | I::Shuffle { a, b, .. } => {
            r(a);
            r(b)
        }
        I::Select { c, a, b, .. } => {
            r(c);
            r(a);
            r(b)
        }
        I::Cast { a, .. } | I::VCast { a, .. } | I::ExtractV { a, .. } | I::Mov { a, .. } => r(a),
        I::InsertV { a, v, .. } => {
            r(a);
            r(v)
        }
        I::ExtractE { a, i, .. } => {
            r(a);
            r(i)
        }
        I::InsertE { a, v, i, .. } => {
            r(a);
            r(v);
            r(i)
        }
        I::CmpXchg { p, c, n, .. } => {
            r(p);
            r(c);
            r(n)
        }
        I::Rmw { p, v, .. } => {
            r(p);
            r(v)
        }
        I::CondBr(c, ..) => r(c),
        I::Switch { v, .. } => r(v),
        I::Ret(Some(o)) => r(o),
        I::Call { f, args, .. } => {
            for a in args {
                r(&mut a.1)
            }
            if let Callee::Name(n) = f {
                *f = if let Some(it) = intr_of(n) {
                    Callee::Intr(it)
                } else if let Some(k) = fidx.get(n) {
                    if panics[*k] {
                        Callee::Intr(Intr::Panic)
                    } else {
                        Callee::Fn(*k)
                    }
                } else if let Some(a) = alias.get(n) {
                    let k = ((*a - FBASE) / 16) as usize;
                    if k < nf {
                        Callee::Fn(k)
                    } else {
                        Callee::Unknown(n.clone())
                    }
                } else {
                    Callee::Unknown(n.clone())
                };
            } else if let Callee::Ind(o) = f {
                r(o)
            }
        }
        _ => {}
    }
    match err {
        Some(e) => {
            *i = I::Unsup(e);
            Ok(())
        }
        None => Ok(()),
    }
}

fn const_u64(c: &Cst, ty: &Ty, g: &HashMap<String, u64>) -> Result<u64, String> {
    match const_val(c, ty, g)? {
        Val::C(v) => Ok(v),
        v => Err(format!("const {:?}", v)),
    }
}
fn const_val(c: &Cst, ty: &Ty, g: &HashMap<String, u64>) -> Result<Val, String> {
    Ok(match c {
        Cst::Int(n) => {
            let w = ty.width();
            if w <= 64 {
                Val::C(mask(*n as u64, w))
            } else {
                Val::W(Box::new(*n))
            }
        }
        Cst::Sym(s) => Val::C(*g.get(s).ok_or(format!("symbol {s}"))?),
        Cst::Zero | Cst::Undef => zero_val(ty),
        Cst::Agg(v) => {
            let mut o = vec![];
            for (t, c) in v {
                o.push(const_val(c, t, g)?);
            }
            Val::A(Arc::new(o))
        }
        Cst::Str(b) => Val::A(Arc::new(b.iter().map(|x| Val::C(*x as u64)).collect())),
        Cst::Splat(t, c) => {
            let n = match ty {
                Ty::Vec(n, _) => *n,
                _ => 0,
            };
            let v = const_val(c, t, g)?;
            Val::A(Arc::new(vec![v; n as usize]))
        }
        Cst::Gep(t, b, ix) => {
            let mut a = const_u64(b, &Ty::Ptr, g)?;
            let mut cur = t.clone();
            for (k, (it, ic)) in ix.iter().enumerate() {
                let v = const_u64(ic, it, g)?;
                let w = it.width();
                let v = if w < 64 { ((v << (64 - w)) as i64 >> (64 - w)) as u64 } else { v };
                if k == 0 {
                    a = a.wrapping_add(v.wrapping_mul(cur.size()));
                } else {
                    let (o, n) = cur.field(v);
                    a = a.wrapping_add(o);
                    cur = n.clone();
                }
            }
            Val::C(a)
        }
        Cst::Cast(_, t, c, t2) => {
            let v = const_u64(c, t, g)?;
            Val::C(mask(v, t2.width()))
        }
        Cst::Bin(o, t, a, b) => {
            let x = const_u64(a, t, g)?;
            let y = const_u64(b, t, g)?;
            let r = match o.as_str() {
                "add" => x.wrapping_add(y),
                "sub" => x.wrapping_sub(y),
                "mul" => x.wrapping_mul(y),
                "and" => x & y,
                "or" => x | y,
                "xor" => x ^ y,
                "shl" => x << (y & 63),
                "lshr" => x >> (y & 63),
                _ => return Err(o.clone()),
            };
            Val::C(mask(r, t.width()))
        }
    })
}
fn zero_val(ty: &Ty) -> Val {
    match ty {
        Ty::Int(w) if *w > 64 => Val::W(Box::new(0)),
        Ty::Arr(n, t) | Ty::Vec(n, t) => Val::A(Arc::new(vec![zero_val(t); *n as usize])),
        Ty::Struct(fs, _) => Val::A(Arc::new(fs.iter().map(zero_val).collect())),
        _ => Val::C(0),
    }
}
fn write_const(m: &mut Mem, a: u64, ty: &Ty, c: &Cst, g: &HashMap<String, u64>) -> Result<(), String> {
    match c {
        Cst::Str(b) => m.write_bytes_raw(a, b),
        Cst::Zero | Cst::Undef => m.write_bytes_raw(a, &vec![0u8; ty.size() as usize]),
        Cst::Agg(v) => {
            for (i, (t, c)) in v.iter().enumerate() {
                let (o, _) = ty.field(i as u64);
                write_const(m, a + o, t, c, g)?;
            }
            Ok(())
        }
        _ => {
            let v = const_val(c, ty, g)?;
            match v {
                Val::C(x) => m.write_c(a, ty.size().min(8) as usize, x),
                Val::W(x) => {
                    m.write_c(a, 8, *x as u64)?;
                    m.write_c(a + 8, 8, (*x >> 64) as u64)
                }
                _ => Err("const write".into()),
            }
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub b: u32,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub sp: u64,
    pub ret: Option<u32>,
    pub inv: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Input {
    Conc(u64),
    Var(u32, u32),
}

#[derive(Clone)]
pub struct State {
    pub stack: Vec<Arc<Frame>>,
    pub top: Frame,
    pub mem: Mem,
    pub cons: Vec<E>,
    pub model: Arc<Model>,
    pub nv: u32,
    pub inputs: Vec<Input>,
    pub obs: Vec<Val>,
    pub steps: u64,
    pub sp: u64,
    pub covers: u128,
    pub forks: u32,
}

pub enum End {
    Done,
    Assume,
    Viol(String),
    Err(String),
}

pub struct Cfg {
    pub threads: usize,
    pub max_steps: u64,
    pub deadline: std::time::Instant,
    pub samples: usize,
    pub solver_timeout_ms: u32,
    pub max_viol: usize,
    pub seed: u64,
}

#[derive(Default)]
pub struct Outcome {
    pub paths: u64,
    pub assumed: u64,
    pub steps: u64,
    pub forks: u64,
    pub covers: u128,
    pub viols: Vec<(String, Vec<u64>, String)>,
    pub errs: Vec<String>,
    pub samples: Vec<(Vec<u64>, Vec<u64>)>,
    pub max_cons: usize,
    pub max_path_steps: u64,
    pub incomplete: bool,
    pub asserts: u64,
    pub sym_asserts: u64,
}

struct Pool {
    q: Mutex<(Vec<State>, usize)>, // states, active workers
    cv: Condvar,
    waiting: AtomicUsize,
    stop: AtomicBool,
}

pub struct Worker<'a> {
    p: &'a Prog,
    cfg: &'a Cfg,
    sv: Solver,
    pool: &'a Pool,
    pub local: Vec<State>,
    asserts: u64,
    sym_asserts: u64,
    forks: u64,
}

enum Ctl {
    Next,
    Jumped,
    Stop(End),
    Retry,
}

/// an upper bound of the (unsigned) value
fn umax(e: &E) -> u128 {
    let m = if e.w >= 128 { u128::MAX } else { (1u128 << e.w) - 1 };
    match &e.k {
        K::Const(c) => *c,
        K::Zext(x) => umax(x),
        K::Concat(h, l) => umax(h) << l.w | umax(l),
        K::Ite(_, x, y) => umax(x).max(umax(y)),
        K::Extract(x, 0) => umax(x).min(m),
        K::Bin(o, x, y) => match (o, as_c(y)) {
            (BinOp::URem, Some(c)) if c > 0 => umax(x).min(c - 1),
            (BinOp::UDiv, Some(c)) if c > 0 => umax(x) / c,
            (BinOp::And, Some(c)) => umax(x).min(c),
            (BinOp::LShr, Some(c)) if c < 128 => umax(x) >> c,
            (BinOp::Mul, Some(c)) if e.w <= 64 => match umax(x).checked_mul(c) {
                Some(v) if v <= m => v,
                _ => m,
            },
            (BinOp::Add, Some(c)) if e.w <= 64 => {
                let v = umax(x) + c;
                if v <= m {
                    v
                } else {
                    m
                }
            }
            _ => m,
        },
        _ => m,
    }
}
/// number of low bits known to be zero
fn low_zeros(e: &E) -> u32 {
    match &e.k {
        K::Concat(h, l) if as_c(l) == Some(0) => l.w + low_zeros(h).min(h.w),
        _ => 0,
    }
}
type XR<T> = Result<T, End>;
fn merr<T>(r: MR<T>) -> XR<T> {
    r.map_err(|e| End::Viol(format!("memory error: {e}")))
}

impl State {
    #[inline]
    fn get(&self, o: &Opd) -> Val {
        match o {
            Opd::R(r) => self.top.regs[*r as usize].clone(),
            Opd::C(c) => Val::C(*c),
            Opd::V(v) => (**v).clone(),
            Opd::K(_) => unreachable!(),
        }
    }
    #[inline]
    fn set(&mut self, d: u32, v: Val) {
        self.top.regs[d as usize] = v;
    }
}
fn to_e(v: &Val, w: u32) -> E {
    match v {
        Val::C(c) => cst(*c as u128, w),
        Val::W(c) => cst(**c, w),
        Val::E(e) => {
            debug_assert_eq!(e.w, w);
            e.clone()
        }
        Val::A(_) => panic!("aggregate as scalar"),
    }
}
fn from_e(e: E) -> Val {
    if let Some(c) = as_c(&e) {
        if e.w <= 64 {
            return Val::C(c as u64);
        }
        return Val::W(Box::new(c));
    }
    Val::E(e)
}

impl<'a> Worker<'a> {
    // ----- solver interface
    fn slice(&self, st: &State, seed: &[u64; 4]) -> Vec<E> {
        let mut vs = *seed;
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() {
                if !used[i] && (0..4).any(|k| c.vars[k] & vs[k] != 0) {
                    used[i] = true;
                    ch = true;
                    for k in 0..4 {
                        vs[k] |= c.vars[k];
                    }
                }
            }
            if !ch {
                break;
            }
        }
        st.cons.iter().zip(used).filter(|(_, u)| *u).map(|(c, _)| c.clone()).collect()
    }
    /// is cons ∧ c satisfiable? returns the model of the extended state
    fn sat(&mut self, st: &State, c: &E) -> XR<Option<Arc<Model>>> {
        if let Some(v) = as_c(c) {
            return Ok(if v == 1 { Some(st.model.clone()) } else { None });
        }
        for k in &st.cons {
            if k.h == c.h {
                return Ok(Some(st.model.clone()));
            }
        }
        let nc = not(c);
        for k in &st.cons {
            if k.h == nc.h {
                return Ok(None);
            }
        }
        if eval(c, &st.model) == 1 {
            self.sv.sh.stats.model_hits.fetch_add(1, Relaxed);
            return Ok(Some(st.model.clone()));
        }
        let mut q = self.slice(st, &c.vars);
        q.push(c.clone());
        match self.sv.check(&q) {
            Ans::Unsat => Ok(None),
            Ans::Unknown => Err(End::Err("solver returned unknown/timeout".into())),
            Ans::Sat(m) => {
                let mut v = st.model.v.clone();
                for (i, x) in m {
                    if v.len() <= i as usize {
                        v.resize(i as usize + 1, 0);
                    }
                    v[i as usize] = x;
                }
                let nm = Arc::new(Model { v });
                if eval(c, &nm) != 1 {
                    return Err(End::Err("model does not satisfy the query (engine bug)".into()));
                }
                Ok(Some(nm))
            }
        }
    }
    fn push_state(&mut self, mut s: State) {
        s.forks += 1;
        self.forks += 1;
        self.local.push(s);
        if self.pool.waiting.load(Relaxed) > 0 && self.local.len() > 0 {
            let mut g = self.pool.q.lock().unwrap();
            let w = self.pool.waiting.load(Relaxed).min((self.local.len() + 1) / 2).max(1);
            for _ in 0..w {
                // hand out the oldest states (largest subtrees)
                if !self.local.is_empty() {
                    g.0.push(self.local.remove(0));
                }
            }
            self.pool.cv.notify_all();
        }
    }
    /// Decide a symbolic condition: returns the side taken by this state. The other feasible side is
    /// forked with `other` applied to the clone.
    fn branch(&mut self, st: &mut State, c: &E, other: impl FnOnce(&mut State, bool)) -> XR<bool> {
        let side = eval(c, &st.model) == 1;
        let (tc, oc) = if side { (c.clone(), not(c)) } else { (not(c), c.clone()) };
        for k in &st.cons {
            if k.h == tc.h {
                return Ok(side);
            }
        }
        if let Some(m) = self.sat(st, &oc)? {
            let mut o = st.clone();
            o.cons.push(oc);
            o.model = m;
            other(&mut o, !side);
            self.push_state(o);
            st.cons.push(tc);
        }
        Ok(side)
    }
    /// make a value concrete by forking over its feasible values (instruction restarts in the fork)
    fn conc(&mut self, st: &mut State, v: &Val) -> XR<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::E(e) => {
                for k in &st.cons {
                    if let K::Cmp(Pred::Eq, a, b) = &k.k {
                        if a.h == e.h {
                            if let Some(c) = as_c(b) {
                                return Ok(c as u64);
                            }
                        }
                    }
                }
                let val = eval(e, &st.model);
                let eq = cmp(Pred::Eq, e, &cst(val, e.w));
                let ne = not(&eq);
                if let Some(m) = self.sat(st, &ne)? {
                    let mut o = st.clone();
                    o.cons.push(ne);
                    o.model = m;
                    self.push_state(o);
                }
                if as_c(&eq).is_none() {
                    st.cons.push(eq);
                }
                Ok(val as u64)
            }
            Val::W(c) => Ok(**c as u64),
            Val::A(_) => Err(End::Err("aggregate used as scalar".into())),
        }
    }

    /// Load from `base + e` where `e` is small and every candidate address is readable: the
    /// result is an if-then-else over the candidates instead of a fork per address.
    fn table_load(&mut self, st: &State, a: &Val, ty: &Ty) -> XR<Option<Val>> {
        let (Val::E(a), Ty::Int(w)) = (a, ty) else { return Ok(None) };
        if *w > 64 || *w < 8 {
            return Ok(None);
        }
        let n = ((*w + 7) / 8) as usize;
        let K::Bin(BinOp::Add, x, y) = &a.k else { return Ok(None) };
        let (e, base) = if let Some(c) = as_c(y) {
            (x.clone(), c as u64)
        } else if let Some(c) = as_c(x) {
            (y.clone(), c as u64)
        } else {
            return Ok(None);
        };
        let hi = umax(&e);
        if hi > 511 {
            return Ok(None);
        }
        let step = if let K::Zext(z) = &e.k { low_zeros(z) } else { low_zeros(&e) };
        let mut acc: Option<E> = None;
        let mut o = 0u64;
        while o as u128 <= hi {
            let v = match st.mem.read_c(base.wrapping_add(o), n) {
                Ok(Some(v)) => cst(mask(v, *w) as u128, *w),
                Ok(None) => match st.mem.read_e(base.wrapping_add(o), n) {
                    Ok(x) => extract(&x, 0, *w),
                    Err(_) => return Ok(None),
                },
                // possibly out of bounds: case split on the address instead
                Err(_) => return Ok(None),
            };
            acc = Some(match acc {
                None => v,
                Some(r) => ite(&cmp(Pred::Eq, &e, &cst(o as u128, e.w)), &v, &r),
            });
            o += 1 << step;
        }
        Ok(acc.map(from_e))
    }
    // ----- memory with types
    fn load(&mut self, st: &State, a: u64, ty: &Ty) -> XR<Val> {
        match ty {
            Ty::Int(w) if *w <= 64 => {
                let n = ((*w + 7) / 8) as usize;
                match merr(st.mem.read_c(a, n))? {
                    Some(v) => Ok(Val::C(mask(v, *w))),
                    None => {
                        let e = merr(st.mem.read_e(a, n))?;
                        Ok(from_e(extract(&e, 0, *w)))
                    }
                }
            }
            Ty::Ptr | Ty::F64 => match merr(st.mem.read_c(a, 8))? {
                Some(v) => Ok(Val::C(v)),
                None => Ok(from_e(merr(st.mem.read_e(a, 8))?)),
            },
            Ty::F32 => match merr(st.mem.read_c(a, 4))? {
                Some(v) => Ok(Val::C(v)),
                None => Ok(from_e(merr(st.mem.read_e(a, 4))?)),
            },
            Ty::Int(w) => {
                let n = ((*w + 7) / 8) as usize;
                if n <= 16 {
                    let lo = merr(st.mem.read_c(a, 8))?;
                    let hi = merr(st.mem.read_c(a + 8, n - 8))?;
                    if let (Some(l), Some(h)) = (lo, hi) {
                        return Ok(Val::W(Box::new(m128(l as u128 | (h as u128) << 64, *w))));
                    }
                    return Ok(from_e(extract(&merr(st.mem.read_e(a, n))?, 0, *w)));
                }
                Err(End::Err(format!("load i{w}")))
            }
            Ty::Vec(n, t) | Ty::Arr(n, t) => {
                if t.width() < 8 {
                    return Err(End::Err("sub-byte vector load".into()));
                }
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, a + i * t.size(), t)?);
                }
                Ok(Val::A(Arc::new(v)))
            }
            Ty::Struct(fs, _) => {
                let mut v = vec![];
                for i in 0..fs.len() {
                    let (o, t) = ty.field(i as u64);
                    v.push(self.load(st, a + o, t)?);
                }
                Ok(Val::A(Arc::new(v)))
            }
            _ => Err(End::Err(format!("load {:?}", ty))),
        }
    }
    fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> XR<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = ty.width();
                let n = ((w + 7) / 8) as usize;
                match v {
                    Val::C(c) => {
                        if n > 8 {
                            merr(st.mem.write_c(a, 8, *c))?;
                            return merr(st.mem.write_c(a + 8, n - 8, 0));
                        }
                        merr(st.mem.write_c(a, n, *c))
                    }
                    Val::W(c) => {
                        merr(st.mem.write_c(a, 8, **c as u64))?;
                        merr(st.mem.write_c(a + 8, n - 8, (**c >> 64) as u64))
                    }
                    Val::E(e) => merr(st.mem.write_e(a, n, e)),
                    Val::A(_) => Err(End::Err("store agg".into())),
                }
            }
            Ty::Vec(_, t) | Ty::Arr(_, t) => {
                if let Val::A(v) = v {
                    for (i, x) in v.iter().enumerate() {
                        self.store(st, a + i as u64 * t.size(), t, x)?;
                    }
                }
                Ok(())
            }
            Ty::Struct(..) => {
                if let Val::A(v) = v {
                    for (i, x) in v.iter().enumerate() {
                        let (o, t) = ty.field(i as u64);
                        self.store(st, a + o, t, x)?;
                    }
                }
                Ok(())
            }
            _ => Err(End::Err(format!("store {:?}", ty))),
        }
    }

    fn do_bin(op: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                _ => return Val::C(cbin(op, w, x as u128, y as u128) as u64),
            };
            if w <= 64 {
                return Val::C(mask(r, w));
            }
        }
        from_e(bin(op, &to_e(a, w), &to_e(b, w)))
    }
    fn do_cmp(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                _ => ccmp(p, w, x as u128, y as u128),
            };
            return Val::C(r as u64);
        }
        from_e(cmp(p, &to_e(a, w), &to_e(b, w)))
    }
    fn do_cast(op: CastOp, f: u32, t: u32, a: Val) -> Val {
        match (&a, op) {
            (_, CastOp::Nop | CastOp::Bitcast) => a,
            (Val::C(c), CastOp::Trunc) => Val::C(mask(*c, t)),
            (Val::C(c), CastOp::Zext) => {
                if t <= 64 {
                    a
                } else {
                    Val::W(Box::new(*c as u128))
                }
            }
            (Val::C(c), CastOp::Sext) if t <= 64 => Val::C(mask(((*c << (64 - f)) as i64 >> (64 - f)) as u64, t)),
            (_, CastOp::Trunc) => from_e(extract(&to_e(&a, f), 0, t)),
            (_, CastOp::Zext) => from_e(zext(&to_e(&a, f), t)),
            (_, CastOp::Sext) => from_e(sext(&to_e(&a, f), t)),
        }
    }
    fn select(c: &E, a: &Val, b: &Val, ty: &Ty) -> XR<Val> {
        Ok(match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut v = vec![];
                for i in 0..x.len() {
                    let t = match ty {
                        Ty::Struct(fs, _) => fs[i].clone(),
                        Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
                        _ => return Err(End::Err("select ty".into())),
                    };
                    v.push(Self::select(c, &x[i], &y[i], &t)?);
                }
                Val::A(Arc::new(v))
            }
            _ => {
                let w = ty.width();
                if let (Val::C(x), Val::C(y)) = (a, b) {
                    if x == y {
                        return Ok(a.clone());
                    }
                }
                from_e(ite(c, &to_e(a, w), &to_e(b, w)))
            }
        })
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.top.f as usize;
        let from = st.top.b;
        let edges = &self.p.phis[f][to as usize];
        if !edges.is_empty() {
            if let Some((_, cp)) = edges.iter().find(|e| e.0 == from) {
                if cp.len() == 1 {
                    let v = st.get(&cp[0].1);
                    st.set(cp[0].0, v);
                } else {
                    let vals: Vec<Val> = cp.iter().map(|c| st.get(&c.1)).collect();
                    for (c, v) in cp.iter().zip(vals) {
                        st.set(c.0, v);
                    }
                }
            }
        }
        st.top.b = to;
        st.top.pc = 0;
        let cv = &self.p.cover[f][to as usize];
        if !cv.load(Relaxed) {
            cv.store(true, Relaxed);
        }
    }
    fn enter(&mut self, st: &mut State, k: usize, args: Vec<Val>, ret: Option<u32>, inv: Option<u32>) -> XR<()> {
        let f = &self.p.m.funcs[k];
        if st.stack.len() > 1500 {
            return Err(End::Viol("stack overflow (call depth > 1500)".into()));
        }
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        let nf = Frame { f: k as u32, b: 0, pc: 0, regs, sp: st.sp, ret, inv };
        let old = std::mem::replace(&mut st.top, nf);
        st.stack.push(Arc::new(old));
        let cv = &self.p.cover[k][0];
        if !cv.load(Relaxed) {
            cv.store(true, Relaxed);
        }
        Ok(())
    }

    fn backtrace(&self, st: &State) -> String {
        let mut s = String::new();
        let mut fr: Vec<&Frame> = st.stack.iter().map(|x| &**x).collect();
        fr.push(&st.top);
        for f in fr.iter().rev().take(14) {
            let fu = &self.p.m.funcs[f.f as usize];
            let b = &fu.blocks[f.b as usize];
            let d = b.dbg.get((f.pc as usize).min(b.dbg.len().saturating_sub(1))).copied().unwrap_or(0);
            s.push_str(&format!("    {} [{}]\n", if fu.pretty.is_empty() { &fu.name } else { &fu.pretty }, crate::dbg_chain(&self.p.m, d)));
        }
        s
    }
    fn inputs_of(&self, st: &State) -> Vec<u64> {
        st.inputs
            .iter()
            .map(|i| match i {
                Input::Conc(c) => *c,
                Input::Var(v, w) => mask(st.model.get(*v), *w),
            })
            .collect()
    }

    fn new_var(&mut self, st: &mut State, w: u32) -> Val {
        let i = st.nv;
        st.nv += 1;
        st.inputs.push(Input::Var(i, w));
        Val::E(var(i, w))
    }

    fn intrinsic(&mut self, st: &mut State, it: Intr, args: &[(Ty, Opd)], rty: &Ty, dst: Option<u32>) -> XR<Ctl> {
        use Intr::*;
        let a: Vec<Val> = args.iter().map(|x| st.get(&x.1)).collect();
        let w = args.get(0).map(|x| x.0.width()).unwrap_or(0);
        let mut out: Option<Val> = None;
        match it {
            Nop => {}
            Ret0 => out = Some(Val::C(0)),
            RetM1 => out = Some(Val::C(u64::MAX)),
            Id0 | Expect => out = Some(a[0].clone()),
            Memcpy => {
                let d = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                if n > (1 << 26) {
                    return Err(End::Viol(format!("memcpy of {n} bytes")));
                }
                merr(st.mem.copy(d, s, n))?;
                out = Some(Val::C(d));
            }
            Memset => {
                let d = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])?;
                if n > (1 << 26) {
                    return Err(End::Viol(format!("memset of {n} bytes")));
                }
                match &a[1] {
                    Val::C(b) => merr(st.mem.write_bytes_raw(d, &vec![*b as u8; n as usize]))?,
                    Val::E(e) => {
                        let e = extract(e, 0, 8);
                        for i in 0..n {
                            merr(st.mem.write_b(d + i, B::S(e.clone())))?;
                        }
                    }
                    _ => return Err(End::Err("memset".into())),
                }
                out = Some(Val::C(d));
            }
            Memcmp => {
                let x = self.conc(st, &a[0])?;
                let y = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                out = Some(self.memcmp(st, x, y, n)?);
            }
            Strlen => {
                let mut x = self.conc(st, &a[0])?;
                let s = x;
                loop {
                    match merr(st.mem.read_b(x))? {
                        B::C(0) => break,
                        B::C(_) => x += 1,
                        // the fork starts over with what it knows of this byte
                        B::S(e) => {
                            let zero = cmp(Pred::Eq, &e, &cst(0, 8));
                            if self.branch(st, &zero, |_, _| ())? {
                                break;
                            }
                            x += 1;
                        }
                    }
                }
                out = Some(Val::C(x - s));
            }
            AddO(s) | SubO(s) | MulO(s) => {
                let r;
                let o;
                let op = match it {
                    AddO(_) => BinOp::Add,
                    SubO(_) => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let conc2 = match (&a[0], &a[1]) {
                    (Val::C(x), Val::C(y)) => Some((*x as u128, *y as u128)),
                    _ => None,
                };
                if let (Some((x, y)), true) = (conc2, w <= 32 || !s && w <= 64) {
                    if s {
                        let sxv = |v: u128| ((v << (128 - w)) as i128) >> (128 - w);
                        let f = match it {
                            AddO(_) => sxv(x) + sxv(y),
                            SubO(_) => sxv(x) - sxv(y),
                            _ => sxv(x) * sxv(y),
                        };
                        r = Val::C(mask(f as u64, w));
                        let back = sxv(m128(f as u128, w));
                        o = Val::C((back != f) as u64);
                    } else {
                        let f = match it {
                            AddO(_) => x + y,
                            SubO(_) => x.wrapping_sub(y),
                            _ => x * y,
                        };
                        r = Val::C(mask(f as u64, w));
                        o = Val::C((f > m128(u128::MAX, w)) as u64);
                    }
                } else {
                    let ew = if matches!(it, MulO(_)) { 2 * w } else { w + 1 };
                    if ew > 128 {
                        return Err(End::Err("wide mul overflow".into()));
                    }
                    let x = to_e(&a[0], w);
                    let y = to_e(&a[1], w);
                    let (xe, ye) = if s { (sext(&x, ew), sext(&y, ew)) } else { (zext(&x, ew), zext(&y, ew)) };
                    let f = bin(op, &xe, &ye);
                    let lo = extract(&f, 0, w);
                    let back = if s { sext(&lo, ew) } else { zext(&lo, ew) };
                    o = from_e(match it {
                        SubO(false) => cmp(Pred::Ult, &x, &y),
                        AddO(false) => cmp(Pred::Ult, &bin(BinOp::Add, &x, &y), &x),
                        _ => cmp(Pred::Ne, &back, &f),
                    });
                    r = from_e(lo);
                }
                out = Some(Val::A(Arc::new(vec![r, o])));
            }
            UaddSat | UsubSat => {
                let x = to_e(&a[0], w);
                let y = to_e(&a[1], w);
                let e = if it == UaddSat {
                    let s = bin(BinOp::Add, &x, &y);
                    ite(&cmp(Pred::Ult, &s, &x), &cst(u128::MAX, w), &s)
                } else {
                    ite(&cmp(Pred::Ult, &x, &y), &cst(0, w), &bin(BinOp::Sub, &x, &y))
                };
                out = Some(from_e(e));
            }
            SaddSat | SsubSat => return Err(End::Err("sadd.sat".into())),
            Umax | Umin | Smax | Smin => {
                let p = match it {
                    Umax => Pred::Ugt,
                    Umin => Pred::Ult,
                    Smax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                if let Val::A(xs) = &a[0] {
                    let ys = match &a[1] {
                        Val::A(y) => y,
                        _ => return Err(End::Err("vmax".into())),
                    };
                    let ew = match &args[0].0 {
                        Ty::Vec(_, t) => t.width(),
                        _ => 0,
                    };
                    let mut v = vec![];
                    for (x, y) in xs.iter().zip(ys.iter()) {
                        let (x, y) = (to_e(x, ew), to_e(y, ew));
                        v.push(from_e(ite(&cmp(p, &x, &y), &x, &y)));
                    }
                    out = Some(Val::A(Arc::new(v)));
                } else {
                    let x = to_e(&a[0], w);
                    let y = to_e(&a[1], w);
                    out = Some(from_e(ite(&cmp(p, &x, &y), &x, &y)));
                }
            }
            Ctlz | Cttz | Ctpop | Bswap | Bitreverse => {
                out = Some(match &a[0] {
                    Val::C(c) => {
                        let c = *c;
                        Val::C(match it {
                            Ctlz => (c.leading_zeros() - (64 - w)) as u64,
                            Cttz => c.trailing_zeros().min(w) as u64,
                            Ctpop => c.count_ones() as u64,
                            Bswap => c.swap_bytes() >> (64 - w),
                            _ => c.reverse_bits() >> (64 - w),
                        })
                    }
                    v => {
                        let x = to_e(v, w);
                        let bit = |i: u32| extract(&x, i, 1);
                        from_e(match it {
                            Ctlz => {
                                let mut r = cst(w as u128, w);
                                for i in 0..w {
                                    r = ite(&bit(i), &cst((w - 1 - i) as u128, w), &r);
                                }
                                r
                            }
                            Cttz => {
                                let mut r = cst(w as u128, w);
                                for i in (0..w).rev() {
                                    r = ite(&bit(i), &cst(i as u128, w), &r);
                                }
                                r
                            }
                            Ctpop => {
                                let mut r = cst(0, w);
                                for i in 0..w {
                                    r = bin(BinOp::Add, &r, &zext(&bit(i), w));
                                }
                                r
                            }
                            Bswap => {
                                let mut r = extract(&x, 0, 8);
                                for i in 1..w / 8 {
                                    r = concat(&r, &extract(&x, 8 * i, 8));
                                }
                                r
                            }
                            _ => {
                                let mut r = bit(0);
                                for i in 1..w {
                                    r = concat(&r, &bit(i));
                                }
                                r
                            }
                        })
                    }
                })
            }
            Fshl | Fshr => {
                let s = match &a[2] {
                    Val::C(c) => (*c % w as u64) as u32,
                    _ => return Err(End::Err("symbolic funnel shift".into())),
                };
                let s = if it == Fshl { s } else { (w - s) % w };
                if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                    let r = if s == 0 {
                        if it == Fshl {
                            *x
                        } else {
                            *y
                        }
                    } else {
                        mask(x << s | y >> (w - s), w)
                    };
                    out = Some(Val::C(r));
                } else {
                    let x = to_e(&a[0], w);
                    let y = to_e(&a[1], w);
                    out = Some(from_e(if s == 0 {
                        if it == Fshl {
                            x
                        } else {
                            y
                        }
                    } else {
                        concat(&extract(&x, 0, w - s), &extract(&y, w - s, s))
                    }));
                }
            }
            Ucmp | Scmp => {
                let rw = rty.width();
                let x = to_e(&a[0], w);
                let y = to_e(&a[1], w);
                let p = if it == Ucmp { Pred::Ult } else { Pred::Slt };
                out = Some(from_e(ite(
                    &cmp(p, &x, &y),
                    &cst(u128::MAX, rw),
                    &ite(&cmp(Pred::Eq, &x, &y), &cst(0, rw), &cst(1, rw)),
                )));
            }
            Abs => {
                let x = to_e(&a[0], w);
                out = Some(from_e(ite(&cmp(Pred::Slt, &x, &cst(0, w)), &bin(BinOp::Sub, &cst(0, w), &x), &x)));
            }
            VecReduceOr | VecReduceAnd | VecReduceAdd => {
                if let Val::A(v) = &a[0] {
                    let ew = rty.width();
                    let op = match it {
                        VecReduceOr => BinOp::Or,
                        VecReduceAnd => BinOp::And,
                        _ => BinOp::Add,
                    };
                    let mut r = v[0].clone();
                    for x in &v[1..] {
                        r = Self::do_bin(op, ew, &r, x);
                    }
                    out = Some(r);
                }
            }
            Trap => return Err(End::Viol("abort/trap executed".into())),
            RustAlloc | RustAllocZ => {
                let s = self.conc(st, &a[0])?;
                let al = self.conc(st, &a[1])?;
                out = Some(Val::C(merr(st.mem.alloc(s, al, it == RustAllocZ))?));
            }
            RustDealloc => {
                let p = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                let al = self.conc(st, &a[2])?;
                merr(st.mem.dealloc(p, Some(s), Some(al)))?;
            }
            RustRealloc => {
                let p = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                let al = self.conc(st, &a[2])?;
                let n = self.conc(st, &a[3])?;
                match st.mem.alloc_info(p) {
                    Some((os, oa, true)) if os == s && oa == al => {}
                    x => return Err(End::Viol(format!("memory error: realloc with layout ({s},{al}) of block {:?}", x))),
                }
                let q = merr(st.mem.alloc(n, al, false))?;
                merr(st.mem.copy(q, p, s.min(n)))?;
                merr(st.mem.dealloc(p, Some(s), Some(al)))?;
                out = Some(Val::C(q));
            }
            CMalloc => {
                let s = self.conc(st, &a[0])?;
                out = Some(Val::C(merr(st.mem.alloc(s, 16, false))?));
            }
            CCalloc => {
                let s = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                out = Some(Val::C(merr(st.mem.alloc(s * n, 16, true))?));
            }
            CFree => {
                let p = self.conc(st, &a[0])?;
                if p != 0 {
                    merr(st.mem.dealloc(p, None, None))?;
                }
            }
            CRealloc => return Err(End::Err("realloc".into())),
            Panic => {
                // last pointer argument is usually a &Location
                let mut loc = String::new();
                for v in a.iter().rev() {
                    if let Val::C(p) = v {
                        if let (Ok(Some(fp)), Ok(Some(fl)), Ok(Some(ln))) = (st.mem.read_c(*p, 8), st.mem.read_c(*p + 8, 8), st.mem.read_c(*p + 16, 4)) {
                            if fl < 300 {
                                if let Ok(b) = st.mem.read_bytes_raw(fp, fl) {
                                    if let Ok(s) = String::from_utf8(b) {
                                        if s.contains(".rs") {
                                            loc = format!(" at {}:{}", s.trim_end_matches('\0'), ln);
                                            break;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                return Err(End::Viol(format!("panic{loc}")));
            }
            SymU8 => out = Some(self.new_var(st, 8)),
            SymU16 => out = Some(self.new_var(st, 16)),
            SymU32 => out = Some(self.new_var(st, 32)),
            SymU64 => out = Some(self.new_var(st, 64)),
            SymChoice => {
                let n = match &a[0] {
                    Val::C(c) => *c,
                    _ => return Err(End::Err("sym_choice of symbolic n".into())),
                };
                if n == 0 {
                    return Err(End::Assume);
                }
                let base = st.inputs.len();
                for k in (1..n).rev() {
                    let mut o = st.clone();
                    o.inputs.push(Input::Conc(k));
                    if let Some(d) = dst {
                        o.set(d, Val::C(k));
                    }
                    o.top.pc += 1;
                    self.push_state(o);
                }
                debug_assert_eq!(base, st.inputs.len());
                st.inputs.push(Input::Conc(0));
                out = Some(Val::C(0));
            }
            SymAssume => match &a[0] {
                Val::C(c) => {
                    if *c & 1 == 0 {
                        return Err(End::Assume);
                    }
                }
                Val::E(e) => {
                    let c = if e.w == 1 { e.clone() } else { extract(e, 0, 1) };
                    match self.sat(st, &c)? {
                        None => return Err(End::Assume),
                        Some(m) => {
                            st.model = m;
                            if as_c(&c).is_none() && !st.cons.iter().any(|k| k.h == c.h) {
                                st.cons.push(c);
                            }
                        }
                    }
                }
                _ => return Err(End::Err("assume".into())),
            },
            SymAssert => {
                self.asserts += 1;
                match &a[0] {
                    Val::C(c) => {
                        if *c & 1 == 0 {
                            return Err(End::Viol(format!("assertion: {}", self.cstr(st, &a[1], &a[2]))));
                        }
                    }
                    Val::E(e) => {
                        self.sym_asserts += 1;
                        let c = if e.w == 1 { e.clone() } else { extract(e, 0, 1) };
                        if as_c(&c) != Some(1) {
                            let nc = not(&c);
                            if let Some(m) = self.sat(st, &nc)? {
                                st.model = m;
                                return Err(End::Viol(format!("assertion: {}", self.cstr(st, &a[1], &a[2]))));
                            }
                        }
                    }
                    _ => return Err(End::Err("assert".into())),
                }
            }
            SymFail => return Err(End::Viol(format!("assertion: {}", self.cstr(st, &a[0], &a[1])))),
            SymObserve => st.obs.push(a[0].clone()),
            SymCover => {
                if let Val::C(c) = &a[0] {
                    st.covers |= 1u128 << (c & 127);
                }
            }
            SymMark => {}
            SymCmp => {
                // (a, alen, b, blen) -> i32 three-way lexicographic compare without forking
                let x = self.conc(st, &a[0])?;
                let xl = self.conc(st, &a[1])?;
                let y = self.conc(st, &a[2])?;
                let yl = self.conc(st, &a[3])?;
                let n = xl.min(yl);
                let tail = match xl.cmp(&yl) {
                    std::cmp::Ordering::Less => cst(u128::MAX, 32),
                    std::cmp::Ordering::Equal => cst(0, 32),
                    _ => cst(1, 32),
                };
                out = Some(self.memcmp_tail(st, x, y, n, tail)?);
            }
            SymIte => {
                let (c, x, y) = (&a[0], &a[1], &a[2]);
                out = Some(match c {
                    Val::C(v) => {
                        if v & 1 == 1 {
                            x.clone()
                        } else {
                            y.clone()
                        }
                    }
                    Val::E(e) => {
                        let c = if e.w == 1 { e.clone() } else { extract(e, 0, 1) };
                        from_e(ite(&c, &to_e(x, 64), &to_e(y, 64)))
                    }
                    _ => return Err(End::Err("ite".into())),
                });
            }
            SymIsSym => out = Some(Val::C(matches!(a[0], Val::E(_)) as u64)),
            SymConc => out = Some(Val::C(self.conc(st, &a[0])?)),
            Getrandom => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                merr(st.mem.write_bytes_raw(p, &vec![0x5a; n as usize]))?;
                out = Some(Val::C(n));
            }
            Syscall => {
                let nr = self.conc(st, &a[0])?;
                match nr {
                    318 => {
                        let p = self.conc(st, &a[1])?;
                        let n = self.conc(st, &a[2])?;
                        merr(st.mem.write_bytes_raw(p, &vec![0x5a; n as usize]))?;
                        out = Some(Val::C(n));
                    }
                    202 => return Err(End::Viol("thread blocks on a futex (deadlock)".into())),
                    _ => return Err(End::Err(format!("syscall {nr}"))),
                }
            }
        }
        if let (Some(d), Some(v)) = (dst, out) {
            // bool returned from extern "C" etc: adjust width of symbolic results
            st.set(d, v);
        }
        Ok(Ctl::Next)
    }
    fn cstr(&self, st: &State, p: &Val, n: &Val) -> String {
        if let (Val::C(p), Val::C(n)) = (p, n) {
            if let Ok(b) = st.mem.read_bytes_raw(*p, *n) {
                return String::from_utf8_lossy(&b).into_owned();
            }
        }
        "?".into()
    }
    fn memcmp(&mut self, st: &State, x: u64, y: u64, n: u64) -> XR<Val> {
        self.memcmp_tail(st, x, y, n, cst(0, 32))
    }
    fn memcmp_tail(&mut self, st: &State, x: u64, y: u64, n: u64, tail: E) -> XR<Val> {
        let mut items = vec![];
        let mut res = tail;
        for i in 0..n {
            let a = merr(st.mem.read_b(x + i))?;
            let b = merr(st.mem.read_b(y + i))?;
            match (a, b) {
                (B::C(p), B::C(q)) => {
                    if p != q {
                        res = cst(if p < q { u32::MAX as u128 } else { 1 }, 32);
                        break;
                    }
                }
                (a, b) => {
                    let f = |b: B| match b {
                        B::C(c) => cst(c as u128, 8),
                        B::S(e) => e,
                    };
                    items.push((f(a), f(b)));
                }
            }
        }
        for (a, b) in items.into_iter().rev() {
            let lt = ite(&cmp(Pred::Ult, &a, &b), &cst(u32::MAX as u128, 32), &cst(1, 32));
            res = ite(&cmp(Pred::Eq, &a, &b), &res, &lt);
        }
        Ok(from_e(res))
    }

    fn step(&mut self, st: &mut State) -> XR<Ctl> {
        let f = &self.p.m.funcs[st.top.f as usize];
        let ins = &f.blocks[st.top.b as usize].ins[st.top.pc as usize];
        match ins {
            I::Nop => {}
            I::Mov { dst, a } => {
                let v = st.get(a);
                st.set(*dst, v)
            }
            I::Alloca { dst, size, n, align } => {
                let n = st.get(n);
                let n = self.conc(st, &n)?;
                let al = (*align).max(16);
                let p = (st.sp + al - 1) / al * al;
                st.sp = p + size * n;
                if st.sp >= STOP {
                    return Err(End::Viol("stack overflow".into()));
                }
                st.set(*dst, Val::C(p));
            }
            I::Load { dst, p, ty } => {
                let a = match p {
                    Opd::R(r) => match &st.top.regs[*r as usize] {
                        Val::C(c) => *c,
                        v => {
                            let v = v.clone();
                            if let Some(v) = self.table_load(st, &v, ty)? {
                                st.set(*dst, v);
                                return Ok(Ctl::Next);
                            }
                            self.conc(st, &v)?
                        }
                    },
                    Opd::C(c) => *c,
                    _ => 0,
                };
                let v = self.load(st, a, ty)?;
                st.set(*dst, v);
            }
            I::Store { v, p, ty } => {
                let pv = st.get(p);
                let a = self.conc(st, &pv)?;
                let v = st.get(v);
                self.store(st, a, ty, &v)?;
            }
            I::Gep { dst, base, off, idx } => {
                let b = st.get(base);
                if idx.is_empty() {
                    if let Val::C(c) = b {
                        st.set(*dst, Val::C(c.wrapping_add(*off)));
                    } else {
                        let v = Self::do_bin(BinOp::Add, 64, &b, &Val::C(*off));
                        st.set(*dst, v);
                    }
                } else {
                    let mut r = Self::do_bin(BinOp::Add, 64, &b, &Val::C(*off));
                    for (o, w, s) in idx {
                        let v = Self::do_cast(if *w < 64 { CastOp::Sext } else { CastOp::Nop }, *w, 64, st.get(o));
                        let m = Self::do_bin(BinOp::Mul, 64, &v, &Val::C(*s));
                        r = Self::do_bin(BinOp::Add, 64, &r, &m);
                    }
                    st.set(*dst, r);
                }
            }
            I::Bin { dst, op, w, a, b } => {
                let (x, y) = (st.get(a), st.get(b));
                if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
                    if let Val::C(0) = y {
                        return Err(End::Viol("division by zero (undefined behaviour)".into()));
                    }
                }
                let v = Self::do_bin(*op, *w, &x, &y);
                st.set(*dst, v);
            }
            I::Icmp { dst, p, w, a, b } => {
                let v = Self::do_cmp(*p, *w, &st.get(a), &st.get(b));
                st.set(*dst, v);
            }
            I::Select { dst, c, a, b, ty } => {
                let cv = st.get(c);
                let v = match cv {
                    Val::C(1) => st.get(a),
                    Val::C(_) => st.get(b),
                    Val::E(e) => Self::select(&e, &st.get(a), &st.get(b), ty)?,
                    Val::A(cs) => {
                        let (x, y) = (st.get(a), st.get(b));
                        if let (Val::A(x), Val::A(y), Ty::Vec(_, t)) = (x, y, ty) {
                            let mut o = vec![];
                            for i in 0..cs.len() {
                                o.push(match &cs[i] {
                                    Val::C(1) => x[i].clone(),
                                    Val::C(_) => y[i].clone(),
                                    Val::E(e) => Self::select(e, &x[i], &y[i], t)?,
                                    _ => return Err(End::Err("vselect".into())),
                                });
                            }
                            Val::A(Arc::new(o))
                        } else {
                            return Err(End::Err("vselect".into()));
                        }
                    }
                    Val::W(_) => return Err(End::Err("select".into())),
                };
                st.set(*dst, v);
            }
            I::Cast { dst, op, a, f, t } => {
                let v = Self::do_cast(*op, *f, *t, st.get(a));
                st.set(*dst, v);
            }
            I::VBin { dst, op, w, a, b } => {
                if let (Val::A(x), Val::A(y)) = (st.get(a), st.get(b)) {
                    let v = x.iter().zip(y.iter()).map(|(p, q)| Self::do_bin(*op, *w, p, q)).collect();
                    st.set(*dst, Val::A(Arc::new(v)));
                } else {
                    return Err(End::Err("vbin".into()));
                }
            }
            I::VIcmp { dst, p, w, a, b } => {
                if let (Val::A(x), Val::A(y)) = (st.get(a), st.get(b)) {
                    let v = x.iter().zip(y.iter()).map(|(a, b)| Self::do_cmp(*p, *w, a, b)).collect();
                    st.set(*dst, Val::A(Arc::new(v)));
                } else {
                    return Err(End::Err("vicmp".into()));
                }
            }
            I::VCast { dst, op, a, f, t } => {
                let v = st.get(a);
                let r = match op {
                    CastOp::Bitcast | CastOp::Nop => {
                        // flatten to bits, then rebuild
                        let bits: E = match (&v, f) {
                            (Val::A(x), Ty::Vec(_, et)) => {
                                let ew = et.width();
                                let mut r = to_e(&x[0], ew);
                                for y in &x[1..] {
                                    r = concat(&to_e(y, ew), &r);
                                }
                                r
                            }
                            (v, t) => to_e(v, t.width()),
                        };
                        match t {
                            Ty::Vec(n, et) => {
                                let ew = et.width();
                                Val::A(Arc::new((0..*n as u32).map(|i| from_e(extract(&bits, i * ew, ew))).collect()))
                            }
                            _ => from_e(bits),
                        }
                    }
                    _ => match (&v, f, t) {
                        (Val::A(x), Ty::Vec(_, a), Ty::Vec(_, b)) => {
                            Val::A(Arc::new(x.iter().map(|y| Self::do_cast(*op, a.width(), b.width(), y.clone())).collect()))
                        }
                        _ => return Err(End::Err("vcast".into())),
                    },
                };
                st.set(*dst, r);
            }
            I::ExtractV { dst, a, path } => {
                let mut v = st.get(a);
                for k in path {
                    v = match v {
                        Val::A(x) => x[*k as usize].clone(),
                        _ => return Err(End::Err("extractvalue".into())),
                    };
                }
                st.set(*dst, v);
            }
            I::InsertV { dst, a, v, path, ty } => {
                let mut agg = st.get(a);
                if !matches!(agg, Val::A(_)) {
                    agg = zero_val(ty);
                }
                fn ins(agg: &mut Val, path: &[u32], v: Val) {
                    if path.is_empty() {
                        *agg = v;
                    } else if let Val::A(x) = agg {
                        ins(&mut Arc::make_mut(x)[path[0] as usize], &path[1..], v)
                    }
                }
                let v = st.get(v);
                ins(&mut agg, path, v);
                st.set(*dst, agg);
            }
            I::ExtractE { dst, a, i } => {
                let iv = st.get(i);
                let k = self.conc(st, &iv)? as usize;
                if let Val::A(x) = st.get(a) {
                    st.set(*dst, x[k].clone());
                } else {
                    return Err(End::Err("extractelement".into()));
                }
            }
            I::InsertE { dst, a, v, i, n } => {
                let iv = st.get(i);
                let k = self.conc(st, &iv)? as usize;
                let mut x = match st.get(a) {
                    Val::A(x) => x,
                    _ => Arc::new(vec![Val::C(0); *n as usize]),
                };
                Arc::make_mut(&mut x)[k] = st.get(v);
                st.set(*dst, Val::A(x));
            }
            I::Shuffle { dst, a, b, m, n } => {
                let x = match st.get(a) {
                    Val::A(x) => x,
                    _ => return Err(End::Err("shuffle".into())),
                };
                let y = match st.get(b) {
                    Val::A(x) => x,
                    _ => x.clone(),
                };
                let v = m.iter().map(|&k| if k < *n { x[k as usize].clone() } else { y[(k - n) as usize].clone() }).collect();
                st.set(*dst, Val::A(Arc::new(v)));
            }
            I::CmpXchg { dst, p, c, n, w } => {
                let pv = st.get(p);
                let a = self.conc(st, &pv)?;
                let old = self.load(st, a, &Ty::Int(*w))?;
                let cv = st.get(c);
                let eq = Self::do_cmp(Pred::Eq, *w, &old, &cv);
                let ok = self.conc(st, &eq)?;
                if ok == 1 {
                    let nv = st.get(n);
                    self.store(st, a, &Ty::Int(*w), &nv)?;
                }
                st.set(*dst, Val::A(Arc::new(vec![old, Val::C(ok)])));
            }
            I::Rmw { dst, op, p, v, w } => {
                let pv = st.get(p);
                let a = self.conc(st, &pv)?;
                let old = self.load(st, a, &Ty::Int(*w))?;
                let v = st.get(v);
                let nv = match op.as_str() {
                    "xchg" => v,
                    "add" => Self::do_bin(BinOp::Add, *w, &old, &v),
                    "sub" => Self::do_bin(BinOp::Sub, *w, &old, &v),
                    "and" => Self::do_bin(BinOp::And, *w, &old, &v),
                    "or" => Self::do_bin(BinOp::Or, *w, &old, &v),
                    "xor" => Self::do_bin(BinOp::Xor, *w, &old, &v),
                    _ => return Err(End::Err(format!("atomicrmw {op}"))),
                };
                self.store(st, a, &Ty::Int(*w), &nv)?;
                st.set(*dst, old);
            }
            I::Call { dst, f, args, rty, inv } => {
                let k = match f {
                    Callee::Fn(k) => *k,
                    Callee::Intr(it) => {
                        let (it, inv) = (*it, *inv);
                        let r = self.intrinsic(st, it, args, rty, *dst)?;
                        if let Some(b) = inv {
                            self.jump(st, b);
                            return Ok(Ctl::Jumped);
                        }
                        return Ok(r);
                    }
                    Callee::Ind(o) => {
                        let v = st.get(o);
                        let a = self.conc(st, &v)?;
                        if a < FBASE || (a - FBASE) % 16 != 0 {
                            return Err(End::Viol(format!("call through invalid pointer {a:#x}")));
                        }
                        let k = ((a - FBASE) / 16) as usize;
                        if k >= self.p.m.funcs.len() {
                            let d = self.p.m.decls.get(k - self.p.m.funcs.len()).cloned().unwrap_or_default();
                            if let Some(it) = intr_of(&d) {
                                let r = self.intrinsic(st, it, args, rty, *dst)?;
                                return Ok(r);
                            }
                            return Err(End::Err(format!("indirect call of external {d}")));
                        }
                        if let Some(it) = intr_of(&self.p.m.funcs[k].name) {
                            let r = self.intrinsic(st, it, args, rty, *dst)?;
                            return Ok(r);
                        }
                        if self.p.panics[k] {
                            return self.intrinsic(st, Intr::Panic, args, rty, *dst);
                        }
                        k
                    }
                    Callee::Unknown(n) => return Err(End::Err(format!("call of external function {n}"))),
                    Callee::Name(n) => return Err(End::Err(format!("unresolved {n}"))),
                };
                let av = args.iter().map(|x| st.get(&x.1)).collect();
                self.enter(st, k, av, *dst, *inv)?;
                return Ok(Ctl::Jumped);
            }
            I::Br(b) => {
                self.jump(st, *b);
                return Ok(Ctl::Jumped);
            }
            I::CondBr(c, b1, b2) => {
                let (b1, b2) = (*b1, *b2);
                match st.get(c) {
                    Val::C(v) => self.jump(st, if v & 1 == 1 { b1 } else { b2 }),
                    Val::E(e) => {
                        let mut tmp: Option<State> = None;
                        let side = {
                            let side = eval(&e, &st.model) == 1;
                            let (tc, oc) = if side { (e.clone(), not(&e)) } else { (not(&e), e.clone()) };
                            if !st.cons.iter().any(|k| k.h == tc.h) {
                                if let Some(m) = self.sat(st, &oc)? {
                                    let mut o = st.clone();
                                    o.cons.push(oc);
                                    o.model = m;
                                    tmp = Some(o);
                                    st.cons.push(tc);
                                }
                            }
                            side
                        };
                        if let Some(mut o) = tmp {
                            self.jump(&mut o, if !side { b1 } else { b2 });
                            self.push_state(o);
                        }
                        self.jump(st, if side { b1 } else { b2 });
                    }
                    _ => return Err(End::Err("br".into())),
                }
                return Ok(Ctl::Jumped);
            }
            I::Switch { v, w, def, cases, map } => {
                let x = st.get(v);
                match x {
                    Val::C(c) => {
                        let t = match map {
                            Some(m) => m.get(&c).copied().unwrap_or(*def),
                            None => cases.iter().find(|k| k.0 == c as u128).map(|k| k.1).unwrap_or(*def),
                        };
                        self.jump(st, t);
                    }
                    Val::E(e) => {
                        let val = eval(&e, &st.model);
                        let t = cases.iter().find(|k| k.0 == val).map(|k| k.1).unwrap_or(*def);
                        let mut cond = cst(0, 1);
                        let mut any = cst(0, 1);
                        for (k, b) in cases {
                            let q = cmp(Pred::Eq, &e, &cst(*k, *w));
                            if *b == t {
                                cond = or1(&cond, &q);
                            }
                            any = or1(&any, &q);
                        }
                        if t == *def {
                            cond = or1(&cond, &not(&any));
                        }
                        self.branch(st, &cond, |_, _| {})?; // the other side restarts the switch
                        self.jump(st, t);
                    }
                    _ => return Err(End::Err("switch".into())),
                }
                return Ok(Ctl::Jumped);
            }
            I::Ret(o) => {
                let v = o.as_ref().map(|o| st.get(o));
                let Some(prev) = st.stack.pop() else {
                    return Ok(Ctl::Stop(End::Done));
                };
                let ret = st.top.ret;
                let inv = st.top.inv;
                st.sp = st.top.sp;
                st.top = Arc::try_unwrap(prev).unwrap_or_else(|a| (*a).clone());
                if let (Some(d), Some(v)) = (ret, v) {
                    st.set(d, v);
                }
                if let Some(b) = inv {
                    self.jump(st, b);
                } else {
                    st.top.pc += 1;
                }
                return Ok(Ctl::Jumped);
            }
            I::Unreachable => return Err(End::Viol("reached `unreachable` (undefined behaviour)".into())),
            I::Unsup(s) => return Err(End::Err(format!("unsupported instruction: {s}"))),
        }
        Ok(Ctl::Next)
    }

    fn run_path(&mut self, st: &mut State) -> End {
        let mut n = 0u64;
        loop {
            match self.step(st) {
                Ok(Ctl::Next) => st.top.pc += 1,
                Ok(Ctl::Jumped) => {}
                Ok(Ctl::Retry) => {}
                Ok(Ctl::Stop(e)) => return e,
                Err(e) => return e,
            }
            st.steps += 1;
            n += 1;
            if n & 0x3fff == 0 {
                if self.pool.stop.load(Relaxed) {
                    return End::Err("stopped".into());
                }
                if std::time::Instant::now() > self.cfg.deadline {
                    self.pool.stop.store(true, Relaxed);
                    return End::Err("deadline".into());
                }
            }
            if st.steps > self.cfg.max_steps {
                return End::Viol(format!("step limit {} exceeded (possible hang)", self.cfg.max_steps));
            }
        }
    }
}

pub fn explore(p: &Prog, entry: &str, cfg: &Cfg, sh: Arc<Shared>) -> Outcome {
    let mut out = Outcome::default();
    let Some(&k) = p.m.fidx.get(entry) else {
        out.errs.push(format!("no function {entry}"));
        return out;
    };
    let f = &p.m.funcs[k];
    let st = State {
        stack: vec![],
        top: Frame { f: k as u32, b: 0, pc: 0, regs: vec![Val::C(0); f.nregs as usize], sp: SBASE + 64, ret: None, inv: None },
        mem: p.mem0.clone(),
        cons: vec![],
        model: Arc::new(Model { v: vec![] }),
        nv: 0,
        inputs: vec![],
        obs: vec![],
        steps: 0,
        sp: SBASE + 64,
        covers: 0,
        forks: 0,
    };
    p.cover[k][0].store(true, Relaxed);
    let pool = Pool { q: Mutex::new((vec![st], 0)), cv: Condvar::new(), waiting: AtomicUsize::new(0), stop: AtomicBool::new(false) };
    let res = Mutex::new(out);
    let npaths = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..cfg.threads {
            let (pool, res, sh, npaths) = (&pool, &res, sh.clone(), &npaths);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let mut w = Worker { p, cfg, sv: Solver::new(sh, cfg.solver_timeout_ms), pool, local: vec![], asserts: 0, sym_asserts: 0, forks: 0 };
                    let mut o = Outcome::default();
                    'outer: loop {
                        let mut st = match w.local.pop() {
                            Some(s) => s,
                            None => {
                                let mut g = pool.q.lock().unwrap();
                                loop {
                                    if pool.stop.load(Relaxed) {
                                        break 'outer;
                                    }
                                    if let Some(s) = g.0.pop() {
                                        g.1 += 1;
                                        break s;
                                    }
                                    if g.1 == 0 {
                                        pool.cv.notify_all();
                                        break 'outer;
                                    }
                                    pool.waiting.fetch_add(1, Relaxed);
                                    let r = pool.cv.wait_timeout(g, std::time::Duration::from_millis(50)).unwrap();
                                    g = r.0;
                                    pool.waiting.fetch_sub(1, Relaxed);
                                }
                            }
                        };
                        let s0 = st.steps;
                        if std::time::Instant::now() > cfg.deadline {
                            pool.stop.store(true, Relaxed);
                            o.errs.push("deadline".into());
                            break 'outer;
                        }
                        let e = w.run_path(&mut st);
                        o.steps += st.steps - s0;
                        o.max_cons = o.max_cons.max(st.cons.len());
                        o.max_path_steps = o.max_path_steps.max(st.steps);
                        match e {
                            End::Done => {
                                o.paths += 1;
                                o.covers |= st.covers;
                                let id = npaths.fetch_add(1, Relaxed);
                                // deterministic-ish sampling: early paths and then thinning
                                if cfg.samples > 0 && (o.samples.len() < cfg.samples / cfg.threads + 1 || (id.wrapping_mul(0x9E3779B97F4A7C15) ^ cfg.seed) % 97 == 0) {
                                    let iv = w.inputs_of(&st);
                                    let ob = st
                                        .obs
                                        .iter()
                                        .map(|v| match v {
                                            Val::C(c) => *c,
                                            Val::E(e) => eval(e, &st.model) as u64,
                                            _ => 0,
                                        })
                                        .collect();
                                    if o.samples.len() >= 4 * cfg.samples {
                                        let k = (id as usize) % o.samples.len();
                                        o.samples[k] = (iv, ob);
                                    } else {
                                        o.samples.push((iv, ob));
                                    }
                                }
                            }
                            End::Assume => o.assumed += 1,
                            End::Viol(m) => {
                                let bt = w.backtrace(&st);
                                o.viols.push((m, w.inputs_of(&st), bt));
                                if o.viols.len() >= cfg.max_viol {
                                    pool.stop.store(true, Relaxed);
                                    o.incomplete = true;
                                }
                            }
                            End::Err(m) => {
                                if m != "stopped" {
                                    let bt = w.backtrace(&st);
                                    o.errs.push(format!("{m}\n{bt}"));
                                }
                                o.incomplete = true;
                                if o.errs.len() > 3 {
                                    pool.stop.store(true, Relaxed);
                                }
                            }
                        }
                        if pool.stop.load(Relaxed) {
                            o.incomplete = true;
                            break;
                        }
                        if w.local.is_empty() {
                            let mut g = pool.q.lock().unwrap();
                            g.1 -= 1;
                            if g.1 == 0 && g.0.is_empty() {
                                pool.cv.notify_all();
                            }
                        }
                    }
                    let mut r = res.lock().unwrap();
                    r.paths += o.paths;
                    r.assumed += o.assumed;
                    r.steps += o.steps;
                    r.forks += w.forks;
                    r.covers |= o.covers;
                    r.viols.extend(o.viols);
                    r.errs.extend(o.errs);
                    r.samples.extend(o.samples);
                    r.max_cons = r.max_cons.max(o.max_cons);
                    r.max_path_steps = r.max_path_steps.max(o.max_path_steps);
                    r.incomplete |= o.incomplete;
                    r.asserts += w.asserts;
                    r.sym_asserts += w.sym_asserts;
                })
                .unwrap();
        }
    });
    let mut o = res.into_inner().unwrap();
    o.incomplete |= pool.stop.load(Relaxed);
    o
}
