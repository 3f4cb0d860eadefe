//! Textual LLVM IR -> predecoded representation.
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Box<Ty>),
    Other,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                // store size rounded to alloc size
                align_up(b, self.align())
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => ((n * w as u64) + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs {
                    let a = if *packed { 1 } else { f.align() };
                    al = al.max(a);
                    o = align_up(o, a) + f.size();
                }
                align_up(o, al)
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(fs, p) => {
                if *p {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field(&self, i: u64) -> (u64, &Ty) {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    let a = if *packed { 1 } else { f.align() };
                    o = align_up(o, a);
                    if k as u64 == i {
                        return (o, f);
                    }
                    o += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => (i * t.size(), t),
            Ty::Vec(_, t) => (i * t.size(), t),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
}

/// Constants as they appear in the text.
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Sym(String),
    Zero,
    Undef,
    Agg(Vec<(Ty, Cst)>),
    Str(Vec<u8>),
    Gep(Ty, Box<Cst>, Vec<(Ty, Cst)>),
    Cast(String, Ty, Box<Cst>, Ty),
    Bin(String, Ty, Box<Cst>, Box<Cst>),
    Splat(Ty, Box<Cst>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    K(Arc<(Ty, Cst)>), // resolved at link time
    V(Arc<crate::exec::Val>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    Zext,
    Sext,
    Bitcast,
    Nop,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(String),
    Fn(usize),
    Intr(Intr),
    Ind(Opd),
    Unknown(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Nop,
    Id0, // returns first argument
    Memcpy,
    Memset,
    Memcmp,
    Strlen,
    AddO(bool),
    SubO(bool),
    MulO(bool),
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    Umax,
    Umin,
    Smax,
    Smin,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    Abs,
    Expect,
    Trap,
    RustAlloc,
    RustAllocZ,
    RustDealloc,
    RustRealloc,
    CMalloc,
    CFree,
    CCalloc,
    CRealloc,
    Panic,
    SymU8,
    SymU16,
    SymU32,
    SymU64,
    SymChoice,
    SymAssume,
    SymAssert,
    SymFail,
    SymObserve,
    SymCover,
    SymCmp,
    SymIte,
    SymIsSym,
    SymConc,
    SymMark,
    Ret0,
    RetM1,
    Getrandom,
    Syscall,
    VecReduceOr,
    VecReduceAnd,
    VecReduceAdd,
}

#[derive(Clone, Debug)]
pub enum I {
    Nop,
    Alloca { dst: u32, size: u64, n: Opd, align: u64 },
    Load { dst: u32, p: Opd, ty: Ty },
    Store { v: Opd, p: Opd, ty: Ty },
    Gep { dst: u32, base: Opd, off: u64, idx: Vec<(Opd, u32, u64)> },
    Bin { dst: u32, op: BinOp, w: u32, a: Opd, b: Opd },
    Icmp { dst: u32, p: Pred, w: u32, a: Opd, b: Opd },
    Select { dst: u32, c: Opd, a: Opd, b: Opd, ty: Ty },
    Cast { dst: u32, op: CastOp, a: Opd, f: u32, t: u32 },
    VBin { dst: u32, op: BinOp, w: u32, a: Opd, b: Opd },
    VIcmp { dst: u32, p: Pred, w: u32, a: Opd, b: Opd },
    VCast { dst: u32, op: CastOp, a: Opd, f: Ty, t: Ty },
    Call { dst: Option<u32>, f: Callee, args: Vec<(Ty, Opd)>, rty: Ty, inv: Option<u32> },
    ExtractV { dst: u32, a: Opd, path: Vec<u32> },
    InsertV { dst: u32, a: Opd, v: Opd, path: Vec<u32>, ty: Ty },
    ExtractE { dst: u32, a: Opd, i: Opd },
    InsertE { dst: u32, a: Opd, v: Opd, i: Opd, n: u64 },
    Shuffle { dst: u32, a: Opd, b: Opd, m: Vec<u64>, n: u64 },
    Mov { dst: u32, a: Opd },
    CmpXchg { dst: u32, p: Opd, c: Opd, n: Opd, w: u32 },
    Rmw { dst: u32, op: String, p: Opd, v: Opd, w: u32 },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { v: Opd, w: u32, def: u32, cases: Vec<(u128, u32)>, map: Option<Arc<HashMap<u64, u32>>> },
    Ret(Option<Opd>),
    Unreachable,
    Unsup(String),
}

pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>, // dst, (pred, val)
    pub ins: Vec<I>,
    pub dbg: Vec<u32>,
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub line_start: usize,
    pub dbg: u32,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub align: u64,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, usize>,
    pub decls: Vec<String>,
    pub globals: Vec<Global>,
    pub aliases: Vec<(String, Cst)>,
    pub types: HashMap<String, Ty>,
    pub meta: HashMap<u32, String>,
}

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(String),     // bare identifier / keyword
    Loc(String),    // %x
    Glob(String),   // @x
    Num(i128),
    Hex(String),    // 0x... float
    Str(Vec<u8>),   // "..."
    CStr(Vec<u8>),  // c"..."
    P(char),
    Meta(String),   // !123 or !name
    Attr(u32),      // #12
    Dots,
}

fn unesc(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1].is_ascii_hexdigit() && s[i + 2].is_ascii_hexdigit() {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

pub fn lex(line: &str) -> Vec<T> {
    let s = line.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < s.len() {
        let c = s[i];
        match c {
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => break,
            b'"' => {
                let st = i + 1;
                i += 1;
                while s[i] != b'"' {
                    i += 1;
                }
                v.push(T::Str(unesc(&s[st..i])));
                i += 1;
            }
            b'%' | b'@' => {
                let (name, ni) = if s[i + 1] == b'"' {
                    let st = i + 2;
                    let mut j = st;
                    while s[j] != b'"' {
                        j += 1;
                    }
                    (String::from_utf8_lossy(&unesc(&s[st..j])).into_owned(), j + 1)
                } else {
                    let st = i + 1;
                    let mut j = st;
                    while j < s.len() && idc(s[j]) {
                        j += 1;
                    }
                    (line[st..j].to_string(), j)
                };
                v.push(if c == b'%' { T::Loc(name) } else { T::Glob(name) });
                i = ni;
            }
            b'!' => {
                let st = i + 1;
                let mut j = st;
                while j < s.len() && (idc(s[j])) {
                    j += 1;
                }
                v.push(T::Meta(line[st..j].to_string()));
                i = j;
            }
            b'#' => {
                let st = i + 1;
                let mut j = st;
                while j < s.len() && s[j].is_ascii_digit() {
                    j += 1;
                }
                v.push(T::Attr(line[st..j].parse().unwrap_or(0)));
                i = j;
            }
            b'.' if i + 2 < s.len() && s[i + 1] == b'.' && s[i + 2] == b'.' => {
                v.push(T::Dots);
                i += 3;
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                while i < s.len() && (idc(s[i]) || s[i] == b'+') {
                    i += 1;
                }
                let t = &line[st..i];
                if let Ok(n) = t.parse::<i128>() {
                    v.push(T::Num(n));
                } else if let Ok(n) = t.parse::<u128>() {
                    v.push(T::Num(n as i128));
                } else {
                    v.push(T::Hex(t.to_string()));
                }
            }
            b'c' if i + 1 < s.len() && s[i + 1] == b'"' => {
                let st = i + 2;
                i = st;
                while s[i] != b'"' {
                    i += 1;
                }
                v.push(T::CStr(unesc(&s[st..i])));
                i += 1;
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let st = i;
                while i < s.len() && idc(s[i]) {
                    i += 1;
                }
                v.push(T::Id(line[st..i].to_string()));
            }
            _ => {
                v.push(T::P(c as char));
                i += 1;
            }
        }
    }
    v
}

struct P<'a> {
    t: &'a [T],
    i: usize,
    types: &'a HashMap<String, Ty>,
}
type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<T> {
        let t = self.t.get(self.i).cloned().ok_or("eol")?;
        self.i += 1;
        Ok(t)
    }
    fn is(&self, c: char) -> bool {
        matches!(self.peek(), Some(T::P(x)) if *x == c)
    }
    fn isid(&self, s: &str) -> bool {
        matches!(self.peek(), Some(T::Id(x)) if x == s)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatid(&mut self, s: &str) -> bool {
        if self.isid(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?}", c, self.peek()))
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            T::Num(n) => Ok(n),
            t => Err(format!("expected number got {:?}", t)),
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(T::Id(s)) => is_ty_id(s),
            Some(T::P(c)) => matches!(c, '{' | '[' | '<'),
            Some(T::Loc(n)) => self.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            T::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eatid("addrspace") {
                        self.expect('(')?;
                        self.num()?;
                        self.expect(')')?;
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "token" | "x86_fp80" | "fp128" | "half" => Ty::Other,
                _ if s.starts_with('i') => Ty::Int(s[1..].parse().map_err(|_| format!("type {s}"))?),
                _ => return Err(format!("type {s}")),
            },
            T::Loc(n) => self.types.get(&n).cloned().ok_or(format!("named type {n}"))?,
            T::P('[') => {
                let n = self.num()?;
                if !self.eatid("x") {
                    return Err("x".into());
                }
                let t = self.ty()?;
                self.expect(']')?;
                Ty::Arr(n as u64, Box::new(t))
            }
            T::P('{') => {
                let mut fs = vec![];
                if !self.eat('}') {
                    loop {
                        fs.push(self.ty()?);
                        if self.eat('}') {
                            break;
                        }
                        self.expect(',')?;
                    }
                }
                Ty::Struct(fs, false)
            }
            T::P('<') => {
                if self.eat('{') {
                    let mut fs = vec![];
                    if !self.eat('}') {
                        loop {
                            fs.push(self.ty()?);
                            if self.eat('}') {
                                break;
                            }
                            self.expect(',')?;
                        }
                    }
                    self.expect('>')?;
                    Ty::Struct(fs, true)
                } else {
                    let n = self.num()?;
                    if !self.eatid("x") {
                        return Err("x".into());
                    }
                    let t = self.ty()?;
                    self.expect('>')?;
                    Ty::Vec(n as u64, Box::new(t))
                }
            }
            t => return Err(format!("type? {:?}", t)),
        };
        Ok(t)
    }
    fn skip_parens(&mut self) -> R<()> {
        if self.eat('(') {
            let mut d = 1;
            while d > 0 {
                match self.next()? {
                    T::P('(') => d += 1,
                    T::P(')') => d -= 1,
                    _ => {}
                }
            }
        }
        Ok(())
    }
    /// skip parameter/return attributes up to something satisfying `stop`
    fn skip_attrs_to_type(&mut self) -> R<()> {
        while !self.at_type() {
            match self.next()? {
                T::Id(s) => {
                    if s == "align" {
                        if matches!(self.peek(), Some(T::Num(_))) {
                            self.i += 1;
                            continue;
                        }
                    }
                    self.skip_parens()?;
                }
                T::Str(_) => {
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                T::Attr(_) => {}
                t => return Err(format!("attr? {:?}", t)),
            }
        }
        Ok(())
    }
    fn skip_param_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(T::Id(s)) => {
                    let s = s.clone();
                    if is_const_id(&s) {
                        return Ok(());
                    }
                    self.i += 1;
                    if s == "align" && matches!(self.peek(), Some(T::Num(_))) {
                        self.i += 1;
                        continue;
                    }
                    self.skip_parens()?;
                }
                Some(T::Str(_)) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn typed_const(&mut self) -> R<(Ty, Cst)> {
        let t = self.ty()?;
        let c = self.cst(&t)?;
        Ok((t, c))
    }
    fn cst(&mut self, ty: &Ty) -> R<Cst> {
        Ok(match self.next()? {
            T::Num(n) => Cst::Int(n as u128),
            T::Hex(h) => match ty {
                Ty::F64 | Ty::F32 => {
                    let bits = if let Some(x) = h.strip_prefix("0x") {
                        u64::from_str_radix(x, 16).map_err(|e| e.to_string())?
                    } else {
                        h.parse::<f64>().map_err(|e| e.to_string())?.to_bits()
                    };
                    if *ty == Ty::F32 {
                        Cst::Int((f64::from_bits(bits) as f32).to_bits() as u128)
                    } else {
                        Cst::Int(bits as u128)
                    }
                }
                _ => return Err(format!("const {h}")),
            },
            T::Glob(g) => Cst::Sym(g),
            T::CStr(b) => Cst::Str(b),
            T::Id(s) => match s.as_str() {
                "null" | "zeroinitializer" | "none" => Cst::Zero,
                "undef" | "poison" => Cst::Undef,
                "true" => Cst::Int(1),
                "false" => Cst::Int(0),
                "getelementptr" => {
                    while !self.is('(') {
                        self.i += 1;
                        // inrange(...) not expected
                    }
                    self.expect('(')?;
                    let t = self.ty()?;
                    self.expect(',')?;
                    let (_, b) = self.typed_const()?;
                    let mut ix = vec![];
                    while self.eat(',') {
                        self.eatid("inrange");
                        ix.push(self.typed_const()?);
                    }
                    self.expect(')')?;
                    Cst::Gep(t, Box::new(b), ix)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                    self.expect('(')?;
                    let (t, c) = self.typed_const()?;
                    if !self.eatid("to") {
                        return Err("to".into());
                    }
                    let t2 = self.ty()?;
                    self.expect(')')?;
                    Cst::Cast(s, t, Box::new(c), t2)
                }
                "add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" | "lshr" => {
                    while !self.is('(') {
                        self.i += 1;
                    }
                    self.expect('(')?;
                    let (t, a) = self.typed_const()?;
                    self.expect(',')?;
                    let (_, b) = self.typed_const()?;
                    self.expect(')')?;
                    Cst::Bin(s, t, Box::new(a), Box::new(b))
                }
                "splat" => {
                    self.expect('(')?;
                    let (t, a) = self.typed_const()?;
                    self.expect(')')?;
                    Cst::Splat(t, Box::new(a))
                }
                "c" => return Err("c".into()),
                _ => return Err(format!("const id {s}")),
            },
            T::P('{') => self.aggtail('}')?,
            T::P('[') => self.aggtail(']')?,
            T::P('<') => {
                if self.eat('{') {
                    let a = self.aggtail('}')?;
                    self.expect('>')?;
                    a
                } else {
                    self.aggtail('>')?
                }
            }
            t => return Err(format!("const {:?}", t)),
        })
    }
    fn aggtail(&mut self, end: char) -> R<Cst> {
        let mut v = vec![];
        if !self.eat(end) {
            loop {
                v.push(self.typed_const()?);
                if self.eat(end) {
                    break;
                }
                self.expect(',')?;
            }
        }
        Ok(Cst::Agg(v))
    }
}

fn is_ty_id(s: &str) -> bool {
    matches!(s, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "token" | "half" | "x86_fp80" | "fp128")
        || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn is_const_id(s: &str) -> bool {
    matches!(
        s,
        "null"
            | "zeroinitializer"
            | "none"
            | "undef"
            | "poison"
            | "true"
            | "false"
            | "getelementptr"
            | "ptrtoint"
            | "ptrtoaddr"
            | "inttoptr"
            | "bitcast"
            | "splat"
            | "add"
            | "sub"
            | "trunc"
            | "mul"
            | "xor"
    )
}

struct FCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl FCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let k = self.regs.len() as u32;
        self.regs.insert(n.to_string(), k);
        k
    }
    fn blk(&mut self, n: &str) -> R<u32> {
        self.blocks.get(n).copied().ok_or(format!("block {n}"))
    }
}

fn opd(p: &mut P, f: &mut FCtx, ty: &Ty) -> R<Opd> {
    if let Some(T::Loc(n)) = p.peek() {
        let n = n.clone();
        p.i += 1;
        return Ok(Opd::R(f.reg(&n)));
    }
    if *ty == Ty::Other {
        // metadata operand: skip
        let mut d = 0;
        loop {
            match p.peek() {
                None => break,
                Some(T::P('(')) => d += 1,
                Some(T::P(')')) => {
                    if d == 0 {
                        break;
                    }
                    d -= 1
                }
                Some(T::P(',')) if d == 0 => break,
                _ => {}
            }
            p.i += 1;
        }
        return Ok(Opd::C(0));
    }
    let c = p.cst(ty)?;
    Ok(mk_const(ty, c))
}
pub fn mask(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}
fn mk_const(ty: &Ty, c: Cst) -> Opd {
    match (&c, ty) {
        (Cst::Int(n), Ty::Int(w)) if *w <= 64 => Opd::C(mask(*n as u64, *w)),
        (Cst::Int(n), Ty::F64) => Opd::C(*n as u64),
        (Cst::Int(n), Ty::F32) => Opd::C(*n as u64),
        (Cst::Zero | Cst::Undef, Ty::Int(w)) if *w <= 64 => Opd::C(0),
        (Cst::Zero | Cst::Undef, Ty::Ptr | Ty::F32 | Ty::F64) => Opd::C(0),
        _ => Opd::K(Arc::new((ty.clone(), c))),
    }
}
fn topd(p: &mut P, f: &mut FCtx) -> R<(Ty, Opd)> {
    let t = p.ty()?;
    p.skip_param_attrs()?;
    let o = opd(p, f, &t)?;
    Ok((t, o))
}
fn label(p: &mut P, f: &mut FCtx) -> R<u32> {
    if !p.eatid("label") {
        return Err("label".into());
    }
    match p.next()? {
        T::Loc(n) => f.blk(&n),
        t => Err(format!("label {:?}", t)),
    }
}

fn parse_inst(toks: &[T], f: &mut FCtx, types: &HashMap<String, Ty>, pred_of: &mut Option<(u32, Vec<(u32, Opd)>)>) -> R<I> {
    let mut p = P { t: toks, i: 0, types };
    let mut dst: Option<u32> = None;
    if let (Some(T::Loc(n)), Some(T::P('='))) = (toks.get(0), toks.get(1)) {
        dst = Some(f.reg(n));
        p.i = 2;
    }
    let d = dst.unwrap_or(0);
    let mut op = match p.next()? {
        T::Id(s) => s,
        t => return Err(format!("op {:?}", t)),
    };
    if matches!(op.as_str(), "tail" | "musttail" | "notail") {
        op = match p.next()? {
            T::Id(s) => s,
            _ => return Err("tail".into()),
        };
    }
    let binop = |s: &str| {
        Some(match s {
            "add" => BinOp::Add,
            "sub" => BinOp::Sub,
            "mul" => BinOp::Mul,
            "udiv" => BinOp::UDiv,
            "sdiv" => BinOp::SDiv,
            "urem" => BinOp::URem,
            "srem" => BinOp::SRem,
            "shl" => BinOp::Shl,
            "lshr" => BinOp::LShr,
            "ashr" => BinOp::AShr,
            "and" => BinOp::And,
            "or" => BinOp::Or,
            "xor" => BinOp::Xor,
            _ => return None,
        })
    };
    if let Some(b) = binop(&op) {
        while !p.at_type() {
            p.i += 1;
        }
        let t = p.ty()?;
        let a = opd(&mut p, f, &t)?;
        p.expect(',')?;
        let c = opd(&mut p, f, &t)?;
        return Ok(match &t {
            Ty::Vec(_, e) => I::VBin { dst: d, op: b, w: e.width(), a, b: c },
            _ => I::Bin { dst: d, op: b, w: t.width(), a, b: c },
        });
    }
    Ok(match op.as_str() {
        "alloca" => {
            p.eatid("inalloca");
            let t = p.ty()?;
            let mut n = Opd::C(1);
            let mut al = t.align();
            while p.eat(',') {
                if p.eatid("align") {
                    al = p.num()? as u64;
                } else if p.at_type() {
                    n = topd(&mut p, f)?.1;
                } else {
                    break;
                }
            }
            I::Alloca { dst: d, size: t.size(), n, align: al }
        }
        "load" => {
            p.eatid("atomic");
            p.eatid("volatile");
            let t = p.ty()?;
            p.expect(',')?;
            let (_, a) = topd(&mut p, f)?;
            I::Load { dst: d, p: a, ty: t }
        }
        "store" => {
            p.eatid("atomic");
            p.eatid("volatile");
            let (t, v) = topd(&mut p, f)?;
            p.expect(',')?;
            let (_, a) = topd(&mut p, f)?;
            I::Store { v, p: a, ty: t }
        }
        "getelementptr" => {
            while !p.at_type() {
                p.i += 1;
                if p.is('(') {
                    p.skip_parens()?;
                }
            }
            let t = p.ty()?;
            p.expect(',')?;
            let (_, base) = topd(&mut p, f)?;
            let mut off = 0u64;
            let mut idx = vec![];
            let mut cur = t.clone();
            let mut first = true;
            while p.eat(',') {
                if !p.at_type() {
                    break;
                }
                let (it, io) = topd(&mut p, f)?;
                if first {
                    first = false;
                    add_idx(&mut off, &mut idx, io, it.width(), cur.size());
                } else {
                    match cur.clone() {
                        Ty::Struct(..) => {
                            let k = match io {
                                Opd::C(k) => k,
                                _ => return Err("struct gep".into()),
                            };
                            let (o, t) = cur.field(k);
                            off = off.wrapping_add(o);
                            let t = t.clone();
                            cur = t;
                        }
                        Ty::Arr(_, e) | Ty::Vec(_, e) => {
                            add_idx(&mut off, &mut idx, io, it.width(), e.size());
                            cur = *e;
                        }
                        _ => return Err("gep".into()),
                    }
                }
            }
            I::Gep { dst: d, base, off, idx }
        }
        "icmp" => {
            p.eatid("samesign");
            let pr = match p.next()? {
                T::Id(s) => s,
                _ => return Err("pred".into()),
            };
            let pr = match pr.as_str() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                _ => return Err("pred".into()),
            };
            let t = p.ty()?;
            let a = opd(&mut p, f, &t)?;
            p.expect(',')?;
            let b = opd(&mut p, f, &t)?;
            match &t {
                Ty::Vec(_, e) => I::VIcmp { dst: d, p: pr, w: e.width(), a, b },
                _ => I::Icmp { dst: d, p: pr, w: t.width(), a, b },
            }
        }
        "select" => {
            while !p.at_type() {
                p.i += 1;
            }
            let (_ct, c) = topd(&mut p, f)?;
            p.expect(',')?;
            let (t, a) = topd(&mut p, f)?;
            p.expect(',')?;
            let (_, b) = topd(&mut p, f)?;
            I::Select { dst: d, c, a, b, ty: t }
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
            while !p.at_type() {
                p.i += 1;
            }
            let t = p.ty()?;
            let a = opd(&mut p, f, &t)?;
            if !p.eatid("to") {
                return Err("to".into());
            }
            let t2 = p.ty()?;
            let isv = matches!(t, Ty::Vec(..)) || matches!(t2, Ty::Vec(..));
            let co = match op.as_str() {
                "trunc" => CastOp::Trunc,
                "zext" => CastOp::Zext,
                "sext" => CastOp::Sext,
                "bitcast" if isv => CastOp::Bitcast,
                "ptrtoint" if t2.width() < 64 => CastOp::Trunc,
                "inttoptr" if t.width() < 64 => CastOp::Zext,
                _ => CastOp::Nop,
            };
            if isv {
                I::VCast { dst: d, op: co, a, f: t, t: t2 }
            } else {
                I::Cast { dst: d, op: co, a, f: t.width(), t: t2.width() }
            }
        }
        "freeze" => {
            let (_, a) = topd(&mut p, f)?;
            I::Mov { dst: d, a }
        }
        "extractvalue" => {
            let (_, a) = topd(&mut p, f)?;
            let mut path = vec![];
            while p.eat(',') {
                if let Some(T::Num(_)) = p.peek() {
                    path.push(p.num()? as u32);
                } else {
                    break;
                }
            }
            I::ExtractV { dst: d, a, path }
        }
        "insertvalue" => {
            let (t, a) = topd(&mut p, f)?;
            p.expect(',')?;
            let (_, v) = topd(&mut p, f)?;
            let mut path = vec![];
            while p.eat(',') {
                if let Some(T::Num(_)) = p.peek() {
                    path.push(p.num()? as u32);
                } else {
                    break;
                }
            }
            I::InsertV { dst: d, a, v, path, ty: t }
        }
        "extractelement" => {
            let (_, a) = topd(&mut p, f)?;
            p.expect(',')?;
            let (_, i) = topd(&mut p, f)?;
            I::ExtractE { dst: d, a, i }
        }
        "insertelement" => {
            let (t, a) = topd(&mut p, f)?;
            p.expect(',')?;
            let (_, v) = topd(&mut p, f)?;
            p.expect(',')?;
            let (_, i) = topd(&mut p, f)?;
            let n = match t {
                Ty::Vec(n, _) => n,
                _ => 0,
            };
            I::InsertE { dst: d, a, v, i, n }
        }
        "shufflevector" => {
            let (t, a) = topd(&mut p, f)?;
            p.expect(',')?;
            let (_, b) = topd(&mut p, f)?;
            p.expect(',')?;
            let (mt, mc) = p.typed_const()?;
            let mn = match mt {
                Ty::Vec(n, _) => n,
                _ => return Err("shuf".into()),
            };
            let m = match mc {
                Cst::Zero | Cst::Undef => vec![0; mn as usize],
                Cst::Agg(v) => v
                    .iter()
                    .map(|(_, c)| match c {
                        Cst::Int(n) => *n as u64,
                        _ => 0,
                    })
                    .collect(),
                Cst::Splat(_, c) => match *c {
                    Cst::Int(n) => vec![n as u64; mn as usize],
                    _ => vec![0; mn as usize],
                },
                _ => return Err("shufmask".into()),
            };
            let n = match t {
                Ty::Vec(n, _) => n,
                _ => 0,
            };
            I::Shuffle { dst: d, a, b, m, n }
        }
        "cmpxchg" => {
            p.eatid("weak");
            p.eatid("volatile");
            let (_, a) = topd(&mut p, f)?;
            p.expect(',')?;
            let (t, c) = topd(&mut p, f)?;
            p.expect(',')?;
            let (_, n) = topd(&mut p, f)?;
            I::CmpXchg { dst: d, p: a, c, n, w: t.width() }
        }
        "atomicrmw" => {
            p.eatid("volatile");
            let o = match p.next()? {
                T::Id(s) => s,
                _ => return Err("rmw".into()),
            };
            let (_, a) = topd(&mut p, f)?;
            p.expect(',')?;
            let (t, v) = topd(&mut p, f)?;
            I::Rmw { dst: d, op: o, p: a, v, w: t.width() }
        }
        "fence" => I::Nop,
        "unreachable" => I::Unreachable,
        "ret" => {
            let t = p.ty()?;
            if t == Ty::Void {
                I::Ret(None)
            } else {
                I::Ret(Some(opd(&mut p, f, &t)?))
            }
        }
        "br" => {
            if p.isid("label") {
                I::Br(label(&mut p, f)?)
            } else {
                let (_, c) = topd(&mut p, f)?;
                p.expect(',')?;
                let a = label(&mut p, f)?;
                p.expect(',')?;
                let b = label(&mut p, f)?;
                I::CondBr(c, a, b)
            }
        }
        "switch" => {
            let (t, v) = topd(&mut p, f)?;
            p.expect(',')?;
            let def = label(&mut p, f)?;
            p.expect('[')?;
            let mut cases = vec![];
            let w = t.width();
            while !p.eat(']') {
                let (_, c) = p.typed_const()?;
                p.expect(',')?;
                let l = label(&mut p, f)?;
                if let Cst::Int(n) = c {
                    let m = if w >= 128 { n } else { n & ((1u128 << w) - 1) };
                    cases.push((m, l));
                } else {
                    return Err("case".into());
                }
            }
            let map = if w <= 64 && cases.len() > 6 {
                Some(Arc::new(cases.iter().map(|(a, b)| (*a as u64, *b)).collect()))
            } else {
                None
            };
            I::Switch { v, w, def, cases, map }
        }
        "phi" => {
            while !p.at_type() {
                p.i += 1;
            }
            let t = p.ty()?;
            let mut v = vec![];
            loop {
                p.expect('[')?;
                let o = opd(&mut p, f, &t)?;
                p.expect(',')?;
                let b = match p.next()? {
                    T::Loc(n) => f.blk(&n)?,
                    x => return Err(format!("phi {:?}", x)),
                };
                p.expect(']')?;
                v.push((b, o));
                if !p.eat(',') {
                    break;
                }
                if !p.is('[') {
                    break;
                }
            }
            *pred_of = Some((d, v));
            I::Nop
        }
        "call" | "invoke" => {
            p.skip_attrs_to_type()?;
            let rty = p.ty()?;
            // optional function type (varargs)
            if p.is('(') {
                p.skip_parens()?;
            }
            let callee = match p.next()? {
                T::Glob(g) => Callee::Name(g),
                T::Loc(l) => Callee::Ind(Opd::R(f.reg(&l))),
                T::Id(s) if s == "asm" => return Ok(I::Unsup(format!("inline asm {:?}", p.t.get(p.i..p.i+4)))),
                t => return Err(format!("callee {:?}", t)),
            };
            p.expect('(')?;
            let mut args = vec![];
            if !p.eat(')') {
                loop {
                    args.push(topd(&mut p, f)?);
                    if p.eat(')') {
                        break;
                    }
                    p.expect(',')?;
                }
            }
            let mut inv = None;
            if op == "invoke" {
                while !p.isid("to") {
                    p.next()?;
                }
                p.i += 1;
                inv = Some(label(&mut p, f)?);
            }
            if let Callee::Name(n) = &callee {
                if n.starts_with("llvm.dbg.") || n.starts_with("llvm.experimental.noalias") {
                    return Ok(I::Nop);
                }
            }
            I::Call { dst, f: callee, args, rty, inv }
        }
        _ => I::Unsup(op),
    })
}

fn add_idx(off: &mut u64, idx: &mut Vec<(Opd, u32, u64)>, o: Opd, w: u32, sz: u64) {
    match o {
        Opd::C(k) => {
            let k = if w < 64 { ((k << (64 - w)) as i64 >> (64 - w)) as u64 } else { k };
            *off = off.wrapping_add(k.wrapping_mul(sz));
        }
        o => idx.push((o, w, sz)),
    }
}

pub fn parse(text: &str) -> Result<Module, String> {
    let mut m = Module {
        funcs: vec![],
        fidx: HashMap::new(),
        decls: vec![],
        globals: vec![],
        aliases: vec![],
        types: HashMap::new(),
        meta: HashMap::new(),
    };
    let lines: Vec<&str> = text.lines().collect();
    // types first
    for l in &lines {
        if l.starts_with('%') {
            let t = lex(l);
            if let (Some(T::Loc(n)), Some(T::P('=')), Some(T::Id(k))) = (t.get(0), t.get(1), t.get(2)) {
                if k == "type" {
                    let tc = m.types.clone();
                    let mut p = P { t: &t, i: 3, types: &tc };
                    let ty = p.ty().unwrap_or(Ty::Other);
                    m.types.insert(n.clone(), ty);
                }
            }
        }
    }
    let mut i = 0;
    let mut pretty = String::new();
    while i < lines.len() {
        let l = lines[i];
        if l.is_empty() {
            i += 1;
            continue;
        }
        match l.as_bytes()[0] {
            b';' => {
                let c = l[1..].trim();
                if !c.starts_with("Function Attrs:") {
                    pretty = c.to_string();
                }
                i += 1;
            }
            b'!' => {
                if let Some((a, b)) = l.split_once(" = ") {
                    if let Ok(n) = a[1..].parse::<u32>() {
                        m.meta.insert(n, b.to_string());
                    }
                }
                i += 1;
            }
            b'@' => {
                let t = lex(l);
                parse_global(&t, &mut m).map_err(|e| format!("global line {}: {} in {}", i + 1, e, &l[..l.len().min(200)]))?;
                i += 1;
            }
            b'd' if l.starts_with("declare") => {
                let t = lex(l);
                for x in &t {
                    if let T::Glob(g) = x {
                        m.decls.push(g.clone());
                        break;
                    }
                }
                i += 1;
            }
            b'd' if l.starts_with("define") => {
                let st = i;
                let mut j = i + 1;
                while lines[j] != "}" {
                    j += 1;
                }
                let f = parse_func(&lines[st..j], st, &m.types, std::mem::take(&mut pretty))?;
                m.fidx.insert(f.name.clone(), m.funcs.len());
                m.funcs.push(f);
                i = j + 1;
            }
            _ => i += 1,
        }
    }
    Ok(m)
}

fn parse_global(t: &[T], m: &mut Module) -> R<()> {
    let name = match &t[0] {
        T::Glob(g) => g.clone(),
        _ => return Err("name".into()),
    };
    let mut i = 2;
    let mut ext = false;
    loop {
        match t.get(i) {
            Some(T::Id(s)) if s == "alias" => {
                let tc = &m.types;
                let mut p = P { t, i: i + 1, types: tc };
                p.ty()?;
                p.expect(',')?;
                let (_, c) = p.typed_const()?;
                m.aliases.push((name, c));
                return Ok(());
            }
            Some(T::Id(s)) if s == "global" || s == "constant" => {
                i += 1;
                break;
            }
            Some(T::Id(s)) => {
                if s == "external" || s == "extern_weak" {
                    ext = true;
                }
                i += 1;
                if matches!(t.get(i), Some(T::P('('))) {
                    while !matches!(t.get(i), Some(T::P(')'))) {
                        i += 1;
                    }
                    i += 1;
                }
            }
            Some(_) => i += 1,
            None => return Err("global kw".into()),
        }
    }
    let tc = m.types.clone();
    let mut p = P { t, i, types: &tc };
    let ty = p.ty()?;
    let init = if ext { None } else { Some(p.cst(&ty)?) };
    let mut align = ty.align().max(16);
    while p.i < p.t.len() {
        if p.eatid("align") {
            align = p.num()? as u64;
        } else {
            p.i += 1;
        }
    }
    m.globals.push(Global { name, ty, init, align: align.max(8) });
    Ok(())
}

fn parse_func(lines: &[&str], st: usize, types: &HashMap<String, Ty>, pretty: String) -> R<Func> {
    let hdr = lex(lines[0]);
    let mut k = 0;
    let name = loop {
        match &hdr[k] {
            T::Glob(g) => break g.clone(),
            _ => k += 1,
        }
    };
    k += 1;
    let mut f = FCtx { regs: HashMap::new(), blocks: HashMap::new() };
    let mut params = vec![];
    let mut dbg = 0;
    {
        let mut p = P { t: &hdr, i: k, types };
        p.expect('(')?;
        if !p.eat(')') {
            loop {
                if p.peek() == Some(&T::Dots) {
                    p.i += 1;
                    p.expect(')')?;
                    break;
                }
                p.ty()?;
                p.skip_param_attrs()?;
                match p.next()? {
                    T::Loc(n) => params.push(f.reg(&n)),
                    t => return Err(format!("param {:?} in {}", t, name)),
                }
                if p.eat(')') {
                    break;
                }
                p.expect(',')?;
            }
        }
        while p.i < p.t.len() {
            if let (T::Meta(a), Some(T::Meta(b))) = (&p.t[p.i], p.t.get(p.i + 1)) {
                if a == "dbg" {
                    dbg = b.parse().unwrap_or(0);
                }
            }
            p.i += 1;
        }
    }
    // join multi-line (switch) and collect blocks
    let mut joined: Vec<(usize, String)> = vec![];
    let mut i = 1;
    while i < lines.len() {
        let l = lines[i];
        let tl = l.trim_start();
        if tl.is_empty() || tl.starts_with(';') {
            i += 1;
            continue;
        }
        let mut s = l.to_string();
        let s0 = i;
        if tl.starts_with("switch ") && !tl.contains(']') {
            while !lines[i].trim_start().starts_with(']') {
                i += 1;
                s.push(' ');
                s.push_str(lines[i].trim());
            }
        }
        // invoke continues on next line ("to label")
        while i + 1 < lines.len() {
            let nt = lines[i + 1].trim_start();
            if nt.starts_with("to label") || nt.starts_with("cleanup") || nt.starts_with("catch ") || nt.starts_with("filter ") {
                i += 1;
                s.push(' ');
                s.push_str(nt);
            } else {
                break;
            }
        }
        joined.push((s0, s));
        i += 1;
    }
    let is_label = |s: &str| -> Option<String> {
        if s.starts_with(' ') || s.starts_with('\t') {
            return None;
        }
        let body = s.split(';').next().unwrap().trim_end();
        let body = body.strip_suffix(':')?;
        Some(body.trim_matches('"').to_string())
    };
    let mut bnames = vec![];
    let first_lbl = joined.first().and_then(|x| is_label(&x.1));
    if first_lbl.is_none() {
        let n = params.len();
        bnames.push(n.to_string());
    }
    for (_, s) in &joined {
        if let Some(n) = is_label(s) {
            bnames.push(n);
        }
    }
    for (k, n) in bnames.iter().enumerate() {
        f.blocks.insert(n.clone(), k as u32);
    }
    let mut blocks: Vec<Block> = vec![];
    if first_lbl.is_none() {
        blocks.push(Block { name: bnames[0].clone(), phis: vec![], ins: vec![], dbg: vec![] });
    }
    for (ln, s) in &joined {
        if let Some(n) = is_label(s) {
            blocks.push(Block { name: n, phis: vec![], ins: vec![], dbg: vec![] });
            continue;
        }
        let t = lex(s);
        let mut phi = None;
        let ins = match parse_inst(&t, &mut f, types, &mut phi) {
            Ok(x) => x,
            Err(e) => I::Unsup(format!("{}:{}: {}: {}", name, st + ln + 1, e, s.trim())),
        };
        let b = blocks.last_mut().unwrap();
        if let Some(ph) = phi {
            b.phis.push(ph);
            continue;
        }
        if matches!(ins, I::Nop) {
            continue;
        }
        let mut dl = 0;
        for q in 0..t.len() {
            if let T::Meta(a) = &t[q] {
                if a == "dbg" {
                    if let Some(T::Meta(b)) = t.get(q + 1) {
                        dl = b.parse().unwrap_or(0);
                    }
                }
            }
        }
        b.ins.push(ins);
        b.dbg.push(dl);
    }
    Ok(Func { name, pretty, params, nregs: f.regs.len() as u32, blocks, line_start: st + 1, dbg })
}
