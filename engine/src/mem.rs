//! Copy-on-write paged memory with per-byte validity and symbolic bytes.
use crate::expr::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub const PG: usize = 4096;
pub const GBASE: u64 = 0x0100_0000;
pub const HBASE: u64 = 0x1000_0000;
pub const SBASE: u64 = 0x7000_0000;
pub const STOP: u64 = 0x7800_0000;

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PG],
    pub valid: [u64; PG / 64],
    pub sym: Option<Box<BTreeMap<u16, E>>>,
    pub all_valid: bool,
    pub ro: bool,
}
impl Page {
    fn new(all: bool) -> Arc<Page> {
        Arc::new(Page { data: [0; PG], valid: [0; PG / 64], sym: None, all_valid: all, ro: false })
    }
    #[inline]
    fn is_valid(&self, o: usize, n: usize) -> bool {
        if self.all_valid {
            return true;
        }
        for i in o..o + n {
            if self.valid[i >> 6] >> (i & 63) & 1 == 0 {
                return false;
            }
        }
        true
    }
    fn setv(&mut self, o: usize, n: usize, v: bool) {
        let mut i = o;
        while i < o + n {
            if i & 63 == 0 && i + 64 <= o + n {
                self.valid[i >> 6] = if v { u64::MAX } else { 0 };
                i += 64;
            } else {
                if v {
                    self.valid[i >> 6] |= 1 << (i & 63)
                } else {
                    self.valid[i >> 6] &= !(1 << (i & 63))
                }
                i += 1;
            }
        }
    }
}

#[derive(Clone, Default)]
pub struct Mem {
    g: Vec<Option<Arc<Page>>>,
    h: Vec<Option<Arc<Page>>>,
    s: Vec<Option<Arc<Page>>>,
    pub hnext: u64,
    pub live: u64,
    pub nalloc: u64,
}

pub type MR<T> = Result<T, String>;
pub enum B {
    C(u8),
    S(E),
}

impl Mem {
    pub fn new() -> Self {
        Mem { hnext: HBASE + 64, ..Default::default() }
    }
    #[inline]
    fn region(&self, a: u64) -> Option<(&Vec<Option<Arc<Page>>>, usize)> {
        if a >= SBASE {
            if a >= STOP {
                return None;
            }
            Some((&self.s, ((a - SBASE) / PG as u64) as usize))
        } else if a >= HBASE {
            Some((&self.h, ((a - HBASE) / PG as u64) as usize))
        } else if a >= GBASE {
            Some((&self.g, ((a - GBASE) / PG as u64) as usize))
        } else {
            None
        }
    }
    #[inline]
    fn page(&self, a: u64) -> Option<&Page> {
        let (r, i) = self.region(a)?;
        r.get(i)?.as_deref()
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Option<&mut Page> {
        let (r, i, all) = if a >= SBASE {
            if a >= STOP {
                return None;
            }
            (&mut self.s, ((a - SBASE) / PG as u64) as usize, true)
        } else if a >= HBASE {
            if a >= self.hnext + 64 {
                return None;
            }
            (&mut self.h, ((a - HBASE) / PG as u64) as usize, false)
        } else if a >= GBASE {
            (&mut self.g, ((a - GBASE) / PG as u64) as usize, true)
        } else {
            return None;
        };
        if i >= r.len() {
            r.resize(i + 1, None);
        }
        let p = r[i].get_or_insert_with(|| Page::new(all));
        Some(Arc::make_mut(p))
    }
    pub fn set_ro(&mut self, a: u64, n: u64) {
        let _ = (a, n);
    }
    fn bad(&self, a: u64, n: usize, w: &str) -> String {
        format!("invalid {w} of {n} bytes at {a:#x}")
    }
    /// concrete read fast path: Ok(Some) concrete; Ok(None) has symbolic bytes
    #[inline]
    pub fn read_c(&self, a: u64, n: usize) -> MR<Option<u64>> {
        let o = (a as usize) & (PG - 1);
        if o + n <= PG {
            match self.page(a) {
                Some(p) => {
                    if !p.is_valid(o, n) {
                        return Err(self.bad(a, n, "read"));
                    }
                    if let Some(s) = &p.sym {
                        if s.range(o as u16..(o + n) as u16).next().is_some() {
                            return Ok(None);
                        }
                    }
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(&p.data[o..o + n]);
                    return Ok(Some(u64::from_le_bytes(b)));
                }
                None => {
                    if a >= SBASE && a < STOP {
                        return Ok(Some(0));
                    }
                    return Err(self.bad(a, n, "read"));
                }
            }
        }
        let mut v = 0u64;
        for i in 0..n {
            match self.read_b(a + i as u64)? {
                B::C(c) => v |= (c as u64) << (8 * i),
                B::S(_) => return Ok(None),
            }
        }
        Ok(Some(v))
    }
    pub fn read_b(&self, a: u64) -> MR<B> {
        let o = (a as usize) & (PG - 1);
        match self.page(a) {
            Some(p) => {
                if !p.is_valid(o, 1) {
                    return Err(self.bad(a, 1, "read"));
                }
                if let Some(s) = &p.sym {
                    if let Some(e) = s.get(&(o as u16)) {
                        return Ok(B::S(e.clone()));
                    }
                }
                Ok(B::C(p.data[o]))
            }
            None => {
                if a >= SBASE && a < STOP {
                    return Ok(B::C(0));
                }
                Err(self.bad(a, 1, "read"))
            }
        }
    }
    pub fn read_e(&self, a: u64, n: usize) -> MR<E> {
        let mut r: Option<E> = None;
        for i in 0..n {
            let b = match self.read_b(a + i as u64)? {
                B::C(c) => cst(c as u128, 8),
                B::S(e) => e,
            };
            r = Some(match r {
                None => b,
                Some(l) => concat(&b, &l),
            });
        }
        Ok(r.unwrap())
    }
    #[inline]
    pub fn write_c(&mut self, a: u64, n: usize, v: u64) -> MR<()> {
        let o = (a as usize) & (PG - 1);
        if o + n <= PG {
            let ok = match self.page_mut(a) {
                Some(p) => {
                    if !p.is_valid(o, n) {
                        false
                    } else {
                        p.data[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
                        if let Some(s) = &mut p.sym {
                            for i in o..o + n {
                                s.remove(&(i as u16));
                            }
                            if s.is_empty() {
                                p.sym = None;
                            }
                        }
                        true
                    }
                }
                None => false,
            };
            if !ok {
                return Err(self.bad(a, n, "write"));
            }
            return Ok(());
        }
        for i in 0..n {
            self.write_c(a + i as u64, 1, (v >> (8 * i)) & 255)?;
        }
        Ok(())
    }
    pub fn write_b(&mut self, a: u64, b: B) -> MR<()> {
        match b {
            B::C(c) => self.write_c(a, 1, c as u64),
            B::S(e) => {
                if let Some(c) = as_c(&e) {
                    return self.write_c(a, 1, c as u64);
                }
                let o = (a as usize) & (PG - 1);
                let ok = match self.page_mut(a) {
                    Some(p) if p.is_valid(o, 1) => {
                        p.sym.get_or_insert_with(Default::default).insert(o as u16, e);
                        true
                    }
                    _ => false,
                };
                if ok {
                    Ok(())
                } else {
                    Err(self.bad(a, 1, "write"))
                }
            }
        }
    }
    pub fn write_e(&mut self, a: u64, n: usize, e: &E) -> MR<()> {
        let e = if e.w < 8 * n as u32 { zext(e, 8 * n as u32) } else { e.clone() };
        for i in 0..n {
            self.write_b(a + i as u64, B::S(extract(&e, 8 * i as u32, 8)))?;
        }
        Ok(())
    }
    /// any symbolic byte in range (assumes valid)
    fn has_sym(&self, a: u64, n: u64) -> bool {
        let mut x = a;
        while x < a + n {
            let o = (x as usize) & (PG - 1);
            let k = (PG - o).min((a + n - x) as usize);
            if let Some(p) = self.page(x) {
                if let Some(s) = &p.sym {
                    if s.range(o as u16..=(o + k - 1) as u16).next().is_some() {
                        return true;
                    }
                }
            }
            x += k as u64;
        }
        false
    }
    pub fn read_bytes_raw(&self, a: u64, n: u64) -> MR<Vec<u8>> {
        let mut v = Vec::with_capacity(n as usize);
        let mut x = a;
        while x < a + n {
            let o = (x as usize) & (PG - 1);
            let k = (PG - o).min((a + n - x) as usize);
            match self.page(x) {
                Some(p) => {
                    if !p.is_valid(o, k) {
                        return Err(self.bad(x, k, "read"));
                    }
                    v.extend_from_slice(&p.data[o..o + k]);
                }
                None => {
                    if x >= SBASE && x < STOP {
                        v.resize(v.len() + k, 0);
                    } else {
                        return Err(self.bad(x, k, "read"));
                    }
                }
            }
            x += k as u64;
        }
        Ok(v)
    }
    pub fn write_bytes_raw(&mut self, a: u64, d: &[u8]) -> MR<()> {
        let n = d.len() as u64;
        let mut x = a;
        while x < a + n {
            let o = (x as usize) & (PG - 1);
            let k = (PG - o).min((a + n - x) as usize);
            let ok = match self.page_mut(x) {
                Some(p) if p.is_valid(o, k) => {
                    p.data[o..o + k].copy_from_slice(&d[(x - a) as usize..(x - a) as usize + k]);
                    if let Some(s) = &mut p.sym {
                        let ks: Vec<u16> = s.range(o as u16..=(o + k - 1) as u16).map(|x| *x.0).collect();
                        for q in ks {
                            s.remove(&q);
                        }
                        if s.is_empty() {
                            p.sym = None;
                        }
                    }
                    true
                }
                _ => false,
            };
            if !ok {
                return Err(self.bad(x, k, "write"));
            }
            x += k as u64;
        }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> MR<()> {
        if n == 0 {
            return Ok(());
        }
        let b = self.read_bytes_raw(s, n)?;
        if self.has_sym(s, n) {
            let mut syms = vec![];
            for i in 0..n {
                if let B::S(e) = self.read_b(s + i)? {
                    syms.push((i, e));
                }
            }
            self.write_bytes_raw(d, &b)?;
            for (i, e) in syms {
                self.write_b(d + i, B::S(e))?;
            }
        } else {
            self.write_bytes_raw(d, &b)?;
        }
        Ok(())
    }
    fn setvalid(&mut self, a: u64, n: u64, v: bool) {
        let mut x = a;
        while x < a + n {
            let o = (x as usize) & (PG - 1);
            let k = (PG - o).min((a + n - x) as usize);
            if let Some(p) = self.page_mut(x) {
                p.setv(o, k, v);
                if !v {
                    if let Some(s) = &mut p.sym {
                        let ks: Vec<u16> = s.range(o as u16..=(o + k - 1) as u16).map(|x| *x.0).collect();
                        for q in ks {
                            s.remove(&q);
                        }
                        if s.is_empty() {
                            p.sym = None;
                        }
                    }
                    // drop a page in which nothing is valid any more
                }
            }
            x += k as u64;
        }
    }
    fn raw_u64(&self, a: u64) -> Option<u64> {
        let o = (a as usize) & (PG - 1);
        let p = self.page(a)?;
        Some(u64::from_le_bytes(p.data[o..o + 8].try_into().unwrap()))
    }
    fn raw_put(&mut self, a: u64, v: u64) {
        let o = (a as usize) & (PG - 1);
        if let Some(p) = self.page_mut(a) {
            p.data[o..o + 8].copy_from_slice(&v.to_le_bytes());
        }
    }
    pub fn alloc(&mut self, size: u64, align: u64, zero: bool) -> MR<u64> {
        let al = align.max(16);
        if !align.is_power_of_two() || size > (1 << 26) {
            return Err(format!("allocation of {size} bytes (align {align})"));
        }
        let p = (self.hnext + 16 + al - 1) / al * al;
        self.hnext = (p + size + 16 + 15) / 16 * 16;
        self.raw_put(p - 16, size);
        self.raw_put(p - 8, align << 8 | 0xA1);
        self.setvalid(p, size, true);
        if zero { /* bump allocation: fresh pages are zero */ } else if size > 0 {
            // fresh memory is zero-filled; fill with a recognisable pattern
            let fill = vec![0xCDu8; size as usize];
            self.write_bytes_raw(p, &fill)?;
        }
        self.live += size;
        self.nalloc += 1;
        Ok(p)
    }
    pub fn alloc_info(&self, p: u64) -> Option<(u64, u64, bool)> {
        if p < HBASE + 16 || p >= self.hnext || p % 16 != 0 {
            return None;
        }
        let s = self.raw_u64(p - 16)?;
        let m = self.raw_u64(p - 8)?;
        match m & 0xff {
            0xA1 => Some((s, m >> 8, true)),
            0xF1 => Some((s, m >> 8, false)),
            _ => None,
        }
    }
    pub fn dealloc(&mut self, p: u64, size: Option<u64>, align: Option<u64>) -> MR<()> {
        match self.alloc_info(p) {
            Some((s, a, true)) => {
                if size.map_or(false, |x| x != s) || align.map_or(false, |x| x != a) {
                    return Err(format!("dealloc with layout ({:?},{:?}) of a block allocated with ({s},{a})", size, align));
                }
                self.setvalid(p, s, false);
                self.raw_put(p - 8, a << 8 | 0xF1);
                self.live -= s;
                self.nalloc -= 1;
                // release pages that became entirely invalid
                let mut pg = p & !(PG as u64 - 1);
                while pg + (PG as u64) <= (p + s) {
                    if pg >= p {
                        let i = ((pg - HBASE) / PG as u64) as usize;
                        if i < self.h.len() {
                            self.h[i] = None;
                        }
                    }
                    pg += PG as u64;
                }
                Ok(())
            }
            Some((_, _, false)) => Err(format!("double free of {p:#x}")),
            None => Err(format!("dealloc of invalid pointer {p:#x}")),
        }
    }
    pub fn pages(&self) -> usize {
        self.h.iter().flatten().count() + self.s.iter().flatten().count()
    }
}
