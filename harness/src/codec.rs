//! Independent reader/writer of the on-disk block format (protobuf wire format, written from the
//! format description, not from the code under test).
pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push((v as u8) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
pub fn put_bytes(out: &mut Vec<u8>, field: u64, b: &[u8]) {
    put_varint(out, field << 3 | 2);
    put_varint(out, b.len() as u64);
    out.extend_from_slice(b);
}
fn put_packed(out: &mut Vec<u8>, field: u64, v: &[u64]) {
    if v.is_empty() {
        return;
    }
    let mut b = vec![];
    for x in v {
        put_varint(&mut b, *x);
    }
    put_bytes(out, field, &b);
}
#[derive(Clone, PartialEq, Eq, Default)]
pub struct Level {
    pub keys: Vec<u64>,
    pub children: Vec<(u64, u64)>,
}
#[derive(Clone, PartialEq, Eq)]
pub struct Block {
    pub levels: Vec<Level>,
    pub key: Vec<u8>,
    pub value: Option<Vec<u8>>,
}
pub fn encode_index(levels: &[Level]) -> Vec<u8> {
    let mut idx = vec![];
    for l in levels {
        let mut b = vec![];
        put_packed(&mut b, 1, &l.keys);
        let mut c = vec![];
        for (s, o) in &l.children {
            c.push(*s);
            c.push(*o);
        }
        put_packed(&mut b, 2, &c);
        put_bytes(&mut idx, 1, &b);
    }
    idx
}
pub fn encode(b: &Block) -> Vec<u8> {
    let mut out = vec![];
    put_bytes(&mut out, 1, &encode_index(&b.levels));
    put_bytes(&mut out, 2, &b.key);
    if let Some(v) = &b.value {
        put_bytes(&mut out, 3, v);
    }
    out
}
pub fn header(metadata: Option<(Option<&[u8]>, Option<&[u8]>)>) -> Vec<u8> {
    let mut out = vec![];
    put_bytes(&mut out, 1, b"hyperbee");
    if let Some((cf, ud)) = metadata {
        let mut m = vec![];
        if let Some(x) = cf {
            put_bytes(&mut m, 1, x);
        }
        if let Some(x) = ud {
            put_bytes(&mut m, 2, x);
        }
        put_bytes(&mut out, 2, &m);
    }
    out
}
struct Rd<'a> {
    b: &'a [u8],
    i: usize,
}
impl Rd<'_> {
    fn varint(&mut self) -> Option<u64> {
        let mut v = 0u64;
        let mut s = 0;
        loop {
            let x = *self.b.get(self.i)?;
            self.i += 1;
            v |= ((x & 0x7f) as u64) << s;
            if x < 0x80 {
                return Some(v);
            }
            s += 7;
            if s > 63 {
                return None;
            }
        }
    }
}
impl<'a> Rd<'a> {
    fn bytes(&mut self) -> Option<&'a [u8]> {
        let n = self.varint()? as usize;
        let r = self.b.get(self.i..self.i.checked_add(n)?)?;
        self.i += n;
        Some(r)
    }
    fn done(&self) -> bool {
        self.i >= self.b.len()
    }
}
fn varints(b: &[u8]) -> Option<Vec<u64>> {
    let mut r = Rd { b, i: 0 };
    let mut v = vec![];
    while !r.done() {
        v.push(r.varint()?);
    }
    Some(v)
}
/// Strict decoder: only what a writer of this format produces.
pub fn decode(b: &[u8]) -> Option<Block> {
    let mut r = Rd { b, i: 0 };
    let (mut index, mut key, mut value) = (None, None, None);
    while !r.done() {
        match r.varint()? {
            0x0a => index = Some(r.bytes()?),
            0x12 => key = Some(r.bytes()?),
            0x1a => value = Some(r.bytes()?),
            _ => return None,
        }
    }
    let mut levels = vec![];
    let mut r = Rd { b: index?, i: 0 };
    while !r.done() {
        if r.varint()? != 0x0a {
            return None;
        }
        let mut l = Rd { b: r.bytes()?, i: 0 };
        let mut lv = Level::default();
        while !l.done() {
            match l.varint()? {
                0x0a => lv.keys = varints(l.bytes()?)?,
                0x12 => {
                    let c = varints(l.bytes()?)?;
                    if c.len() % 2 != 0 {
                        return None;
                    }
                    lv.children = c.chunks(2).map(|x| (x[0], x[1])).collect();
                }
                _ => return None,
            }
        }
        levels.push(lv);
    }
    Some(Block { levels, key: key?.to_vec(), value: value.map(|v| v.to_vec()) })
}
