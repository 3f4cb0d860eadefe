//! The messages of src/schema.proto, against the wire format JavaScript Hyperbee defines.
use crate::{
    codec, entries,
    sym::{self, check, cover},
};
use prost::Message;
mod m {
    #![allow(dead_code)]
    include!(concat!(env!("OUT_DIR"), "/_.rs"));
}
/// A field of a message, whatever type the schema gives it: `T` is what the field means, `put` makes
/// the field say it, `is` tells whether it does. (Types that cannot say it make `put` or `is` lossy.)
trait Num: Copy {
    fn of(v: u64) -> Self;
    fn val(self) -> u64;
}
macro_rules! num {
    ($($t:ty)*) => { $(impl Num for $t { fn of(v: u64) -> Self { v as $t } fn val(self) -> u64 { self as u64 } })* };
}
num!(u64 u32 i64 i32);
impl Num for bool {
    fn of(v: u64) -> Self { v != 0 }
    fn val(self) -> u64 { self as u64 }
}
trait Field<T> {
    fn put(v: Option<T>) -> Self;
    fn is(&self, v: &Option<T>) -> bool;
}
impl<N: Num> Field<u64> for Option<N> {
    fn put(v: Option<u64>) -> Self { v.map(N::of) }
    fn is(&self, v: &Option<u64>) -> bool {
        match (self, v) { (Some(a), Some(b)) => a.val() == *b, (None, None) => true, _ => false }
    }
}
impl Field<Vec<u8>> for Option<Vec<u8>> {
    fn put(v: Option<Vec<u8>>) -> Self { v }
    fn is(&self, v: &Option<Vec<u8>>) -> bool {
        match (self, v) { (Some(a), Some(b)) => sym::eq(a, b), (None, None) => true, _ => false }
    }
}
impl Field<Vec<u8>> for Vec<u8> {
    fn put(v: Option<Vec<u8>>) -> Self { v.unwrap_or_default() }
    fn is(&self, v: &Option<Vec<u8>>) -> bool { v.as_ref().map_or(false, |v| sym::eq(self, v)) }
}
impl Field<Vec<u8>> for Option<String> {
    fn put(v: Option<Vec<u8>>) -> Self { v.map(|v| String::from_utf8_lossy(&v).into_owned()) }
    fn is(&self, v: &Option<Vec<u8>>) -> bool {
        match (self, v) { (Some(a), Some(b)) => sym::eq(a.as_bytes(), b), (None, None) => true, _ => false }
    }
}
impl Field<Vec<u8>> for String {
    fn put(v: Option<Vec<u8>>) -> Self { v.map(|v| String::from_utf8_lossy(&v).into_owned()).unwrap_or_default() }
    fn is(&self, v: &Option<Vec<u8>>) -> bool { v.as_ref().map_or(false, |v| sym::eq(self.as_bytes(), v)) }
}
impl Field<Vec<u8>> for Vec<Vec<u8>> {
    fn put(v: Option<Vec<u8>>) -> Self { v.into_iter().collect() }
    fn is(&self, v: &Option<Vec<u8>>) -> bool { self.len() == v.is_some() as usize && v.as_ref().map_or(true, |v| sym::eq(&self[0], v)) }
}
macro_rules! field_num {
    ($($t:ty)*) => { $(impl Field<u64> for $t {
        fn put(v: Option<u64>) -> Self { <$t>::of(v.unwrap_or(0)) }
        fn is(&self, v: &Option<u64>) -> bool { v.map_or(false, |v| self.val() == v) }
    })* };
}
field_num!(u64 u32 i64 i32 bool);
impl<N: Num> Field<Vec<u64>> for Vec<N> {
    fn put(v: Option<Vec<u64>>) -> Self { v.unwrap_or_default().into_iter().map(N::of).collect() }
    fn is(&self, v: &Option<Vec<u64>>) -> bool {
        let v = v.clone().unwrap_or_default();
        self.len() == v.len() && self.iter().zip(&v).fold(true, |a, (x, y)| a & (x.val() == *y))
    }
}
impl<N: Num> Field<Vec<u64>> for Option<N> {
    fn put(v: Option<Vec<u64>>) -> Self { v.unwrap_or_default().last().map(|v| N::of(*v)) }
    fn is(&self, v: &Option<Vec<u64>>) -> bool {
        let v = v.clone().unwrap_or_default();
        v.len() == self.is_some() as usize && v.iter().zip(self.iter()).all(|(x, y)| y.val() == *x)
    }
}
/// A field that is a message itself.
trait Sub<M>: Sized {
    fn put(v: Option<M>) -> Self;
    fn one(&self) -> Option<&M>;
}
impl<M> Sub<M> for Option<M> {
    fn put(v: Option<M>) -> Self { v }
    fn one(&self) -> Option<&M> { self.as_ref() }
}
impl<M> Sub<M> for Vec<M> {
    fn put(v: Option<M>) -> Self { v.into_iter().collect() }
    fn one(&self) -> Option<&M> { self.first() }
}
const READ: &str = "a message of JavaScript Hyperbee is read differently";
fn bytes(max: u32) -> Vec<u8> {
    (0..sym::choice(max + 1)).map(|_| sym::u8()).collect()
}
fn opt<T>(f: impl FnOnce() -> T) -> Option<T> {
    if sym::flip() {
        Some(f())
    } else {
        None
    }
}
fn put_num(out: &mut Vec<u8>, field: u64, v: u64) {
    codec::put_varint(out, field << 3);
    codec::put_varint(out, v);
}
/// A number of any size class: all values of up to `n` encoded bytes.
fn num(n: u32) -> u64 {
    let v = sym::u64();
    if n < 10 {
        sym::assume(v < 1 << (7 * n));
    }
    v
}
fn same<M: Message + Default>(msg: M, want: &[u8]) -> M {
    check(sym::eq(&msg.encode_to_vec(), want), "a message is encoded differently than in JavaScript Hyperbee");
    let back = sym::must(M::decode(want), "a message of JavaScript Hyperbee is rejected");
    cover(0);
    back
}
fn get(n: u32) {
    get_of(opt(|| num(n)), opt(|| bytes(2)));
}
fn get_of(version: Option<u64>, key: Option<Vec<u8>>) {
    let mut g = vec![];
    if let Some(v) = version {
        put_num(&mut g, 1, v);
    }
    if let Some(k) = &key {
        codec::put_bytes(&mut g, 2, k);
    }
    let mut want = vec![];
    codec::put_bytes(&mut want, 2, &g);
    let q = m::extension::Get { version: Field::put(version), key: Field::put(key.clone()) };
    let back = same(m::Extension { get: Sub::put(Some(q)), ..Default::default() }, &want);
    let Some(q) = back.get.one() else { sym::fail(READ) };
    check(back.cache.one().is_none() & back.iterator.one().is_none(), READ);
    check(q.version.is(&version) & q.key.is(&key), READ);
}
fn iterator() {
    // one or two fields at a time; every pair of fields meets
    let (a, b) = (sym::choice(8), sym::choice(8));
    let on = |i: u32| a == i || b == i;
    let number = |i| if on(i) { Some(num(2)) } else { None };
    let key = |i| if on(i) { Some(vec![sym::u8()]) } else { None };
    let (version, gte, gt, lte, lt) = (number(0), key(1), key(2), key(3), key(4));
    let limit = number(5);
    let reverse = if on(6) { Some(sym::flip() as u64) } else { None };
    let checkpoint: Option<Vec<u64>> = if on(7) { Some((0..1 + sym::choice(2)).map(|_| num(2)).collect()) } else { None };
    iterator_of(version, gte, gt, lte, lt, limit, reverse, checkpoint);
}
type Bytes = Option<Vec<u8>>;
#[allow(clippy::too_many_arguments)]
fn iterator_of(version: Option<u64>, gte: Bytes, gt: Bytes, lte: Bytes, lt: Bytes, limit: Option<u64>, reverse: Option<u64>, checkpoint: Option<Vec<u64>>) {
    let it = m::extension::Iterator {
        version: Field::put(version),
        gte: Field::put(gte.clone()),
        gt: Field::put(gt.clone()),
        lte: Field::put(lte.clone()),
        lt: Field::put(lt.clone()),
        limit: Field::put(limit),
        reverse: Field::put(reverse),
        checkpoint: Field::put(checkpoint.clone()),
    };
    let mut w = vec![];
    if let Some(v) = version {
        put_num(&mut w, 1, v);
    }
    for (f, k) in [(2, &gte), (3, &gt), (4, &lte), (5, &lt)] {
        if let Some(k) = k {
            codec::put_bytes(&mut w, f, k);
        }
    }
    for (f, v) in [(6, limit), (7, reverse)] {
        if let Some(v) = v {
            put_num(&mut w, f, v);
        }
    }
    if let Some(c) = &checkpoint {
        let mut p = vec![];
        c.iter().for_each(|x| codec::put_varint(&mut p, *x));
        codec::put_bytes(&mut w, 8, &p);
    }
    let mut want = vec![];
    codec::put_bytes(&mut want, 3, &w);
    let back = same(m::Extension { iterator: Sub::put(Some(it)), ..Default::default() }, &want);
    let Some(q) = back.iterator.one() else { sym::fail(READ) };
    check(q.version.is(&version) & q.gte.is(&gte) & q.gt.is(&gt) & q.lte.is(&lte) & q.lt.is(&lt), READ);
    check(q.limit.is(&limit) & q.reverse.is(&reverse) & q.checkpoint.is(&checkpoint), READ);
}
fn cache() {
    let (start, end) = (num(2), num(2));
    cache_of(start, end, (0..sym::choice(3)).map(|_| num(2)).collect());
}
fn cache_of(start: u64, end: u64, blocks: Vec<u64>) {
    let mut c = vec![];
    put_num(&mut c, 1, start);
    put_num(&mut c, 2, end);
    if !blocks.is_empty() {
        let mut p = vec![];
        blocks.iter().for_each(|x| codec::put_varint(&mut p, *x));
        codec::put_bytes(&mut c, 3, &p);
    }
    let mut want = vec![];
    codec::put_bytes(&mut want, 1, &c);
    let q = m::extension::Cache { start: Field::put(Some(start)), end: Field::put(Some(end)), blocks: Field::put(Some(blocks.clone())) };
    let back = same(m::Extension { cache: Sub::put(Some(q)), ..Default::default() }, &want);
    let Some(q) = back.cache.one() else { sym::fail(READ) };
    check(q.start.is(&Some(start)) & q.end.is(&Some(end)) & q.blocks.is(&Some(blocks)), READ);
}
/// One number of any size in an iterator or cache message.
fn wide() {
    let v = num(10);
    let f = sym::choice(6);
    let mut w = vec![];
    let one = |i: u32, d: Option<u64>| if f == i { Some(v) } else { d };
    if f < 3 {
        let (version, limit, checkpoint) = (one(0, None), one(1, None), if f == 2 { Some(vec![7, v]) } else { None });
        let it = m::extension::Iterator { version: Field::put(version), limit: Field::put(limit), checkpoint: Field::put(checkpoint.clone()), ..Default::default() };
        match f {
            0 => put_num(&mut w, 1, v),
            1 => put_num(&mut w, 6, v),
            _ => {
                let mut p = vec![7];
                codec::put_varint(&mut p, v);
                codec::put_bytes(&mut w, 8, &p);
            }
        }
        let mut want = vec![];
        codec::put_bytes(&mut want, 3, &w);
        let back = same(m::Extension { iterator: Sub::put(Some(it)), ..Default::default() }, &want);
        let Some(q) = back.iterator.one() else { sym::fail(READ) };
        check(q.version.is(&version) & q.limit.is(&limit) & q.checkpoint.is(&checkpoint), READ);
    } else {
        let (start, end) = (one(3, Some(1)), one(4, Some(2)));
        let blocks = Some(vec![one(5, Some(3)).unwrap()]);
        put_num(&mut w, 1, start.unwrap());
        put_num(&mut w, 2, end.unwrap());
        let mut p = vec![];
        codec::put_varint(&mut p, blocks.as_ref().unwrap()[0]);
        codec::put_bytes(&mut w, 3, &p);
        let q = m::extension::Cache { start: Field::put(start), end: Field::put(end), blocks: Field::put(blocks.clone()) };
        let mut want = vec![];
        codec::put_bytes(&mut want, 1, &w);
        let back = same(m::Extension { cache: Sub::put(Some(q)), ..Default::default() }, &want);
        let Some(q) = back.cache.one() else { sym::fail(READ) };
        check(q.start.is(&start) & q.end.is(&end) & q.blocks.is(&blocks), READ);
    }
}
/// Lengths at which their encoding changes, or anything else might.
fn long() -> Vec<u8> {
    let n = [0usize, 1, 31, 32, 33, 64, 126, 127, 128, 129, 255, 256, 1024, 16382, 16383, 16384, 16385, 65536][sym::choice(18) as usize];
    let mut k = vec![b'm'; n];
    for i in [0, n / 2, n.wrapping_sub(1)] {
        if i < n {
            k[i] = sym::u8();
        }
    }
    k
}
fn field(c: bool) -> Vec<u8> {
    if c { long() } else { vec![sym::u8()] }
}
fn lengths() {
    let f = sym::choice(12);
    match f {
        0..=2 => node_of(field(f == 0), field(f == 1), Some(field(f == 2))),
        3 => header_of(Some((Some(long()), None))),
        4 => header_of(Some((Some(vec![1]), Some(long())))),
        5 => get_of(opt(|| 300), Some(long())),
        6..=9 => iterator_of(None, (f == 6).then(long), (f == 7).then(long), (f == 8).then(long), (f == 9).then(long), None, Some(1), None),
        // lists whose length, and whose number of encoded bytes, is around 2^7
        10 => {
            let n = [1, 2, 62, 63, 64, 65, 126, 127, 128, 129, 300][sym::choice(11) as usize];
            let mut v: Vec<u64> = (0..n).map(|i| i * 3).collect();
            v[sym::choice(2) as usize * (n as usize - 1)] = num(2);
            if sym::flip() {
                cache_of(1, 300, v);
            } else {
                iterator_of(None, None, None, None, None, Some(n), None, Some(v));
            }
        }
        // an index with many nodes, one with many keys and children
        _ => {
            let n = [9, 16, 33, 100][sym::choice(4) as usize];
            let v = num(1);
            let node = |i: u64| (vec![i + 1, if i == n / 2 { v } else { 9 }], vec![]);
            match sym::choice(2) {
                0 => levels((0..n).map(node).collect()),
                _ => levels(vec![((0..n).map(|i| if i + 1 == n { v } else { i }).collect(), (0..2 * n + 2).map(|i| i * 7).collect())]),
            }
        }
    }
}
fn header() {
    header_of(opt(|| (opt(|| bytes(2)), opt(|| bytes(2)))));
}
fn header_of(md: Option<(Option<Vec<u8>>, Option<Vec<u8>>)>) {
    let mut want = vec![];
    codec::put_bytes(&mut want, 1, b"hyperbee");
    if let Some((cf, ud)) = &md {
        let mut x = vec![];
        if let Some(cf) = cf {
            codec::put_bytes(&mut x, 1, cf);
        }
        if let Some(ud) = ud {
            codec::put_bytes(&mut x, 2, ud);
        }
        codec::put_bytes(&mut want, 2, &x);
    }
    let protocol = Some(b"hyperbee".to_vec());
    let metadata = md.clone().map(|(a, b)| m::header::Metadata { content_feed: Field::put(a), user_data: Field::put(b) });
    let back = same(m::Header { protocol: Field::put(protocol.clone()), metadata: Sub::put(metadata) }, &want);
    check(back.protocol.is(&protocol), READ);
    match (back.metadata.one(), &md) {
        (Some(x), Some((a, b))) => check(x.content_feed.is(a) & x.user_data.is(b), READ),
        (a, b) => check(a.is_none() && b.is_none(), READ),
    }
}
fn node() {
    node_of(bytes(2), bytes(2), opt(|| bytes(2)));
}
fn node_of(index: Vec<u8>, key: Vec<u8>, value: Option<Vec<u8>>) {
    let (index, key) = (Some(index), Some(key));
    let mut want = vec![];
    for (f, v) in [(1, &index), (2, &key), (3, &value)] {
        if let Some(v) = v {
            codec::put_bytes(&mut want, f, v);
        }
    }
    let n = m::Node { index: Field::put(index.clone()), key: Field::put(key.clone()), value: Field::put(value.clone()) };
    let back = same(n, &want);
    check(back.index.is(&index) & back.key.is(&key) & back.value.is(&value), READ);
}
fn levels(ls: Vec<(Vec<u64>, Vec<u64>)>) {
    let reference: Vec<codec::Level> =
        ls.iter().map(|(k, c)| codec::Level { keys: k.clone(), children: c.chunks(2).map(|c| (c[0], c[1])).collect() }).collect();
    let msg = m::YoloIndex {
        levels: ls.iter().map(|(k, c)| m::yolo_index::Level { keys: Field::put(Some(k.clone())), children: Field::put(Some(c.clone())) }).collect(),
    };
    let back = same(msg, &codec::encode_index(&reference));
    check(back.levels.len() == ls.len(), READ);
    for (l, (k, c)) in back.levels.iter().zip(ls) {
        check(l.keys.is(&Some(k)) & l.children.is(&Some(c)), READ);
    }
}
fn index(n: u32) {
    let ls = (0..sym::choice(3))
        .map(|i| {
            let num = |n| if i == 0 { num(n) } else { 5 };
            ((0..sym::choice(3)).map(|_| num(n)).collect(), (0..2 * sym::choice(2)).map(|_| num(n)).collect())
        })
        .collect();
    levels(ls)
}
fn index_one() {
    let v = num(10);
    levels(vec![if sym::flip() { (vec![v], vec![]) } else { (vec![3], vec![v, 1]) }]);
}
entries! {
    h_wire_get => get(10);
    h_wire_iterator => iterator();
    h_wire_wide => wide();
    h_wire_cache => cache();
    h_wire_header => header();
    h_wire_node => node();
    h_wire_index => index(1);
    h_wire_index_one => index_one();
    h_wire_len => lengths();
}
