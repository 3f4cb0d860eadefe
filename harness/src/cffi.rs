//! The C interface and the objects exported to other languages.
use crate::{
    entries,
    hist::Log,
    long::{near, text, LENS, VLENS},
    rt::{block_on, Cell},
    subs::leaf,
    sym::{self, check, cover},
    trees::open_model,
};
use hyperbee::Hyperbee;
use std::{
    ffi::{c_char, c_void, CStr},
    path::Path,
};

type Callback = unsafe extern "C" fn(i64, *mut c_char, u64, *mut u8, usize);
#[allow(improper_ctypes)]
extern "C" {
    fn init_runtime() -> *mut c_void;
    fn close_runtime(rt: *mut c_void);
    fn close_hyperbee(hb: *mut Hyperbee);
    fn hyperbee_from_storage_directory(rt: *mut c_void, dir: *const c_char) -> *mut Hyperbee;
    fn hb_get(rt: *mut c_void, hb: *mut Hyperbee, key: *const u8, len: usize, cb: Callback) -> i32;
    fn deallocate_rust_string(p: *mut c_char);
    fn deallocate_rust_buffer(p: *mut u8, len: usize);
}
struct Got {
    calls: u32,
    code: i64,
    msg: usize,
    seq: u64,
    value: Option<Vec<u8>>,
}
static GOT: Cell<Got> = Cell::new(Got { calls: 0, code: 0, msg: 0, seq: 0, value: None });
unsafe extern "C" fn cb(code: i64, msg: *mut c_char, seq: u64, buf: *mut u8, len: usize) {
    let g = GOT.get();
    g.calls += 1;
    g.code = code;
    check(!msg.is_null(), "the C callback gets no error message string");
    g.msg = CStr::from_ptr(msg).to_bytes().len();
    g.seq = seq;
    g.value = if buf.is_null() {
        check(len == 0, "the C callback gets a length without a buffer");
        None
    } else {
        Some(std::slice::from_raw_parts(buf, len).to_vec())
    };
    // as the C side does, whatever it got
    deallocate_rust_string(msg);
    deallocate_rust_buffer(buf, len);
}
fn bytes(max: u32) -> Vec<u8> {
    (0..sym::choice(max + 1)).map(|_| sym::u8()).collect()
}
/// The directory the "disk" of the C interface is in.
const DIR: &CStr = c"/nowhere/hb";
fn dir() -> &'static Path {
    Path::new("/nowhere/hb")
}
/// What C gets is what `get` returns, for every key and value, found or not, on any log.
fn c_get(n: usize) {
    GOT.get().calls = 0;
    let disk = hypercore::disk(dir(), true);
    let (log, keys) = leaf(n, 1);
    let mut vals: Vec<Option<Vec<u8>>> = vec![];
    {
        // values: none, empty, or some bytes
        let blocks = log.blocks();
        if n == 0 && sym::flip() {
            blocks.clear();
        }
        for i in 0..n {
            let v = match (i as u32 + sym::choice(3)) % 3 {
                0 => None,
                1 => Some(vec![]),
                _ => Some((0..sym::choice(2) + 1).map(|_| sym::u8()).collect()),
            };
            let mut b = crate::codec::decode(&blocks[i + 1]).unwrap();
            b.value = v.clone();
            blocks[i + 1] = crate::codec::encode(&b);
            vals.push(v);
        }
        *disk.blocks.lock().unwrap() = blocks.clone();
    }
    let broken = n > 0 && sym::choice(4) == 3;
    if broken {
        // the newest block is not one of a tree
        *disk.blocks.lock().unwrap().last_mut().unwrap() = vec![0x0a, 0x7f];
    }
    let key = bytes(1);
    unsafe {
        let rt = init_runtime();
        check(!rt.is_null(), "the C interface gives no runtime");
        let hb = hyperbee_from_storage_directory(rt, DIR.as_ptr());
        check(!hb.is_null(), "the C interface does not open a storage directory");
        let before = disk.blocks.lock().unwrap().len();
        let r = {
            // the caller's buffer need not outlive the call
            let mut k = key.clone();
            let r = hb_get(rt, hb, k.as_ptr(), k.len(), cb);
            for b in &mut k {
                *b = 0xaa;
            }
            r
        };
        check(r == 0, "hb_get reports failure");
        let left = tokio::runtime::run_spawned(1000);
        check(left == 0, "hb_get never completes");
        let g = GOT.get();
        check(g.calls == 1, "hb_get calls its callback other than once");
        if broken {
            check(g.code != 0, "hb_get reports success although the log cannot be read");
            check(g.msg > 0, "hb_get reports an error without a message");
            check(g.value.is_none(), "hb_get reports an error together with a value");
            cover(4);
        } else {
            check(g.code == 0, "hb_get reports an error on a valid log");
            check(g.msg == 0, "hb_get reports an error message on success");
            match keys.iter().position(|k| sym::eq(k, &key)) {
                None => {
                    check(g.seq == 0 && g.value.is_none(), "hb_get finds a key that is not in the tree");
                    cover(0);
                }
                Some(i) => {
                    check(g.seq == i as u64 + 1, "hb_get reports a wrong seq");
                    check(crate::hist::same_val(&g.value, &vals[i]), "hb_get passes another value than the stored one");
                    cover(if vals[i].is_some() { 1 } else { 2 });
                }
            }
        }
        check(disk.blocks.lock().unwrap().len() == before, "hb_get appends to the log");
        close_hyperbee(hb);
        close_runtime(rt);
    }
    hypercore::disk(dir(), true);
}
/// Long keys and values through the C interface, and the empty key in both ways C can give it.
fn c_long() {
    GOT.get().calls = 0;
    let disk = hypercore::disk(dir(), true);
    let log = Log::new();
    let hb = open_model(log.clone());
    let long = sym::choice(3);
    let (klen, vlen) = match long {
        0 => (LENS[sym::choice(LENS.len() as u32) as usize], 1),
        1 => (2, VLENS[sym::choice(VLENS.len() as u32) as usize]),
        _ => (0, 1),
    };
    let (k, v) = (text(klen), text(vlen));
    sym::must(block_on(hb.put(&k, Some(&v))), "put fails");
    *disk.blocks.lock().unwrap() = log.blocks().clone();
    let q = if long == 2 { vec![] } else { near(&k, sym::choice(4)) };
    unsafe {
        let rt = init_runtime();
        let hb = hyperbee_from_storage_directory(rt, DIR.as_ptr());
        // an empty key needs no buffer
        let r = hb_get(rt, hb, if q.is_empty() { std::ptr::null() } else { q.as_ptr() }, q.len(), cb);
        check(r == 0, "hb_get reports failure");
        check(tokio::runtime::run_spawned(1000) == 0, "hb_get never completes");
        let g = GOT.get();
        check(g.calls == 1 && g.code == 0, "hb_get reports an error on a valid log");
        if sym::eq(&k, &q) {
            check(g.seq == 1, "hb_get does not find a key that is in the tree");
            check(crate::hist::same_val(&g.value, &Some(v)), "hb_get passes another value than the stored one");
            cover(0);
        } else {
            check(g.seq == 0 && g.value.is_none(), "hb_get finds a key that is not in the tree");
            cover(1);
        }
        close_hyperbee(hb);
        close_runtime(rt);
    }
    hypercore::disk(dir(), true);
}
/// Two lookups in flight at once, completing in the order they were made.
static GOTS: Cell<Vec<u64>> = Cell::new(vec![]);
unsafe extern "C" fn cb2(_code: i64, msg: *mut c_char, seq: u64, buf: *mut u8, len: usize) {
    GOTS.get().push(seq);
    deallocate_rust_string(msg);
    deallocate_rust_buffer(buf, len);
}
fn c_two() {
    GOTS.get().clear();
    let disk = hypercore::disk(dir(), true);
    let (log, keys) = leaf(2, 1);
    *disk.blocks.lock().unwrap() = log.blocks().clone();
    let (a, b) = (bytes(1), bytes(1));
    let find = |q: &[u8]| keys.iter().position(|k| sym::eq(k, q)).map_or(0, |i| i as u64 + 1);
    unsafe {
        let rt = init_runtime();
        let hb = hyperbee_from_storage_directory(rt, DIR.as_ptr());
        check(hyperbee_from_storage_directory(rt, std::ptr::null()).is_null(), "opening no directory succeeds");
        hb_get(rt, hb, a.as_ptr(), a.len(), cb2);
        hb_get(rt, hb, b.as_ptr(), b.len(), cb2);
        check(tokio::runtime::run_spawned(1000) == 0, "hb_get never completes");
        hb_get(rt, hb, a.as_ptr(), a.len(), cb2);
        check(tokio::runtime::run_spawned(1000) == 0, "hb_get never completes");
        check(*GOTS.get() == [find(&a), find(&b), find(&a)], "lookups through the C interface disturb each other");
        close_hyperbee(hb);
        close_runtime(rt);
    }
    cover(0);
    hypercore::disk(dir(), true);
}
/// The exported objects do what the Rust ones do.
fn objects(ram: bool, n: u32, long: bool) {
    let other = Log::new();
    let hb = open_model(other.clone());
    let disk = hypercore::disk(dir(), true);
    let exp = if ram {
        sym::must(block_on(hyperbee::ffi::ApiHyperbee::ram()), "the exported constructor fails")
    } else {
        sym::must(block_on(hyperbee::ffi::ApiHyperbee::dir("/nowhere/hb")), "the exported constructor fails")
    };
    let prefix = if long { vec![b'p'; 40] } else { bytes(1) };
    let conf = if sym::flip() { hyperbee::ffi::default_sub_config() } else { hyperbee::prefixed::PrefixedConfig { seperator: vec![b':'] } };
    let esub = block_on(exp.sub(&prefix, conf.clone()));
    let sub = hb.sub(&prefix, conf);
    for i in 0..n {
        let k = if long { text([0, 1, 9, 33, 64, 127, 128, 256, 1024][sym::choice(9) as usize]) } else { bytes(1) };
        let v: Option<Vec<u8>> = match if long { 3 } else { sym::choice(3) } {
            3 => Some(text(k.len() / 3 * 16)),
            0 => None,
            1 => Some(vec![]),
            _ => Some(vec![i as u8]),
        };
        match sym::choice(6) {
            0 => {
                let a = sym::must(block_on(exp.put(&k, v.clone())), "the exported put fails");
                let b = sym::must(block_on(hb.put(&k, v.as_deref())), "put fails");
                check((a.old_seq, a.new_seq) == b, "the exported put reports other than put");
            }
            1 => {
                let a = sym::must(block_on(exp.delete(&k)), "the exported delete fails");
                let b = sym::must(block_on(hb.del(&k)), "del fails");
                check(a == b, "the exported delete reports other than del");
            }
            2 => {
                let a = sym::must(block_on(exp.get(&k)), "the exported get fails");
                let b = sym::must(block_on(hb.get(&k)), "get fails");
                check(a.map(|x| (x.seq, x.value)) == b, "the exported get reports other than get");
            }
            3 => {
                let a = sym::must(block_on(esub.put(&k, v.clone())), "the exported put of a sub fails");
                let b = sym::must(block_on(sub.put(&k, v.as_deref())), "put of a sub fails");
                check((a.old_seq, a.new_seq) == b, "the exported put of a sub reports other than put");
            }
            4 => {
                let a = sym::must(block_on(esub.delete(&k)), "the exported delete of a sub fails");
                let b = sym::must(block_on(sub.del(&k)), "del of a sub fails");
                check(a == b, "the exported delete of a sub reports other than del");
            }
            _ => {
                let a = sym::must(block_on(esub.get(&k)), "the exported get of a sub fails");
                let b = sym::must(block_on(sub.get(&k)), "get of a sub fails");
                check(a.map(|x| (x.seq, x.value)) == b, "the exported get of a sub reports other than get");
            }
        }
        check(block_on(exp.version()) == block_on(hb.version()), "the exported version differs");
        if !ram {
            let d = disk.blocks.lock().unwrap().clone();
            let o = other.blocks();
            check(d.len() == o.len(), "an exported operation appends another number of blocks");
            let mut same = true;
            for (x, y) in d.iter().zip(o.iter()) {
                same &= sym::eq(x, y);
            }
            check(same, "an exported operation writes other bytes");
        }
    }
    cover(0);
    hypercore::disk(dir(), true);
}
/// Opening a storage directory finds what was stored there, and never overwrites it.
fn reopen(n: usize) {
    let disk = hypercore::disk(dir(), true);
    let (log, keys) = leaf(n, 2);
    *disk.blocks.lock().unwrap() = log.blocks().clone();
    let hb = sym::must(block_on(Hyperbee::from_storage_dir("/nowhere/hb")), "opening a storage directory fails");
    check(block_on(hb.version()) == n as u64 + 1, "opening a storage directory loses its contents");
    let q = bytes(2);
    let g = sym::must(block_on(hb.get(&q)), "get fails on a reopened log");
    check(g.map(|x| x.0) == keys.iter().position(|k| sym::eq(k, &q)).map(|i| i as u64 + 1), "a reopened log gives another entry");
    sym::must(block_on(hb.put(&q, None)), "put fails on a reopened log");
    drop(hb);
    let hb = sym::must(block_on(Hyperbee::from_storage_dir(dir())), "opening a storage directory fails");
    let g = sym::must(block_on(hb.get(&q)), "get fails on a reopened log");
    check(g == Some((n as u64 + 1, None)), "what was put is gone after reopening");
    let b = disk.blocks.lock().unwrap().clone();
    check(b.len() == n + 2, "opening appends to the log");
    for (x, y) in log.blocks().iter().zip(b.iter()) {
        check(sym::eq(x, y), "opening changes the log");
    }
    // two logs in memory are two logs
    let a = sym::must(block_on(Hyperbee::from_ram()), "creating a tree in memory fails");
    let c = sym::must(block_on(Hyperbee::from_ram()), "creating a tree in memory fails");
    check(block_on(a.version()) == 0, "a new tree is not empty");
    sym::must(block_on(a.put(&q, None)), "put fails");
    check(block_on(c.version()) == 0, "two trees in memory share their contents");
    cover(0);
    hypercore::disk(dir(), true);
}
const NAMES: &[&str] = &["/d/a", "/d/b", "/d/a/b", "d/a", "/d/\u{e4}", "/d/a b", "/d/A", "/d/a.b", " /d/a", "/d/a\u{fffd}", "../d/a", "d/../a", "/d/a ", "~/d", "/d/%61"];
/// Storage directories: the one that was named is opened, and no other is touched.
fn dirs() {
    let (i, j) = (sym::choice(NAMES.len() as u32) as usize, sym::choice(NAMES.len() as u32) as usize);
    let (a, b) = (hypercore::disk(Path::new(NAMES[i]), true), hypercore::disk(Path::new(NAMES[j]), true));
    let (log, keys) = leaf(1, 1);
    // one of them holds something
    let a = if i == j { b.clone() } else { a };
    *a.blocks.lock().unwrap() = log.blocks().clone();
    let exported = sym::flip();
    let (version, old) = if exported {
        let e = sym::must(block_on(hyperbee::ffi::ApiHyperbee::dir(NAMES[j])), "the exported constructor fails");
        let v = block_on(e.version());
        (v, sym::must(block_on(e.put(&keys[0], None)), "the exported put fails").old_seq)
    } else {
        let h = sym::must(block_on(Hyperbee::from_storage_dir(NAMES[j])), "opening a storage directory fails");
        let v = block_on(h.version());
        (v, sym::must(block_on(h.put(&keys[0], None)), "put fails").0)
    };
    check(version == if i == j { 2 } else { 0 }, "another directory is opened than the one named");
    check(old == if i == j { Some(1) } else { None }, "a put finds an entry of another directory");
    let na = a.blocks.lock().unwrap().len();
    let nb = b.blocks.lock().unwrap().len();
    check(nb == if i == j { 3 } else { 2 }, "a put does not arrive in the directory named");
    check(i == j || na == 2, "a put arrives in another directory");
    cover((i == j) as u32);
    for n in NAMES {
        hypercore::disk(Path::new(n), true);
    }
}
/// C names a directory with any bytes.
fn c_dir(max: u32) {
    use std::os::unix::ffi::OsStrExt;
    GOT.get().calls = 0;
    let mut name = b"/d/".to_vec();
    for _ in 0..1 + sym::choice(max) {
        let b = sym::u8();
        sym::assume(b != 0 && b != b'/' && b != b'.');
        name.push(b);
    }
    let at = Path::new(std::ffi::OsStr::from_bytes(&name)).to_owned();
    let disk = hypercore::disk(&at, true);
    let (log, keys) = leaf(1, 1);
    *disk.blocks.lock().unwrap() = log.blocks().clone();
    let text = std::str::from_utf8(&name).is_ok();
    let cname = std::ffi::CString::new(name).unwrap();
    unsafe {
        let rt = init_runtime();
        let hb = hyperbee_from_storage_directory(rt, cname.as_ptr());
        if hb.is_null() {
            // a name this platform's strings can not hold may be refused, but not mistaken
            check(!text, "the C interface does not open a storage directory");
            cover(2);
        } else {
            hb_get(rt, hb, keys[0].as_ptr(), keys[0].len(), cb);
            check(tokio::runtime::run_spawned(1000) == 0, "hb_get never completes");
            let g = GOT.get();
            check(g.calls == 1 && g.code == 0, "hb_get reports an error on a valid log");
            check(g.seq == 1, "the C interface opens another directory than the one named");
            close_hyperbee(hb);
            cover(text as u32);
        }
        close_runtime(rt);
    }
    hypercore::disk(&at, true);
}
entries! {
    h_dirs => dirs();
    h_c_dir => c_dir(2);
    h_c_dir4 => c_dir(4);
    h_c_get0 => c_get(0);
    h_c_get1 => c_get(1);
    h_c_get2 => c_get(2);
    h_c_two => c_two();
    h_obj_ram => objects(true, 2, false);
    h_obj_disk => objects(false, 2, false);
    h_obj_disk3 => objects(false, 3, false);
    h_c_long => c_long();
    h_obj_long => objects(false, 2, true);
    h_reopen => reopen(2);
    h_reopen3 => reopen(3);
}
