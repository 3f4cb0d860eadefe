//! Native replay of one input vector: `replay ENTRY FILE` runs the harness entry, compiled
//! natively against the real crate, feeding it the recorded values (one decimal per line).
//! Exit: 0 the property held, 1 it failed, 77 the vector breaks an assumption, 78 it is too short;
//! a panic or a memory error aborts the process.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    io::Write,
    sync::Mutex,
};
struct St {
    v: Vec<u64>,
    i: usize,
    obs: Vec<u64>,
    covers: u128,
}
static ST: Mutex<St> = Mutex::new(St { v: vec![], i: 0, obs: vec![], covers: 0 });
fn next() -> u64 {
    let mut s = ST.lock().unwrap();
    let i = s.i;
    s.i += 1;
    match s.v.get(i) {
        Some(x) => *x,
        None => end(78, "input vector too short"),
    }
}
fn end(code: i32, msg: &str) -> ! {
    println!("{msg}");
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(code) }
}
unsafe fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
#[no_mangle]
extern "C" fn sym_u8() -> u8 {
    next() as u8
}
#[no_mangle]
extern "C" fn sym_u16() -> u16 {
    next() as u16
}
#[no_mangle]
extern "C" fn sym_u32() -> u32 {
    next() as u32
}
#[no_mangle]
extern "C" fn sym_u64() -> u64 {
    next()
}
#[no_mangle]
extern "C" fn sym_choice(n: u32) -> u32 {
    let v = next() as u32;
    if v >= n {
        end(77, "assumption violated (choice)")
    }
    v
}
#[no_mangle]
extern "C" fn sym_assume(b: bool) {
    if !b {
        end(77, "assumption violated")
    }
}
#[no_mangle]
unsafe extern "C" fn sym_assert_(b: bool, p: *const u8, n: usize) {
    if !b {
        end(1, &format!("FAILED: {}", text(p, n)))
    }
}
#[no_mangle]
unsafe extern "C" fn sym_fail_(p: *const u8, n: usize) -> ! {
    end(1, &format!("FAILED: {}", text(p, n)))
}
#[no_mangle]
extern "C" fn sym_observe(v: u64) {
    ST.lock().unwrap().obs.push(v);
}
#[no_mangle]
extern "C" fn sym_cover(id: u32) {
    ST.lock().unwrap().covers |= 1 << id;
}
#[no_mangle]
unsafe extern "C" fn sym_cmp_(a: *const u8, an: usize, b: *const u8, bn: usize) -> i32 {
    std::slice::from_raw_parts(a, an).cmp(std::slice::from_raw_parts(b, bn)) as i32
}
#[no_mangle]
extern "C" fn sym_ite(c: bool, x: u64, y: u64) -> u64 {
    if c {
        x
    } else {
        y
    }
}
/// Allocator that checks layouts on deallocation, so that a mismatched or double free found
/// symbolically also shows up natively.
struct Checked;
const H: usize = 32;
const LIVE: u64 = 0x5afe_a110_c5afe001;
unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let off = H.max(l.align());
        let Ok(full) = Layout::from_size_align(l.size() + off, l.align().max(16)) else { return std::ptr::null_mut() };
        let p = System.alloc(full);
        if p.is_null() {
            return p;
        }
        let u = p.add(off);
        let h = u.sub(H) as *mut u64;
        h.write(LIVE);
        h.add(1).write(l.size() as u64);
        h.add(2).write(l.align() as u64);
        std::ptr::write_bytes(u, 0xa5, l.size());
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let h = u.sub(H) as *mut u64;
        if h.read() != LIVE || h.add(1).read() != l.size() as u64 || h.add(2).read() != l.align() as u64 {
            let m = b"FAILED: memory error: bad deallocation\n";
            libc::write(1, m.as_ptr() as *const _, m.len());
            libc::_exit(1)
        }
        h.write(0xdead);
        std::ptr::write_bytes(u, 0xdd, l.size());
        let off = H.max(l.align());
        System.dealloc(u.sub(off), Layout::from_size_align_unchecked(l.size() + off, l.align().max(16)))
    }
}
#[global_allocator]
static A: Checked = Checked;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 || a[1] == "--list" {
        for l in harness::ENTRIES {
            for (n, _) in *l {
                println!("{n}");
            }
        }
        return;
    }
    let text = std::fs::read_to_string(&a[2]).expect("input file");
    ST.lock().unwrap().v = text.lines().filter_map(|l| l.trim().parse().ok()).collect();
    let f = harness::ENTRIES.iter().flat_map(|l| l.iter()).find(|e| e.0 == a[1]).expect("no such entry").1;
    f();
    let s = ST.lock().unwrap();
    println!("obs {}", s.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    println!("covers {:#x}", s.covers);
    if s.i != s.v.len() {
        println!("unused {}", s.v.len() - s.i);
    }
}
