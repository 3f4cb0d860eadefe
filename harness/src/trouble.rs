//! Several failures and cancellations in a row, and operations dropped while others wait for them.
use crate::{
    entries,
    env::Env,
    lazy::{LazyTree, Shape},
    robust::{agree, run, K, LEAF, MINI, SMALL, TINY},
    rt,
    sym::{self, check, cover},
    trees::open_model,
};
use hyperbee::Hyperbee;
use std::{future::Future, pin::Pin, sync::Arc, task::{Context, Poll}};

fn q() -> Vec<u8> {
    sym::u16().to_be_bytes().to_vec()
}
fn mutation() -> K {
    if sym::flip() { K::Put } else { K::Del }
}
/// `n` mutations through one handle, each failing or dropped at any one storage operation.
fn row(sh: Shape, n: u32, how: u32, other: bool) {
    let m = Arc::new(LazyTree::new(sh));
    let env = Env::new(m.clone());
    let hb = open_model(env.clone());
    let key = q();
    let mut seen = 0;
    for i in 0..n {
        let k = if i == 0 || !other || sym::flip() { key.clone() } else { q() };
        let before = m.st().appended.len();
        let c = env.ctl();
        let kind = mutation();
        if sym::flip() {
            (c.faults, c.faulted, c.kinds) = (1, 0, 7);
            let r = rt::block_on(run(&hb, kind, &k));
            if c.faulted == 0 {
                sym::assume(false);
            }
            c.faults = 0;
            check(r.is_err(), "an operation whose storage access failed reports success");
            check(m.st().appended.len() == before, "a failed operation changed the log");
            seen |= 1;
        } else {
            c.may_suspend = 1;
            let mut f = Box::pin(run(&hb, kind, &k));
            if rt::poll_once(f.as_mut()).is_ready() {
                sym::assume(false);
            }
            c.may_suspend = 0;
            drop(f);
            check(m.st().appended.len() <= before + 1, "a cancelled operation appended more than one block");
            seen |= 2;
        }
    }
    cover(seen);
    agree(&m, &hb, &key, how);
}
type Out = Vec<u64>;
async fn op(hb: &Hyperbee, kind: u32, key: &[u8]) -> Out {
    let n = |x: Option<u64>| x.unwrap_or(u64::MAX);
    match kind {
        0 | 1 => {
            let (a, b) = sym::must(run(hb, if kind == 0 { K::Put } else { K::Del }, key).await, "a mutation fails");
            vec![n(a), n(b)]
        }
        2 => vec![n(sym::must(hb.get(key).await, "get fails").map(|x| x.0))],
        _ => vec![sym::must(hb.height().await, "height fails") as u64],
    }
}
type Fut<'a> = Pin<Box<dyn Future<Output = Out> + 'a>>;
struct Task<'a> {
    flag: Arc<rt::Flag>,
    waker: std::task::Waker,
    f: Option<Fut<'a>>,
    out: Option<Out>,
}
impl<'a> Task<'a> {
    fn new(f: impl Future<Output = Out> + 'a) -> Self {
        let (flag, waker) = rt::Flag::new();
        Task { flag, waker, f: Some(Box::pin(f)), out: None }
    }
    /// true: it is done
    fn poll(&mut self) -> bool {
        if let Some(f) = &mut self.f {
            if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&self.waker)) {
                self.out = Some(x);
                self.f = None;
            }
        }
        self.f.is_none()
    }
}
/// all to the end, each polled only when woken
fn finish(mut ts: Vec<&mut Task<'_>>, msg: &str) {
    while ts.iter().any(|t| t.f.is_some()) {
        let mut any = false;
        for t in &mut ts {
            if t.f.is_some() && t.flag.take() {
                any = true;
                t.poll();
            }
        }
        if !any {
            sym::fail(msg);
        }
    }
}
fn fresh(m: &Arc<LazyTree>, kind: u32, key: &[u8]) -> Out {
    rt::block_on(op(&open_model(m.clone()), kind, key))
}
fn same(a: &[Vec<u8>], b: &[Vec<u8>]) {
    check(a.len() == b.len(), "an operation writes another number of blocks after one was dropped");
    for (x, y) in a.iter().zip(b) {
        check(sym::eq(x, y), "an operation writes other bytes after one was dropped");
    }
}
/// One operation is suspended at any storage operation, one or two others come after it; then one is dropped.
fn waits(sh: Shape, first: &[u32], second: &[u32], three: bool) {
    let m = Arc::new(LazyTree::new(sh));
    let env = Env::new(m.clone());
    let hb = open_model(env.clone());
    let c = env.ctl();
    let (ka, kb) = (q(), q());
    let (a, b) = (first[sym::choice(first.len() as u32) as usize], second[sym::choice(second.len() as u32) as usize]);
    let (mut ta, mut tb, mut tc) = (Task::new(op(&hb, a, &ka)), Task::new(op(&hb, b, &kb)), Task::new(op(&hb, 2, &kb)));
    c.may_suspend = 1;
    if ta.poll() {
        sym::assume(false);
    }
    c.may_suspend = 0;
    // if there is nothing to wait for, there is nothing to see here
    if tb.poll() || three && tc.poll() {
        sym::assume(false);
    }
    let msg = "an operation stalls after another one was dropped";
    if sym::flip() {
        // the one that has begun is dropped: what it wrote, if anything, stays
        ta.f = None;
        let n = m.st().appended.len();
        check(n <= 1, "a cancelled operation appended more than one block");
        if three {
            finish(vec![&mut tb, &mut tc], msg);
        } else {
            finish(vec![&mut tb], msg);
        }
        let got = three.then(|| fresh(&m, 2, &kb));
        let written = m.st().appended.split_off(n);
        if three {
            check(tc.out == got || tc.out == Some(fresh(&m, 2, &kb)), "an operation that waited is affected by one that was dropped");
        }
        check(tb.out == Some(fresh(&m, b, &kb)), "an operation that waited is affected by one that was dropped");
        same(&written, &m.st().appended[n..]);
        cover(n as u32);
    } else {
        // the one that waits is dropped: as if it had never been called
        tb.f = None;
        if three {
            finish(vec![&mut ta, &mut tc], msg);
        } else {
            finish(vec![&mut ta], msg);
        }
        let got = three.then(|| fresh(&m, 2, &kb));
        let written = m.st().appended.split_off(0);
        if three {
            check(tc.out == got || tc.out == Some(fresh(&m, 2, &kb)), "an operation is affected by one that was dropped while it waited");
        }
        check(ta.out == Some(fresh(&m, a, &ka)), "an operation is affected by one that was dropped while it waited");
        same(&written, &m.st().appended);
        cover(2);
    }
    agree(&m, &hb, &kb, 3);
}
const L1: Shape = Shape { root: &[1], ..LEAF };
const L8: Shape = Shape { root: &[8], ..LEAF };
const L: Shape = Shape { root: &[1, 8], ..LEAF };
entries! {
    h_row1 => row(L1, 2, 3, true);
    h_row8 => row(L8, 2, 3, false);
    h_row2 => row(MINI, 2, 3, false);
    h_row1w => row(LEAF, 2, 0, true);
    h_row2w => row(TINY, 2, 0, true);
    h_row8w => row(L8, 2, 3, true);
    h_row3 => row(L1, 3, 3, true);
    h_wait1 => waits(L8, &[0, 1], &[0], false);
    h_wait1b => waits(L1, &[0, 1], &[1, 3], false);
    h_wait2 => waits(MINI, &[1], &[0], false);
    h_wait_read => waits(L, &[2], &[0, 1], false);
    h_wait_three => waits(L1, &[0, 1], &[0, 1], true);
    h_wait2w => waits(SMALL, &[0, 1], &[0, 1, 2], false);
}
