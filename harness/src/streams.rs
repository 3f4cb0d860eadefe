//! Attaching replication streams.
use crate::{
    conc::{act, Todo},
    entries,
    env::Env,
    hist::{prepare, Log, Map},
    robust::schedule,
    rt::{self, block_on, Cell},
    sym::{self, check, cover},
    trees::open_model,
};
use futures_lite::{AsyncRead, AsyncWrite};
use std::{
    future::Future,
    io,
    pin::Pin,
    sync::Arc,
    task::{Context, Poll},
};

/// A connection that notes what is done to it.
struct Conn {
    id: u32,
    seen: Arc<Cell<[u32; 4]>>,
}
impl Drop for Conn {
    fn drop(&mut self) {
        self.seen.get()[0] += 1;
    }
}
impl AsyncRead for Conn {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<io::Result<usize>> {
        self.seen.get()[1] += 1;
        Poll::Ready(Ok(0))
    }
}
impl AsyncWrite for Conn {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        self.seen.get()[2] += 1;
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.seen.get()[2] += 1;
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.seen.get()[3] += 1;
        Poll::Ready(Ok(()))
    }
}
type Seen = Arc<Cell<[u32; 4]>>;
fn conn(id: u32) -> (Conn, Seen) {
    let seen: Seen = Arc::new(Cell::new([0; 4]));
    (Conn { id, seen: seen.clone() }, seen)
}
/// The log has exactly these streams, open and as they were given.
fn attached(env: &Env, want: &[(Seen, bool)], ordered: bool) {
    let s = &env.ctl().streams;
    check(s.len() == want.len(), "attaching streams attaches other than each of them once");
    let mut left: Vec<usize> = (0..want.len()).collect();
    for (x, role) in s {
        let Some(c) = x.downcast_ref::<Conn>() else { sym::fail("another stream than the one given is attached") };
        let Some(at) = left.iter().position(|i| *i as u32 == c.id) else { sym::fail("a stream is attached twice") };
        check(!ordered || at == 0, "streams are attached in another order");
        let i = left.remove(at);
        check(*role == want[i].1, "a stream is attached in the other role");
        check(*want[i].0.get() == [0; 4], "a stream is read, written, closed or dropped while it is being attached");
    }
}
fn run(pre: u32, kinds: &[u32]) {
    let base = Log::new();
    prepare(&open_model(base.clone()), &mut Map::default(), pre);
    let todo = Todo { kind: kinds[sym::choice(kinds.len() as u32) as usize], key: vec![sym::u8()], tag: 9 };
    let (log, plain) = (base.copy(), base.copy());
    let env = Env::new(log.clone());
    let (hb, other) = (open_model(env.clone()), open_model(plain.clone()));
    let (sub, osub) = (hb.sub(b"p", Default::default()), other.sub(b"p", Default::default()));
    let mut streams = vec![];
    let n = 1 + sym::choice(2);
    let before = sym::choice(n + 1);
    let mut attach = |i: u32| {
        let (c, seen) = conn(i);
        let role = sym::flip();
        streams.push((seen, role));
        sym::must(block_on(hb.add_stream(c, role)), "attaching a stream fails");
        attached(&env, &streams, true);
    };
    (0..before).for_each(&mut attach);
    let same = |a: &Log, b: &Log| a.blocks().len() == b.blocks().len() && a.blocks().iter().zip(b.blocks().iter()).fold(true, |s, (x, y)| s & sym::eq(x, y));
    check(same(&log, &base), "attaching a stream changes the log");
    let a = block_on(act(&hb, &sub, &todo));
    let b = block_on(act(&other, &osub, &todo));
    check(a == b, "an operation gives another result because a stream is attached");
    (before..n).for_each(&mut attach);
    check(same(&log, &plain), "an operation writes other blocks because a stream is attached");
    let look = Todo { kind: 11, key: vec![], tag: 0 };
    check(block_on(act(&hb, &sub, &look)) == block_on(act(&other, &osub, &look)), "attaching a stream changes the contents of the tree");
    attached(&env, &streams, true);
    cover(n - 1);
}
/// A stream is attached while another operation, or another attachment, is running.
fn together(pre: u32, kinds: &[u32], switches: u32) {
    let base = Log::new();
    prepare(&open_model(base.clone()), &mut Map::default(), pre);
    let todo = Todo { kind: kinds[sym::choice(kinds.len() as u32) as usize], key: vec![sym::u8()], tag: 9 };
    let log = base.copy();
    let env = Env::new(log.clone());
    let hb = open_model(env.clone());
    let sub = hb.sub(b"p", Default::default());
    let (c, seen) = conn(0);
    let (d, dseen) = conn(1);
    let (r1, r2) = (sym::flip(), sym::flip());
    let two = sym::flip();
    let add = |c, r| {
        let hb = &hb;
        Box::pin(async move { vec![hb.add_stream(c, r).await.is_ok() as u64] })
    };
    env.ctl().always = true;
    let mut want = vec![(seen, r1)];
    let mut fs: Vec<Pin<Box<dyn Future<Output = Vec<u64>> + '_>>> = vec![add(c, r1)];
    if two {
        fs.push(add(d, r2));
        want.push((dseen, r2));
    } else {
        fs.push(Box::pin(act(&hb, &sub, &todo)));
    }
    let got = schedule(fs, switches);
    env.ctl().always = false;
    check(got[0] == [1], "attaching a stream fails because another operation is running");
    attached(&env, &want, false);
    if two {
        check(got[1] == [1], "attaching a stream fails because another is being attached");
        cover(0);
        return;
    }
    let plain = base.copy();
    let other = open_model(plain.clone());
    let b = block_on(act(&other, &other.sub(b"p", Default::default()), &todo));
    check(got[1] == b, "an operation gives another result because a stream is being attached");
    check(log.blocks().len() == plain.blocks().len(), "an operation writes other blocks because a stream is being attached");
    for (x, y) in log.blocks().iter().zip(plain.blocks().iter()) {
        check(sym::eq(x, y), "an operation writes other blocks because a stream is being attached");
    }
    cover(1);
}
/// Attaching is given up at any suspension point: the stream is attached, or dropped; the tree is as before.
fn given_up() {
    let log = Log::new();
    prepare(&open_model(log.clone()), &mut Map::default(), sym::choice(2));
    let blocks = log.blocks().len();
    let env = Env::new(log.clone());
    let hb = open_model(env.clone());
    let (c, seen) = conn(0);
    let role = sym::flip();
    env.ctl().always = true;
    {
        let mut f = Box::pin(hb.add_stream(c, role));
        for _ in 0..sym::choice(4) {
            if rt::poll_once(f.as_mut()).is_ready() {
                break;
            }
        }
    }
    env.ctl().always = false;
    if env.ctl().streams.is_empty() {
        check(*seen.get() == [1, 0, 0, 0], "a stream whose attachment was given up is not released");
        cover(0);
    } else {
        attached(&env, &[(seen, role)], true);
        cover(1);
    }
    check(log.blocks().len() == blocks, "attaching a stream writes to the log");
    let (d, seen) = conn(0);
    env.ctl().streams.clear();
    sym::must(block_on(hb.add_stream(d, role)), "attaching a stream fails");
    attached(&env, &[(seen, role)], true);
    sym::must(block_on(hb.put(b"k", None)), "put fails after attaching a stream was given up");
}
const ANY: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
entries! {
    h_stream0 => run(0, ANY);
    h_stream2 => run(2, ANY);
    h_stream8 => run(8, ANY);
    h_stream_conc0 => together(0, ANY, 4);
    h_stream_conc1 => together(1, ANY, 4);
    h_stream_conc8 => together(8, ANY, 2);
    h_stream_drop => given_up();
}
