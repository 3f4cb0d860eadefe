//! Logging and debug output while operations run.
use crate::{
    codec::{self, Block, Level},
    conc::{act, Seen, Todo},
    entries,
    env::Env,
    hist::{prepare, Log, Map},
    rt::{block_on, poll_once, Cell},
    sym::{self, check, cover},
    trees::open_model,
};
use hyperbee::{
    prefixed::PrefixedConfigBuilder,
    traverse::{TraverseConfig, TraverseConfigBuilder},
    Hyperbee,
};
use std::{
    fmt::{self, Debug, Write},
    sync::Arc,
    task::Poll,
};
use tracing::{
    field::{Field, Visit},
    span::{Attributes, Id, Record},
    Event, Metadata, Subscriber,
};

/// Somewhere to write that only counts.
#[derive(Default)]
struct Sink(usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
impl Visit for Sink {
    fn record_debug(&mut self, f: &Field, v: &dyn Debug) {
        check(write!(self, "{}={:?} {:#?}", f.name(), v, v).is_ok(), "something logged can not be formatted");
    }
}
fn show(v: &dyn Debug) -> usize {
    let mut s = Sink::default();
    check(write!(s, "{:?}|{:#?}", v, v).is_ok(), "something can not be formatted");
    s.0
}
/// Takes down everything: every span, event and field at every level.
#[derive(Default)]
struct All(Cell<[u64; 4]>);
impl Default for Cell<[u64; 4]> {
    fn default() -> Self {
        Cell::new([0; 4])
    }
}
impl Subscriber for All {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        let mut s = Sink::default();
        a.record(&mut s);
        let n = self.0.get();
        n[0] += 1;
        n[3] += s.0 as u64;
        Id::from_u64(n[0])
    }
    fn record(&self, _: &Id, r: &Record<'_>) {
        r.record(&mut Sink::default());
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut s = Sink::default();
        e.record(&mut s);
        let n = self.0.get();
        n[1] += 1;
        n[3] += s.0 as u64;
    }
    fn enter(&self, _: &Id) {
        self.0.get()[2] += 1;
    }
    fn exit(&self, _: &Id) {
        self.0.get()[2] -= 1;
    }
}
async fn any(hb: &Hyperbee, t: &Todo) -> Seen {
    match t.kind {
        12 => vec![12, hb.height().await.unwrap_or(99) as u64],
        13 => hb.print().await.map_or(vec![13], |s| s.bytes().map(|b| b as u64).collect()),
        _ => {
            let sub = hb.sub(b"p", Default::default());
            act(hb, &sub, t).await
        }
    }
}
fn todo(kinds: &[u32], below: u32) -> Todo {
    let t = Todo { kind: kinds[sym::choice(kinds.len() as u32) as usize], key: vec![sym::u8()], tag: 7 };
    sym::assume((t.key[0] as u32) < below);
    t
}
fn same(a: &Arc<Log>, b: &Arc<Log>) -> bool {
    a.blocks().len() == b.blocks().len() && a.blocks().iter().zip(b.blocks().iter()).all(|(x, y)| x.len() == y.len() && sym::eq(x, y))
}
/// The same operation on two copies of a log, one of them with everything logged.
fn logged(pre: u32, kinds: &[u32], below: u32, bad: bool) {
    let base = Log::new();
    prepare(&open_model(base.clone()), &mut Map::default(), pre);
    let t = todo(kinds, below);
    if bad {
        let len = base.blocks().len() as u64;
        base.blocks().push(match sym::choice(3) {
            0 => vec![0x0a, 0x7f],
            1 => codec::encode(&Block { levels: vec![Level { keys: vec![1], children: vec![(len, 3), (len, 4)] }], key: vec![9], value: None }),
            _ => codec::encode(&Block { levels: vec![Level { keys: vec![len + 9], children: vec![] }], key: vec![9], value: None }),
        });
    }
    let (a, b) = (base.copy(), base.copy());
    let quiet = block_on(any(&open_model(a.clone()), &t));
    let all = Arc::new(All::default());
    let loud = tracing::subscriber::with_default(all.clone(), || {
        tracing::trace_span!("logged", x = 1).in_scope(|| tracing::trace!("logged"));
        block_on(any(&open_model(b.clone()), &t))
    });
    if bad {
        match block_on(open_model(b.copy()).get(&t.key)) {
            Ok(_) => {}
            Err(e) => {
                show(&e);
                check(!format!("{e}").is_empty(), "an error has no message");
                cover(2);
            }
        }
    }
    check(quiet == loud, "an operation gives another result when it is logged");
    check(same(&a, &b), "an operation writes something else when it is logged");
    let n = all.0.get();
    cover(if n[0] > 0 && n[1] > 0 { 0 } else { 1 }); // what this function itself logs is seen
}
/// Everything with a debug form is formatted in the middle of an operation.
fn shown(pre: u32, kinds: &[u32], below: u32) {
    let base = Log::new();
    prepare(&open_model(base.clone()), &mut Map::default(), pre);
    let t = todo(kinds, below);
    let (a, b) = (base.copy(), base.copy());
    let quiet = block_on(any(&open_model(a.clone()), &t));
    let env = Env::new(b.clone());
    let hb = open_model(env.clone());
    let sub = hb.sub(b"p", Default::default());
    env.ctl().always = true;
    let mut f = Box::pin(any(&hb, &t));
    let mut looked = false;
    let seen = loop {
        let now = !looked && sym::flip();
        if now {
            looked = true;
            let (reads, appends) = (env.ctl().reads, env.ctl().appends);
            check(show(&hb) > 0, "a handle has no debug form");
            check(show(&sub) > 0, "a sub has no debug form");
            check(env.ctl().reads == reads && env.ctl().appends == appends, "formatting a handle reads or writes the log");
        }
        match poll_once(f.as_mut()) {
            Poll::Ready(x) => break x,
            Poll::Pending => {}
        }
    };
    drop(f);
    if !looked {
        show(&hb);
        show(&sub);
    }
    cover(looked as u32);
    check(quiet == seen, "an operation gives another result when its handle is formatted");
    check(same(&a, &b), "an operation writes something else when its handle is formatted");
}
/// Configurations, entries and errors can be formatted.
fn values() {
    let k = vec![sym::u8()];
    let mut b = TraverseConfigBuilder::default();
    show(&b);
    if sym::flip() {
        b.min_value(hyperbee::traverse::LimitValue::Finite(k.clone())).min_inclusive(sym::flip());
    }
    if sym::flip() {
        b.max_value(hyperbee::traverse::LimitValue::Finite(k.clone())).max_inclusive(sym::flip());
    }
    show(&b);
    match b.build() {
        Ok(c) => {
            show(&c);
            cover(0);
        }
        Err(e) => {
            show(&e);
            check(!format!("{e}").is_empty(), "an error has no message");
            cover(1);
        }
    }
    show(&TraverseConfig::default());
    show(&PrefixedConfigBuilder::default());
    show(&hyperbee::prefixed::PrefixedConfig::default());
    show(&hyperbee::KeyValueData { seq: sym::u8() as u64, key: k.clone(), value: Some(k) });
}
const ALL: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
entries! {
    h_log0 => logged(0, ALL, 256, false);
    h_log2 => logged(2, ALL, 256, false);
    h_log8 => logged(8, &[0, 1], 60, false);
    h_log10 => logged(10, &[1, 2, 11], 60, false);
    h_log14 => logged(14, &[0, 1, 4], 256, false);
    h_log20 => logged(20, &[1], 256, false);
    h_log60 => logged(60, &[0, 1, 11], 60, false);
    h_shown14 => shown(14, &[1], 256);
    h_log_bad => logged(1, &[0, 1, 3, 11, 12, 13], 256, true);
    h_shown0 => shown(0, ALL, 256);
    h_shown2 => shown(2, ALL, 256);
    h_shown8 => shown(8, &[0, 1, 3], 60);
    h_shown10 => shown(10, &[1, 11], 60);
    h_shown_values => values();
}
