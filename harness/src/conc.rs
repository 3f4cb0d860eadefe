//! Operations running at the same time on one handle: every interleaving at await points.
use crate::{
    entries,
    env::Env,
    hist::{prepare, Log, Map},
    robust::schedule,
    rt::block_on,
    sym::{self, check, cover},
    trees::open_model,
};
use futures_lite::StreamExt;
use hyperbee::{prefixed::Prefixed, Hyperbee};
use std::{future::Future, pin::Pin, sync::Arc};

#[derive(Clone)]
pub struct Todo {
    pub kind: u32,
    pub key: Vec<u8>,
    pub tag: u8,
}
/// What the caller learns; comparable between runs.
pub type Seen = Vec<u64>;
pub async fn act(hb: &Hyperbee, sub: &Prefixed, t: &Todo) -> Seen {
    let v = Some(&[t.tag][..]);
    let opt = |x: Option<u64>| x.map_or(u64::MAX, |x| x);
    match t.kind {
        0 => match hb.put(&t.key, v).await {
            Ok((o, n)) => vec![0, opt(o), n],
            Err(_) => vec![99],
        },
        1 => match hb.del(&t.key).await {
            Ok(o) => vec![1, opt(o)],
            Err(_) => vec![99],
        },
        // insert if absent: of several, one wins
        2 => match hb.put_compare_and_swap(&t.key, v, |o, _| o.is_none()).await {
            Ok((o, n)) => vec![2, opt(o), opt(n)],
            Err(_) => vec![99],
        },
        3 => match hb.get(&t.key).await {
            Ok(Some((s, v))) => vec![3, s, v.map_or(1000, |v| v.first().map_or(500, |x| *x as u64))],
            Ok(None) => vec![3],
            Err(_) => vec![99],
        },
        4 => match hb.del_compare_and_swap(&t.key, |_| true).await {
            Ok(Some((b, s))) => vec![4, b as u64, s],
            Ok(None) => vec![4],
            Err(_) => vec![99],
        },
        5 => match hb.create_header(None).await {
            Ok(o) => vec![5, o.length],
            Err(hyperbee::HyperbeeError::HeaderAlreadyExists) => vec![5],
            Err(_) => vec![99],
        },
        6 => match sub.put(&t.key, v).await {
            Ok((o, n)) => vec![6, opt(o), n],
            Err(_) => vec![99],
        },
        7 => match sub.del(&t.key).await {
            Ok(o) => vec![7, opt(o)],
            Err(_) => vec![99],
        },
        8 => match sub.put_compare_and_swap(&t.key, v, |o, _| o.is_none()).await {
            Ok((o, n)) => vec![8, opt(o), opt(n)],
            Err(_) => vec![99],
        },
        9 => match sub.del_compare_and_swap(&t.key, |_| true).await {
            Ok(Some((b, s))) => vec![9, b as u64, s],
            Ok(None) => vec![9],
            Err(_) => vec![99],
        },
        10 => vec![10, hb.version().await],
        12 => match sub.get(&t.key).await {
            Ok(Some((s, v))) => vec![12, s, v.map_or(1000, |v| v.first().map_or(500, |x| *x as u64))],
            Ok(None) => vec![12],
            Err(_) => vec![99],
        },
        13 => {
            let mut out = vec![13];
            match sub.traverse(&Default::default()).await {
                Ok(s) => {
                    let mut s = Box::pin(s);
                    while let Some(x) = s.next().await {
                        match x {
                            Ok(x) => out.extend([x.seq, x.key.len() as u64]),
                            Err(_) => return vec![99],
                        }
                    }
                }
                Err(hyperbee::HyperbeeError::NoRootError) => (),
                Err(_) => return vec![99],
            }
            out
        }
        _ => {
            let mut out = vec![11];
            match hb.traverse(Default::default()).await {
                Ok(s) => {
                    let mut s = Box::pin(s);
                    while let Some(x) = s.next().await {
                        match x {
                            Ok(x) => out.push(x.seq),
                            Err(_) => return vec![99],
                        }
                    }
                }
                Err(hyperbee::HyperbeeError::NoRootError) => (),
                Err(_) => return vec![99],
            }
            out
        }
    }
}
fn serial(base: &Arc<Log>, ts: &[Todo], order: &[usize]) -> (Vec<Seen>, Arc<Log>) {
    let log = base.copy();
    let hb = open_model(log.clone());
    let sub = hb.sub(b"p", Default::default());
    let mut out = vec![vec![]; ts.len()];
    for i in order {
        out[*i] = block_on(act(&hb, &sub, &ts[*i]));
    }
    (out, log)
}
fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 2 {
        return vec![vec![0, 1], vec![1, 0]];
    }
    vec![vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![1, 2, 0], vec![2, 0, 1], vec![2, 1, 0]]
}
/// `kinds[i]`: what operation `i` may be. Some serial order of the operations must explain both
/// what the callers saw and what the log holds.
fn linear(pre: u32, kinds: &[&[u32]], switches: u32, below: u32) {
    let base = Log::new();
    {
        let hb = open_model(base.clone());
        prepare(&hb, &mut Map::default(), pre);
    }
    let todo: Vec<Todo> = kinds
        .iter()
        .enumerate()
        .map(|(i, k)| Todo { kind: k[sym::choice(k.len() as u32) as usize], key: vec![sym::u8()], tag: 10 + i as u8 })
        .collect();
    for t in &todo {
        // keys near the low end of the tree
        sym::assume((t.key[0] as u32) < below);
    }
    let log = base.copy();
    let env = Env::new(log.clone());
    let hb = open_model(env.clone());
    let sub = hb.sub(b"p", Default::default());
    if sym::flip() {
        // with everything cached
        block_on(act(&hb, &sub, &Todo { kind: 11, key: vec![], tag: 0 }));
    }
    env.ctl().always = true;
    let fs: Vec<Pin<Box<dyn Future<Output = Seen> + '_>>> =
        todo.iter().map(|t| Box::pin(act(&hb, &sub, t)) as Pin<Box<dyn Future<Output = Seen>>>).collect();
    let seen = schedule(fs, switches);
    env.ctl().always = false;
    for s in &seen {
        check(s[0] != 99, "an operation fails because another one is running");
    }
    let mut ok = false;
    for o in orders(todo.len()) {
        let (want, wlog) = serial(&base, &todo, &o);
        if want == seen && wlog.blocks().len() == log.blocks().len() {
            let mut same = true;
            for (a, b) in wlog.blocks().iter().zip(log.blocks().iter()) {
                same &= sym::eq(a, b);
            }
            ok |= same;
        }
    }
    cover(if seen.iter().all(|s| s.len() > 1) { 0 } else { 1 });
    check(ok, "no order of the operations explains their results and the log");
}
const WRITE: &[u32] = &[0, 1, 2];
const ALL: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
const MUT: &[u32] = &[0, 1, 2, 4, 5, 6, 7, 8, 9];
const LOOK: &[u32] = &[3, 10, 11];
const SUB_WRITE: &[u32] = &[6, 7, 8, 9];
const SUB_LOOK: &[u32] = &[12, 13];
entries! {
    h_conc_empty => linear(0, &[MUT, ALL], 2, 256);
    h_conc_small => linear(1, &[MUT, ALL], 2, 256);
    h_conc_split => linear(8, &[&[0, 1], WRITE], 2, 50);
    h_conc_look => linear(8, &[WRITE, LOOK], 2, 50);
    h_conc_sub => linear(1, &[SUB_WRITE, SUB_LOOK], 2, 256);
    h_conc_sub8 => linear(8, &[SUB_WRITE, SUB_LOOK], 2, 256);
    h_conc_three => linear(0, &[&[0, 1, 2], &[0, 6], &[0, 3]], 1, 256);
    h_conc_small2 => linear(2, &[MUT, ALL], 2, 256);
    h_conc_deep => linear(1, &[MUT, ALL], 4, 256);
    h_conc_split_all => linear(8, &[WRITE, WRITE], 2, 256);
    h_conc_two => linear(14, &[WRITE, WRITE], 2, 60);
    h_conc_three1 => linear(1, &[&[0, 1, 2], &[0, 6], &[0, 1, 3]], 2, 256);
}
