//! A tree is its log and nothing else: neither the age of a handle nor other trees matter.
use crate::{
    conc::{act, Seen, Todo},
    entries,
    env::Env,
    hist::{check_all, check_get, prepare, Log, Map},
    rt::{block_on, poll_once},
    sym::{self, check, cover},
    trees::open_model,
};
use hyperbee::Hyperbee;
use std::{sync::Arc, task::Poll};

fn todo(kinds: &[u32], below: u32, tag: u8) -> Todo {
    let t = Todo { kind: kinds[sym::choice(kinds.len() as u32) as usize], key: vec![sym::u8()], tag };
    sym::assume((t.key[0] as u32) < below);
    t
}
fn run(hb: &Hyperbee, t: &Todo) -> Seen {
    let sub = hb.sub(b"p", Default::default());
    block_on(act(hb, &sub, t))
}
fn same(a: &Arc<Log>, b: &Arc<Log>) -> bool {
    a.blocks().len() == b.blocks().len() && a.blocks().iter().zip(b.blocks().iter()).all(|(x, y)| x.len() == y.len() && sym::eq(x, y))
}
/// The same operations through one handle that has done everything so far, and looks in between,
/// and through a new handle for each.
fn age(pre: u32, n: u32, kinds: &[u32], below: u32) {
    let (old, new) = (Log::new(), Log::new());
    let hb = open_model(old.clone());
    if sym::flip() {
        // opened, and looked at, while the log was empty
        check(sym::must(block_on(hb.get(b"k")), "get fails").is_none(), "an empty log holds a key");
        cover(0);
    }
    prepare(&hb, &mut Map::default(), pre);
    prepare(&open_model(new.clone()), &mut Map::default(), pre);
    for i in 0..n {
        match sym::choice(4) {
            0 => {}
            1 => drop(block_on(hb.get(&[130]))),
            2 => drop(block_on(hb.height())),
            // a condition that says no (on an empty log that may still write the header)
            _ if old.blocks().is_empty() => {}
            _ => drop(block_on(hb.put_compare_and_swap(&[(i * 90 + 20) as u8], None, |_, _| false))),
        }
        let t = todo(kinds, below, 10 + i as u8);
        let (a, b) = (run(&hb, &t), run(&open_model(new.clone()), &t));
        check(a == b, "an operation gives another result through a handle that has been used before");
        check(same(&old, &new), "an operation writes something else through a handle that has been used before");
    }
    cover(1);
}
/// Two trees in one process, whose logs hold other entries at the same positions.
fn two(pre: u32, n: u32, below: u32, meet: bool) {
    let logs = [Log::new(), Log::new()];
    let envs = [Env::new(logs[0].clone()), Env::new(logs[1].clone())];
    let hbs = [open_model(envs[0].clone()), open_model(envs[1].clone())];
    let mut maps = [Map::default(), Map::default()];
    // the second tree holds other keys: one more, so that all are spread differently
    prepare(&hbs[0], &mut maps[0], pre);
    prepare(&hbs[1], &mut maps[1], pre + 1);
    for i in 0..n {
        let at = sym::choice(2) as usize;
        let (k, del) = (vec![sym::u8()], sym::flip());
        sym::assume((k[0] as u32) < below);
        let v = [40 + i as u8];
        if meet {
            // while this operation is suspended, the other tree is changed
            envs[at].ctl().may_suspend = 1;
            let (hb, o) = (&hbs[at], &hbs[1 - at]);
            let mut f = Box::pin(async { if del { hb.del(&k).await.map(|x| (x, 0)) } else { hb.put(&k, Some(&v)).await } });
            let (mut met, mut done) = (false, None);
            while done.is_none() {
                match poll_once(f.as_mut()) {
                    Poll::Ready(x) => done = Some(x),
                    Poll::Pending => {
                        let (old, seq) = sym::must(block_on(o.put(&[77], Some(b"other"))), "put fails");
                        check(old == maps[1 - at].put(&[77], Some(b"other"), seq), "put reports another replaced entry than the one in its own tree");
                        met = true;
                    }
                }
            }
            drop(f);
            cover(met as u32);
            let (old, seq) = sym::must(done.unwrap(), "an operation fails");
            let want = if del { maps[at].del(&k) } else { maps[at].put(&k, Some(&v), seq) };
            check(old == want, "an operation reports another entry than the one in its own tree");
        } else if del {
            check(sym::must(block_on(hbs[at].del(&k)), "del fails") == maps[at].del(&k), "del reports another entry than the one in its own tree");
        } else {
            let (old, seq) = sym::must(block_on(hbs[at].put(&k, Some(&v))), "put fails");
            check(seq + 1 == logs[at].blocks().len() as u64, "put reports a position in another log");
            check(old == maps[at].put(&k, Some(&v), seq), "put reports another replaced entry than the one in its own tree");
        }
        check(block_on(hbs[at].version()) == logs[at].blocks().len() as u64, "version is not the length of its own log");
    }
    let at = sym::choice(2) as usize;
    for i in [at, 1 - at] {
        if sym::flip() {
            check_all(&hbs[i], &maps[i], false);
        } else {
            check_get(&hbs[i], &maps[i], &[77]);
        }
    }
    cover(2);
}
const ALL: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
entries! {
    h_age0 => age(0, 2, ALL, 256);
    h_age2 => age(2, 2, &[0, 1, 11], 256);
    h_age8 => age(8, 2, &[0, 1, 11], 100);
    h_age14 => age(14, 1, ALL, 256);
    h_age60 => age(60, 1, &[0, 1, 11], 256);
    h_age0w => age(0, 3, &[0, 1], 256);
    h_age14w => age(14, 2, &[0, 1], 100);
    h_two0 => two(0, 2, 256, false);
    h_two8 => two(8, 1, 256, false);
    h_two14 => two(14, 1, 128, false);
    h_two_meet0 => two(0, 1, 256, true);
    h_two_meet8 => two(8, 1, 256, true);
    h_two_meet14 => two(14, 1, 128, true);
    h_two14w => two(14, 2, 64, false);
}
