//! Compare-and-swap.
use crate::{
    entries,
    lazy::{LazyTree, Shape},
    robust::{self, agree},
    rt::block_on,
    sym::{self, check, cover},
    trees::{open, open_model, shape, shape_edge, R0},
};
use hyperbee::KeyValueData;
use std::sync::Arc;

fn q() -> Vec<u8> {
    sym::u16().to_be_bytes().to_vec()
}
fn is_entry(m: &Arc<LazyTree>, kv: &KeyValueData, key: &[u8]) {
    let s = m.st();
    check(sym::eq(&kv.key, key), "compare-and-swap is shown another key than the one given");
    check(sym::eq(&s.key(kv.seq), key), "compare-and-swap is shown the entry of another key");
    check(crate::hist::same_val(&kv.value, &s.value(kv.seq)), "compare-and-swap is shown another value than the stored one");
}
fn put(sh: Shape, after: bool) {
    let m = Arc::new(LazyTree::new(sh));
    let hb = open(&m);
    let key = q();
    let v: Option<&[u8]> = [None, Some(&b""[..]), Some(&b"w"[..])][sym::choice(if after { 1 } else { 3 }) as usize];
    let accept = sym::flip();
    let mut calls = 0;
    let mut shown = None;
    let r = block_on(hb.put_compare_and_swap(&key, v, |o, n| {
        calls += 1;
        shown = Some((o.cloned(), n.clone()));
        accept
    }));
    let (old, new) = sym::must(r, "a compare-and-swap put fails on a valid tree");
    check(calls == 1, "a compare-and-swap put asks its function other than once");
    let Some((o, n)) = shown else { return };
    check(n.seq == sh.len, "compare-and-swap is shown a new entry with a wrong seq");
    check(sym::eq(&n.key, &key), "compare-and-swap is shown a new entry with another key");
    check(n.value.as_deref() == v, "compare-and-swap is shown a new entry with another value");
    check(old == o.as_ref().map(|o| o.seq), "a compare-and-swap put reports another old entry than the one it showed");
    match &o {
        Some(o) => {
            cover(0);
            is_entry(&m, o, &key);
        }
        None => {
            cover(1);
            check(m.st().absent(&key), "compare-and-swap is shown no old entry although there is one");
        }
    }
    if accept {
        check(new == Some(sh.len), "an accepted compare-and-swap put reports no new entry or a wrong seq");
        let written = m.st().appended.split_off(0);
        check(written.len() == 1, "an accepted compare-and-swap put appends other than one block");
        // exactly what an unconditional put does
        let (o2, n2) = sym::must(block_on(open(&m).put(&key, v)), "put fails on a valid tree");
        check((o2, Some(n2)) == (old, new), "an accepted compare-and-swap put differs from a put");
        check(sym::eq(&written[0], &m.st().appended[0]), "an accepted compare-and-swap put writes other bytes than a put");
        cover(2);
    } else {
        check(new.is_none(), "a rejected compare-and-swap put reports a new entry");
        check(m.st().appended.is_empty(), "a rejected compare-and-swap put appends to the log");
        cover(3);
        if after {
            agree(&m, &hb, &key, 0);
        }
    }
}
fn del(sh: Shape, after: bool) {
    let m = Arc::new(LazyTree::new(sh));
    let hb = open(&m);
    let key = q();
    let accept = sym::flip();
    let mut calls = 0;
    let mut shown = None;
    let r = block_on(hb.del_compare_and_swap(&key, |o| {
        calls += 1;
        shown = Some(o.clone());
        accept
    }));
    let r = sym::must(r, "a compare-and-swap delete fails on a valid tree");
    let Some((done, seq)) = r else {
        check(calls == 0, "a compare-and-swap delete of an absent key asks its function");
        check(m.st().appended.is_empty(), "a compare-and-swap delete of an absent key appends to the log");
        check(m.st().absent(&key), "a compare-and-swap delete does not find a key that is there");
        cover(0);
        return;
    };
    check(calls == 1, "a compare-and-swap delete asks its function other than once");
    let Some(o) = shown else { return };
    check(o.seq == seq, "a compare-and-swap delete reports another entry than the one it showed");
    is_entry(&m, &o, &key);
    check(done == accept, "a compare-and-swap delete misreports its decision");
    if accept {
        let written = m.st().appended.split_off(0);
        check(written.len() == 1, "an accepted compare-and-swap delete appends other than one block");
        let r2 = sym::must(block_on(open(&m).del(&key)), "del fails on a valid tree");
        check(r2 == Some(seq), "an accepted compare-and-swap delete differs from a delete");
        check(m.st().appended.len() == 1 && sym::eq(&written[0], &m.st().appended[0]), "an accepted compare-and-swap delete writes other bytes than a delete");
        cover(1);
    } else {
        check(m.st().appended.is_empty(), "a rejected compare-and-swap delete appends to the log");
        cover(2);
        if after {
            agree(&m, &hb, &key, 0);
        }
    }
}
/// On a log with only a header, or none.
fn empty() {
    let log = crate::hist::Log::new();
    let hb = open_model(log.clone());
    let head = sym::flip();
    if head {
        sym::must(block_on(hb.create_header(None)), "creating a header fails");
    }
    let key = q();
    let accept = sym::flip();
    let mut calls = 0;
    let d = sym::must(block_on(hb.del_compare_and_swap(&key, |_| unreachable())), "a compare-and-swap delete fails on an empty tree");
    check(d.is_none(), "a compare-and-swap delete finds something in an empty tree");
    let r = block_on(hb.put_compare_and_swap(&key, Some(b"v"), |o, n| {
        calls += 1;
        check(o.is_none(), "compare-and-swap is shown an old entry in an empty tree");
        check(n.seq == 1 && sym::eq(&n.key, &key) && n.value.as_deref() == Some(b"v"), "compare-and-swap is shown a wrong new entry");
        accept
    }));
    let r = sym::must(r, "a compare-and-swap put fails on an empty tree");
    check(calls == 1, "a compare-and-swap put asks its function other than once");
    check(r == (None, if accept { Some(1) } else { None }), "a compare-and-swap put on an empty tree misreports");
    let n = log.blocks().len();
    check(if accept { n == 2 } else { n == 1 || (n == 0 && !head) }, "a compare-and-swap put on an empty tree writes a wrong number of blocks");
    let g = sym::must(block_on(hb.get(&key)), "get fails");
    check(g.is_some() == accept, "a compare-and-swap put took effect other than as decided");
    cover(accept as u32);
}
fn unreachable() -> bool {
    sym::fail("a compare-and-swap delete of an absent key asks its function")
}
entries! {
    h_cas_put1 => put(R0, false);
    h_cas_put2 => put(shape(2), false);
    h_cas_put3 => put(shape_edge(3), false);
    h_cas_del1 => del(R0, false);
    h_cas_del2 => del(shape(2), false);
    h_cas_del3 => del(shape_edge(3), false);
    h_cas_put_after => put(robust::LEAF, true);
    h_cas_del_after => del(robust::LEAF, true);
    h_cas_put_after2 => put(robust::TINY, true);
    h_cas_del_after2 => del(robust::TINY, true);
    h_cas_empty => empty();
}
