"""Which entries decide which property, and within what bounds."""
ASSUMPTIONS = [
    "hypercore, the replicator, tokio's runtime and the C/UniFFI glue are models (stubs/): the log is an append-only sequence of blocks, "
    "an append happens completely or not at all, reads return what was appended; tokio's RwLock, prost and the Rust standard library are the real code",
    "the code is what rustc/LLVM makes of /repo/src in release mode with overflow and debug checks on x86-64 (one module, LTO), executed instruction by instruction",
    "one thread: concurrency is interleaving of futures at await points",
]


def lazy(sizes, kb=2):
    return ("every stored B-tree of %s, keys of %d arbitrary byte(s), any key given to the operation; parts of the tree "
            "the operation does not read are unconstrained" % (sizes, kb))


H12 = "height 1 (0-8 keys) and 2 (root 1-8, leaves 4-8 keys)"
H3 = "height 3 (root 1/8, inner 4/8, leaves 4/5/8 keys)"
PROPS = {}


WIRE_INDEX = "h_wire_len h_wire_node h_wire_index h_wire_index_one"


def prop(id, quick, thorough, bounds, assume=(), features="", wire=""):
    PROPS[id] = dict(quick=quick.split(), thorough=thorough.split(), bounds=bounds, assume=list(assume), features=features, wire=wire.split())


prop("P01", "h_get1 h_get2 h_get3 h_get5 h_put1 h_put2 h_put3 h_put4 h_hist_get h_hist_split h_hist_all h_hist_vals h_hist_len h_first h_long_key0 h_long_key1 h_long_key2 h_long_key3 h_long_key4 h_long_val h_long_huge h_many_get h_many_put",
     "h_hist_get4 h_hist_all4 h_hist_two h_hist_two_all h_hist_three h_hist_split_all h_hist_vals3 h_hist_len3 h_edge_put h_put4w h_put5",
     "one operation on " + lazy(H12 + ", and " + H3) +
     "; and every history of 3 mutations (thorough: 4) from empty, of 2 after 8 puts (thorough: also 14; 1 after 60), one-byte keys, followed by any get or a traversal")
prop("P02", "h_del1 h_del2 h_del3 h_del4 h_hist_get h_hist_split h_hist_all h_long_key2 h_long_key3 h_many_del", "h_hist_two h_hist_two_all h_hist_three h_hist_split_all h_hist_all4 h_edge_del h_del5",
     "one deletion on " + lazy(H12 + ", and " + H3) + "; and the histories of P01")
prop("P03", "h_put_shape1 h_put_shape2 h_put_shape3 h_put_shape4 h_del_shape1 h_del_shape2 h_del_shape3 h_del_shape4 h_many_put h_many_del", "h_js_put2 h_js_del2 h_js_put3 h_js_del3 h_hist_three h_put_shape4w h_del_shape5",
     "one mutation on " + lazy(H12 + ", and " + H3) + "; by induction over mutations, every tree of those heights")
prop("P04", "h_put1 h_put2 h_del1 h_del2 h_hist_get h_hist_split h_hist_vals h_cas_put1 h_cas_del1 h_first h_header h_wide_get h_long_key0 h_long_key1 h_long_key2 h_long_key3 h_long_key4 h_long_val h_many_put h_many_del", "h_put3 h_del3 h_hist_two h_hist_get4 h_cas_put2 h_cas_del2 h_wide_put",
     "one mutation on " + lazy(H12) + " (thorough: " + H3 + "); every history of 3 mutations from empty and 2 after 8 puts, one-byte keys; log lengths any 64-bit number")
prop("P05", "h_cas_put1 h_cas_put2 h_cas_del1 h_cas_del2 h_cas_put_after h_cas_del_after h_cas_put_after2 h_cas_del_after2 h_cas_empty h_long_key0 h_long_key1 h_long_key2 h_long_key3 h_long_key4 h_long_val", "h_cas_put3 h_cas_del3",
     lazy(H12) + " (thorough: " + H3 + "), value absent/empty/one byte, callback answering either way; then any one further operation after a rejected one "
     "(leaf of 0/1/2/8, height 2 with root 1 and leaves 4/8)")
prop("P06", "h_range1 h_range2 h_range3b h_long_range h_long_range2 h_infinite_len", "h_range3 h_range2w h_hist_all4 h_hist_three",
     "every combination of limits (absent, infinite, finite of one arbitrary byte, inclusive or not, crossed or not) and direction over " +
     lazy("height 1 (0/1/2/3/5/8 keys), 2 (root 1/2, leaves of 4; thorough: root 1-3, leaves 4/5) and 3 (root 1, inner 4, leaves 4; quick: at most one finite bound)", 1))
prop("P07", "h_prefix h_prefix_split h_prefix4 h_reopen h_reopen3 h_dirs h_cancel_new h_fail_new", "h_prefix_two h_hist_split_all",
     "every history of 3-4 mutations from empty and of 2 after 8 puts (thorough: 14), one-byte keys; the log cut after any of them; logs of 2-3 entries with keys of up to two bytes reopened")
prop("P08", "h_js_put1 h_js_put2 h_js_put3 h_js_put4 h_js_del1 h_js_del2 h_js_del3 h_js_del4 h_edge_put1 h_edge_del1 h_header h_header_long h_first h_long_key0 h_long_key1 h_long_key2 h_long_key3 h_long_key4 h_long_val h_long_huge", "h_edge_put h_edge_del h_wide_put h_js_put4w h_js_del5",
     "one mutation on " + lazy(H12 + ", and " + H3) + ", value absent/empty/one byte; log lengths around 2^14..2^63 and 2^64-20000; headers with metadata fields absent, empty or 2-3 arbitrary bytes",
     ["the JavaScript implementation is represented by harness/src/jsref.rs, written from its published algorithm (index.js: put, del, rebalance, split)"], wire=WIRE_INDEX + " h_wire_header")
prop("P09", "h_fail_put h_fail_del h_fail_full h_fail_cas h_fail_trav h_fail_new h_fail_over1 h_row1 h_row8", "h_row1w h_row2 h_row3 h_fail_over2 h_fail_tiny h_fail_wide h_fail_tall",
     "one storage fault (read error, missing block, append error) at any storage operation of one mutation on stored trees of height 1 (0/1/2/8 keys) and 2 "
     "(root 1/2/8, leaves 4/8; thorough: root 1/2/3/8, leaves 4/5/8, and height 3), two-byte keys; then any one operation, or (heights 1; thorough 2) another writer's mutation and a look, compared with a fresh handle")
prop("P10", "h_cancel_put h_cancel_del h_cancel_full h_cancel_cas h_cancel_trav h_cancel_new h_cancel_over1 h_row1 h_wait1 h_wait1b h_wait2 h_wait_three", "h_row1w h_row2 h_row8w h_wait2w h_cancel_over2 h_cancel_tiny h_cancel_wide h_cancel_tall",
     "one mutation dropped at any await of a storage operation (before or after it takes effect), trees as for P09; then any one operation, or (heights 1; thorough 2) another writer's mutation and a look, compared with a fresh handle")
prop("P11", "h_conc_empty h_conc_small h_conc_split h_conc_look h_conc_deep h_conc_sub", "h_conc_sub8 h_conc_three h_conc_two h_conc_small2",
     "two operations on one handle (any two of put, del, both compare-and-swaps, get, version, header creation, traversal, also through a sub) over a log of 0-2, 8 (thorough: 14) entries, "
     "one-byte keys, suspended at every storage operation, up to 2 (4 on one entry) preemptions; thorough: three operations, one preemption",
     ["one thread; preemption only at await points (the operations are not Sync-split below them)"])
prop("P12", "h_snap1_put h_snap1_del h_snap2_put h_snap2_del h_snap_poll", "h_snap2w h_snap_poll1",
     "a traversal in either direction, interrupted after any number of entries by any put or del of a one-byte key and a second mutation; trees of height 1 (0/1/2/3/5/8) and 2 (root 1/2, leaves 4; thorough: root 1-3, leaves 4/5); and one of 60 entries and height 3, interrupted after any 12th poll (thorough: any poll) by any put or del of a two-byte key and another del")
prop("P13", "h_sub_same1 h_sub_same2 h_sub_len2 h_sub_len3 h_long_sub h_long_sub_key", "h_sub_same2w",
     "any operation through a sub with prefix and key of 0-1 arbitrary bytes, default/empty/one-byte separator, on stored trees of height 1 (0/1/2/8) and 2 (root 1, leaves 4/8; thorough: root 2), two-byte keys; get, put, del through a sub of one-byte prefix and keys of up to 2 bytes on leaves of 2-3 keys of 0-3 bytes")
prop("P14", "h_sub_trav1 h_sub_trav2 h_sub_trav3 h_sub_tree h_long_sub", "h_sub_trav3w h_sub_tree1",
     "leaves of 1-3 arbitrary keys of up to 3 bytes, prefix of up to 2, separators default/empty/any byte, every combination of limits of up to one byte, both directions; height-2 trees of two-byte keys")
prop("P15", "h_builder h_range1 h_long_range h_infinite_len", "h_range2w",
     "limits unset, infinite or finite of up to 2 arbitrary bytes, flags unset/true/false in every combination")
prop("P16", "h_infinite h_infinite_len h_infinite_deep h_range1 h_long_range h_long_range2", "h_range2",
     "keys of the lengths 0-10, 12, 13, 15-17, 20, 24, 31-33, 63-65, 100, 127-129, 255-257, 511, 512, 1024 of arbitrary bytes; keys of every length up to 65536 whose first 16 bytes are arbitrary; finite limits of up to 6 bytes")
prop("P17", "h_raw4 h_rawidx4 h_malformed h_uneven", "h_raw6 h_rawidx6 h_malformed2",
     "newest block any up to 4 (thorough 6) bytes, or with any up to 4 (6) bytes as its index; or with 1-2 nodes of 0-1 (2) keys and any wrong number of children referring to any existing, missing or not yet written node or block, "
     "also in a circle; children of uneven height and size; get, put, del, traverse both ways, height, print")
prop("P18", "h_readfault1 h_readfault2 h_readfault3 h_travfault1 h_travfault2 h_fail_put h_fail_cas h_heightfault1 h_heightfault2 h_heightfault3 h_heightfault5 h_printfault1 h_printfault2 h_printfault3 h_subfault_trav h_subfault1 h_subfault4 h_subfault7", "h_fail_tiny h_fail_del",
     "one read error or missing block at any read of a get, traversal (both ways) or mutation, trees of height 1 (0/1/2/8), 2 (root 2, leaves 4/8), 3 (root 1, inner 4, leaves 4/8); of height and print (heights 1-3, height also 5); of any operation through a sub on logs of 3, 12 and 21 entries, traversals of 3, 12 and 21")
prop("P19", "h_header h_header_long h_first h_fail_new h_cancel_new h_conc_empty", "h_reads0",
     "empty logs; metadata fields absent, empty, of 2-3 arbitrary bytes or of up to 16384; any first mutation; one fault or cancellation; two operations at the same time")
prop("P20", "h_c_get0 h_c_get1 h_c_get2 h_c_two h_c_long h_c_dir h_c_dir4", "",
     "logs of 0-2 entries with keys of 0-1 arbitrary bytes, values absent, empty or of 1-2 bytes, newest block intact or not; any key of 0-1 bytes; two calls at the same time",
     ["the task spawned by the C interface runs when the executor model is asked to, on the same thread"])
prop("P21", "h_obj_ram h_obj_disk h_obj_long h_dirs", "h_obj_disk3",
     "any two (thorough: three) operations through the exported objects, keys and prefixes of 0-1 bytes, values absent/empty/one byte, in memory or in a directory",
     ["UniFFI's generated scaffolding is outside: the exported methods are called as Rust functions"])
prop("P22", "h_reads0 h_reads3 h_reads9 h_get2 h_range1 h_height2 h_print1 h_c_get1", "h_get3 h_range2 h_print2",
     "any two reading or declined operations on logs of 0, 3 and 9 entries, plus single reads on " + lazy(H12))
prop("P23", "h_wide_get h_wide_put h_edge_put1 h_edge_del1 h_edge_put h_edge_del", "h_wide_two",
     "any one 64-bit number (thorough: two, reading) as log length, seq of a key, seq or offset of a child; lengths around 2^14, 2^16, 2^21 ... 2^63, 2^64-20000 for whole mutations on heights 1 and 2", wire="h_wire_index_one")
prop("P24", "h_height0 h_height1 h_height2 h_height3 h_height5 h_print1 h_print2 h_print3 h_heightfault2 h_heightfault3 h_printfault2", "h_printfault3",
     "height: every tree of height 0-3 and 5; printed tree: heights 1 (0/1/3/8 keys), 2 (root 1/2, leaves 4/5), 3 (root 1, inner 4, leaves 4), one-byte keys, text or not")
prop("P25", "h_live_get h_live_put h_live_del h_live_put2 h_live_del2 h_live_trav h_live_bound h_live_sub h_live_height h_live_put_deep h_conc_small h_wait_read h_wait_three", "h_live_get_deep h_live_del_deep h_conc_deep",
     "up to 1-3 suspensions at any storage awaits of a get, put, del, height, traversal (with one finite bound or none, also through a sub), polled only when woken; trees of height 1 (0/1/2/8), 2 (root 2, leaves 4/8; traversal: root 1, leaves 4), 3 (root 1, inner 4, leaves 4/8)")
prop("P26", "h_follow h_follow_split h_handover h_late2 h_late", "h_late14 h_follow3 h_follow_two h_handover_split",
     "a second, read-only and sparse handle that looks (or not) before any of 2 mutations from empty (1 after 8 entries; thorough 2 after 3, 1 after 14); 3 mutations from two handles in turn; one-byte keys; a reader that looks while any one block has not arrived, then after it has and the writer went on (2 and 9 entries; thorough 14)")
prop("P27", "h_foreign_get h_foreign_put h_foreign_del h_foreign_flat", "",
     "logs of 2-3 entries in which one block (or the header) is in another valid encoding: fields in another order, numbers unpacked, in several runs or padded, unknown fields of every wire type; any one operation with a one-byte key", wire=WIRE_INDEX)
prop("P28", "h_hist_vals h_hist_len h_hist_vals3 h_hist_len3 h_wire_node h_long_val h_long_key0 h_long_huge", "h_js_put2",
     "histories of 2-3 mutations with keys of 0-2 arbitrary bytes and values absent, empty or of two bytes", features="wire", wire="h_wire_node h_wire_len")
prop("P29", "h_wire_get h_wire_iterator h_wire_wide h_wire_cache h_wire_header h_wire_node h_wire_index h_wire_index_one h_wire_len", "",
     "every message with optional fields present or absent (iterator: any two fields), byte fields of up to 2 bytes, numbers of up to 14 bits (one number at a time: 64 bits), lists of up to 2",
     features="wire-only")
prop("P31", "h_stream0 h_stream2 h_stream8 h_stream_conc0 h_stream_conc1 h_stream_conc8 h_stream_drop", "",
     "one or two streams, either role, before or after any operation with a one-byte key on a log of 0, 2 or 8 entries; one attachment interleaved with another or with any operation, "
     "logs of 0, 1 and 8 entries, 4 (8 entries: 2) preemptions; an attachment dropped at any suspension point",
     ["the replicator crate is a model: attaching suspends, then keeps the stream; what replication does with it is outside"])
prop("P32", "h_need_get2 h_need_get3 h_need_put2 h_need_del2 h_need_del3 h_need_trav2 h_need_trav3 h_need_sub_get h_need_sub_trav h_need_sub_trav1 h_need_height h_need_height3", "h_need_put3 h_need_trav2w h_need_trav3w",
     "one operation on " + lazy(H12 + ", and " + H3) + "; traversals with up to two (height 3: one) finite bounds, given up after any number of entries, on heights 2 (root 1/2, leaves 4; thorough: root 1-3, leaves 4/5) and 3 (root 1, inner 4, leaves 4), one-byte keys; a get or traversal (either direction, lower limit absent or one byte) through a sub with a one-byte prefix on height 2")
prop("P33", "h_cause1 h_cause2 h_cause2t h_cause3 h_cause_sub h_cause_sub2 h_cause_look h_cause_print h_cause_other h_cause_far h_cause_exported", "",
     "one fault (read error, missing block, append error) at any storage operation of a get, put, del, compare-and-swap or traversal (also through a sub), height or print, trees of height 1 (0/1/2/8), 2 (root 1/2, leaves 4/8) and 3 (root 1, inner 4, leaves 4/8; get and put); "
     "logs of 0-2 entries with a malformed newest block; one missing block (newest, of a key or a child) at positions up to 2^64-6")
prop("P34", "h_log0 h_log2 h_log8 h_log10 h_log14 h_log20 h_log60 h_log_bad h_shown0 h_shown2 h_shown8 h_shown10 h_shown14 h_shown_values", "",
     "any one operation with a one-byte key on logs of 0, 2, 8, 10, 14, 20 and 60 entries or with a malformed newest block, run with and without a subscriber that records everything; "
     "the handle and a sub formatted at any suspension point of an operation on logs of 0, 2, 8, 10 and 14 entries; every traversal configuration",
     ["logging goes through the real tracing crate; the subscriber is the harness's own"])
prop("P35", "h_age0 h_age2 h_age8 h_age14 h_age60 h_two0 h_two8 h_two14 h_two_meet0 h_two_meet8 h_two_meet14", "h_age0w h_age14w h_two14w",
     "any 2 operations (logs of 0, 2 and 8 entries; 1 of 14 and 60; thorough: 3 mutations from empty, 2 of 14), one-byte keys, with a get, height, declined put or nothing before each, through a handle used since the log was empty and through new handles; "
     "two trees of 0/1, 8/9 and 14/15 entries: 1-2 puts or dels of a one-byte key on either, or one suspended at any storage operation while the other tree is changed, then gets or traversals of both")

TALL_PUT = "; a put on trees of height 4 (root 1, thorough also 8, and full below)"
TALL_DEL = "; a delete on trees of height 4 (root 1, then 4/5 keys; thorough also height 5, root 1, then 4)"
LONG = "; one entry with a key or value of lengths up to 65537 (three bytes of it arbitrary), then one operation with a nearly equal key"
MORE = {
    "P01": TALL_PUT + "; a lookup on trees of height 5 (root 1, then 4 keys)" + LONG + "; any one get or put after 300 puts and 100 deletes",
    "P02": TALL_DEL + LONG + "; any one del after 300 puts and 100 deletes",
    "P03": TALL_PUT + TALL_DEL + "; any one put or del after 300 puts and 100 deletes",
    "P04": LONG + "; any one put or del after 300 puts and 100 deletes",
    "P05": LONG,
    "P06": "; one or two bounds near two keys of equal lengths up to 1024",
    "P08": TALL_PUT + TALL_DEL + LONG,
    "P13": "; one entry with prefix and key of up to 1000 bytes",
    "P14": "; prefixes of up to 1000 bytes with one or two entries",
    "P07": "; one of fifteen storage directories opened while any of them holds a tree, through the Rust or the exported interface",
    "P09": "; two mutations in a row, each failing or dropped at any storage operation (trees of 1 or 8 keys; thorough: 0/1/2/8, height 2, and three in a row)",
    "P10": "; two mutations in a row, each failing or dropped; one operation suspended at any storage operation, one or two more waiting for it, then the first or a waiting one dropped (trees of 1 or 8 keys and height 2)",
    "P25": "; operations that wait for one that is dropped",
    "P20": "; a storage directory named by any four bytes; one entry with a key of up to 1024 or a value of up to 16384 bytes; an empty key without a buffer",
    "P21": "; on disk also keys of up to 1024 and values of up to 5456 bytes",
    "P28": LONG,
    "P29": "; byte fields of up to 65536 bytes, lists and nodes of up to 300 numbers, one such at a time",
}
for _id, _more in MORE.items():
    PROPS[_id]["bounds"] += _more
# what can still be examined when the crate does not build: its wire messages
for _id, _wire in {"P01": "h_wire_node h_wire_len", "P04": "h_wire_index h_wire_index_one", "P07": "h_wire_node h_wire_index h_wire_len",
                   "P19": "h_wire_header", "P20": "h_wire_node", "P21": "h_wire_node"}.items():
    PROPS[_id]["wire"] += _wire.split()
