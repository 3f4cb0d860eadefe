#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the bounds in DESIGN.md (all committed). Texts live here."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS

OUT = []


def P(id, title, statement, over, text, why, files, mech, level_note=None, na=None):
    assert len(title) <= 80, title
    OUT.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                    mech=[dict(name=m.split("@")[0].strip(), where=m.split("@")[1].strip()) for m in mech], note=level_note, na=na))


EX = "The repository's tests put and read a few fixed key sequences"
P("P01", "A get returns the value most recently put for exactly that key",
  "After any history of mutations, looking up a key gives the value of the most recent put of exactly that key, or nothing if it was never put or has since been deleted. "
  "A put changes what is stored for its own key only: every other key keeps its value, and all keys stay findable whatever splits the put causes.",
  "inputs histories", "every stored tree within the bounds, every key and value, every bounded history of puts and deletes",
  EX + " (ranges of decimal strings) and compare the listing; whether an arbitrary key lands in the right place in an arbitrary tree is not sampled.",
  "src/put.rs src/tree.rs src/lib.rs src/changes.rs src/blocks.rs",
  ["descent to the nearest node, binary search within it @ src/lib.rs nearest_node, get_index_of_key", "insertion and split propagation @ src/put.rs put_compare_and_swap, propagate_changes_up_tree", "serialisation of changed nodes @ src/changes.rs, src/lib.rs to_level"])
P("P02", "Deleting a key removes exactly that key",
  "Deleting a key that is present removes it and nothing else, whatever borrowing from siblings, merging of nodes or replacing of inner keys this takes; all other entries keep their values and stay findable. "
  "Deleting an absent key reports that nothing was found and writes nothing.",
  "inputs histories", "every stored tree within the bounds, every key, every bounded history",
  "The tests delete fixed and a few random keys in trees built by ascending puts; most combinations of sibling sizes, key positions and heights never occur.",
  "src/del.rs src/changes.rs src/lib.rs", ["removal from a leaf or replacement of an inner key @ src/del.rs del_compare_and_swap, Side", "repair of undersized nodes @ src/del.rs repair (rotations, merges)"])
P("P03", "Every mutation leaves a valid, balanced B-tree",
  "After any mutation, in the newly written tree every node other than the root holds between 4 and 8 keys, the root holds at most 8, a node with children has exactly one more child than keys, and all leaves are equally deep. "
  "Every reference in a newly written block leads to a node that exists, and every node written is part of the tree exactly once.",
  "inputs histories", "every stored valid tree within the bounds, every key put or deleted",
  "The tests check shape only for a few deletion histories; shape is an invariant over all histories, established here by one inductive step from an arbitrary valid tree.",
  "src/put.rs src/del.rs src/changes.rs src/lib.rs", ["split of an overfull node @ src/put.rs", "repair after deletion @ src/del.rs", "order and offsets of written nodes @ src/changes.rs add_changed_node, src/lib.rs"])
P("P04", "Mutations report exactly the log positions they wrote and replaced",
  "A put reports the position of the block it appended and the position of the entry it replaced, if any; a delete reports the position of the entry it removed; a lookup reports the position of the entry it returns. "
  "The version reported for a tree is always the length of its log.",
  "inputs histories", "every stored tree within the bounds, every key, every bounded history",
  EX + " and rarely look at reported positions; old positions on replaced inner keys, splits and large logs are not covered.",
  "src/put.rs src/del.rs src/tree.rs src/hb.rs", ["results of put and del @ src/put.rs, src/del.rs", "version @ src/tree.rs version"])
P("P05", "Compare-and-swap decides on the true old entry and takes effect as decided",
  "A conditional put or delete shows its condition exactly once the entry currently stored for the key (or its absence) and the entry it would write, with correct position, key and value. "
  "If the condition accepts, the effect is exactly that of the unconditional operation; if it rejects, nothing is written (at most the header of a log that was still empty) and the tree and all later operations are as if it had never been called.",
  "inputs histories", "every stored tree within the bounds, every key and value, either decision, any further operation",
  "The tests run two or three scripted conditional operations on a nearly empty tree.",
  "src/put.rs src/del.rs src/hb.rs", ["condition evaluated before anything is changed @ src/put.rs put_compare_and_swap, src/del.rs del_compare_and_swap"])
P("P06", "A traversal yields exactly the keys within its bounds, in order",
  "A traversal yields every entry whose key lies within the configured lower and upper bound, inclusive or exclusive as configured, each exactly once with its stored value and position, in ascending order, or descending when reversed. "
  "It yields nothing else, and nothing at all when the bounds exclude every key.",
  "inputs configurations", "every stored tree within the bounds, every combination of bounds and direction",
  "The tests traverse one tree of ten keys with a dozen configurations; bounds that fall between nodes, on inner keys, outside the tree, or cross each other are sampled once or not at all.",
  "src/traverse.rs src/lib.rs", ["where to start in a node @ src/traverse.rs make_child_key_index_iter", "bounds of each key @ src/traverse.rs in_bounds", "the stream @ src/traverse.rs poll_next"])
P("P07", "The log is append-only and every prefix of it is the tree as it was then",
  "A mutation appends exactly one block (plus the header on the first) and never alters earlier ones, so that the log cut after any mutation, as after a crash, and reopened, is exactly the tree at that point. "
  "Reopening stored data finds the same contents and can continue from them.",
  "histories crash_points", "every bounded history, the log cut after any of its blocks, reopened",
  "The disk test reopens one small tree once; no test cuts the log.",
  "src/put.rs src/del.rs src/changes.rs src/blocks.rs src/tree.rs", ["one append per mutation @ src/blocks.rs add_changes", "root is the newest block @ src/tree.rs get_root"])
P("P08", "The log written is byte for byte what JavaScript Hyperbee writes",
  "For the same log and the same put or delete, the block appended is byte for byte the one the JavaScript implementation appends, including which nodes are rewritten, their order within the block, how nodes are split, borrowed from and merged, and absent versus empty values. "
  "The header block is identical as well.",
  "inputs histories", "every stored tree within the bounds, every key, absent, empty and present values",
  "The JavaScript comparison tests need Node and network packages and compare a handful of fixed scripts.",
  "src/put.rs src/del.rs src/changes.rs src/blocks.rs src/schema.proto", ["split position and order of written nodes @ src/put.rs, src/changes.rs", "choice of sibling @ src/del.rs", "wire format @ src/schema.proto"])
P("P09", "An operation that fails leaves no trace",
  "When a storage read or write fails during a mutation, the mutation reports an error, the log is unchanged, and the same handle afterwards behaves exactly like a freshly opened one: lookups, traversals and later mutations see and write nothing of the failed one.",
  "inputs fault_sequences", "one fault at any storage operation of any mutation on every stored tree within the bounds, then any operation",
  "No test injects a fault.",
  "src/blocks.rs src/put.rs src/del.rs src/changes.rs src/lib.rs", ["nodes handed out are private copies @ src/blocks.rs get_tree_node", "nothing is cached before the append succeeded @ src/blocks.rs add_changes"])
P("P10", "A cancelled operation happens completely or not at all",
  "When the future of a mutation is dropped at any suspension point, either its one block is in the log or nothing is, and the same handle afterwards behaves exactly like a freshly opened one on that log.",
  "inputs schedules", "every suspension point of any mutation on every stored tree within the bounds, then any operation",
  "No test drops a future.",
  "src/blocks.rs src/put.rs src/del.rs src/changes.rs", ["private copies of nodes @ src/blocks.rs get_tree_node", "locks released on drop @ src/hb.rs, src/tree.rs"])
P("P11", "Operations running at the same time behave as if run one after another",
  "When several operations run concurrently on the same tree, also through prefixed views, their results and the resulting log are those of running them one at a time in some order: no update is lost, no entry is written twice, at most one of several conditional inserts of a key succeeds, and none fails or deadlocks because of another.",
  "schedules inputs", "every interleaving within the preemption bound of two or three operations with arbitrary keys",
  "The tests await one operation before starting the next.",
  "src/put.rs src/del.rs src/tree.rs src/hb.rs src/prefixed.rs", ["mutations exclude each other @ src/tree.rs, src/put.rs, src/del.rs", "blocks lock @ src/blocks.rs"])
P("P12", "A traversal sees the tree as it was when it started",
  "A traversal that has started yields exactly the entries the tree held at that moment, in order, no matter which puts and deletes are made through the same handle while it is in progress.",
  "schedules inputs", "a mutation of any key after any number of yielded entries, both directions",
  "No test mutates during a traversal.",
  "src/traverse.rs src/blocks.rs src/tree.rs", ["private copies of nodes @ src/blocks.rs get_tree_node"])
P("P13", "Prefixed views touch exactly the keys under their prefix",
  "Every operation through a prefixed view is exactly the same operation on the whole tree with the key extended by prefix and separator: same result, same log. "
  "The separator is the configured one, by default a single zero byte as in JavaScript.",
  "inputs configurations", "every prefix, separator and key within the bounds, every operation, every stored tree within the bounds",
  "One test puts one key in one sub.",
  "src/prefixed.rs", ["key construction @ src/prefixed.rs"])
P("P14", "Traversing a prefixed view yields exactly its own entries, prefix stripped",
  "A traversal of a prefixed view yields exactly the entries whose key starts with prefix and separator and whose remainder lies within the configured bounds, in the configured order, under the remainder as key; never an entry of another view or of the whole tree, whatever bytes prefix and keys consist of.",
  "inputs configurations", "every prefix, separator, bounds and stored keys within the bounds, both directions",
  "The tests traverse a few subs with distinct ASCII prefixes.",
  "src/prefixed.rs src/traverse.rs", ["translation of bounds @ src/prefixed.rs traverse"])
P("P15", "The traversal configuration accepts exactly the ranges that can hold a key",
  "Building a traversal configuration with both bounds set succeeds exactly when some key could lie within them, and yields exactly the bounds, inclusiveness and direction given, with unset ones unbounded, inclusive and ascending.",
  "configurations inputs", "every combination of set, unset, infinite and finite bounds and flags",
  "The tests try a handful of combinations of bounds over decimal keys.",
  "src/traverse.rs src/keys.rs", ["validation @ src/traverse.rs validate_traverse_config_builder", "defaults @ src/traverse.rs TraverseConfig"])
P("P16", "Infinite bounds order strictly outside every key",
  "The positive infinite bound compares greater than, and the negative one less than, every finite key of whatever length and content, under every comparison operator and from either side of it; neither ever equals a key. "
  "Finite bounds compare as the bytes they hold.",
  "inputs", "every key of the lengths stated, including the empty key and keys of 0xff bytes",
  "The one test compares two keys of three bytes.",
  "src/keys.rs src/traverse.rs", ["comparison with infinity @ src/keys.rs", "comparison of limits @ src/traverse.rs LimitValue"])
P("P17", "Malformed blocks make operations report errors, never crash",
  "Whatever bytes the newest block of a log holds, and however its nodes contradict each other (or refer to each other in a circle), every operation ends: with a result or a reported error, without panic, memory error or overflow. "
  "An operation that reports an error writes nothing.",
  "inputs", "arbitrary bytes as newest block or its index; arbitrary wrong structures within the bounds; every operation",
  "No test reads a malformed block.",
  "src/blocks.rs src/lib.rs src/error.rs", ["decoding and validation @ src/blocks.rs make_node_vec, get_tree_node", "children @ src/lib.rs get_child"])
P("P18", "A block that cannot be read is reported, never mistaken for absence",
  "When a block needed to answer a lookup, a traversal or a mutation cannot be read or is missing, the operation reports an error: it never claims that a key is absent or a traversal complete. "
  "Entries yielded before the error are correct, and once the block is readable again the operation succeeds.",
  "fault_sequences inputs", "one fault at any read of any operation on every stored tree within the bounds",
  "No test injects a read fault.",
  "src/blocks.rs src/tree.rs src/traverse.rs src/lib.rs", ["errors passed on @ src/blocks.rs get, src/traverse.rs poll_next"])
P("P19", "A log starts with exactly one well-formed header",
  "The first mutation of an empty log, or an explicit header creation, writes exactly one header block identifying a Hyperbee, with the metadata given; it is the first block and is never written again. "
  "Creating a header on a log that has blocks is refused and writes nothing.",
  "histories inputs fault_sequences schedules", "every first operation, every metadata within the bounds, faults, cancellation, two operations at once",
  "The tests create a header on an empty memory log once or twice.",
  "src/tree.rs src/put.rs src/blocks.rs src/schema.proto", ["ensure_header, create_header @ src/tree.rs", "header encoding @ src/schema.proto"])
P("P20", "The C interface passes on exactly what a lookup finds, safely",
  "For every key, the C lookup calls its callback exactly once, with success, position and value of the entry if there is one, an empty result if there is none, and an error code with a message if the lookup fails. "
  "The key buffer need not outlive the call, everything handed out can be released with the functions provided for it, and no input makes it abort.",
  "inputs schedules", "every key, value and small log within the bounds, failing lookups, overlapping calls",
  "The C test looks up one existing key.",
  "src/external.rs", ["hb_get @ src/external.rs", "deallocation functions @ src/external.rs"])
P("P21", "The objects exported to other languages behave as the Rust ones",
  "Every operation through the exported objects gives the same result and writes the same log as the same operation on the Rust objects, also for prefixed views, absent and empty values.",
  "inputs histories", "every sequence of two or three operations with arbitrary keys, prefixes and values within the bounds",
  "The Python tests need a built module and call each method once or twice.",
  "src/ffi.rs src/prefixed.rs src/hb.rs", ["exported methods @ src/ffi.rs"])
P("P22", "Operations that only look never write",
  "Lookups, traversals, height, version, printing, and mutations that find nothing to do or are declined, append nothing to the log, on any log including an empty one (where a declined put may still write the header).",
  "inputs histories", "every reading operation on every stored tree within the bounds",
  "The tests never compare the log before and after a read.",
  "src/tree.rs src/hb.rs src/traverse.rs src/put.rs src/del.rs", ["reads create no header @ src/tree.rs get_root(false)"])
P("P23", "Trees are exact for logs of any length",
  "Positions in the log and within blocks are kept exact over the whole 64-bit range: in a log of any length, lookups return the entry and position its node refers to, and mutations write references to old and new blocks unchanged and undamaged.",
  "inputs", "any 64-bit log length, key position, child position and offset",
  "All tests use logs of at most a few thousand blocks.",
  "src/blocks.rs src/lib.rs src/put.rs src/changes.rs src/schema.proto", ["numbers of keys and children @ src/blocks.rs make_node_vec, src/lib.rs to_level", "wire type @ src/schema.proto"])
P("P24", "Height and printed tree describe the tree as it is",
  "The height reported is the number of levels of the tree, zero without a tree; the printed tree shows every key exactly once, in order, one per line, indented by its depth, and an error if a key is not text.",
  "inputs", "every tree of the heights stated",
  "The tests check the height of an empty and a one-key tree and one printed tree.",
  "src/tree.rs src/lib.rs src/traverse.rs", ["height @ src/lib.rs Node::height", "print @ src/traverse.rs print"])
P("P25", "Every operation completes when its storage does",
  "However often storage operations suspend, an operation that is polled only when woken completes: it never waits for a wake-up nobody will send, does not deadlock on its own locks, and a suspended traversal neither loses nor repeats entries.",
  "schedules inputs", "every choice of suspension points within the bounds, every operation, every stored tree within the bounds",
  "Memory storage never suspends, so the tests never exercise a pending poll.",
  "src/traverse.rs src/blocks.rs src/tree.rs src/put.rs src/del.rs", ["pending and wake-up @ src/traverse.rs poll_next", "locks @ src/tree.rs, src/blocks.rs"])
P("P26", "A reader follows a log that grows underneath it",
  "A handle on a log to which another writer appends sees each new state at its next operation, whatever it had read and cached before, and can itself continue writing from there.",
  "histories schedules", "every bounded history of two handles in turn",
  "Replication tests follow a few fixed puts.",
  "src/blocks.rs src/tree.rs", ["root looked up at every operation @ src/tree.rs get_root", "block cache @ src/blocks.rs"])
P("P27", "Any valid encoding of a tree by another writer is read the same",
  "A log whose blocks another implementation has written in any encoding the wire format permits (fields in another order, numbers packed or not or padded, fields unknown to this version) gives the same results, and mutations append the same blocks, as the canonical encoding.",
  "inputs configurations", "every variation of one block within the bounds, every operation",
  "The tests only read what the same code wrote.",
  "src/blocks.rs src/schema.proto src/lib.rs", ["decoding @ src/schema.proto, src/blocks.rs make_node_vec"])
P("P28", "Keys and values are arbitrary bytes, kept exactly",
  "Any byte strings, including the empty one, are distinct keys ordered byte by byte with a prefix before its extensions; a value that is absent, empty or present with any bytes is given back as exactly that.",
  "inputs histories", "every bounded history with keys of 0-2 bytes (single entries: up to 65537) and all three kinds of value",
  "The tests use non-empty ASCII decimal keys and mostly one value.",
  "src/put.rs src/lib.rs src/tree.rs src/schema.proto", ["optional value @ src/schema.proto", "key comparison @ src/lib.rs get_index_of_key"])
P("P29", "The wire messages are those of JavaScript Hyperbee",
  "Header, node, index and extension messages (lookup, iteration and cache requests) are encoded to, and decoded from, exactly the bytes the JavaScript schema defines: same field numbers and types, optional fields distinguishable from empty ones, lists packed.",
  "inputs", "every message within the bounds",
  "No test encodes an extension message; header and node are exercised with a handful of values.",
  "src/schema.proto build.rs", ["field numbers, types, packing @ src/schema.proto"])
P("P30", "Replicas converge on what the writer wrote",
  "A tree opened on a replicated log eventually gives the same answers as the writer's, once replication has transferred its blocks.",
  "schedules fault_sequences", "every schedule of replication",
  "The replication tests run a few fixed puts between two processes.",
  "src/blocks.rs src/hb.rs", ["replication of the log @ crate replicator (external)"],
  na="Replication is done by the external crates replicator and hypercore (git dependencies that are not in this sandbox): there is no code here to encode. What hyperbee itself contributes, following a log that grows underneath it, is P26.")
P("P31", "Attaching a replication stream hands it to the tree's own log, once",
  "Attaching a stream hands exactly that stream, unread, unwritten and open, in the role given, to the log behind the tree, exactly once, also when several are attached or one is attached to an empty tree. "
  "It changes nothing else: nothing is written, and operations before, after and at the same time give the same results and write the same blocks. Giving up a pending attachment leaves the tree usable.",
  "schedules inputs histories", "one or two streams in either role, any operation before, after or interleaved with attaching",
  "The replication tests attach one stream to a tree nothing else is done with at that moment, and need packages that are not there.",
  "src/hb.rs src/tree.rs src/blocks.rs", ["add_stream @ src/hb.rs, src/tree.rs, src/blocks.rs"])
P("P32", "An operation reads only the part of the tree it needs",
  "A lookup or put reads only nodes on the way from the root to where its key is or belongs; a delete also those on the way to the neighbouring entry it may move up, and direct siblings of such nodes. "
  "A traversal reads no node that lies wholly outside its bounds (except on the way to the first entry past its end), and none before it is asked for the entries there. Through a sub the bounds are those of its own keys. The height is read off one way from the root to a leaf. So a sparse log that has those blocks is enough.",
  "inputs", "every stored tree within the bounds, every key, bounds, direction and number of entries consumed",
  "The tests only look at results, which are the same if an operation reads the whole tree.",
  "src/lib.rs src/traverse.rs src/del.rs src/put.rs", ["descent @ src/lib.rs nearest_node", "where to start and stop @ src/traverse.rs make_child_key_index_iter, poll_next", "siblings @ src/del.rs"])
P("P33", "A failed operation reports what failed",
  "The error of an operation that failed carries what the storage said, or the position of the block that is missing; a block that holds no valid tree, a header that already exists, and a tree that does not exist are each reported as that. "
  "The exported objects report the same error.",
  "fault_sequences inputs", "one fault at any storage operation of any operation on every stored tree within the bounds; malformed newest blocks; empty logs",
  "No test looks at an error.",
  "src/error.rs src/blocks.rs src/traverse.rs src/tree.rs src/ffi.rs", ["error types and conversions @ src/error.rs", "missing block @ src/blocks.rs get", "errors within a traversal @ src/traverse.rs"])

P("P34", "Logging and debug output never disturb an operation",
  "With a subscriber that records every span, event and field, each operation gives the same result and writes the same blocks as without one. "
  "Formatting a handle, sub, configuration, builder, entry or error for debugging, also while an operation is under way, ends without panic or blocking, and neither reads nor writes the log nor changes any result.",
  "inputs histories schedules", "every operation on logs within the bounds, every suspension point",
  "The tests never look at what is logged; what is formatted depends on which nodes and locks are in use at that moment.",
  "src/lib.rs src/blocks.rs src/del.rs src/put.rs src/traverse.rs src/hb.rs", ["debug forms of nodes, children and blocks @ src/lib.rs, src/blocks.rs", "instrumented functions and events @ src/del.rs, src/put.rs, src/changes.rs, src/traverse.rs"])

P("P35", "A tree is its log and nothing else",
  "What an operation returns and writes depends only on the blocks in the log and its arguments: not on how long its handle has been open, what was looked at or declined through it before, or whether it was opened on an empty log. "
  "Trees in one process do not affect each other, whatever is going on in another one.",
  "histories schedules", "every bounded history through a used handle and through new ones; operations on two trees in turn, or one while another is suspended",
  "The tests use one handle on one tree each, and never compare logs.",
  "src/blocks.rs src/tree.rs src/hb.rs src/put.rs src/del.rs", ["cache of blocks @ src/blocks.rs get, add_changes", "root of the newest block @ src/tree.rs get_root", "pending changes @ src/changes.rs"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in OUT:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
    checks, na = [], []
    for p in OUT:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        q = PROPS[p["id"]]
        checks.append({
            "property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "technique": "symbolic execution of the LLVM IR of the real crate, assertions decided by Z3, counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Bounded, exhaustive within the bounds: " + q["bounds"] + ". Trusted: rustc/LLVM as translator, the engine (engine/; a sample of paths per run is replayed natively "
                          "and compared), Z3, the environment models in stubs/" + ("; " + "; ".join(q["assume"]) if q["assume"] else "") + "."})
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
               "notes": "No hooks: the checks build /repo/src unmodified against models of its dependencies (stubs/)."},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    d = os.path.join(HERE, "DESIGN.md")
    t = open(d).read()
    for p in OUT:
        if not p["na"]:
            t, n = re.subn(r"(\n\* \*\*%s .*? Bounds: ).*?( Beyond tests: ).*" % p["id"], lambda m: m.group(1) + PROPS[p["id"]]["bounds"] + "." + m.group(2) + p["why"], t)
            assert n == 1, p["id"]
    open(d, "w").write(t)
    missing = set(PROPS) ^ {p["id"] for p in OUT if not p["na"]}
    assert not missing, missing


main()
