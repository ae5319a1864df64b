#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The single source of the property texts."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}})

TT = "every tree reachable by public calls, every key, every comparison outcome"
def dict_prop(id, nm, ty, d, extra_why):
    p(id, "%s map is an exact ordered dictionary" % nm,
      "For every history of calls, `%s` behaves as the ordered map of the pairs inserted and not removed since: insert adds or replaces exactly the given key and returns exactly the pair it replaced, remove takes out exactly the equal key and returns that pair, and no other entry is lost, duplicated, altered or moved out of key order. `get`, `get_mut`, `contains_key`, `floor`, `ceil`, `min` and `max` answer from exactly that content." % ty,
      ["inputs", "histories"], TT,
      "the tests sample a handful of short scripts and one random run with 1000 keys; a wrong link in a rare rotation or lookup shape needs a particular tree. " + extra_why,
      ["src/%s/tree.rs" % d, "src/%s/node.rs" % d, "src/%s/map.rs" % d],
      [("insert/remove/get/floor/ceil/min/max", "src/%s/tree.rs" % d), ("rotations and field updates", "src/%s/node.rs" % d), ("public map operations", "src/%s/map.rs" % d)])

dict_prop("T01", "AVL", "AvlMap", "avl_tree", "")
dict_prop("T02", "Red-black", "RedBlackMap", "red_black_tree", "")
dict_prop("T03", "Splay", "SplayMap", "splay_tree", "")
dict_prop("T04", "Treap", "TreapMap", "treap", "")
p("T05", "AVL trees stay height-balanced and know their heights",
  "After every insertion and removal on an AVL map, the two subtrees of every node differ in height by at most one and every node's recorded height is its true height. Hence no history of calls can make the tree deeper than logarithmic.",
  ["inputs", "histories"], "every valid AVL tree as the state before the call and every position of the key, at every height",
  "no test looks at heights or balance; a missing height update or rebalance leaves all query results right",
  ["src/avl_tree/tree.rs", "src/avl_tree/node.rs"],
  [("balance", "src/avl_tree/tree.rs"), ("rotate_left, rotate_right, update", "src/avl_tree/node.rs"), ("remove_min, combine_subtrees", "src/avl_tree/tree.rs")])
p("T06", "Red-black trees keep the left-leaning red-black invariants",
  "After every insertion and removal on a red-black map, the root is black, no red link leans right, no path has two consecutive red links and every path from the root to a leaf has the same number of black nodes. Removal of a present or absent key never trips an internal assertion.",
  ["inputs", "histories"], "every valid left-leaning red-black tree as the state before the call and every position of the key, at every black height",
  "no test looks at colours; a lost recolouring or rotation leaves all query results right until a much later call degrades or panics",
  ["src/red_black_tree/tree.rs", "src/red_black_tree/node.rs", "src/red_black_tree/map.rs"],
  [("insert, remove, remove_min", "src/red_black_tree/tree.rs"), ("balance, shift_left, shift_right, flip_colors", "src/red_black_tree/node.rs"), ("root recolouring", "src/red_black_tree/map.rs")])
p("T07", "Treaps stay heap-ordered and know their sizes",
  "After every operation on a treap map or treap list, no node's priority is exceeded by that of a node below it, and every node's recorded subtree size is its true number of entries, so `len` and every positional access are exact.",
  ["inputs", "histories"], "every valid treap, key, position and priority assignment",
  "priorities are random and never inspected by tests; a stale size shows only for particular tree shapes",
  ["src/treap/tree.rs", "src/treap/implicit_tree.rs", "src/treap/node.rs"],
  [("merge, split, insert, remove", "src/treap/tree.rs"), ("merge, split, insert, remove", "src/treap/implicit_tree.rs"), ("update", "src/treap/node.rs")])
p("T08", "Treap set algebra and split keep exactly the right entries",
  "`union`, `intersection`, `difference` and `symmetric_difference` of two treap maps contain exactly the entries the operation names, taking the entry of the left operand for keys in both, in key order and with exact sizes. `split_off` moves exactly the keys not below the given key to the returned map.",
  ["inputs"], "every pair of valid treaps and every priority assignment",
  "each operation has one unit test with three to five keys; which operand supplies an entry depends on random priorities",
  ["src/treap/tree.rs", "src/treap/map.rs"],
  [("union, intersection, difference", "src/treap/tree.rs"), ("split, merge", "src/treap/tree.rs"), ("operators and split_off", "src/treap/map.rs")])
p("T09", "Treap list behaves as an indexed sequence",
  "For every history of calls, `TreapList` is the sequence its insertions and removals describe: inserting at an index shifts exactly the later elements, removing at an index returns exactly that element, indexing returns the element at that position, and out-of-range positions are rejected rather than answered from another element.",
  ["inputs", "histories"], "every list and every index, including both ends and out of range",
  "tests use lists of a few elements; an off-by-one in the implicit key shows only for some tree shapes",
  ["src/treap/implicit_tree.rs", "src/treap/list.rs", "src/treap/node.rs"],
  [("split, merge, insert, remove, get", "src/treap/implicit_tree.rs"), ("public list operations", "src/treap/list.rs")])
p("T10", "Tree map iterators yield every entry once, in key order",
  "Iterating over any tree-based map, by reference, by mutable reference or by value, yields every entry exactly once in ascending key order and then stops.",
  ["inputs"], "every tree shape and every intermediate state of the iterator",
  "tests iterate over three entries in one tree shape",
  ["src/avl_tree/map.rs", "src/red_black_tree/map.rs", "src/splay_tree/map.rs", "src/treap/map.rs", "src/treap/list.rs"],
  [("iterator next functions", "src/*/map.rs, src/treap/list.rs")])
p("X01", "len() counts exactly the entries of every in-memory collection",
  "For every history of calls on an in-memory map, set or list, `len` equals the number of entries it holds: it grows by one only when a new entry is added, shrinks by one only when one is taken out, and is zero after `clear`.",
  ["inputs", "histories"], "every operation and outcome (replaced, new, found, absent) of every collection",
  "tests check `len` after a few fixed scripts and seldom after replaced keys or absent removals",
  ["src/avl_tree/map.rs", "src/red_black_tree/map.rs", "src/splay_tree/map.rs", "src/skiplist/map.rs", "src/skiplist/list.rs", "src/radix/map.rs"],
  [("len fields and their updates", "src/*/map.rs, src/skiplist/list.rs")])
p("X02", "Sets agree with the maps they wrap",
  "Every set operation has exactly the effect and answer of the corresponding map operation on its keys, in each of the AVL, red-black, splay, treap, skip-list and radix sets.",
  ["inputs", "histories"], "every set operation and argument",
  "set tests repeat a few scripts; a set method wired to the wrong map operation or argument order differs only on other inputs",
  ["src/avl_tree/set.rs", "src/red_black_tree/set.rs", "src/splay_tree/set.rs", "src/treap/set.rs", "src/skiplist/set.rs", "src/radix/set.rs"],
  [("delegating methods", "src/*/set.rs")])
p("X03", "Safe code cannot get a mutable alias or race out of a shared handle",
  "No public operation that takes a shared reference to a collection hands out a mutable reference to its contents, every reference handed out is bound to the borrow of the collection, and a collection is sendable or shareable between threads only when its contents are.",
  ["programs"], "every safe program against the public API",
  "a test is one program that compiles; the property is about programs that must not",
  ["src/skiplist/map.rs", "src/skiplist/list.rs", "src/sync/stack.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"],
  [("public signatures", "src/**"), ("unsafe Send/Sync impls", "src/sync/stack.rs")])
p("S01", "Skip lists free every node and drop every element exactly once",
  "Whatever the history of insertions, removals, splits, set operations, partial iterations and drops, every element of a skip map, set or list is dropped exactly once and every node's memory is released exactly once.",
  ["histories"], "every history, including iterators dropped half-way",
  "tests use integer elements, for which a double drop or leak is silent",
  ["src/skiplist/map.rs", "src/skiplist/list.rs"],
  [("Node::free / deallocate", "src/skiplist/map.rs"), ("Drop impls", "src/skiplist/map.rs, src/skiplist/list.rs")])
p("S02", "Skip lists never follow a null link or touch a level a node lacks",
  "No operation on a skip map, set or list dereferences a null link or reads or writes a link above a node's height, whatever the contents, heights and arguments.",
  ["inputs", "histories"], "every list shape and height assignment",
  "heights are random; the wrong access needs a particular relation between heights and positions",
  ["src/skiplist/map.rs", "src/skiplist/list.rs"],
  [("get_pointer / get_pointer_mut", "src/skiplist/map.rs, src/skiplist/list.rs"), ("set algebra", "src/skiplist/map.rs")])
p("S03", "Skip map is an exact ordered dictionary",
  "For every history of calls, `SkipMap` behaves as the ordered map of the pairs inserted and not removed since, including floor, ceil, min, max, iteration and the set operations.",
  ["inputs", "histories"], "every list shape, height assignment and key",
  "tests sample; heights are random",
  ["src/skiplist/map.rs"], [("search loops", "src/skiplist/map.rs")])
p("S04", "Skip list behaves as an indexed sequence",
  "For every history of calls, `SkipList` is the sequence its insertions and removals describe, with every positional access exact.",
  ["inputs", "histories"], "every list, height assignment and index",
  "heights are random; link distances go stale only for particular relations of heights and positions",
  ["src/skiplist/list.rs"], [("link distances", "src/skiplist/list.rs")])
p("R01", "Radix map is an exact ordered dictionary of byte strings",
  "For every history of calls, `RadixMap` behaves as the ordered map of the byte-string keys inserted and not removed since, in every combination of shared prefixes, and no history of calls makes a later call panic.",
  ["inputs", "histories"], "every set of keys and prefix relations",
  "tests use a few keys; most prefix relations between stored and queried keys are not sampled",
  ["src/radix/tree.rs", "src/radix/node.rs", "src/radix/map.rs"], [("insert, remove, split, merge", "src/radix/tree.rs")])
p("B01", "A B+ map writes every changed page back before reporting success",
  "Every operation of a B+ map that changes a node or the map's metadata writes that page or metadata to its file before it returns success, so reopening the file sees exactly the acknowledged operations.",
  ["inputs", "histories"], "every operation, tree shape and path to a successful return",
  "tests reopen the file once after a fixed script",
  ["src/bp_tree/map.rs", "src/bp_tree/pager.rs"], [("write_node / set_len / set_root_page", "src/bp_tree/pager.rs"), ("insert, remove", "src/bp_tree/map.rs")])
p("B02", "B+ pages are allocated and freed exactly once",
  "A page released by a B+ map is never still referenced from the tree, is released once, and a newly allocated page is never one that is in use.",
  ["histories"], "every history of splits and merges",
  "a page shared by two nodes corrupts data only after later operations", ["src/bp_tree/pager.rs", "src/bp_tree/map.rs"],
  [("allocate_node / deallocate_node", "src/bp_tree/pager.rs")])
p("B03", "B+ map lookups find exactly what the tree holds",
  "On any well-formed tree, of any shape and node capacity, `get`, `contains_key`, `min` and `max` of a B+ map answer exactly what the tree holds for any key, and an iteration yields every entry once in key order, without changing it; `insert` and `remove` answer the entry they replaced or removed, and join neighbouring nodes in the order of their keys.",
  ["inputs", "histories", "configurations"], "every tree shape, node capacity and key", "tests sample a few capacities and keys",
  ["src/bp_tree/map.rs", "src/bp_tree/node.rs"], [("search_node, get, min, max", "src/bp_tree/map.rs"), ("InternalNode::search, LeafNode::search", "src/bp_tree/node.rs")])
p("B04", "B+ map updates keep the tree sorted",
  "Every insertion and removal leaves a B+ tree whose nodes are sorted, within their capacities, at least half full and separated by the right keys, so that the map behaves as the ordered map of its history.",
  ["inputs", "histories", "configurations"], "every history, node capacity and page size", "tests sample a few capacities",
  ["src/bp_tree/map.rs", "src/bp_tree/node.rs"], [("node split, merge and rotation", "src/bp_tree/node.rs")])
p("E01", "Storage errors are never swallowed",
  "Whenever a read, write, flush, sync, create, rename or delete of a persistent map's files fails, the operation that needed it returns an error; no such failure is discarded and followed by a report of success.",
  ["fault_sequences"], "every storage call site and every failure of it", "the tests never make a storage call fail",
  ["src/bp_tree/pager.rs", "src/bp_tree/map.rs", "src/lsm_tree/map.rs", "src/lsm_tree/sstable.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"],
  [("Result-returning storage calls", "src/bp_tree, src/lsm_tree")])
p("L01", "An LSM table is durable before the metadata that names it, and outlives it",
  "A sorted table is fully written and flushed before any persisted metadata refers to it, and a table's files are deleted only after persisted metadata no longer refers to them, so that a crash at any point leaves an openable map.",
  ["crash_points"], "every point at which the process can stop", "tests never stop the process",
  ["src/lsm_tree/sstable.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"],
  [("flush, try_replace_metadata", "src/lsm_tree/compaction")])
p("L02", "LSM reads return the newest write",
  "A get, minimum, maximum or iteration on an LSM map reflects the newest insertion or removal of every key, wherever the in-memory part and the tables hold older versions of it.",
  ["inputs", "histories"], "every history and every placement of versions across memory and tables", "tests sample a few histories",
  ["src/lsm_tree/map.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"], [("get, min, max, iter", "src/lsm_tree/map.rs")])
p("L03", "A removed key never comes back after compaction",
  "Compaction discards a removal marker only when no older version of that key can exist outside the tables being merged.",
  ["histories", "schedules"], "every set of tables and every interleaving of compaction with writes", "compaction timing is not controlled by tests",
  ["src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"], [("purge decision", "src/lsm_tree/compaction")])
p("L04", "LSM compaction neither deadlocks nor stalls for good",
  "Every lock is taken in one global order and released on every path, and every claim that holds off compaction is given back on every path, including failures, so that operations always make progress and compaction can always run again.",
  ["schedules", "fault_sequences"], "every interleaving of the compaction thread with readers and writers and every failing path", "tests do not control schedules or failures",
  ["src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"], [("metadata locks, is_compacting, metadata_lock_count", "src/lsm_tree/compaction")])
p("C01", "The concurrent stack gives every pushed value to exactly one owner",
  "Every value pushed on the concurrent stack is returned by exactly one pop or dropped exactly once with the stack, whatever the interleaving; it is never both returned and dropped, lost or duplicated, and the length counter is raised once for every value before it is published and lowered once after it is taken, so it never wraps.",
  ["schedules", "histories"], "every interleaving of pushes, pops and the drop of the stack", "tests run one schedule with integer values",
  ["src/sync/stack.rs"], [("try_push, try_pop", "src/sync/stack.rs")])
p("C02", "The concurrent stack publishes nodes safely and frees them only when unreachable",
  "A thread that reaches a node of the concurrent stack sees it fully initialised, a node is unlinked before it is retired, and its memory is not released while any thread may still be reading it.",
  ["schedules"], "every interleaving under a weak memory model", "tests run on one machine with strong ordering and few interleavings",
  ["src/sync/stack.rs"], [("atomic orderings, epoch pin and defer", "src/sync/stack.rs")])
p("A01", "Arena entries are valid exactly until they are freed",
  "An entry of the arena gives access to exactly the value stored under it until it is freed and to nothing afterwards until its slot is handed out again, live entries never share a slot, and freeing an entry twice, or one that names no occupied slot, is rejected without damage.",
  ["histories"], "every history of allocate, free and access", "tests allocate and free a few entries",
  ["src/arena.rs"], [("free list", "src/arena.rs")])
p("N01", "Operations meet their advertised complexity",
  "Every operation takes the logarithmic, amortised or expected time its documentation states.", ["inputs", "histories"], "every history", "timing",
  ["src"], [("all", "src")])
p("N02", "The concurrent stack is linearizable",
  "Every concurrent history of pushes, pops, length and emptiness queries is equivalent to a sequential one respecting real-time order.", ["schedules"], "every history", "schedules",
  ["src/sync/stack.rs"], [("all", "src/sync/stack.rs")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    ids = [x["id"] for x in P]
    assert len(set(ids)) == len(ids)
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
