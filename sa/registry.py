"""Which rules decide which property. MANIFEST.json is generated from this (tools/gen_manifest.py)."""
CHECKS = {
    "X03": {
        "rules": [("types", "mutable_alias"), ("types", "lifetimes"), ("types", "auto_traits")],
        "technique": "type-level rules over resolved public signatures, regions and auto traits",
        "level": "other",
        "note": "Every exported function's signature is checked for regions of the output that no input carries and for mutable access handed out of a shared borrow; Send/Sync are decided by the compiler's own trait solver for owned, non-Send and non-Sync contents.",
    },
}
SHAPE = "shape analysis: abstract interpretation of the MIR over abstract heaps with in-order content words, inductive contracts for recursion and folding at loop heads"


def _tree(note, *rules):
    return {"rules": [("treeprops", r) for r in rules], "technique": SHAPE, "level": "other", "note": note}


CHECKS.update({
    "T01": _tree("Every public operation of AvlMap and every recursive tree function is checked on all abstract paths against the ordered-map specification.", "T01"),
    "T02": _tree("Every public operation of RedBlackMap and every recursive tree function is checked on all abstract paths against the ordered-map specification.", "T02"),
    "T03": _tree("Every public operation of SplayMap, with the splay loop folded to a fixpoint, is checked on all abstract paths against the ordered-map specification.", "T03"),
    "T04": _tree("Every public operation of TreapMap and every recursive tree function is checked on all abstract paths against the ordered-map specification.", "T04"),
    "T05": _tree("Height and balance obligations are linear facts carried by every abstract subtree.", "T05"),
    "T06": _tree("Colour and black-height obligations are facts carried by every abstract subtree.", "T06"),
    "T07": _tree("Priority dominance and subtree sizes are facts carried by every abstract subtree.", "T07"),
    "T08": _tree("Contents of set operations are compared as symbolic set expressions distributed over split keys.", "T08"),
    "T09": _tree("Positions are linear expressions over subtree sizes; every list operation is checked on all abstract paths against the sequence specification.", "T09"),
    "T10": _tree("Every iterator's constructor and step are checked against the sequence still to come (cursor plus stack).", "T10"),
    "X01": _tree("The length field or root size equals the size of the content word after every operation of the trees, skip lists and (given what its tree reports) radix map.", "X01"),
    "X02": _tree("Every set operation of the trees is checked against the same specification as the map operation it wraps; those of the skip-list and radix sets are run on an opaque map and must ask it the right thing and pass its answer on.", "X02"),
})
MODULAR = "thread-modular abstract interpretation of the MIR with ownership and memory-ordering obligations"
CHECKS.update({
    "C01": {"rules": [("stack", "C01")], "technique": MODULAR, "level": "other", "note": "Shared reads are arbitrary, compare-and-set may fail or succeed, so every interleaving of the epoch-protected operations is over-approximated one thread at a time.", "assumptions": ["crossbeam-epoch 0.2 behaves as documented"]},
    "C02": {"rules": [("stack", "C02")], "technique": MODULAR, "level": "other", "note": "Memory orderings are read as constants at the atomic call sites; nodes die with the guard that protects them.", "assumptions": ["crossbeam-epoch 0.2 behaves as documented"]},
})
CHECKS["A01"] = {"rules": [("arena", "A01")], "technique": "abstract interpretation of the MIR over a lazily discovered block table with symbolic indices", "level": "other", "note": "Every operation is run abstractly on every well-formed arena; the table after each path is compared with the table before it."}
CHECKS["E01"] = {"rules": [("errors", "E01")], "technique": "path-sensitive error-flow (taint) analysis of every MIR function of the persistent maps", "level": "other", "note": "Each failing call opens an obligation that closes on its success branch; a path that returns while it is open has to carry the error in the value it returns.", "assumptions": ["a failed background compaction is abandoned, not reported", "end of file at a record's length prefix is the end of the table"]}
LSM = "thread-modular abstract interpretation of the MIR over metadata, disk, locks and tables, following arbitrary witness tables and versions of a key"
_LA = ["a single write is not torn", "locks are not poisoned and the compaction thread does not panic", "a failed background compaction is abandoned, not reported", "tables within one level have disjoint key ranges", "memory tables are flushed with increasing, disjoint time ranges"]
CHECKS.update({
    "L01": {"rules": [("lsmprops", "L01")], "technique": LSM, "level": "other", "note": "Every operation of every strategy is run from every state of metadata, finished compaction, snapshot and flag, with an arbitrary table followed; every write may fail and every point between two effects is a crash point.", "assumptions": _LA},
    "L02": {"rules": [("lsmprops", "L02")], "technique": LSM, "level": "other", "note": "Reads, iterations, the k-way merge and the map on top are run on the newest and an older version of an arbitrary key in every two places, with any number of other tables and entries.", "assumptions": _LA},
    "L03": {"rules": [("lsmprops", "L03")], "technique": LSM, "level": "other", "note": "The compaction thread is run to a fixpoint on level lists of arbitrary length, following the newest and an arbitrary older version of an arbitrary key.", "assumptions": _LA},
    "L04": {"rules": [("lsmprops", "L04")], "technique": LSM, "level": "other", "note": "Lock nesting, the compacting flag and the count of iterators holding compaction off are tracked on every path, failures included.", "assumptions": _LA},
})
SKIP = "abstract interpretation of the MIR over lazily discovered nodes, following one arbitrary level exactly, with difference constraints on levels, heights and positions"
CHECKS.update({
    "S01": {"rules": [("skip", "S01")], "technique": SKIP, "level": "other", "note": "Every allocation, release, move out and drop of a node is an obligation on every abstract path of every operation of skip maps and lists."},
    "S02": {"rules": [("skip", "S02")], "technique": SKIP, "level": "other", "note": "Every access to a link is checked against the height of its node; the links of an arbitrary level are compared before and after every operation."},
    "S03": {"rules": [("skip", "S03")], "technique": SKIP, "level": "other", "note": "Every operation on one key and every iterator step of a skip map is compared with the ordered map, for a key that is there or not and an arbitrary level, and every set operation for a key in either, both or neither of the maps; operators are compared with the operation they stand for."},
    "S04": {"rules": [("skip", "S04")], "technique": SKIP, "level": "other", "note": "Positions are linear expressions; insertion's sums of distances per level are followed by an invariant on the array of last nodes; push, pop and indexing are compared with the operation they stand for; concatenation is not covered."},
})
CHECKS["X01"]["rules"] += [("skip", "X01"), ("wrappers", "X01")]
CHECKS["X02"]["rules"].append(("wrappers", "X02"))
CHECKS["S03"]["rules"].append(("wrappers", "S03"))
CHECKS["S04"]["rules"].append(("wrappers", "S04"))
NA = {}
PAGES = "abstract interpretation of the MIR over page ownership: symbolic node arrays whose pointers carry page identities, page balances and a write list of the file"
CHECKS.update({
    "B01": {"rules": [("bpprops", "B01")], "technique": PAGES, "level": "other", "note": "Every path of insert and remove, with ancestors generated as they are popped, ends with every changed node written or freed; every pager method is compared with its effect on the file."},
    "B02": {"rules": [("bpprops", "B02")], "technique": PAGES, "level": "other", "note": "The number of pointers to each page is balanced on every path of insert and remove; the free list of the pager is popped and pushed exactly."},
    "B03": {"rules": [("bpprops", "B03")], "technique": "abstract interpretation of the MIR over sorted symbolic node arrays around an arbitrary key", "level": "other", "note": "Lookups and the beginning and every step of an iteration on a well-formed tree of any shape, degree 2 and larger; answers of insert and remove and the order of merges. That updates keep nodes sorted is B04, not claimed."},
})
NA = {
    "B04": "the analysis of splits and merges over symbolic node arrays does not reach a fixpoint within the time a check has; lookups (B03) and pages (B01, B02) are decided",
    "R01": "the tree branches on runs of bytes shared with the key, compared position by position; no domain of this analysis relates two byte strings of unbounded length",
    "N01": "running time (amortised for splay trees, expected for treaps and skip lists) is a quantity over runs and random heights that no sound static argument in reach bounds",
    "N02": "linearizability relates whole histories; what is decided of the stack are its consequences for ownership (C01) and publication (C02)",
}
