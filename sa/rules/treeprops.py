"""Maps what the shape analysis finds to properties."""
from . import trees as T, treeops as O

CONTENT = {"content", "order", "return", "panic", "pre:content", "pre:order"}
NAMES = {"avl": "AVL", "rb": "red-black", "splay": "splay", "treap": "treap", "itreap": "treap list"}
ITER = {"iter", "iter_mut", "next"}
SIZES = {"new", "default", "len", "is_empty", "clear", "insert", "remove", "push_front", "push_back", "pop_front", "pop_back", "split_off", "union",
         "intersection", "difference", "symmetric_difference", "add", "sub"}
ALGEBRA = {"union", "intersection", "difference", "symmetric_difference", "add", "sub", "split_off"}
_ops = {}


def ops(prog, fam):
    k = (id(prog), fam)
    if k not in _ops:
        _ops[k] = O.analyse(prog, fam)
    return _ops[k]


def contract_results(ctx, fam):
    return T.analyse(ctx.prog, fam).results


def report(ctx, results, cats, kind):
    """one obligation per analysed operation"""
    n = 0
    for r in results:
        n += 1
        name = r.fn.replace("crate::", "")
        key = "%s:%s:%s" % (kind, name, r.what)
        if r.unsupported:
            ctx.undecided(key, name, r.unsupported)
            continue
        ctx.count("abstract paths", r.paths)
        ctx.count("abstract steps", r.steps)
        mine = [p for p in r.problems if p[0] in cats]
        if mine:
            seen = set()
            f = ctx.prog.fns[r.fn]
            for cat, text, trace in mine:
                if cat in seen:
                    continue
                seen.add(cat)
                ctx.bad("%s:%s" % (key, cat), "%s (%s)" % (name, f.span), "%s: %s\non the path: %s" % (cat, text, "; ".join(trace) or "(every path)"))
        elif r.paths == 0:
            ctx.undecided(key, name, "no path reaches the end of the operation")
        else:
            ctx.ok(key, name, "%d abstract paths end in the specified content" % r.paths)
    return n


def isiter(r):
    return r.what in ITER or r.what.startswith("into_iter")


def explain(ctx):
    ctx.rule("shape", "forward abstract interpretation of the optimisation-free MIR: nodes are materialised from opaque subtrees on access, every path's final heap is compared with the specified in-order content (words over entries and subtrees), loops are folded to a fixpoint, recursive calls are replaced by the callee's contract, which is itself an obligation")
    ctx.rule("contract", "each recursive tree function meets its contract for every well-formed argument, assuming the contract at its recursive calls (induction on the subtree)")
    ctx.assumptions += ["Ord of the key type is a total order and comparison does not panic", "sizes stay below usize::MAX", "allocation succeeds"]


def dictionary(fam):
    def rule(ctx):
        explain(ctx)
        n = report(ctx, contract_results(ctx, fam), CONTENT, "contract")
        m = 0
        for o in ops(ctx.prog, fam)[:1]:
            rs = [r for r in o.v.results if not isiter(r) and r.what not in ALGEBRA]
            m += report(ctx, rs, CONTENT, "op")
            for x in o.missing:
                ctx.undecided("missing:" + x, o.adt, "operation not found")
        ctx.floor("public operations", m, 10)
        ctx.counts["contracts"] = n
    return rule


T01, T02, T03, T04 = dictionary("avl"), dictionary("rb"), dictionary("splay"), dictionary("treap")
T09 = dictionary("itreap")


def structure(fams, cats):
    cats = set(cats) | {"pre:" + c for c in cats}

    def rule(ctx):
        explain(ctx)
        n = 0
        for fam in fams:
            n += report(ctx, contract_results(ctx, fam), cats, "contract")
            for o in ops(ctx.prog, fam)[:1]:
                n += report(ctx, [r for r in o.v.results if not isiter(r)], cats, "op")
        ctx.floor("operations and contracts", n, 10)
    return rule


T05 = structure(["avl"], ["height", "balance"])
T06 = structure(["rb"], ["color", "bh"])
T07 = structure(["treap", "itreap"], ["heap", "size"])


def T08(ctx):
    explain(ctx)
    n = report(ctx, [r for r in contract_results(ctx, "treap") if r.fn.rsplit("::", 1)[1] in ("union", "intersection", "difference", "split", "merge")], CONTENT, "contract")
    for o in ops(ctx.prog, "treap"):
        n += report(ctx, [r for r in o.v.results if r.what in ALGEBRA], CONTENT | {"len"}, "op")
    for o in ops(ctx.prog, "itreap"):
        n += report(ctx, [r for r in o.v.results if r.what in ALGEBRA], CONTENT | {"len"}, "op")
    ctx.floor("set operations and contracts", n, 8)


def T10(ctx):
    explain(ctx)
    n = 0
    for fam in NAMES:
        for o in ops(ctx.prog, fam):
            n += report(ctx, [r for r in o.v.results if isiter(r)], CONTENT, "iter")
    ctx.floor("iterator operations", n, 30)


def X01(ctx):
    explain(ctx)
    n = 0
    for fam in NAMES:
        for o in ops(ctx.prog, fam):
            n += report(ctx, [r for r in o.v.results if r.what in SIZES], {"len"}, "len")
            if fam in ("treap", "itreap"):
                n += report(ctx, [r for r in contract_results(ctx, fam)], {"size", "pre:size"}, "len")
    ctx.floor("operations", n, 40)


def X02(ctx):
    explain(ctx)
    n = 0
    for fam in NAMES:
        for o in ops(ctx.prog, fam):
            if o.unit:
                n += report(ctx, o.v.results, CONTENT | {"len"}, "set")
    ctx.floor("set operations", n, 40)
