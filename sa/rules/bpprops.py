"""B01-B03: what is registered for the B+ map."""
from ..interp import Unsupported
from . import pages, pagerfile, bptree, bpiter


def both(ctx):
    """(label, function, problems, paths, steps, reasons it is undecided)"""
    memo = ctx.__dict__.setdefault("memo", {})
    if "bp" in memo:
        return memo["bp"]
    out = []
    for name in ("insert", "remove"):
        op = None
        try:
            op = pages.Op(pages.Lay(ctx.prog), name)
            op.run()
            out.append(("map:" + name, op.path, op.probs, op.paths, op.ip.steps, op.unsupported))
        except Unsupported as e:
            out.append(("map:" + name, op.path if op else "crate::bp_tree", [], 0, 0, [str(e)]))
    for name in pagerfile.OPS:
        op = pagerfile.Op(ctx.prog, name)
        try:
            op.run()
            out.append(("pager:" + name, op.path, op.probs, op.paths, op.ip.steps, op.unsupported))
        except Unsupported as e:
            out.append(("pager:" + name, op.path or "crate::bp_tree::pager", [], 0, 0, [str(e)]))
    memo["bp"] = out
    return out


def report(ctx, rs, cats, floor):
    for key, path, probs, paths, steps, uns in rs:
        ctx.count("abstract paths", paths)
        ctx.count("abstract steps", steps)
        seen = set()
        for c, text, trace, where in probs:
            if c in cats and text not in seen:
                seen.add(text)
                ctx.bad("%s:%s" % (key, text[:60]), path, "%s %s\non the path: %s" % (text, where, "; ".join(trace)))
        if uns:
            ctx.undecided(key, path, "; ".join(sorted(set(uns))[:3]))
        elif not seen:
            ctx.ok(key, path, "%d abstract paths" % paths)
    ctx.floor("B+ map operations", len(rs), floor)


def B01(ctx):
    ctx.rule("changed pages are written", "on every path of insert and remove to success, every node changed since it was read is written to its own page afterwards or its page is freed, a split or new root is stored, and the stored length changes by what was added or removed; every method of the pager leaves its metadata and node on the file, at the place of the page")
    ctx.assumptions += ["functions of nodes change nodes as their contracts say (checked for lookups only)", "the file stores what is written to it"]
    report(ctx, both(ctx), {"B01"}, 11)


def B02(ctx):
    ctx.rule("balance of pages", "on every path of insert and remove to success, each page gains and loses pointers so that an old page is pointed to once, a new page once, and a freed page, freed once after its contents moved, by nothing; leaves are chained; the free list is popped and pushed without losing pages")
    ctx.assumptions += ["functions of nodes change nodes as their contracts say", "the tree an operation begins with is well formed, nodes other than the root at least half full"]
    report(ctx, both(ctx), {"B02"}, 11)


def B03(ctx):
    ctx.rule("lookups", "on a sorted tree, for an arbitrary key, every lookup follows the pointer whose range holds the key and answers the value of the entry found; insert and remove answer the entry replaced or removed and merge neighbours in order; an iteration begins at the first entry of the leftmost leaf and each step answers the next entry along the chain of leaves, of which there is none without entries")
    ctx.assumptions += ["the tree a lookup begins with is well formed; that insert and remove keep it sorted is not decided"]
    rs = [r for r in both(ctx) if r[0].startswith("map:")]
    import multiprocessing as mp
    global PROG
    PROG = ctx.prog
    with mp.get_context("fork").Pool(8) as pool:
        rs += pool.map(lookup, [(n, c, d) for n in ("get", "contains_key") for c in ("eq", "less", "more") for d in (False, True)] + [(n, "eq", d) for n in ("min", "max") for d in (False, True)], 1)
    rs += bpiter.results(ctx.prog)
    report(ctx, rs, {"B03", "len"}, 24)


PROG = None


def lookup(job):
    name, case, deg2 = job
    key = "map:%s:%s:%s" % (name, case, "degree 2" if deg2 else "any degree")
    try:
        r = bptree.Op(bptree.Lay(PROG), name, case, deg2).run()
        return (key, r.path, r.probs, r.paths, r.ip.steps, r.unsupported)
    except Unsupported as e:
        return (key, bptree.MAP + name, [], 0, 0, [str(e)])
    except Exception as e:
        return (key, bptree.MAP + name, [], 0, 0, ["%s: %s" % (type(e).__name__, e)])
