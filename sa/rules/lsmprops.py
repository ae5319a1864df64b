"""L01, L03, L04: the rules over the LSM strategies, one registered function per property"""
from ..check import Ctx
from . import lsm, merge, lsmmap
from .reads import reads
from ..interp import Unsupported

_CACHE = {}


def _run_ops(k):
    lay = _CACHE["lay"]
    adt, items = lay.strategies[k]
    try:
        a = lsm.Ops(lay, adt, items)
        a.run_all()
        return (a.short, a.results, sorted(a.edges.items(), key=str), a.threads, None)
    except Unsupported as e:
        return (adt.rsplit("::", 1)[1], [], [], [], str(e))


def _reads(k):
    """read paths: the strategies' get and iter, the merge iterators, the map on top, the order of versions"""
    kind, x = k
    lay = _CACHE["lay"]
    try:
        if kind == "strategy":
            adt, items = lay.strategies[x]
            return adt.rsplit("::", 1)[1], reads(lsm.Ops(lay, adt, items))
        if kind == "merge":
            return "merge", merge.Merge(lay, x).run()
        if kind == "order":
            m = merge.Merge(lay, x)
            m.order()
            return "order", m.results
        return "map", lsmmap.MapRules(lay).run()
    except Unsupported as e:
        return kind, [(kind, "", [], 0, str(e))]


def read_results(lay):
    _CACHE["lay"] = lay
    its = list(lay.merge_iters())
    keys = [("strategy", k) for k in range(len(lay.strategies))] + [("merge", p) for p in its] + [("order", p) for p in its[:1]] + [("map", None)]
    return lsm.parallel(_reads, keys)


def _thread(key):
    k, c, cap, i = key
    lay = _CACHE["lay"]
    a = lsm.Ops(lay, *lay.strategies[k])
    r = lsm.Thread(a, c, cap).one(i)
    return r, sorted(a.edges.items(), key=str)


def analyse(prog, threads):
    lay = lsm.Layout(prog)
    _CACHE["lay"] = lay
    ops = lsm.parallel(_run_ops, range(len(lay.strategies))) if lay.strategies else []
    keys = []
    if threads:
        for k, (short, results, edges, ths, e) in enumerate(ops):
            if e:
                continue
            for c, cap in ths:
                a = lsm.Ops(lay, *lay.strategies[k])
                n = sum(1 for _ in lsm.Thread(a, c, cap).scenarios(a.dom()))
                keys += [(k, c, cap, i) for i in range(n)]
    tr = lsm.parallel(_thread, keys) if keys else []
    for k, (r, edges) in zip(keys, tr):
        ops[k[0]][2].extend(edges)
    return lay, ops, [(ops[k[0]][0],) + r for k, (r, _) in zip(keys, tr)]


def report(ctx, cat, short, r):
    name, path, probs, n, err = r
    key = "%s.%s.%s" % (cat, short, name)
    ctx.count("operations x strategies analysed")
    ctx.count("paths explored", n)
    hits = [p for p in probs if p[0] == cat]
    gone = [p for p in probs if p[0] == "anchor"]
    for p in gone:
        ctx.bad("anchor:%s.%s" % (short, name), path, p[1])
    seen = set()
    for c, msg, trace in hits:
        if msg not in seen:
            seen.add(msg)
            ctx.bad("%s: %s" % (key, msg), path, "%s: %s\npath: %s" % (path, msg, "; ".join(trace)))
    if err and not hits:
        ctx.undecided(key, path, err)
    elif not hits and not gone:
        ctx.ok(key, path, "%d abstract paths" % n)


def common(ctx, cat, threads):
    lay, ops, tr = analyse(ctx.prog, threads)
    for short, results, edges, ths, e in ops:
        if e:
            ctx.undecided("%s.%s" % (cat, short), "", e)
        for r in results:
            report(ctx, cat, short, r)
    for short, *r in tr:
        report(ctx, cat, short, r)
    ctx.floor("compaction strategies", len(ops), 1)
    ctx.floor("operations analysed", sum(len(x[1]) for x in ops), 8)
    return lay, ops, tr


def tables(ctx, cat):
    """the builder and the table, in so far as they decide the property"""
    from .table import table
    ctx.rule("tables", "every method of the table builder leaves, on arbitrary contents, exactly the old contents and the new entry in the data file, the block, the index, the ranges and the filter; a flush writes all of it and flushes both streams last; a lookup of an arbitrary key on a table of any size answers its entry if the table holds it and nothing otherwise")
    n = 0
    for name, path, probs, paths, steps, uns in table(ctx.prog):
        n += 1
        report(ctx, cat, "table", (name, path, [(c, m, tr) for c, m, tr, w in probs], paths, uns[0] if uns else None))
    ctx.floor("table methods x cases analysed", n, 20)


def L01(ctx):
    ctx.rule("durable-before-named", "on every path of every strategy operation, metadata is written only when every table it names exists on disk, and a success leaves the persisted metadata naming exactly the tables of the current metadata")
    ctx.rule("outlives", "files of a table are deleted only after metadata that no longer names it has been persisted, and never while the current metadata or a finished compaction still needs them")
    ctx.rule("new-writes-what-open-reads", "the metadata and logical-time files, their positions and byte order agree between creation and reopening")
    lay, ops, tr = common(ctx, "L01", False)
    tables(ctx, "L01")


def L03(ctx):
    ctx.rule("tombstone-retention", "the compaction thread is run abstractly on the newest version of an arbitrary key and an arbitrary older one, each in any place: whenever the older one survives or stays outside the merged tables, the newest one (tombstone or value) is in the published metadata, above it")
    ctx.rule("hand-over", "an arbitrary table is followed through every operation: one that was added while the compaction ran stays, one the compaction consumed leaves, none is lost and none comes back")
    lay, ops, tr = common(ctx, "L03", True)
    tables(ctx, "L03")


def L02(ctx):
    ctx.rule("newest-version", "every read of every strategy, followed with the newest version of a key and an older one in any two tables that may hold them, answers from the newest; every iteration covers all tables and holds compaction off")
    ctx.rule("k-way merge", "the merge iterators take every entry of every source exactly once, in key order, and of one key only the newest version; versions are ordered newest first")
    ctx.rule("map", "every operation of the map gives new versions a fresh, larger logical time, answers from memory before tables, hides tombstones and loses nothing, failures included")
    ctx.rule("time", "no logical time is handed out twice, not even after reopening")
    lay, ops, tr = common(ctx, "L02", False)
    n = 0
    for short, rs in read_results(lay):
        for r in rs:
            n += 1
            report(ctx, "L02", short, r)
    ctx.floor("read paths analysed", n, 8)
    tables(ctx, "L02")


def L04(ctx):
    ctx.rule("locks", "no lock is acquired while it is held, none is held on return, and the order in which locks nest is the same in every operation and thread")
    ctx.rule("claims", "the compacting flag is raised before a compaction starts and lowered on every path of its thread; every merge iterator that holds compaction off lets go of it exactly once")
    lay, ops, tr = common(ctx, "L04", True)
    for short, rs in read_results(lay):
        for r in rs:
            report(ctx, "L04", short + ".reads", r)
    edges = {}
    started = {}
    for short, results, ed, ths, e in ops:
        for k, v in ed:
            edges.setdefault((short,) + tuple(k), v)
        started[short] = (len(ths), e, any(r[4] for r in results))
    ctx.count("nested lock acquisitions", len(edges))
    for short, (n, e, part) in started.items():
        if n:
            ctx.ok("L04.%s.starts" % short, "", "compaction thread found")
        elif e or part:
            ctx.undecided("L04.%s.starts" % short, "", "no compaction thread found")
        else:
            ctx.bad("L04.%s: no operation ever starts a compaction" % short, short, "on no path of any operation is a compaction thread spawned")
    for short in started:
        g = {}
        for (s, a, b) in edges:
            if s == short:
                g.setdefault(a, set()).add(b)
        cyc = [a for a in g if reaches(g, a)]
        if cyc:
            ctx.bad("L04.%s: the locks are taken in different orders" % short, short, "; ".join("%s is taken while %s is held" % (b, a) for a in cyc for b in g[a]))
        else:
            ctx.ok("L04.%s.order" % short, "", "nesting: %s" % {a: sorted(g[a]) for a in g})


def reaches(g, a):
    seen, todo = set(), list(g.get(a, ()))
    while todo:
        x = todo.pop()
        if x == a:
            return True
        if x not in seen:
            seen.add(x)
            todo += g.get(x, ())
    return False
