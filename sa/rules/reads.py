"""L02: what the strategies answer from their tables. Followed are the newest version of a key and an older one, each in any table that may hold it."""
from ..interp import State, Unsupported, Bug, Infeasible, OPTION, RESULT, NONE, UNIT, TRUE, FALSE, some, tup, integer
from ..lin import V, C
from ..simple import start
from .. import colls
from ..colls import ok, err, coll, cat, fallible
from . import lsm
from .lsm import VALUE, SST, LsmDom, LInterp, Env, rename


class Reads:
    def __init__(self, ops):
        self.ops, self.lay, self.prog = ops, ops.lay, ops.prog
        self.results = []

    def state(self, d, new, old, dead):
        """the strategy with the newest version in `new` and an older one in `old` (tables / levels / none)"""
        ops = self.ops
        st = State()
        tabs, lvls = [], []
        for n, where in (("new", new), ("old", old)):
            if where == "none":
                continue
            d.table(st, n, has=(n,))
            st.add_ge(V("kk") - V("kl_" + n))
            st.add_ge(V("kh_" + n) - V("kk"))
            st.add_ge(V("t_" + n) - V("tl_" + n))
            st.add_ge(V("th_" + n) - V("t_" + n))
            (tabs if where == "tables" else lvls).append(n)
        if old != "none":
            st.add_ge(V("t_new") - V("t_old") - 1)
        if new == "levels" and old == "levels":
            st.add_ge(V("n_lold") - V("n_lnew") - 1)
        md = ops.metadata(st, d, tabs, [(n, V("n_lnew") if n == "new" else V("n_lold")) for n in lvls], "any")
        st.heap["curr"], st.heap["next"] = md, NONE
        st.heap["flag"] = ("agg", "abool", 0, (FALSE,))
        st.heap["count"] = ("agg", "cell", 0, (("int", V("n_count")),))
        st.heap["currlock"], st.heap["nextlock"] = ("mutex", "curr"), ("mutex", "next")
        fs = []
        role = {v: k for k, v in ops.role.items()}
        for i, f in enumerate(self.lay.fields(ops.adt)):
            r = role.get(i)
            s = self.prog.types[f["ty"]]["s"]
            fs.append({"path": ("path", "dir"), "handle": NONE, "flag": ("arc", "flag"), "count": ("arc", "count"), "time": ("int", V("n_time")),
                       "curr": ("arc", "currlock"), "next": ("arc", "nextlock"), "snap": coll("set", (), ((("path",), ()),))}.get(r)
                      or (("file", f["name"]) if s == "std::fs::File" else ("opaque", f["name"])))
            if s == "std::fs::File":
                st.mem["pos:" + f["name"]] = ("s", "?")
        st.heap["self"] = ("agg", ops.adt, 0, tuple(fs))
        for r in ("self", "curr", "next", "flag", "count", "currlock", "nextlock"):
            st.mem["root:" + r] = ("h", r) if r == "next" else ("ref", (("h", r), ()))
        st.mem["disk"] = ("names",)
        st.mem["flag0"] = FALSE
        st.mem["dead"] = ("bool", dead)
        st.trace = ("the newest version is %s in %s, %s" % ("a tombstone" if dead else "a value", {"tables": "a fresh table", "levels": "a level", "none": "nowhere"}[new],
                    {"none": "there is no older one", "tables": "an older one in a fresh table", "levels": "an older one in a level below"}[old]),)
        return st

    def cases(self, d):
        levels = self.ops.has_levels()
        yield self.state(d, "none", "none", False), None
        for dead in (False, True):
            for new in ("tables",) + (("levels",) if levels else ()):
                for old in ("none", "tables") + (("levels",) if levels else ()):
                    if new == "levels" and old == "tables":
                        continue
                    yield self.state(d, new, old, dead), dead

    def value(self, st, which):
        fs = []
        for f in self.lay.fields(VALUE):
            if f["name"] == "logical_time":
                fs.append(("int", V("t_" + which)))
            elif f["name"] == "data":
                fs.append(NONE if which == "new" and st.mem["dead"] == TRUE else some(("opaque", "data of the %s version" % which)))
            else:
                fs.append(("opaque", f["name"]))
        return ("agg", VALUE, 0, tuple(fs))

    def table_get(self, ip, st, args, t):
        a, v = cat(st, args[0])
        k = st.strip_refs(args[1])
        if k != ("int", V("kk")):
            raise Bug("L02", "a table is asked for another key")
        s = st.copy()
        s.note("reading a table fails")
        out = ip.finish(s, t, err())
        if v[0] != "agg" or v[1] != SST:
            raise Unsupported("table is " + v[0])
        x = v[3][-1]
        has = x[1:] if x[0] == "names" else ()
        return out + ip.finish(st, t, ok(some(self.value(st, has[0])) if has else NONE))

    def brange(self, ip, st, args, t, f):
        """BTreeMap::range"""
        a, c = cat(st, args[0])
        b = args[1]
        if c[0] != "coll":
            raise Unsupported("range of " + c[0])
        if b[0] != "agg" or len(b[3]) != 2:
            raise Unsupported("range bounds")
        lo, hi = b[3] if b[1] in ("tuple", "()") or b[3][0][0] == "agg" else (None, None)
        if lo is None:
            raise Unsupported("range bounds")
        names = {0: "Included", 1: "Excluded", 2: "Unbounded"}

        def bound(x):
            n = names[x[2]]
            return n, st.strip_refs(x[3][0]) if x[3] else None
        (ln, lk), (hn, hk) = bound(lo), bound(hi)
        rest = colls.with_op(c[3], ("entryref", None)) if c[3] else ()
        many = (("many", rest),) if rest else ()
        states = [(st, True)]
        for i, e in enumerate(c[2]):
            k = e[3][0]
            for n, x, lower in ((ln, lk, True), (hn, hk, False)):
                nxt = []
                for s, inside in states:
                    if n == "Unbounded" or not inside:
                        nxt.append((s, inside))
                        continue
                    op = {(True, "Included"): "Ge", (True, "Excluded"): "Gt", (False, "Included"): "Le", (False, "Excluded"): "Lt"}[(lower, n)]
                    nxt += [(s2, r) for s2, r in ip.decide_rel(s, op, k, x)]
                states = nxt
        if len(c[2]) > 1:
            raise Unsupported("range over two followed tables")
        out = []
        for s, inside in states:
            if c[2] and inside:
                base = (a[0], a[1] + (0,))
                one = (("one", tup(("ref", (base[0], base[1] + (0,))), ("ref", (base[0], base[1] + (1,))))),)
                # tables of a level are disjoint, so nothing from the key on comes before the table that holds it
                first = () if ln in ("Included", "Excluded") and lk == ("int", V("kk")) else many
                segs = first + one + many
            else:
                segs = many
            out += ip.finish(s, t, ("iter", segs))
        return out

    def interp(self, d):
        M = self.ops.models(d)
        inh = self.lay.inherent(SST)
        M[inh["get"]] = self.table_get
        ip = RInterp(self.prog, d, Env(self.lay, d), M)
        ip.override["std::iter::Iterator::next"] = self.ops.any_next
        ip.override["std::collections::BTreeMap::<K, V, A>::range"] = self.brange
        return ip

    def dom(self):
        d = self.ops.dom()
        d.witnesses = ("new", "old")
        return d

    def run(self):
        self.get()
        self.iter()
        return self.results

    def one(self, name, cases, args, check):
        fn = self.prog.fn(self.ops.items.get(name))
        if fn is None:
            self.results.append((name, self.ops.adt, [("anchor", "the operation is gone", ())], 0, None))
            return
        probs, n, e = [], 0, None
        d = self.dom()
        ip = self.interp(d)
        try:
            for st, dead in self.cases(d):
                start(ip, fn, args(st), st)
                for o in ip.run(st):
                    n += 1
                    if o.kind == "bug":
                        probs.append((o.cat, o.msg, o.state.trace))
                    elif o.kind == "return":
                        for c, x in check(o.state, o.value, dead):
                            probs.append((c, x, o.state.trace))
            if ip.unsupported:
                e = ip.unsupported[0]
            elif not n:
                e = "no path returns"
        except Unsupported as x:
            e = str(x)
        self.results.append((name, fn.path, probs, n, e))

    def get(self):
        def args(st):
            st.heap["key"] = ("int", V("kk"))
            return [("ref", (("h", "self"), ())), ("ref", (("h", "key"), ()))]

        def check(st, v, dead):
            if v[0] != "agg" or v[1] != RESULT:
                raise Unsupported("get returns " + v[0])
            if v[2] == 1:
                return
            x = v[3][0]
            if x[0] != "agg" or x[1] != OPTION:
                raise Unsupported("get returns " + x[0])
            if dead is None:
                if x != NONE:
                    yield "L02", "get finds a key that no table holds"
            elif x == NONE:
                yield "L02", "get does not find a version of the key"
            elif x[3][0] == self.value(st, "old"):
                yield "L02", "get returns an older version of the key"
            elif x[3][0] != self.value(st, "new"):
                yield "L02", "get returns something else than the newest version of the key"
        self.one("get", None, args, check)

    # ------------------------------------------------------------ iteration
    def iter(self):
        def args(st):
            return [("ref", (("h", "self"), ()))]

        def merge_new(ip, st, args, t):
            held = any(x == some(("arc", "count")) for x in args)
            got = set()
            for x in args:
                got |= set(self.d_tables(ip.dom, st, x))
            s = st.copy()
            s.note("the merge fails")
            if held:
                st.heap["count"] = ("agg", "cell", 0, (("int", st.heap["count"][3][0][1] + 1),))
            return ip.finish(s, t, err()) + ip.finish(st, t, ok(("merge", ("names",) + tuple(sorted(got)), ("bool", held))))
        self.merge_new = merge_new

        def check(st, v, dead):
            if v[0] != "agg" or v[1] != RESULT:
                raise Unsupported("iter returns " + v[0])
            dl = st.red(st.heap["count"][3][0][1] - V("n_count")).const()
            if v[2] == 1:
                if dl != 0:
                    yield "L04", "an iteration that cannot start leaves compaction held off"
                return
            x = v[3][0]
            while x[0] == "box":
                x = st.heap[x[1]]
            if x[0] != "adapted" or x[1] not in ("filter_map",) or x[2][0] != "merge":
                raise Unsupported("iterator is " + x[0])
            m = x[2]
            now = self.d_tables(self.cur, st, st.heap["curr"])
            for w in now:
                if w not in m[1][1:]:
                    yield "L02", "an iteration leaves out a table"
                    break
            if dl != 1 or m[2] != TRUE:
                yield "L02", "an iteration does not hold compaction off: its tables may be deleted under it"
            for c in self.closure(x[3]):
                yield c
        self.one("iter", None, args, check)

    def d_tables(self, d, st, v):
        return sorted({x for a in d.tables(st, v) for x in d.contents(st, a[1])})

    def closure(self, c):
        """the filter drops tombstones and failures of nothing else"""
        if c[0] != "closure":
            raise Unsupported("filter is " + c[0])
        if c[1] in self.seen:
            return
        self.seen.add(c[1])
        fn = self.prog.fn(c[1])
        d = self.dom()
        ip = self.interp(d)
        for what in ("value", "tombstone", "failure"):
            st = State()
            st.mem["dead"] = ("bool", what == "tombstone")
            v = self.value(st, "new")
            item = err() if what == "failure" else ok(tup(("opaque", "the key"), v))
            st.heap["c"] = c
            ty = self.prog.types[fn.locals[1]["ty"]]
            a = ("ref", (("h", "c"), ())) if ty["k"] == "ref" else c
            start(ip, fn, [a, item], st)
            for o in ip.run(st):
                if o.kind != "return":
                    continue
                x = o.value
                if x[0] != "agg" or x[1] != OPTION:
                    raise Unsupported("filter returns " + x[0])
                if what == "tombstone" and x != NONE:
                    yield "L02", "an iteration yields a removed key"
                if what == "failure" and (x == NONE or x[3][0][2] != 1):
                    yield "L02", "an iteration hides a failure"
                if what == "value":
                    want = tup(("opaque", "the key"), v[3][self.lay.index(VALUE, "data")][3][0])
                    if x == NONE or x[3][0][2] != 0 or x[3][0][3][0] != want:
                        yield "L02", "an iteration does not yield an entry as it was written"
        if ip.unsupported:
            raise Unsupported(ip.unsupported[0])

    seen = None


class RInterp(LInterp):
    def cmp_values(self, st, a, b):
        x, y = st.strip_refs(a), st.strip_refs(b)
        if x[0] == y[0] == "agg" and x[1] == y[1] == VALUE:
            # the order of versions is a rule of its own: newer first
            i = next(i for i, f in enumerate(self.prog.adts[VALUE]["variants"][0]["fields"]) if f["name"] == "logical_time")
            return self.decide_sign(st, y[3][i][1] - x[3][i][1])
        return LInterp.cmp_values(self, st, a, b)


def reads(ops):
    r = Reads(ops)
    r.seen = set()
    r.get()
    base = r.ops.models

    def models(d):
        M = base(d)
        for p in r.lay.merge_iters():
            inh = r.lay.inherent(p)
            if "new" in inh:
                M[inh["new"]] = lambda ip, st, args, t: r.merge_new(ip, st, args, t)
        return M
    r.cur = r.dom()
    r.ops.models = models
    r.iter()
    r.ops.models = base
    return r.results


if __name__ == "__main__":
    import sys
    from .. import mir
    p = mir.load(sys.argv[1])
    lay = lsm.Layout(p)
    for adt, items in lay.strategies:
        for r in reads(lsm.Ops(lay, adt, items)):
            print(adt, r[0], "paths", r[3], "err", r[4])
            seen = set()
            for x in r[2]:
                if x[1] not in seen:
                    seen.add(x[1])
                    print("   ", x[0], x[1], "|", "; ".join(x[2]))
