"""L02: the map over any strategy. Followed is one key: its version in memory, the one in the tables, and the ones a call makes."""
from ..interp import State, Unsupported, Bug, OPTION, RESULT, NONE, UNIT, TRUE, FALSE, some, tup
from ..lin import V, C
from ..simple import start
from .. import colls
from ..colls import ok, err, coll, cat, fallible
from . import lsm
from .lsm import VALUE, SST, BUILDER, TRAIT, LsmDom, Env
from .reads import RInterp

KK = ("int", V("kk"))
BM = "std::collections::BTreeMap::<K, V, A>::"


class MapDom(LsmDom):
    def base(self, ip, st, b):
        if b[0] == "mem":
            out = []
            for data in (NONE, some(("opaque", "data"))):
                s = st.copy()
                v = ("agg", VALUE, 0, tuple(data if f["name"] == "data" else ("int", V(s.fresh("t"))) for f in self.lay.fields(VALUE)))
                out.append((s, tup(("opaque", "key"), v)))
            return out
        return LsmDom.base(self, ip, st, b)

    def classify(self, st, v, base):
        return base


class MapRules:
    def __init__(self, lay):
        self.lay, self.prog = lay, lay.prog
        self.adt = None
        for p, a in self.prog.adts.items():
            if a["kind"] == "struct" and a.get("local") and any(f["name"] == "compaction_strategy" or self.prog.types[f["ty"]]["s"] == "C" for f in a["variants"][0]["fields"]) and "lsm_tree" in p:
                self.adt = p
        if not self.adt:
            raise Unsupported("no LSM map")
        self.results = []
        self.fields = lay.fields(self.adt)
        self.tree = next(i for i, f in enumerate(self.fields) if self.prog.types[f["ty"]].get("path") == "std::collections::BTreeMap")
        self.strat = next(i for i, f in enumerate(self.fields) if self.prog.types[f["ty"]]["s"] == "C")

    # ------------------------------------------------------------ values
    def value(self, data, time):
        return ("agg", VALUE, 0, tuple(data if f["name"] == "data" else time for f in self.lay.fields(VALUE)))

    def version(self, which):
        """(data, time) of a named version"""
        if which == "none":
            return None
        n, _, kind = which.partition(" ")
        return self.value(NONE if kind == "removed" else some(("opaque", n + " data")), ("int", V("t_" + n)))

    def tree_value(self, mem):
        items = [tup(KK, self.version(mem))] if mem != "none" else []
        return coll("map", items, ((("mem",), ()),))

    def cases(self):
        for mem in ("none", "memory value", "memory removed"):
            for sto in ("none", "table value", "table removed"):
                st = State()
                st.add_ge(V("t_memory") - V("t_table") - 1)
                st.add_ge(V("n_now") - V("t_memory") - 1)
                fs = []
                for i, f in enumerate(self.fields):
                    s = self.prog.types[f["ty"]]["s"]
                    fs.append(self.tree_value(mem) if i == self.tree else ("strategy",) if i == self.strat else ("top", "n") if s in ("u64", "usize") else ("opaque", f["name"]))
                st.heap["self"] = ("agg", self.adt, 0, tuple(fs))
                st.mem["root:self"] = ("ref", (("h", "self"), ()))
                st.mem["stored"] = self.version(sto) or NONE
                st.mem["now"] = ("int", V("n_now"))
                st.heap["key"] = KK
                st.mem["root:key"] = ("ref", (("h", "key"), ()))
                st.trace = ("the key is %s in memory and %s in the tables" % tuple({"none": "absent", "value": "present", "removed": "removed"}[x.split(" ")[-1]] for x in (mem, sto)),)
                yield st, mem, sto

    def held(self, st):
        """version of the followed key in memory"""
        c = st.heap["self"][3][self.tree]
        if c[0] != "coll":
            raise Unsupported("memory is " + c[0])
        vs = [e[3][1] for e in c[2] if e[3][0] == KK]
        if len(vs) > 1:
            raise Unsupported("key twice in memory")
        return vs[0] if vs else None

    # ------------------------------------------------------------ models
    def interp(self, d):
        lay = self.lay
        M = {}
        inh = lay.inherent(SST)
        M[inh["new"]] = self.open_table
        inh = lay.inherent(BUILDER)
        M[inh["new"]] = lambda ip, st, args, t: fallible(ip, st, t, ("build", NONE), "creating a table")
        M[inh["append"]] = self.append
        M[inh["flush"]] = self.flush
        for n in ("get_path", "get_max_in_memory_size", "get_and_increment_logical_time", "try_compact", "flush", "get", "len_hint", "len", "is_empty", "clear", "min", "max", "iter"):
            M[TRAIT + "::" + n] = getattr(self, "s_" + n, None) or self.s_read
        ip = RInterp(self.prog, d, Env(lay, d), M)
        o = ip.override
        o[BM + "get"] = self.bget
        o[BM + "get_mut"] = self.bget
        o[BM + "contains_key"] = self.bhas
        o[BM + "insert"] = self.binsert
        o[BM + "remove"] = self.bremove
        return ip

    def find(self, ip, st, args):
        a, c = cat(st, args[0])
        k = st.strip_refs(args[1])
        if c[0] != "coll" or k[0] != "int":
            raise Unsupported("lookup in " + c[0])
        if any(e[3][0][0] != "int" for e in c[2]):
            raise Unsupported("key")
        out = []
        todo = [(st, 0)]
        while todo:
            s, i = todo.pop()
            if i == len(c[2]):
                out.append((s, a, c, None))
                continue
            for s2, sg in ip.decide_sign(s, c[2][i][3][0][1] - k[1]):
                if sg == 0:
                    out.append((s2, a, c, i))
                else:
                    todo.append((s2, i + 1))
        return out

    def other(self, ip, st, k, c):
        """a key that is not followed may be present"""
        return bool(c[3]) and k != KK

    def bget(self, ip, st, args, t, f):
        out = []
        for s, a, c, i in self.find(ip, st, args):
            if i is not None:
                out += ip.finish(s, t, some(("ref", (a[0], a[1] + (i, 1)))))
                continue
            if self.other(ip, s, s.strip_refs(args[1]), c):
                for s2, v in ip.dom.base(ip, s.copy(), ("mem",)):
                    h = s2.fresh("o")
                    s2.heap[h] = v[3][1]
                    out += ip.finish(s2, t, some(("ref", (("h", h), ()))))
            out += ip.finish(s, t, NONE)
        return out

    def bhas(self, ip, st, args, t, f):
        out = []
        for s, a, c, i in self.find(ip, st, args):
            if i is None and self.other(ip, s, s.strip_refs(args[1]), c):
                out += ip.finish(s.copy(), t, TRUE)
            out += ip.finish(s, t, ("bool", i is not None))
        return out

    def binsert(self, ip, st, args, t, f):
        out = []
        for s, a, c, i in self.find(ip, st, args):
            if i is not None:
                old = c[2][i][3][1]
                s.write(a, coll(c[1], c[2][:i] + (tup(c[2][i][3][0], args[2]),) + c[2][i + 1:], c[3]))
                out += ip.finish(s, t, some(old))
                continue
            s.write(a, coll(c[1], c[2] + (tup(args[1], args[2]),), c[3]))
            out += ip.finish(s, t, NONE)
        return out

    def bremove(self, ip, st, args, t, f):
        out = []
        for s, a, c, i in self.find(ip, st, args):
            if i is not None:
                s.write(a, coll(c[1], c[2][:i] + c[2][i + 1:], c[3]))
                out += ip.finish(s, t, some(c[2][i][3][1]))
            else:
                out += ip.finish(s, t, NONE)
        return out

    def append(self, ip, st, args, t):
        a = st.deref(args[0])
        b = st.read(a)
        s = st.copy()
        s.note("appending fails")
        out = ip.finish(s, t, err())
        k, v = st.strip_refs(args[1]), st.strip_refs(args[2])
        if k == KK:
            if b[1] != NONE:
                raise Bug("L02", "a key is written to a table twice")
            st.write(a, ("build", v))
        return out + ip.finish(st, t, ok(UNIT))

    def flush(self, ip, st, args, t):
        b = st.strip_refs(args[0])
        return fallible(ip, st, t, ("path", "table", b[1]), "flushing a table")

    def open_table(self, ip, st, args, t):
        p = st.strip_refs(args[0])
        if p[0] != "path" or len(p) < 3:
            raise Unsupported("table path")
        return fallible(ip, st, t, ("newtable", p[2]), "opening a table")

    def s_get_path(self, ip, st, args, t):
        return ip.finish(st, t, ("path", "dir"))

    def s_get_max_in_memory_size(self, ip, st, args, t):
        return ip.finish(st, t, ("top", "n"))

    def s_get_and_increment_logical_time(self, ip, st, args, t):
        s = st.copy()
        s.note("the logical time fails")
        n = ("int", V(st.fresh("n")))
        st.add_ge(n[1] - st.mem["now"][1] - 1)
        st.mem["now"] = n
        return ip.finish(s, t, err()) + ip.finish(st, t, ok(n))

    def s_try_compact(self, ip, st, args, t):
        x = args[1]
        if x[0] != "newtable":
            raise Unsupported("table given is " + x[0])
        s = st.copy()
        s.note("the strategy's try_compact fails")
        out = ip.finish(s, t, err())
        if x[1] != NONE:
            st.mem["stored"] = x[1]
        st.mem["handed"] = TRUE
        return out + ip.finish(st, t, ok(UNIT))

    def s_flush(self, ip, st, args, t):
        return fallible(ip, st, t, UNIT, "the strategy's flush")

    def s_clear(self, ip, st, args, t):
        s = st.copy()
        s.note("the strategy's clear fails")
        st.mem["stored"] = NONE
        st.mem["cleared"] = TRUE
        return ip.finish(s, t, err()) + ip.finish(st, t, ok(UNIT))

    def s_get(self, ip, st, args, t):
        if st.strip_refs(args[1]) != KK:
            raise Bug("L02", "the tables are asked for another key")
        x = st.mem["stored"]
        return fallible(ip, st, t, some(x) if x != NONE else NONE, "the strategy's get")

    def s_len_hint(self, ip, st, args, t):
        return fallible(ip, st, t, ("int", V(st.fresh("n"))), "the strategy's len_hint")

    def s_read(self, ip, st, args, t):
        """min, max, iter, len, is_empty of the tables"""
        if self.held(st) is not None:
            raise Bug("L02", "the tables are read as a whole while entries are still only in memory")
        n = ("int", V("n_len"))
        return fallible(ip, st, t, n, "reading the tables")

    # ------------------------------------------------------------ operations
    def run(self):
        inh = self.lay.inherent(self.adt)
        for name in ("insert", "remove", "get", "contains_key", "len", "is_empty", "clear", "min", "max", "flush", "iter"):
            fn = self.prog.fn(inh.get(name))
            if fn is None:
                self.results.append((name, self.adt, [("anchor", "the operation is gone", ())], 0, None))
                continue
            probs, n, e = [], 0, None
            for same in ((True, False) if name in ("insert", "remove") else (True,)):
                try:
                    d = MapDom(self.lay)
                    d.md = None
                    ip = self.interp(d)
                    for st, mem, sto in self.cases():
                        a = [("ref", (("h", "self"), ()))]
                        if fn.argc > 1:
                            k = KK
                            if not same:
                                k = ("int", V("kother"))
                                s2 = st.copy()
                                st.add_ge(V("kother") - V("kk") - 1)
                            ty = self.prog.types[fn.locals[2]["ty"]]
                            a.append(("ref", (("h", "key"), ())) if ty["k"] == "ref" else k)
                        if fn.argc > 2:
                            a.append(("opaque", "given data"))
                        start(ip, fn, a, st)
                        for o in ip.run(st):
                            n += 1
                            if o.kind == "bug":
                                probs.append((o.cat, o.msg, o.state.trace))
                            elif o.kind == "return":
                                for c, x in self.check(name, same, mem, sto, o.state, o.value):
                                    probs.append((c, x, o.state.trace))
                    if ip.unsupported:
                        e = ip.unsupported[0]
                except Unsupported as x:
                    e = str(x)
            if not n and not e:
                e = "no path returns"
            self.results.append(("LsmMap." + name, fn.path, probs, n, e))
        return self.results

    def data(self, v):
        return NONE if v is None or v == NONE else v[3][self.lay.index(VALUE, "data")]

    def check(self, name, same, mem, sto, st, v):
        if v[0] != "agg" or v[1] != RESULT:
            raise Unsupported("%s returns %s" % (name, v[0]))
        failed = v[2] == 1
        now = self.held(st)
        cur = now if now is not None else st.mem["stored"]
        before = self.version(mem) or self.version(sto)
        made = False
        if name in ("insert", "remove") and same:
            want = some(("opaque", "given data")) if name == "insert" else NONE
            i = self.lay.index(VALUE, "logical_time")
            if cur not in (None, NONE):
                t = cur[3][i]
                made = self.data(cur) == want and t[0] == "int" and t == st.mem["now"] and t != ("int", V("n_now"))
            if not failed and not made:
                if cur in (None, NONE):
                    yield "L02", "%s succeeds and the key's new version is nowhere" % name
                elif self.data(cur) != want:
                    yield "L02", "%s succeeds and the key's newest version is another one" % name
                else:
                    yield "L02", "%s does not give the new version the newest logical time" % name
                return
        if name == "clear":
            if not failed and (now is not None or "cleared" not in st.mem):
                yield "L02", "clear leaves entries behind"
            return
        if not made and (cur if cur is not None else NONE) != (before or NONE):
            # nothing may be lost, nothing made older
            if self.data(cur) != self.data(before):
                yield "L02", "%s%s changes or loses what a key stands for" % (name, " fails and" if failed else "")
            elif before is not None and cur in (None, NONE):
                pass
            elif before is not None:
                yield "L02", "%s%s gives a version another logical time" % (name, " fails and" if failed else "")
        if failed:
            return
        x = v[3][0]
        if name == "get" and x != self.data(before):
            yield "L02", "get does not answer from the newest version of the key"
        if name == "contains_key" and x != ("bool", self.data(before) != NONE):
            yield "L02", "contains_key does not answer from the newest version of the key"
        if name == "is_empty":
            if x[0] == "bool":
                zero = st.ge(-V("n_len")) and st.ge(V("n_len"))
                if x[1] != zero and not (not x[1] and (st.ge(V("n_len") - 1) or st.ge(-V("n_len") - 1))):
                    yield "L02", "is_empty does not answer whether the length is zero"
        if name in ("len", "min", "max", "iter") and x != ("int", V("n_len")):
            yield "L02", "%s does not answer what the tables hold" % name
        if name == "flush" and now is not None:
            yield "L02", "flush leaves entries in memory"


if __name__ == "__main__":
    import sys
    from .. import mir
    p = mir.load(sys.argv[1])
    for r in MapRules(lsm.Layout(p)).run():
        print(r[0], "paths", r[3], "err", r[4])
        seen = set()
        for x in r[2]:
            if x[1] not in seen:
                seen.add(x[1])
                print("   ", x[0], x[1], "|", "; ".join(x[2]))
