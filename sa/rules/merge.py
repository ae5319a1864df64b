"""The iterators that read several tables at once: every source is refilled, every newest entry returned once, compaction held off exactly while
the iterator lives. Checked one step at a time against an arbitrary heap; sources are vectors of table iterators or queues of them."""
from ..interp import State, Unsupported, Bug, Infeasible, OPTION, RESULT, NONE, UNIT, TRUE, FALSE, some, tup, integer
from ..lin import V, C
from ..simple import start
from .. import colls
from ..colls import ok, err, coll, cat
from . import lsm
from .lsm import VALUE, SST, DITER, LsmDom, LInterp, Env

REVERSE = "std::cmp::Reverse"


class MDom(LsmDom):
    def base(self, ip, st, b):
        if b[0] == "srcel":
            return [(st, ("src", b[1], ("s", "?"), "other"))]
        return LsmDom.base(self, ip, st, b)

    def classify(self, st, v, base):
        return base

    def on_drop(self, st, v):
        if v[0] == "agg" and v[1] == self.adt:
            self.lower(st, v)
        LsmDom.on_drop(self, st, v)

    def lower(self, st, v):
        if any(x == some(("arc", "count")) for x in v[3]):
            c = st.heap["count"][3][0][1]
            st.heap["count"] = ("agg", "cell", 0, (("int", c - 1),))


class Merge:
    def __init__(self, lay, adt):
        self.lay, self.prog, self.adt = lay, lay.prog, adt
        self.short = adt.rsplit("::", 1)[1]
        self.fields = lay.fields(adt)
        self.kind, self.srcs = {}, {}
        for i, f in enumerate(self.fields):
            t = self.prog.types[f["ty"]]
            s = t["s"]
            if s.startswith("std::option::Option<std::rc::Rc<") or s.startswith("std::option::Option<std::sync::Arc<"):
                self.kind["count"] = i
            elif s.startswith("std::collections::BinaryHeap<"):
                self.kind["heap"] = i
                self.elem = self.prog.types[t["args"][0]]
            elif s == "std::option::Option<T>":
                self.kind["last"] = i
            elif "SSTableDataIter" in s and t["path"] == "std::vec::Vec":
                e = self.prog.types[t["args"][0]]
                self.srcs[f["name"]] = (i, "queue" if e["path"] == "std::collections::VecDeque" else "table")
        for k in ("count", "heap", "last"):
            if k not in self.kind:
                raise Unsupported("%s has no %s" % (adt, k))
        self.results = []
        self.variant = {}

    # ------------------------------------------------------------ models
    def dom(self):
        d = MDom(self.lay)
        d.adt, d.md, d.hook = self.adt, None, self.mark_pair
        return d

    def interp(self, d):
        ip = LInterp(self.prog, d, Env(self.lay, d), {})
        o = ip.override
        o["std::iter::Iterator::next"] = self.next
        o["std::collections::BinaryHeap::<T, A>::pop"] = self.pop
        o["std::collections::BinaryHeap::<T, A>::push"] = self.push
        for n in ("std::ops::Index::index", "std::ops::IndexMut::index_mut"):
            o[n] = self.index
        o["std::collections::VecDeque::<T, A>::front_mut"] = self.front
        o["std::collections::VecDeque::<T, A>::pop_front"] = self.pop_front
        o["std::iter::Iterator::enumerate"] = self.enumerate
        nx = self.lay.trait_fn(DITER, "std::iter::Iterator", "next")
        if nx:
            ip.models[nx] = lambda ip, st, args, t: self.next(ip, st, args, t, None)
        return ip

    def enumerate(self, ip, st, args, t, f):
        v = args[0]
        if v[0] != "iter":
            raise Unsupported("enumerate of " + v[0])
        # the index an element is handed out with
        segs = []
        for k, x in v[1]:
            if k == "many":
                segs.append((k, tuple((b, o + (("enum",), ("hook",))) for b, o in x)))
            else:
                i = V(st.fresh("n"))
                self.mark(st, x, ("int", i))
                segs.append((k, tup(("int", i), x)))
        return ip.finish(st, t, ("iter", tuple(segs)))

    def mark_pair(self, st, v):
        self.mark(st, v[3][1], v[3][0])
        return v

    def mark(self, st, x, i):
        if x[0] != "ref":
            raise Unsupported("source is " + x[0])
        a = x[1]
        v = st.read(a)
        if v[0] != "src":
            raise Unsupported("source is " + v[0])
        st.write(a, ("src", v[1], i, v[3]))

    def src(self, st, r):
        v = st.strip_refs(r)
        if v[0] == "src":
            return v
        raise Unsupported("source is " + v[0])

    def draw(self, ip, st, v, t, queue=False):
        """the next entry of a source: end, failure or an entry"""
        due = st.mem.get("due")
        src = ("src", v[1], v[2])
        if due:
            if due[1] == "push":
                raise Bug("L02", "an entry read from one source is dropped when another is read")
            if due[1] == "advance" and due[2] != src and v[2] != ("s", "?"):
                raise Bug("L02", "the next entry is read from another source than the one the last entry came from")
        s0, s1 = st.copy(), st.copy()
        s1.note("reading the next entry fails")
        if v[3] == "followed":
            for s in (st, s0, s1):
                s.mem["drawn:" + v[1]] = TRUE
        if queue:
            s0.mem["front"] = ("s", "ended")
        else:
            s0.mem["due"] = ("due", "none")
        s1.mem["due"] = ("due", "none")
        s1.mem["failed"] = TRUE
        k, x = ("int", V(st.fresh("k"))), self.value(st)
        st.mem["due"] = ("due", "push", src, k, x)
        fs = []
        eadt = next(p for p in self.prog.adts if p.endswith("entry::Entry"))
        for f in self.lay.fields(eadt):
            fs.append({"key": k, "value": x}[f["name"]])
        return ip.finish(s0, t, NONE) + ip.finish(s1, t, some(err())) + ip.finish(st, t, some(ok(("agg", eadt, 0, tuple(fs)))))

    def value(self, st, data=None):
        return ("agg", VALUE, 0, tuple(("int", V(st.fresh("t"))) if f["name"] == "logical_time" else
                                       (data or ("opaque", st.fresh("d"))) if f["name"] == "data" else ("opaque", st.fresh("d")) for f in self.lay.fields(VALUE)))

    def next(self, ip, st, args, t, f):
        v = st.strip_refs(args[0])
        if v[0] == "box":
            v = st.heap[v[1]]
        if v[0] == "iter":
            return colls.nxt(ip, st, args, t, f)
        if v[0] == "src":
            if self.srcs[v[1]][1] != "table":
                raise Unsupported("next on a queue")
            return self.draw(ip, st, v, t)
        if v[0] == "front":
            return self.draw(ip, st, v[1], t, True)
        raise Unsupported("next on " + v[0])

    def front(self, ip, st, args, t, f):
        v = self.src(st, args[0])
        st.mem.pop("front", None)
        s = st.copy()
        due = s.mem.get("due")
        if due and due[1] == "push":
            raise Bug("L02", "an entry read from one source is dropped when another is read")
        if due and due[1] == "advance" and due[2] != ("src", v[1], v[2]):
            raise Bug("L02", "the next entry is read from another source than the one the last entry came from")
        s.mem["due"] = ("due", "none")
        if v[3] == "followed":
            s.mem["drawn:" + v[1]] = TRUE
        h = st.fresh("o")
        st.heap[h] = ("front", v)
        return ip.finish(s, t, NONE) + ip.finish(st, t, some(("ref", (("h", h), ()))))

    def pop_front(self, ip, st, args, t, f):
        if st.mem.get("front") != ("s", "ended"):
            raise Bug("L02", "a table is dropped from its level's queue before its last entry was read")
        st.mem["front"] = ("s", "fresh")
        return ip.finish(st, t, some(("opaque", "table iterator")))

    def index(self, ip, st, args, t, f):
        v = st.strip_refs(args[0])
        if v[0] != "sources":
            return colls.cindex(ip, st, args, t, f)
        h = st.fresh("o")
        st.heap[h] = ("src", v[1], args[1], "indexed")
        return ip.finish(st, t, ("ref", (("h", h), ())))

    def ident(self, x):
        """(variant, index) of an entry's origin"""
        if x[0] == "int":
            return None, x
        if x[0] == "agg" and len(x[3]) == 1:
            return x[2], x[3][0]
        raise Unsupported("origin is " + x[0])

    def parts(self, x):
        if x[0] == "agg" and x[1] == REVERSE:
            x = x[3][0]
            if x[0] == "agg" and len(x[3]) == 3:
                return x[3]
        raise Unsupported("heap element is not Reverse of (key, value, origin)")

    def push(self, ip, st, args, t, f):
        v = st.strip_refs(args[0])
        if v[0] != "mheap":
            return colls.cpush(ip, st, args, t, f)
        k, x, o = self.parts(args[1])
        due = st.mem.get("due", ("due", "none"))
        if due[1] != "push":
            raise Bug("L02", "an entry enters the heap that was not just read from a source")
        if not (k[0] == "int" and st.ge(k[1] - due[3][1]) and st.ge(due[3][1] - k[1])) or x != due[4]:
            raise Bug("L02", "an entry enters the heap with another key or value than was read")
        var, i = self.ident(o)
        src = due[2]
        if src[2] == ("s", "?"):
            raise Unsupported("source without an index")
        if i != src[2] and not (i[0] == "int" and st.red(i[1] - src[2][1]).const() == 0):
            raise Bug("L02", "an entry enters the heap under the index of another source, so that the wrong table is read next")
        if self.learning:
            if self.variant.setdefault(src[1], var) != var:
                raise Bug("L02", "entries of one kind of source enter the heap under two kinds of origin")
        elif self.variant.get(src[1]) != var:
            raise Bug("L02", "an entry enters the heap under the origin of another kind of source")
        st.mem["due"] = ("due", "none")
        return ip.finish(st, t, UNIT)

    def pop(self, ip, st, args, t, f):
        v = st.strip_refs(args[0])
        if v[0] != "mheap":
            raise Unsupported("pop")
        self.settled(st, "taken")
        s = st.copy()
        s.mem["empty"] = TRUE
        out = ip.finish(s, t, NONE)
        prev = st.mem.get("key")
        for name, dead in [(n, x) for n in sorted(self.srcs) if n in self.variant for x in (False, True)]:
            var = self.variant[name]
            s = st.copy()
            k, x, n = ("int", V(s.fresh("k"))), self.value(s, NONE if dead else some(("opaque", s.fresh("d")))), ("int", V(s.fresh("n")))
            if dead:
                s.note("the next entry is a tombstone")
            if prev is not None:
                s.add_ge(k[1] - prev[1])
                s.mem["before"] = prev
            s.mem["key"], s.mem["val"] = k, x
            s.mem["due"] = ("due", "advance", ("src", name, n))
            o = n
            if var is not None:
                o = ("agg", self.oadt, var, (n,))
            out += ip.finish(s, t, some(("agg", REVERSE, 0, (tup(k, x, o),))))
        return out

    def settled(self, st, what):
        """the entry popped last was refilled from its source and is a repetition of the key before it"""
        due = st.mem.get("due", ("due", "none"))
        if due[1] == "advance":
            raise Bug("L02", "an entry is taken from the heap without reading the next one from the same source")
        if due[1] == "push":
            raise Bug("L02", "an entry read from a source does not enter the heap")
        if "val" in st.mem:
            b = st.mem.get("before")
            if b is None or not st.ge(b[1] - st.mem["key"][1]):
                raise Bug("L02", "an entry whose key was not returned before is skipped")

    # ------------------------------------------------------------ the three parts
    def run(self):
        inh = self.lay.inherent(self.adt)
        self.one("new", self.prog.fn(inh.get("new")), self.run_new)
        self.one("next", self.prog.fn(self.lay.trait_fn(self.adt, "std::iter::Iterator", "next")), self.run_next)
        self.one("drop", self.prog.fn(self.lay.trait_fn(self.adt, "std::ops::Drop", "drop")), self.run_drop)
        return self.results

    def order(self):
        """versions of one key: the newer one comes first"""
        for name in ("cmp", "partial_cmp"):
            fn = self.prog.fn(self.lay.trait_fn(VALUE, "std::cmp::" + {"cmp": "Ord", "partial_cmp": "PartialOrd"}[name], name))
            self.one("SSTableValue." + name, fn, self.run_order)

    def run_order(self, fn):
        for self.sign in (-1, 0, 1):
            d = self.dom()
            ip = self.interp(d)
            st = self.base_state(False)
            for h, n in (("x", "n_x"), ("y", "n_y")):
                st.heap[h] = ("agg", VALUE, 0, tuple(("int", V(n)) if f["name"] == "logical_time" else ("opaque", h) for f in self.lay.fields(VALUE)))
            dl = V("n_x") - V("n_y")
            if self.sign:
                st.add_ge((dl if self.sign > 0 else -dl) - 1)
            else:
                st.add_eq(dl)
            yield ip, st, [("ref", (("h", "x"), ())), ("ref", (("h", "y"), ()))]

    def check_order(self, st, v):
        if v[0] == "agg" and v[1] == OPTION:
            if v[2] == 0:
                yield "L02", "two versions of a key have no order"
                return
            v = v[3][0]
        if v[0] == "bool":
            if v[1] != (self.sign == 0):
                yield "L02", "versions of a key compare equal or unequal regardless of their times"
            return
        if v[0] != "agg" or v[1] != "std::cmp::Ordering":
            raise Unsupported("comparison returns %s" % (v,))
        if v != colls.stdmodels.ordering(-self.sign):
            yield "L02", "of two versions of a key the newer one does not come first"

    def one(self, name, fn, f):
        self.early = probs = []
        n, e = 0, None
        if fn is None:
            if name == "drop":
                probs = [("L04", "a merge iterator that holds compaction off never lets go of it", ())]
            else:
                e = "%s.%s not found" % (self.short, name)
            self.results.append((name if "." in name else self.short + "." + name, self.adt, probs, 0, e))
            return
        try:
            for ip, st, args in f(fn):
                start(ip, fn, args, st)
                for o in ip.run(st):
                    n += 1
                    if o.kind == "bug":
                        probs.append((o.cat, o.msg, o.state.trace))
                    elif o.kind == "return":
                        for c, x in getattr(self, "check_" + (name if "." not in name else "order"))(o.state, o.value):
                            probs.append((c, x, o.state.trace))
                if ip.unsupported:
                    e = ip.unsupported[0]
            if not n and not e:
                e = "no path returns"
        except Unsupported as x:
            e = str(x)
        self.results.append((name if "." in name else self.short + "." + name, fn.path, probs, n, e))

    def base_state(self, given):
        st = State()
        st.heap["count"] = ("agg", "cell", 0, (("int", V("n_count")),))
        st.mem["root:count"] = ("arc", "count")
        st.add_ge(V("n_count"))
        if given:
            st.trace = ("compaction is held off by the iterator",)
        return st

    def run_new(self, fn):
        self.learning = True
        e = self.elem
        if e.get("path") == REVERSE:
            e = self.prog.types[e["args"][0]]
            ts = [self.prog.types[x] for x in e.get("ts", [])]
            if e["k"] == "tuple" and len(ts) == 3 and (ts[0]["k"] != "param" or ts[1].get("path") != VALUE):
                self.early.append(("L02", "the heap does not order entries by key first and age next: an older version may be returned first", ()))
        elif e["k"] == "tuple":
            self.early.append(("L02", "the heap hands out the largest key first", ()))
        self.params = {}
        for given in (True, False):
            d = self.dom()
            ip = self.interp(d)
            ip.override["std::collections::BinaryHeap::<T>::new"] = lambda ip, st, args, t, f: ip.finish(st, t, ("mheap",))
            ip.override["std::collections::BinaryHeap::<T>::with_capacity"] = ip.override["std::collections::BinaryHeap::<T>::new"]
            st = self.base_state(given)
            args = []
            for i in range(fn.argc):
                ty = self.prog.types[fn.locals[i + 1]["ty"]]
                s = ty["s"]
                if s.startswith("std::option::Option<std::rc::Rc<") or s.startswith("std::option::Option<std::sync::Arc<"):
                    args.append(some(("arc", "count")) if given else NONE)
                elif "SSTableDataIter" in s:
                    name = next((n for n, (j, k) in self.srcs.items() if self.prog.types[self.fields[j]["ty"]]["s"] == s), None)
                    if name is None:
                        raise Unsupported("parameter " + s)
                    args.append(coll("vec", [("src", name, ("s", "?"), "followed")], ((("srcel", name), ()),)))
                else:
                    raise Unsupported("parameter " + s)
            self.given = given
            yield ip, st, args

    def delta(self, st):
        return st.red(st.heap["count"][3][0][1] - V("n_count")).const()

    def check_new(self, st, v):
        if v[0] != "agg" or v[1] != RESULT:
            raise Unsupported("new returns " + v[0])
        dl = self.delta(st)
        if v[2] == 1:
            if dl != 0:
                yield "L04", "a merge iterator that cannot be created leaves compaction held off (or let go of)"
            return
        x = v[3][0]
        held = x[3][self.kind["count"]]
        if dl != (1 if held != NONE else 0):
            yield "L04", "a new merge iterator %s while its end will let go of it once" % ("does not hold compaction off once" if held != NONE else "holds compaction off, though it will never let go of it,")
        if self.given and held == NONE:
            yield "L02", "the merge iterator drops the counter that keeps compaction from deleting its tables"
        due = st.mem.get("due", ("due", "none"))
        if due[1] == "push":
            yield "L02", "the first entry of a source does not enter the heap"
        for name, (i, k) in self.srcs.items():
            if "drawn:" + name not in st.mem:
                yield "L02", "a source is left out when the merge starts"
            f = x[3][i]
            if f[0] == "coll" and not any(y[0] == "src" and y[3] == "followed" for y in f[2]):
                yield "L02", "a source is lost when the merge starts"
        if x[3][self.kind["last"]] != NONE:
            yield "L02", "a new merge iterator starts as if it had returned a key"
        if x[3][self.kind["heap"]] != ("mheap",):
            yield "L02", "a new merge iterator does not keep the entries it read"

    def self_value(self, st, last, held):
        fs = [("opaque", f["name"]) for f in self.fields]
        for n, (i, k) in self.srcs.items():
            fs[i] = ("sources", n)
        fs[self.kind["heap"]] = ("mheap",)
        fs[self.kind["last"]] = last
        fs[self.kind["count"]] = some(("arc", "count")) if held else NONE
        st.heap["self"] = ("agg", self.adt, 0, tuple(fs))
        st.mem["root:self"] = ("ref", (("h", "self"), ()))
        return ("ref", (("h", "self"), ()))

    def run_next(self, fn):
        self.learning = False
        if not self.variant:
            raise Unsupported("the origins of entries are not known")
        t = self.prog.types[self.elem["args"][0]] if self.elem.get("path") == REVERSE else {}
        parts = t.get("ts") or []
        self.oadt = None
        if any(v is not None for v in self.variant.values()):
            o = self.prog.types[parts[2]] if len(parts) == 3 else {}
            if o.get("k") != "adt":
                raise Unsupported("origin type")
            self.oadt = o["path"]
        for prev in (False, True):
            d = self.dom()
            ip = self.interp(d)
            st = self.base_state(True)
            last = NONE
            if prev:
                st.mem["key"] = ("int", V("klast"))
                last = some(("int", V("klast")))
            yield ip, st, [self.self_value(st, last, True)]

    def check_next(self, st, v):
        if self.delta(st) != 0:
            yield "L04", "a step of a merge iterator changes how often compaction is held off"
        if v[0] != "agg" or v[1] != OPTION:
            raise Unsupported("next returns " + v[0])
        if v[2] == 0:
            try:
                self.settled(st, "returned")
            except Bug as b:
                yield b.cat, b.msg
            if "empty" not in st.mem:
                yield "L02", "the merge ends while entries are left"
            return
        r = v[3][0]
        if r[0] == "agg" and r[1] == RESULT and r[2] == 1:
            return
        due = st.mem.get("due", ("due", "none"))
        if due[1] == "advance":
            yield "L02", "an entry is taken from the heap without reading the next one from the same source"
        if due[1] == "push":
            yield "L02", "an entry read from a source does not enter the heap"
        if "val" not in st.mem:
            yield "L02", "the merge returns something it did not take from the heap"
            return
        k, x = st.mem["key"], st.mem["val"]
        got = r[3][0]
        if got[0] != "agg" or len(got[3]) != 2:
            raise Unsupported("entry returned")
        if not self.same(st, got[3][0], k) or got[3][1] != x:
            yield "L02", "the merge returns another entry than the smallest one left"
        b = st.mem.get("before")
        if b is not None and not st.ge(k[1] - b[1] - 1):
            yield "L02", "the merge returns an older version of a key it has returned before"
        last = st.heap["self"][3][self.kind["last"]]
        if last == NONE or not self.same(st, last[3][0], k):
            yield "L02", "the merge forgets which key it returned, so that older versions of it follow"

    def same(self, st, a, b):
        return a[0] == "int" and b[0] == "int" and st.red(a[1] - b[1]).const() == 0 or a == b or a[0] == b[0] == "int" and st.ge(a[1] - b[1]) and st.ge(b[1] - a[1])

    def run_drop(self, fn):
        for held in (True, False):
            d = self.dom()
            ip = self.interp(d)
            st = self.base_state(held)
            if held:
                st.add_ge(V("n_count") - 1)
            yield ip, st, [self.self_value(st, NONE, held)]

    def check_drop(self, st, v):
        held = st.heap["self"][3][self.kind["count"]] != NONE or st.trace[:1] == ("compaction is held off by the iterator",)
        if self.delta(st) != (-1 if held else 0):
            yield "L04", "the end of a merge iterator %s" % ("does not let go of compaction exactly once" if held else "lets go of compaction it never held off")


if __name__ == "__main__":
    import sys
    from .. import mir
    p = mir.load(sys.argv[1])
    lay = lsm.Layout(p)
    for i, a in enumerate(sorted(lay.merge_iters())):
        m = Merge(lay, a)
        m.run()
        if not i:
            m.order()
        for r in m.results:
            print(r[0], "paths", r[3], "err", r[4])
            for x in r[2]:
                print("   ", x[0], x[1], "|", "; ".join(x[2]))
