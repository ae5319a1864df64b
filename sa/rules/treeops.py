"""Public operations of the tree maps, sets and lists against their specification as operations on ordered content."""
from ..interp import (State, Unsupported, Infeasible, OPTION, BOX, NONE, MOVED, UNIT, TRUE, FALSE, some, tup, integer)
from ..lin import C, V
from ..trees import ENTRY
from ..contracts import is_none
from ..stdmodels import deep
from ..fold import Folder
from . import trees as T

VEC = "std::vec::Vec"


class Ops:
    def __init__(self, prog, ver, adt, unit):
        """ver: trees.Ver, adt: path of the public struct"""
        self.prog, self.v, self.adt, self.unit = prog, ver, adt, unit
        self.fam = ver.fam
        self.keyed = ver.fam.keyed
        self.name = adt.rsplit("::", 1)[1]
        self.mod = adt.rsplit("::", 1)[0]
        self.short = adt.replace("crate::", "")
        self.lenfield = True
        self.missing = []

    # ---------- values from types ----------
    def ty(self, i):
        return self.prog.types[i]

    def is_node(self, i):
        t = self.ty(i)
        return t["k"] == "adt" and t["path"] == self.fam.node

    def is_tree(self, i):
        t = self.ty(i)
        if t["k"] == "adt" and t["path"] == OPTION:
            b = self.ty(t["args"][0])
            return b["k"] == "adt" and b["path"] == BOX and self.is_node(b["args"][0])
        return False

    def local_struct(self, i):
        t = self.ty(i)
        if t["k"] == "adt":
            a = self.prog.adts.get(t["path"])
            if a and a.get("local") and a["kind"] == "struct":
                return a
        return None

    def mk(self, st, i, sym):
        """a collection value over content sym"""
        if self.is_tree(i):
            return ("tree", sym)
        t = self.ty(i)
        if t["s"] == "usize":
            return ("int", V("n" + sym))
        a = self.local_struct(i)
        if a and not self.is_node(i):
            return self.mkadt(st, a, sym)
        return ("opaque", t["s"])

    def mkadt(self, st, a, sym):
        return ("agg", a["path"], 0, tuple(self.mk(st, f["ty"], sym) for f in a["variants"][0]["fields"]))

    def parts(self, st, a, v, out):
        """(kind, value) of the trees and counters in a collection value"""
        if v[0] != "agg" or v[1] != a["path"]:
            raise Unsupported("collection value is %s" % v[0])
        for f, x in zip(a["variants"][0]["fields"], v[3]):
            if self.is_tree(f["ty"]):
                out.append(("tree", x))
            elif self.ty(f["ty"])["s"] == "usize":
                out.append(("count", x, f["name"]))
            else:
                b = self.local_struct(f["ty"])
                if b:
                    self.parts(st, b, x, out)
        return out

    # ---------- checks ----------
    def final(self, s, v, want):
        """list of (state, problems) for a collection value holding want"""
        parts = self.parts(s, self.prog.adts[self.adt], v, [])
        trees = [p[1] for p in parts if p[0] == "tree"]
        if len(trees) != 1:
            raise Unsupported("collection has %d trees" % len(trees))

        def post(s2, m):
            r = []
            if self.v.name == "rb" and m["color"] == "R":
                r.append(("color", "the root is left red"))
            if self.v.name == "rb" and m.get("rlean"):
                r.append(("color", "a red link leans right at the root"))
            return r
        out = []
        for s2, p in self.v.tree_checks(s, trees[0], want, post):
            for c in parts:
                if c[0] != "count":
                    continue
                if c[1][0] != "int":
                    raise Unsupported("counter is %s" % c[1][0])
                n = self.size(s2, self.v.dom.word(s2, trees[0]))
                d = s2.red(c[1][1] - n)
                if not (s2.ge(d) and s2.ge(-d)):
                    p = p + [("len", "field %s is %s although %s entries are held" % (c[2], s2.red(c[1][1]), s2.red(n)))]
            out.append((s2, p))
        return out

    def size(self, s, w):
        n = C(0)
        for it in w:
            if isinstance(it, str):
                n = n + V("n" + it)
            elif it[0] == "e":
                n = n + 1
            else:
                raise Unsupported("size of a set operation")
        return n

    def collection(self, st, ghost="W0"):
        info = {"color": "B"} if self.v.name == "rb" else {}
        t = self.v.fresh_tree(st, info)
        st.ghost[ghost] = (t,)
        if ghost == "W0":
            st.mem["t0"] = t
        return t

    # ---------- driver ----------
    def method(self, name):
        import re
        pat = re.compile(re.escape(self.adt) + r"(::<[^()]*>)?::" + name + "$")
        for p in self.prog.fns:
            if pat.match(p):
                return p
        return None

    def trait_method(self, trait, name, selfpat="{}"):
        import re
        sp = re.escape(selfpat).replace(r"\{\}", re.escape(self.short) + r"(<[^()]*>)?").replace("'a", "'[a-z]+").replace(r"\ ", " ")
        pat = re.compile(r"crate::<" + sp + r" as " + re.escape(trait) + r".*>::" + name + "$")
        for p in self.prog.fns:
            if pat.match(p):
                return p
        return None

    def op(self, path, what, setup, check):
        if path is None:
            self.missing.append(what)
            return None
        return self.v.verify(path, what, setup, check, self.unit)

    def selfref(self, st, ghost="W0"):
        t = self.collection(st, ghost)
        c = self.v.cell(st, self.mkadt(st, self.prog.adts[self.adt], t))
        st.mem["cell"] = c
        return c, t

    def selfval(self, s):
        return s.read(s.deref(s.mem["cell"]))

    def need(self):
        return ("k", "v") if self.keyed else ("v",)

    def item_need(self, s, x):
        """which parts of an entry a returned item shows"""
        k, val = self.v.ret_entry(s, x)
        r = []
        if k is not None:
            r.append("k")
        if val is not None:
            r.append("v")
        return tuple(r)

    def opt(self, s, v, at, what, need):
        return self.v.ret_option(s, v, at, need, what)

    def unchanged(self, s):
        # a shared borrow of a tree cannot change it: its nodes have no interior mutability
        f = s.frames[0].fn if s.frames else None
        if f is not None:
            t = self.ty(f.locals[1]["ty"])
            if t["k"] == "ref" and not t["mut"]:
                return [(s, [])]
        return self.final(s, self.selfval(s), self.v.W0(s))

    def with_self(self, s0, f):
        """collection untouched and f(state) -> problems"""
        out = []
        for s, p in self.unchanged(s0):
            out.append((s, p + f(s)))
        return out

    # ---------- the operations ----------
    def run(self):
        v = self.v
        dom = lambda: v.dom
        ITEM = ("k",) if self.unit else ("k", "v")
        if not self.keyed:
            ITEM = ("v",)
        VAL = ("k",) if self.unit else ("v",)
        newval = "unit" if self.unit else "x0"

        def s_new(ip):
            return [(State(), [])]

        def c_empty_ret(o):
            if o.kind == "panic":
                return None
            return self.final(o.state, o.value, ())
        self.op(self.method("new"), "new", s_new, c_empty_ret)
        self.op(self.trait_method("std::default::Default", "default"), "default", s_new, c_empty_ret)

        def s_self(*extra):
            def f(ip):
                st = State()
                c, t = self.selfref(st)
                return [(st, [c] + list(extra))]
            return f

        KEY = v.keyarg()

        # len / is_empty / clear
        def c_len(o):
            if o.kind == "panic":
                return None

            def f(s):
                if o.value[0] != "int":
                    raise Unsupported("len is %s" % o.value[0])
                d = s.red(o.value[1] - self.size(s, v.W0(s)))
                return [] if s.ge(d) and s.ge(-d) else [("len", "len answers %s for %s entries" % (s.red(o.value[1]), s.red(self.size(s, v.W0(s)))))]
            return self.with_self(o.state, f)
        self.op(self.method("len"), "len", s_self(), c_len)

        def c_isempty(o):
            if o.kind == "panic":
                return None

            def f(s):
                if o.value[0] != "bool":
                    raise Unsupported("is_empty is %s" % o.value[0])
                n = self.size(s, v.W0(s))
                if o.value[1]:
                    return [] if s.ge(-n) else [("len", "is_empty answers true for a collection that may hold entries")]
                return [] if s.ge(n - 1) or any(s.nonempty.get(x) is True for x in v.W0(s)) else [("len", "is_empty answers false for a collection that may be empty")]
            return self.with_self(o.state, f)
        self.op(self.method("is_empty"), "is_empty", s_self(), c_isempty)

        def c_clear(o):
            if o.kind == "panic":
                return None
            return self.final(o.state, self.selfval(o.state), ())
        self.op(self.method("clear"), "clear", s_self(), c_clear)

        if self.keyed:
            self.keyed_ops(s_self, KEY, ITEM, VAL, newval)
        else:
            self.list_ops(s_self)
        self.iter_ops()
        if self.v.name in ("treap", "itreap"):
            self.treap_ops()
        return self

    def keyed_ops(self, s_self, KEY, ITEM, VAL, newval):
        v = self.v

        def c_insert(o):
            if o.kind == "panic":
                return None
            out = []
            s0 = o.state
            at = ("e", "k0", newval)
            for s, lo, e, hi in v.dom.split_word(s0, v.W0(s0), "k0"):
                for s2, p in self.final(s, self.selfval(s), lo + (at,) + hi):
                    out.append((s2, p + self.opt(s2, o.value, e, "the replaced item", ITEM)))
            return out
        args = [("key", "k0")] + ([] if self.unit else [("val", newval)])
        self.op(self.method("insert"), "insert", s_self(*args), c_insert)

        def c_remove(o):
            if o.kind == "panic":
                return None
            out = []
            s0 = o.state
            for s, lo, e, hi in v.dom.split_word(s0, v.W0(s0), "k0"):
                for s2, p in self.final(s, self.selfval(s), lo + hi):
                    out.append((s2, p + self.opt(s2, o.value, e, "the removed item", ITEM)))
            return out
        self.op(self.method("remove"), "remove", s_self(KEY), c_remove)

        def c_contains(o):
            if o.kind == "panic":
                return None
            out = []
            s0 = o.state
            if o.value[0] != "bool":
                raise Unsupported("contains is %s" % o.value[0])
            for s, lo, e, hi in v.dom.split_word(s0, v.W0(s0), "k0"):
                p = [] if o.value[1] == (e is not None) else [("return", "membership is answered %s although the key is %s" % (o.value[1], "absent" if e is None else "present"))]
                out += [(s2, p + p2) for s2, p2 in self.unchanged(s)]
            return out
        for n in ("contains_key", "contains"):
            if self.method(n):
                self.op(self.method(n), "contains", s_self(KEY), c_contains)

        def c_find(kind, need):
            def f(o):
                if o.kind == "panic":
                    return None
                out = []
                for s, p in T.find_check(v, o.state, o.value, kind, need):
                    out += [(s2, p + p2) for s2, p2 in self.unchanged(s)]
                return out
            return f
        for n in ("get", "get_mut"):
            if self.method(n):
                self.op(self.method(n), n, s_self(KEY), c_find(n, VAL))
        for n in ("floor", "ceil"):
            self.op(self.method(n), n, s_self(KEY), c_find(n, ("k",)))
        for n in ("min", "max"):
            self.op(self.method(n), n, s_self(), c_find(n, ("k",)))

        def c_index(o):
            out = []
            s0 = o.state
            for s, lo, e, hi in v.dom.split_word(s0, v.W0(s0), "k0"):
                if o.kind == "panic":
                    out.append((s, [] if e is None else [("panic", "indexing panics although the key is present: %s at %s" % (o.msg, o.where))]))
                elif e is None:
                    out.append((s, [("return", "indexing answers although the key is absent")]))
                else:
                    p = [] if v.matches(s, o.value, e, VAL) else [("return", "indexing answers %s instead of %s" % (v.ret_entry(s, o.value), v.dom.show(e)))]
                    out += [(s2, p + p2) for s2, p2 in self.unchanged(s)]
            return out
        for tr, n in (("std::ops::Index<", "index"), ("std::ops::IndexMut<", "index_mut")):
            p = self.trait_method(tr, n)
            if p:
                self.op(p, n, s_self(KEY), c_index)

    def list_ops(self, s_self):
        v = self.v
        I = ("int", V("i0"))

        def c_insert(pos):
            def f(o):
                out = []
                s0 = o.state
                at = ("e", None, "x0")
                idx = pos(s0)
                n = self.size(s0, v.W0(s0))
                for s1, sg in v.dom.interp.decide_sign(s0, n - idx):
                    if o.kind == "panic":
                        out.append((s1, [("panic", "insertion at a valid position panics: %s at %s" % (o.msg, o.where))] if sg >= 0 else []))
                        continue
                    if sg < 0:
                        out.append((s1, [("return", "insertion beyond the end is accepted")]))
                        continue
                    for s, lo, hi in v.con.cut_at(s1, v.dom.norm_seq(s1, v.W0(s1)), idx):
                        out += self.final(s, self.selfval(s), lo + (at,) + hi)
                return out
            return f
        X = ("val", "x0")
        self.op(self.method("insert"), "insert", s_self(I, X), c_insert(lambda s: V("i0")))
        self.op(self.method("push_front"), "push_front", s_self(X), c_insert(lambda s: C(0)))
        self.op(self.method("push_back"), "push_back", s_self(X), c_insert(lambda s: self.size(s, v.W0(s))))

        def c_remove(pos):
            def f(o):
                out = []
                s0 = o.state
                for s, lo, e, hi in v.con.at_index(s0, v.dom.norm_seq(s0, v.W0(s0)), pos(s0) + 1):
                    if o.kind == "panic":
                        out.append((s, [] if e is None else [("panic", "%s although the position exists, at %s" % (o.msg, o.where))]))
                    elif e is None:
                        out.append((s, [("return", "an out-of-range position is answered instead of rejected")]))
                    else:
                        p = [] if v.matches(s, o.value, e, ("v",)) else [("return", "removal returns %s instead of %s" % (v.ret_entry(s, o.value), v.dom.show(e)))]
                        out += [(s2, p + p2) for s2, p2 in self.final(s, self.selfval(s), lo + hi)]
                return out
            return f
        self.op(self.method("remove"), "remove", s_self(I), c_remove(lambda s: V("i0")))
        self.op(self.method("pop_front"), "pop_front", s_self(), c_remove(lambda s: C(0)))
        self.op(self.method("pop_back"), "pop_back", s_self(), c_remove(lambda s: self.size(s, v.W0(s)) - 1))

        def c_get(o):
            if o.kind == "panic":
                return None
            out = []
            for s, p in T.index_get_check(v, o.state, o.value, V("i0") + 1):
                out += [(s2, p + p2) for s2, p2 in self.unchanged(s)]
            return out
        for n in ("get", "get_mut"):
            self.op(self.method(n), n, s_self(I), c_get)

        def c_index(o):
            out = []
            s0 = o.state
            for s, lo, e, hi in v.con.at_index(s0, v.dom.norm_seq(s0, v.W0(s0)), V("i0") + 1):
                if o.kind == "panic":
                    out.append((s, [] if e is None else [("panic", "indexing panics although the position exists")]))
                elif e is None:
                    out.append((s, [("return", "indexing out of range is answered")]))
                else:
                    p = [] if v.matches(s, o.value, e, ("v",)) else [("return", "indexing answers %s instead of %s" % (v.ret_entry(s, o.value), v.dom.show(e)))]
                    out += [(s2, p + p2) for s2, p2 in self.unchanged(s)]
            return out
        for tr, n in (("std::ops::Index<", "index"), ("std::ops::IndexMut<", "index_mut")):
            self.op(self.trait_method(tr, n), n, s_self(I), c_index)

    # ---------- iterators ----------
    def iter_adts(self):
        pre = self.adt
        return [a for p, a in sorted(self.prog.adts.items()) if a.get("local") and p.startswith(pre) and p != pre and a["kind"] == "struct"
                and ("Iter" in p[len(pre):])]

    def remain(self, s, v, seen=0):
        """content an iterator value has still to yield, from any representation made of cursors and stacks"""
        F = Folder(self.v.dom, s)
        if v[0] == "agg" and v[1] in self.prog.adts and self.prog.adts[v[1]].get("local") and v[1] not in (self.fam.node, ENTRY):
            cur, stk = (), ()
            ns = 0
            for x in v[3]:
                if x[0] == "vec":
                    stk = stk + F.vecword(x)
                    ns += 1
                elif x[0] in ("opaque", "int"):
                    continue
                else:
                    cur = cur + self.remain(s, x)
            if ns > 1:
                raise Unsupported("iterator with several stacks")
            return cur + stk
        if v[0] == "ref":
            x = s.read(s.deref(v))
            if x[0] == "tnode" or x[0] == "agg" and x[1] == self.fam.node:
                return self.v.dom.word(s, some(("box", v[1][0][1])) if v[1][1] == () else x)
            if x[0] == "agg" and x[1] in self.prog.adts and self.prog.adts[x[1]].get("local"):
                return self.remain(s, x)
            return self.v.dom.word(s, x)
        if v[0] == "agg" and v[1] == OPTION:
            if v[2] == 0:
                return ()
            return self.remain(s, v[3][0]) if v[3][0][0] == "ref" else self.v.dom.word(s, v)
        return self.v.dom.word(s, v)

    def mk_iter(self, st, i, c, b):
        """list of (state, value) for an iterator part of type i with pending subtree c and stack content b"""
        t = self.ty(i)
        if self.is_tree(i):
            return [(st, ("tree", c))]
        if t["k"] == "ref":
            u = t["t"]
            if self.is_tree(u):
                h = st.fresh("c")
                st.heap[h] = ("tree", c)
                return [(st, ("ref", (("h", h), ())))]
            raise Unsupported("iterator cursor of type " + t["s"])
        if t["k"] == "adt" and t["path"] == OPTION and self.ty(t["args"][0])["k"] == "ref" and self.is_node(self.ty(t["args"][0])["t"]):
            h = st.fresh("c")
            st.heap[h] = ("tree", c)
            out = []
            for s in self.v.dom.interp.force_option(st, (("h", h), ())):
                x = s.read((("h", h), ()))
                out.append((s, NONE if x[2] == 0 else some(("ref", (("h", x[3][0][1]), ())))))
            return out
        if t["k"] == "adt" and t["path"] == VEC:
            st.mem["elemty"] = t["args"][0]
            return [(st, ("vec", b, None, ()))]
        a = self.local_struct(i)
        if a:
            return self.mk_iter_adt(st, a, c, b)
        raise Unsupported("iterator field of type " + t["s"])

    def mk_iter_adt(self, st, a, c, b):
        alts = [(st, ())]
        for f in a["variants"][0]["fields"]:
            nxt = []
            for s, vs in alts:
                for s2, x in self.mk_iter(s, f["ty"], c, b):
                    nxt.append((s2, vs + (x,)))
            alts = nxt
        return [(s, ("agg", a["path"], 0, vs)) for s, vs in alts]

    def iter_ops(self):
        v = self.v

        def c_start(o):
            if o.kind == "panic":
                return None
            s = o.state
            w = self.remain(s, o.value)
            p = v.dom.same_content(s, w, v.W0(s), not self.keyed)
            return [(s, [("content", "the iterator will yield something else than the content: " + p)] if p else [])]

        def s_ref(ip):
            st = State()
            c, t = self.selfref(st)
            return [(st, [c])]

        def s_val(ip):
            st = State()
            t = self.collection(st)
            return [(st, [self.mkadt(st, self.prog.adts[self.adt], t)])]
        for n in ("iter", "iter_mut"):
            if self.method(n):
                self.op(self.method(n), n, s_ref, c_start)
        for pat, su in (("{}", s_val), ("&'a {}", s_ref), ("&'a mut {}", s_ref)):
            p = self.trait_method("std::iter::IntoIterator", "into_iter", pat)
            if p:
                self.op(p, "into_iter " + pat.format(self.name), su, c_start)
        for a in self.iter_adts():
            short = a["path"].replace("crate::", "")
            p = [x for x in self.prog.fns if x.startswith("crate::<%s<" % short) and x.endswith(" as std::iter::Iterator>::next")]
            if not p:
                continue

            def s_next(ip, a=a):
                st = State()
                info = {"color": "B"} if self.v.name == "rb" else {}
                out = []
                for info in ([{"color": "B"}, {"color": "R"}] if self.v.name == "rb" else [{}]):
                    st = State()
                    c = v.fresh_tree(st, info)
                    b = st.fresh("t")
                    if self.keyed:
                        st.add_lt([(c, b)])
                    if info.get("color") == "R":
                        v.dom.nonemp(st, c)
                    st.mem["cs"] = (c, b)
                    st.ghost["W0"] = (c, b)
                    for s, val in self.mk_iter_adt(st, a, c, b):
                        cell = v.cell(s, val)
                        s.mem["cell"] = cell
                        out.append((s, [cell]))
                return out

            def c_next(o):
                if o.kind == "panic":
                    return None
                s = o.state
                w0 = tuple(x for x in v.dom.expand(s, v.W0(s)) if not v.dom.prov_empty(s, x))
                left = self.remain(s, s.read(s.deref(s.mem["cell"])))
                if o.value[0] != "agg" or o.value[1] != OPTION:
                    raise Unsupported("next returns %s" % o.value[0])
                if is_none(o.value):
                    if w0:
                        return [(s, [("return", "the iterator stops although %s is still to come" % v.dom.shw(w0))])]
                    return [(s, [])]
                k, x = v.ret_entry(s, o.value[3][0])
                at = [it for it in w0 if isinstance(it, tuple) and it[0] == "e" and (k is None or it[1] == k) and (x is None or it[2] == x)]
                if k is None and x is None or len(at) != 1:
                    return [(s, [("return", "the iterator yields (%s, %s), which is not an entry still to come" % (k, x))])]
                if not self.unit and self.keyed and (k is None or x is None):
                    return [(s, [("return", "the iterator yields only a part of the entry")])]
                p = v.dom.same_content(s, (at[0],) + tuple(left), v.W0(s), not self.keyed)
                return [(s, [("content", "after yielding %s the iterator has %s left of %s: %s" % (v.dom.show(at[0]), v.dom.shw(left), v.dom.shw(w0), p))] if p else [])]
            self.op(p[0], "next", s_next, c_next)

    # ---------- treap only ----------
    def treap_ops(self):
        v = self.v
        A = self.prog.adts[self.adt]

        def s_two(ip):
            st = State()
            l = self.collection(st, "W0")
            r = self.collection(st, "W1")
            return [(st, [self.mkadt(st, A, l), self.mkadt(st, A, r)])]

        def c_two(opname):
            def f(o):
                if o.kind == "panic":
                    return None
                s = o.state
                w = v.W0(s) + v.W0(s, "W1") if opname == "concat" else (("op", opname, v.W0(s), v.W0(s, "W1")),)
                return self.final(s, o.value, w)
            return f
        if not self.keyed:
            self.op(self.trait_method("std::ops::Add", "add"), "add", s_two, c_two("concat"))
            return
        for n in ("union", "intersection", "difference", "symmetric_difference"):
            self.op(self.method(n), n, s_two, c_two(n))
        self.op(self.trait_method("std::ops::Add", "add"), "add", s_two, c_two("union"))
        self.op(self.trait_method("std::ops::Sub", "sub"), "sub", s_two, c_two("difference"))

        def s_split(ip):
            out = []
            for incl in (False, True):
                st = State()
                c, t = self.selfref(st)
                st.mem["incl"] = incl
                out.append((st, [c, v.keyarg(), ("bool", incl)]))
            return out

        def c_split(o):
            if o.kind == "panic":
                return None
            out = []
            s0 = o.state
            for s, lo, e, hi in v.dom.split_word(s0, v.W0(s0), "k0"):
                mid = (e,) if e is not None else ()
                a, b = (lo + mid, hi) if s.mem["incl"] else (lo, mid + hi)
                for s2, p in self.final(s, self.selfval(s), a):
                    for s3, p2 in self.final(s2, o.value, b):
                        out.append((s3, p + p2))
            return out
        self.op(self.method("split_off"), "split_off", s_split, c_split)


PUBLIC = {
    "avl": [("crate::avl_tree::map::AvlMap", False), ("crate::avl_tree::set::AvlSet", True)],
    "rb": [("crate::red_black_tree::map::RedBlackMap", False), ("crate::red_black_tree::set::RedBlackSet", True)],
    "splay": [("crate::splay_tree::map::SplayMap", False), ("crate::splay_tree::set::SplaySet", True)],
    "treap": [("crate::treap::map::TreapMap", False), ("crate::treap::set::TreapSet", True)],
    "itreap": [("crate::treap::list::TreapList", False)],
}


def analyse(prog, fam):
    out = []
    for adt, unit in PUBLIC[fam]:
        ver = T.Ver(prog, fam)
        o = Ops(prog, ver, adt, unit)
        if adt in prog.adts:
            o.run()
        else:
            o.missing.append("type " + adt)
        out.append(o)
    return out


if __name__ == "__main__":
    import sys
    from .. import mir
    prog = mir.load(sys.argv[1])
    for f in sys.argv[2:]:
        for o in analyse(prog, f):
            print("==", o.adt, "missing", o.missing)
            for r in o.v.results:
                print("%-75s %-20s paths=%d steps=%d %.1fs %s" % (r.fn.replace("crate::", ""), r.what, r.paths, r.steps, r.wall, "UNSUPPORTED " + r.unsupported if r.unsupported else ""))
                for p in r.problems[:4]:
                    print("     ", p[0], p[1])
                    print("          ", "; ".join(p[2]))
