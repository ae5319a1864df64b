"""Shape domain for the search trees: words (in-order contents), key order, sizes, heights, colours, priorities."""
from collections import Counter
from .interp import (Interp, State, Frame, Outcome, Unsupported, Infeasible, NeedOpen, OPTION, BOX, VEC, UNIT, NONE, MOVED, TRUE, FALSE,
                     some, tup, integer, ordering)
from .lin import Lin, C, V

ENTRY = "crate::entry::Entry"


class Family:
    """one tree implementation: where its node type is and what its fields mean"""

    def __init__(self, prog, name, mod, node, keyed=True):
        self.prog, self.name, self.mod, self.node, self.keyed = prog, name, mod, node, keyed
        a = prog.adts.get(node)
        if a is None:
            raise Unsupported("node type %s not found" % node)
        self.fields = [f["name"] for f in a["variants"][0]["fields"]]
        self.idx = {n: i for i, n in enumerate(self.fields)}
        need = {"avl": ["height"], "rb": ["color"], "splay": [], "treap": ["priority", "len"], "itreap": ["priority", "len"]}[name]
        for n in need + ["left", "right", "entry" if keyed else "value"]:
            if n not in self.idx:
                raise Unsupported("node field %s of %s not found" % (n, node))
        if set(self.fields) != set(need + ["left", "right", "entry" if keyed else "value"]):
            raise Unsupported("unexpected node fields in %s: %s" % (node, self.fields))
        self.L, self.R, self.E = self.idx["left"], self.idx["right"], self.idx["entry" if keyed else "value"]
        if name == "rb":
            vs = prog.adts[a["variants"][0]["fields"][self.idx["color"]].get("adt") or mod + "::node::Color"]["variants"]
            self.colors = {v["name"]: i for i, v in enumerate(vs)}
            self.coladt = mod + "::node::Color"


class Dom:
    def __init__(self, fam):
        self.fam = fam
        self.interp = None
        State.peek = staticmethod(self.peek)

    # ---------------------------------------------------------------- symbols
    def tree_sym(self, st, prefix="t"):
        return st.fresh(prefix)

    def emp(self, st, sym):
        """sym is empty"""
        if st.nonempty.get(sym) is False:
            return
        st.set_nonempty(sym, False)
        for it in st.mat.get(sym, ()):
            self.emp_item(st, it)
        for it in st.alt.get(sym, ()):
            self.emp_item(st, it)
        st.mat[sym] = ()
        st.add_eq(V("n" + sym))
        i = st.info.get(sym)
        if i is not None:
            k = self.fam.name
            if k == "avl":
                st.add_eq(V("h" + sym))
            if k == "rb":
                st.add_eq(V("b" + sym))
                if i.get("color") == "R":
                    raise Infeasible()

    def emp_item(self, st, it):
        if isinstance(it, str):
            self.emp(st, it)
        elif it[0] == "e":
            raise Infeasible()
        elif it[1] == "union":
            for x in it[2] + it[3]:
                self.emp_item(st, x)
        else:
            st.mem["opemp"] = st.mem.get("opemp", ()) + (it,)

    def nonemp(self, st, sym):
        if st.nonempty.get(sym) is True:
            return
        st.set_nonempty(sym, True)
        st.add_ge(V("n" + sym) - 1)
        if sym in st.info and self.fam.name == "avl":
            st.add_ge(V("h" + sym) - 1)
        if self.fam.name == "rb" and st.info.get(sym, {}).get("color") == "B":
            st.add_ge(V("b" + sym) - 1)

    def inherit(self, st, parent, parts):
        """order and priority facts of parent hold for its parts"""
        if self.fam.keyed:
            pairs = []
            for a, b in st.lt:
                if b == parent:
                    pairs += [(a, p) for p in parts]
                if a == parent:
                    pairs += [(p, b) for p in parts]
            for i, p in enumerate(parts):
                pairs += [(p, q) for q in parts[i + 1:]]
            st.add_lt(pairs)

    def inherit_dom(self, st, parent, parts):
        if self.fam.name in ("treap", "itreap"):
            add = set()
            for p, x in st.dom:
                if x == parent:
                    add |= {(p, q) for q in parts}
            st.dom = st.dom | add

    def atom(self, st):
        k = st.fresh("k") if self.fam.keyed else None
        v = "unit" if st.mem.get("unit") else st.fresh("v")
        if self.fam.name in ("treap", "itreap"):
            st.mem[("pr", v if k is None else k)] = st.fresh("p")
        return ("e", k, v)

    def prio_of(self, st, at):
        return st.mem.get(("pr", at[2] if at[1] is None else at[1]))

    def val(self, at):
        return UNIT if at[2] == "unit" else ("val", at[2])

    def entry_value(self, at):
        if not self.fam.keyed:
            return self.val(at)
        return ("agg", ENTRY, 0, (("key", at[1]), self.val(at)))

    def atom_of(self, v):
        """entry atom of an entry value"""
        if not self.fam.keyed:
            if v[0] == "val":
                return ("e", None, v[1])
            raise Unsupported("list value is %s" % v[0])
        if v[0] == "agg" and v[1] == ENTRY:
            k, x = v[3]
            if k[0] == "key" and (x[0] == "val" or x == UNIT):
                return ("e", k[1], x[1] if x[0] == "val" else "unit")
        raise Unsupported("entry value %s" % (v[:2],))

    # ---------------------------------------------------------------- materialisation
    def materialize(self, st, addr, v):
        sym = v[1]
        if sym in st.mat and st.nonempty.get(sym) is not False:
            sym = self.alias(st, sym)
            st.write(addr, ("tree", sym))
        outs = []
        ne = st.nonempty.get(sym)
        if ne is not True:
            s = st.copy() if ne is None else st
            try:
                self.emp(s, sym)
                s.write(addr, NONE)
                if ne is None:
                    s.note("%s is empty" % sym)
                outs.append(s)
            except Infeasible:
                pass
        if ne is not False:
            try:
                self.nonemp(st, sym)
                if ne is None:
                    st.note("%s is not empty" % sym)
                hid = st.fresh("x")
                st.heap[hid] = ("tnode", sym)
                st.write(addr, some(("box", hid)))
                outs.append(st)
            except Infeasible:
                pass
        return outs

    def open_node(self, st, hid):
        """materialise the folded node in heap cell hid"""
        v = st.heap[hid]
        sym = v[1]
        if self.fam.name == "rb" and sym in st.info and st.info[sym].get("color") is None:
            out = []
            for c in ("R", "B"):
                s = st.copy()
                try:
                    s.info[sym] = dict(s.info[sym], color=c)
                    self.bh_facts(s, sym)
                    if c == "B":
                        s.add_ge(V("b" + sym) - 1)
                    s.note("%s is %s" % (sym, "red" if c == "R" else "black"))
                    out.append(s)
                except Infeasible:
                    pass
            return out
        if sym in st.mat:
            sym = self.alias(st, sym)
        out = []
        for s, node in self.open(st, sym):
            s.heap[hid] = node
            out.append(s)
        return out

    def peek(self, st, sym, proj):
        """structural fields of a folded node that are known without opening it"""
        fam = self.fam
        if sym not in st.info:
            return None
        i = proj[0]
        if fam.name == "avl" and i == fam.idx["height"]:
            return ("int", st.red(V("h" + sym)))
        if fam.name in ("treap", "itreap") and i == fam.idx["len"]:
            return ("int", st.red(V("n" + sym)))
        if fam.name == "rb" and i == fam.idx["color"]:
            c = st.info[sym].get("color")
            if c:
                return ("agg", fam.coladt, fam.colors["Red" if c == "R" else "Black"], ())
        return None

    def alias(self, st, sym):
        """a second name for a tree whose content is already refined"""
        f = st.fresh("t")
        st.alt[f] = (sym,)
        for k in ("nonempty", "info"):
            d = getattr(st, k)
            if sym in d:
                d[f] = d[sym]
        st.lt = st.lt | {(a, f) for a, b in st.lt if b == sym} | {(f, b) for a, b in st.lt if a == sym}
        st.dom = st.dom | {(p, f) for p, x in st.dom if x == sym}
        st.add_eq(V("n" + f) - V("n" + sym))
        if sym in st.info:
            if self.fam.name == "avl":
                st.add_eq(V("h" + f) - V("h" + sym))
            if self.fam.name == "rb":
                st.add_eq(V("b" + f) - V("b" + sym))
        return f

    def open(self, st, sym):
        """the root node of the non-empty tree sym: list of (state, node value)"""
        fam = self.fam
        if sym not in st.info:
            raise Unsupported("structure of %s is unknown" % sym)
        l, r = st.fresh("t"), st.fresh("t")
        at = self.atom(st)
        st.mat[sym] = (l, at, r)
        if fam.keyed:
            self.inherit(st, sym, [l, at[1], r])
        st.add_eq(V("n" + sym) - V("n" + l) - V("n" + r) - 1)
        info = st.info[sym]

        def node(extra):
            fs = [None] * len(fam.fields)
            fs[fam.L], fs[fam.R], fs[fam.E] = ("tree", l), ("tree", r), self.entry_value(at)
            for k, v in extra.items():
                fs[fam.idx[k]] = v
            return ("agg", fam.node, 0, tuple(fs))

        out = []
        if fam.name == "avl":
            for dl, dr in ((1, 1), (1, 2), (2, 1)):
                s = st.copy()
                try:
                    H = V("h" + sym)
                    s.info[l] = s.info[r] = {}
                    s.add_eq(H - V("h" + l) - dl)
                    s.add_eq(H - V("h" + r) - dr)
                    for x, d in ((l, dl), (r, dr)):
                        if s.ge(V("h" + x) - 1):
                            self.nonemp(s, x)
                        elif s.red(V("h" + x)).const() == 0:
                            self.emp(s, x)
                except Infeasible:
                    continue
                if (dl, dr) != (1, 1):
                    s.note("%s leans %s" % (sym, "left" if dr == 2 else "right"))
                out.append((s, node({"height": ("int", H)})))
            return out
        if fam.name == "rb":
            for col in ("R", "B"):
                if info.get("color") not in (None, col):
                    continue
                s = st.copy()
                try:
                    d = 0 if col == "R" else 1
                    lc = None
                    if col == "R":
                        lc = "R" if info.get("rr") else "B"
                    elif info.get("lr"):
                        lc = "R"
                    s.info[l] = {"color": lc} if lc else {}
                    s.info[r] = {"color": "B"}
                    if lc == "R":
                        self.nonemp(s, l)
                    if info.get("rl"):
                        s.info[l] = {"color": "B"}
                        s.info[r] = {"color": "R"}
                        self.nonemp(s, r)
                    s.add_eq(V("b" + sym) - V("b" + l) - d)
                    s.add_eq(V("b" + sym) - V("b" + r) - d)
                    for x in (l, r):
                        self.bh_facts(s, x)
                    s.note("%s is %s" % (sym, "red" if col == "R" else "black"))
                except Infeasible:
                    continue
                cv = ("agg", fam.coladt, fam.colors["Red" if col == "R" else "Black"], ())
                out.append((s, node({"color": cv})))
            return out
        st.info[l] = st.info[r] = {}
        ex = {}
        if fam.name in ("treap", "itreap"):
            p = self.prio_of(st, at)
            self.inherit_dom(st, sym, [l, r, p])
            st.dom = st.dom | {(p, l), (p, r)}
            ex = {"priority": ("prio", p), "len": ("int", V("n" + sym))}
        return [(st, node(ex))]

    def bh_facts(self, s, x):
        """a black or empty tree is empty exactly when its black height is 0"""
        if s.info.get(x, {}).get("color") == "B":
            b = s.red(V("b" + x))
            if b.const() == 0:
                self.emp(s, x)
            elif s.ge(b - 1):
                self.nonemp(s, x)

    # ---------------------------------------------------------------- words
    def word(self, st, v):
        if v[0] == "agg" and v[1] == OPTION:
            return self.word(st, v[3][0]) if v[2] == 1 else ()
        if v[0] == "agg" and v[1] == self.fam.node:
            return self.word(st, v[3][self.fam.L]) + (self.atom_of(v[3][self.fam.E]),) + self.word(st, v[3][self.fam.R])
        if v[0] in ("ref", "box", "boxraw"):
            a = st.deref(v)
            x = st.root_get(a[0])
            if x[0] == "tnode" and not a[1]:
                return (x[1],)
            return self.word(st, st.read(a))
        if v[0] in ("tree", "tnode"):
            return (v[1],)
        if v[0] == "ctx":
            pre, post, hole = st.mem[("ctx", v[1])]
            return pre + self.word(st, st.heap[hole]) + post
        if v[0] == "moved":
            return ()
        raise Unsupported("content of %s" % v[0])

    def expand(self, st, word):
        out = []
        for it in word:
            if isinstance(it, str):
                if st.nonempty.get(it) is False:
                    continue
                if it in st.mat:
                    out.extend(self.expand(st, st.mat[it]))
                else:
                    out.append(it)
            else:
                out.append(it)
        return tuple(out)

    def size(self, st, word):
        n = C(0)
        for it in word:
            n = n + (V("n" + it) if isinstance(it, str) else C(1))
        return st.red(n)

    # order of word items
    def ilt(self, st, a, b):
        if isinstance(a, tuple) and a[0] == "op":
            if a[1] == "intersection":
                return any(all(self.ilt(st, x, b) for x in w) for w in (a[2], a[3]))
            if a[1] == "difference":
                return all(self.ilt(st, x, b) for x in a[2])
            return all(self.ilt(st, x, b) for x in a[2] + a[3])
        if isinstance(b, tuple) and b[0] == "op":
            if b[1] == "intersection":
                return any(all(self.ilt(st, a, x) for x in w) for w in (b[2], b[3]))
            if b[1] == "difference":
                return all(self.ilt(st, a, x) for x in b[2])
            return all(self.ilt(st, a, x) for x in b[2] + b[3])
        na = a if isinstance(a, str) else a[1]
        nb = b if isinstance(b, str) else b[1]
        return st.is_lt(na, nb)

    def klt(self, st, k, it):
        return self.ilt(st, ("e", k, None), it)

    def ltk(self, st, it, k):
        return self.ilt(st, it, ("e", k, None))

    def prov_empty(self, st, it):
        if not isinstance(it, str):
            if it[0] == "op":
                for x in st.mem.get("opemp", ()):
                    if x[1] == it[1] and (x == it or it in self.dist(st, x[1], x[2], x[3])):
                        return True
            return False
        ne = st.nonempty.get(it)
        if ne is not None:
            return not ne
        if st.red(V("n" + it)).const() == 0 or st.ge(-V("n" + it)):
            return True
        s = st.copy()
        try:
            self.nonemp(s, it)
        except Infeasible:
            return True
        return False

    def sorted_problem(self, st, word):
        w = self.expand(st, word)
        for i, a in enumerate(w):
            for b in w[i + 1:]:
                if not self.ilt(st, a, b):
                    if self.prov_empty(st, a) or self.prov_empty(st, b):
                        continue
                    return "%s is not known to be below %s" % (self.show(a), self.show(b))
        return None

    def show(self, it):
        if isinstance(it, str):
            return "<%s>" % it
        if it[0] == "e":
            return "(%s,%s)" % (it[1], it[2]) if it[1] else "[%s]" % it[2]
        return "%s{%s | %s}" % (it[1], self.shw(it[2]), self.shw(it[3]))

    def shw(self, w):
        return " ".join(self.show(x) for x in w) or "-"

    # set operations on words
    def cut(self, st, w, e):
        lo, eq, hi = [], None, []
        for it in w:
            if isinstance(it, tuple) and it[0] == "e" and st.rep(it[1]) == st.rep(e[1]):
                eq = it
            elif self.ilt(st, it, e):
                lo.append(it)
            elif self.ilt(st, e, it):
                hi.append(it)
            elif self.prov_empty(st, it):
                continue
            else:
                return None
        return tuple(lo), eq, tuple(hi)

    def dist(self, st, op, A, B):
        A, B = self.norm_seq(st, A), self.norm_seq(st, B)
        A = tuple(x for x in A if not self.prov_empty(st, x))
        B = tuple(x for x in B if not self.prov_empty(st, x))
        if not A:
            return B if op in ("union", "symmetric_difference") else ()
        if not B:
            return () if op == "intersection" else A
        for e in [x for x in A + B if isinstance(x, tuple) and x[0] == "e"]:
            ca, cb = self.cut(st, A, e), self.cut(st, B, e)
            if ca is None or cb is None:
                continue
            a, b = ca[1], cb[1]
            if op == "union":
                mid = a or b
            elif op == "intersection":
                mid = a if a and b else None
            elif op == "difference":
                mid = a if a and not b else None
            else:
                mid = (a or b) if not (a and b) else None
            return self.dist(st, op, ca[0], cb[0]) + ((mid,) if mid else ()) + self.dist(st, op, ca[2], cb[2])
        return (("op", op, A, B),)

    def norm_seq(self, st, word):
        """canonical sequence of items: refinements expanded, results of calls replaced by what they are known to hold"""
        w = list(self.expand(st, word))
        for _ in range(60):
            changed = False
            for f in sorted(st.alt, key=lambda x: -int(x[1:])):
                if st.nonempty.get(f) is False:
                    continue
                run = self.expand(st, (f,))
                if not run:
                    continue
                n = len(run)
                for i in range(len(w) - n + 1):
                    if tuple(w[i:i + n]) == run:
                        w[i:i + n] = list(self.expand(st, st.alt[f]))
                        changed = True
                        break
                if changed:
                    break
            if not changed:
                break
        out = []
        for it in w:
            if isinstance(it, tuple) and it[0] == "op":
                out.extend(self.dist(st, it[1], it[2], it[3]))
            else:
                out.append(it)
        return tuple(out)

    def norm_multi(self, st, word):
        c = Counter(self.expand(st, word))
        for _ in range(60):
            changed = False
            for f in sorted(st.alt, key=lambda x: -int(x[1:])):
                if st.nonempty.get(f) is False:
                    continue
                m = Counter(self.expand(st, (f,)))
                if m and all(c[x] >= n for x, n in m.items()):
                    c = c - m + Counter(self.expand(st, st.alt[f]))
                    changed = True
                    break
            if not changed:
                break
        out = Counter()
        for it, n in c.items():
            if isinstance(it, tuple) and it[0] == "op":
                for x in self.dist(st, it[1], it[2], it[3]):
                    out[x] += n
            else:
                out[it] += n
        return out

    def same_content(self, st, got, want, seq):
        """None if equal, else a description"""
        if seq:
            a = [x for x in self.norm_seq(st, got) if not self.prov_empty(st, x)]
            b = [x for x in self.norm_seq(st, want) if not self.prov_empty(st, x)]
            if a == b:
                return None
            return "content is %s, expected %s" % (self.shw(a), self.shw(b))
        a, b = self.norm_multi(st, got), self.norm_multi(st, want)
        miss = [x for x in (b - a) if not self.prov_empty(st, x)]
        extra = [x for x in (a - b) if not self.prov_empty(st, x)]
        if not miss and not extra:
            return None
        return "content is %s, expected %s (missing: %s; unexpected: %s)" % (
            self.shw(self.expand(st, got)), self.shw(self.expand(st, want)), self.shw(miss), self.shw(extra))

    # ---------------------------------------------------------------- splitting words
    def split_word(self, st, word, key):
        """where does key fall in the sorted word? list of (state, items below, equal entry or None, items above)"""
        out = []

        def rec(s, i, lo, w):
            while i < len(w):
                it = w[i]
                if isinstance(it, str):
                    if s.nonempty.get(it) is False:
                        i += 1
                        continue
                    if s.is_lt(it, s.rep(key)):
                        lo = lo + (it,)
                        i += 1
                        continue
                    if s.is_lt(s.rep(key), it):
                        out.append((s, lo, None, w[i:]))
                        return
                    rest = w[i + 1:]
                    # not inside, and everything of `it` is below
                    if rest:
                        s1 = s.copy()
                        try:
                            s1.add_lt([(it, key)])
                            s1.note("all of <%s> is below %s" % (it, key))
                            rec(s1, i + 1, lo + (it,), w)
                        except Infeasible:
                            pass
                    for found in (False, True):
                        s2 = s.copy()
                        try:
                            x, e, y = self.refine(s2, it, found)
                            if not found:
                                s2.add_lt([(x, key), (key, y)] + [(key, z if isinstance(z, str) else z[1]) for z in rest if isinstance(z, str) or z[0] == "e"])
                                if rest:
                                    self.nonemp(s2, y)
                                s2.note("<%s> does not hold %s" % (it, key))
                                out.append((s2, lo + (x,), None, (y,) + rest))
                            else:
                                s2.unify_keys(e[1], key)
                                s2.note("<%s> holds %s as %s" % (it, key, e[1]))
                                out.append((s2, lo + (x,), e, (y,) + rest))
                        except Infeasible:
                            pass
                    return
                if it[0] == "op":
                    raise Unsupported("split of set operation")
                opts = self.interp.cmp_keys(s, key, it[1])
                for s2, sg in opts:
                    try:
                        if sg < 0:
                            out.append((s2, lo, None, w[i:]))
                        elif sg == 0:
                            out.append((s2, lo, it, w[i + 1:]))
                        else:
                            rec(s2, i + 1, lo + (it,), w)
                    except Infeasible:
                        pass
                return
            out.append((s, lo, None, ()))

        rec(st, 0, (), self.expand(st, word))
        return out

    def refine(self, st, it, with_entry):
        """it = x [e] y, content only (the parts have no structure of their own)"""
        x, y = st.fresh("t"), st.fresh("t")
        if with_entry:
            self.nonemp(st, it)
            e = self.atom(st)
            st.mat[it] = (x, e, y)
            if self.fam.keyed:
                self.inherit(st, it, [x, e[1], y])
            self.inherit_dom(st, it, [x, y] + ([self.prio_of(st, e)] if self.prio_of(st, e) else []))
            st.add_eq(V("n" + it) - V("n" + x) - V("n" + y) - 1)
            return x, e, y
        st.mat[it] = (x, y)
        if self.fam.keyed:
            self.inherit(st, it, [x, y])
        self.inherit_dom(st, it, [x, y])
        st.add_eq(V("n" + it) - V("n" + x) - V("n" + y))
        return x, None, y

    def new_sym(self, st, word, info):
        """fresh tree known to hold word"""
        word = self.expand(st, word)
        f = st.fresh("t")
        st.alt[f] = word
        st.info[f] = info
        ops = any(isinstance(x, tuple) and x[0] == "op" for x in word)
        if not ops:
            st.add_eq(V("n" + f) - self.size(st, word))
        if not word:
            self.emp(st, f)
            return f
        if self.fam.keyed:
            names = {a for p in st.lt for a in p}
            pairs = []
            for x in names:
                i = x if x.startswith("t") else ("e", x, None)
                if all(self.ilt(st, i, w) for w in word):
                    pairs.append((x, f))
                if all(self.ilt(st, w, i) for w in word):
                    pairs.append((f, x))
            st.add_lt(pairs)
        if self.fam.name in ("treap", "itreap"):
            ps = {p for p, _ in st.dom}
            st.dom = st.dom | {(p, f) for p in ps if all(self.dominates(st, p, w) for w in word)}
        if any((isinstance(x, tuple) and x[0] == "e") or (isinstance(x, str) and st.nonempty.get(x)) for x in word):
            self.nonemp(st, f)
        return f

    def dominates(self, st, p, item):
        if isinstance(item, str):
            return (p, item) in st.dom or st.nonempty.get(item) is False
        if item[0] == "e":
            q = self.prio_of(st, item)
            return q is not None and (p == q or (p, q) in st.dom)
        return all(self.dominates(st, p, x) for x in item[2] + item[3])

    def cmp_prio(self, st, p, q):
        if p == q:
            return [(st, 0)]
        sd = st.mem.get("sdom", frozenset())
        out = []
        for sg in (-1, 0, 1):
            if sg >= 0 and (q, p) in sd or sg <= 0 and (p, q) in sd:
                continue
            if sg > 0 and (q, p) in st.dom or sg < 0 and (p, q) in st.dom:
                continue
            s = st.copy()
            add = set()
            if sg >= 0:
                add.add((p, q))
            if sg <= 0:
                add.add((q, p))
            dom = set(s.dom) | add
            # transitivity: anything dominating p dominates what p dominates
            ch = True
            while ch:
                ch = False
                for a, b in list(dom):
                    if b.startswith("p"):
                        for c, d in list(dom):
                            if c == b and (a, d) not in dom and a != d:
                                dom.add((a, d))
                                ch = True
            s.dom = frozenset(dom)
            if sg > 0:
                s.mem["sdom"] = sd | {(p, q)}
            if sg < 0:
                s.mem["sdom"] = sd | {(q, p)}
            s.note("priority %s %s %s" % (p, {-1: "<", 0: "=", 1: ">"}[sg], q))
            out.append((s, sg))
        return out

    def on_drop(self, st, v):
        pass

    # ---------------------------------------------------------------- structural measures
    def measure(self, st, v):
        """structure of the tree value v: list of (state, info, problems). info: avl: height Lin; rb: dict; treap: size Lin, root priority"""
        k = self.fam.name
        if v[0] == "agg" and v[1] == OPTION and v[2] == 0 or v[0] == "moved":
            return [(st, {"avl": C(0), "rb": {"color": "B", "bh": C(0), "lr": False, "rr": False, "nil": True}}.get(k, (C(0), None, None)), ())]
        if v[0] in ("tree", "tnode"):
            return self.measure_sym(st, v[1])
        if v[0] == "agg" and v[1] == OPTION:
            return self.measure(st, v[3][0])
        if v[0] in ("box", "ref", "boxraw"):
            a = st.deref(v)
            x = st.root_get(a[0])
            return self.measure(st, x if x[0] == "tnode" else st.read(a))
        if v[0] == "ctx":
            if k == "splay":
                return [(st, (C(0), None, None), ())]
            raise Unsupported("structure of a context")
        if v[0] == "agg" and v[1] == self.fam.node:
            return self.measure_node(st, v)
        raise Unsupported("structure of %s" % v[0])

    def measure_sym(self, st, sym):
        k = self.fam.name
        if st.nonempty.get(sym) is False:
            return self.measure(st, NONE)
        if sym not in st.info:
            raise Unsupported("structure of %s is unknown" % sym)
        if k == "avl":
            return [(st, st.red(V("h" + sym)), ())]
        if k == "rb":
            i = st.info[sym]
            if i.get("color") is None:
                out = []
                for c in ("R", "B"):
                    s = st.copy()
                    try:
                        s.info[sym] = dict(i, color=c)
                        if c == "R":
                            self.nonemp(s, sym)
                        else:
                            self.bh_facts(s, sym)
                            if s.nonempty.get(sym):
                                s.add_ge(V("b" + sym) - 1)
                        s.note("%s is %s" % (sym, "red" if c == "R" else "black or empty"))
                        out += self.measure_sym(s, sym)
                    except Infeasible:
                        pass
                return out
            return [(st, {"color": i["color"], "bh": st.red(V("b" + sym)), "lr": i.get("lr"), "rr": i.get("rr", False), "sym": sym, "nil": False}, ())]
        return [(st, (st.red(V("n" + sym)), None, sym), ())]

    def measure_node(self, st, v):
        k = self.fam.name
        fs = v[3]
        out = []
        for s1, ml, p1 in self.measure(st, fs[self.fam.L]):
            for s2, mr, p2 in self.measure(s1, fs[self.fam.R]):
                probs = p1 + p2
                if k == "splay":
                    out.append((s2, (C(0), None, None), probs))
                elif k == "avl":
                    hv = fs[self.fam.idx["height"]]
                    for s3, sg in self.interp.decide_sign(s2, ml - mr):
                        H = (ml if sg >= 0 else mr) + 1
                        p3 = probs
                        if hv[0] != "int":
                            raise Unsupported("height is %s" % hv[0])
                        if s3.red(hv[1] - H).const() != 0 and not (s3.ge(hv[1] - H) and s3.ge(H - hv[1])):
                            p3 = p3 + (("height", "a node records height %s but its height is %s" % (s3.red(hv[1]), s3.red(H))),)
                        d = s3.red(ml - mr)
                        if not (s3.ge(d + 1) and s3.ge((-d) + 1)):
                            p3 = p3 + (("balance", "the subtrees of a node differ in height by %s" % d),)
                        out.append((s3, s3.red(H), p3))
                elif k == "rb":
                    out.append(self.rb_node(s2, v, ml, mr, probs))
                else:
                    lv, pv = fs[self.fam.idx["len"]], fs[self.fam.idx["priority"]]
                    N = s2.red(ml[0] + mr[0] + 1)
                    if lv[0] != "int":
                        raise Unsupported("len is %s" % lv[0])
                    d = s2.red(lv[1] - N)
                    if d.const() != 0 and not (s2.ge(d) and s2.ge(-d)):
                        probs = probs + (("size", "a node records %s entries but its subtree has %s" % (s2.red(lv[1]), N)),)
                    if pv[0] != "prio":
                        raise Unsupported("priority is %s" % pv[0])
                    for m in (ml, mr):
                        if m[1] is not None and not (pv[1] == m[1] or (pv[1], m[1]) in s2.dom):
                            probs = probs + (("heap", "a node of priority %s has a child of priority %s not known to be smaller" % (pv[1], m[1])),)
                        if m[2] is not None and not (pv[1], m[2]) in s2.dom and not self.prov_empty(s2, m[2]):
                            probs = probs + (("heap", "a node of priority %s has a subtree <%s> whose priorities are not known to be smaller" % (pv[1], m[2])),)
                    out.append((s2, (N, pv[1], None), probs))
        return out

    def rb_node(self, st, v, ml, mr, probs):
        cv = v[3][self.fam.idx["color"]]
        if cv[0] != "agg":
            raise Unsupported("colour is %s" % cv[0])
        col = "R" if cv[2] == self.fam.colors["Red"] else "B"
        if ml.get("rlean") or mr.get("rlean"):
            probs = probs + (("color", "a red link leans right below a node"),)
        rlean = mr["color"] == "R"
        if ml["rr"] or mr["rr"]:
            probs = probs + (("color", "two consecutive red links below a node"),)
        rr = False
        if col == "R" and ml["color"] == "R":
            rr = True
        d = st.red(ml["bh"] - mr["bh"])
        if d.const() != 0 and not (st.ge(d) and st.ge(-d)):
            probs = probs + (("bh", "the black heights below a node differ by %s" % d),)
        bh = st.red(ml["bh"] + (0 if col == "R" else 1))
        return (st, {"color": col, "bh": bh, "lr": ml["color"] == "R", "rr": rr, "rlean": rlean, "rred": rlean and col == "R", "nil": False}, probs)

    # ---------------------------------------------------------------- loops
    def fold(self, st):
        from .fold import Folder
        return Folder(self, st).run()

    def canon(self, st):
        from .fold import canon
        return canon(self, st)

    def close_context(self, st, addr, v):
        """a context whose hole nobody refers to any more is a tree again"""
        from .fold import Folder
        if self.fam.name != "splay":
            raise Unsupported("read of folded context")
        pre, post, hole = st.mem[("ctx", v[1])]
        F = Folder(self, st)
        refs = []
        for f in st.frames:
            for x in f.locals.values():
                F.refs_in(x, refs)
        for h, x in st.heap.items():
            F.refs_in(x, refs)
        if any(a[0] == ("h", hole) for a in refs):
            raise Unsupported("read of a context with a cursor inside")
        w = tuple(pre) + tuple(self.word(st, st.heap[hole])) + tuple(post)
        f = self.new_sym(st, w, {})
        st.write(addr, ("tree", f))
        return self.interp.force_option(st, addr)

    def weaken(self, st, stored, inv):
        from .fold import weaken
        return weaken(st, stored, inv)

    def norm_expand(self, st, word):
        return self.expand(st, word)

    def pop_base(self, st, a, v):
        """take one item from the opaque rest of an iterator's stack"""
        base = v[1]
        out = []
        if base in st.mat:
            if st.nonempty.get(base) is False:
                return [(st, None)]
            raise Unsupported("stack rest already refined")
        if base in st.alt and not any(base in w for w in st.ghost.values()):
            raise Unsupported("stack content known in another way")
        if st.nonempty.get(base) is not True:
            s = st.copy()
            try:
                self.emp(s, base)
                out.append((s, None))
            except Infeasible:
                pass
        if st.nonempty.get(base) is not False:
            s = st.copy()
            try:
                self.nonemp(s, base)
                at = self.atom(s)
                r, b1 = s.fresh("t"), s.fresh("t")
                s.mat[base] = (at, r, b1)
                if self.fam.keyed:
                    self.inherit(s, base, [at[1], r, b1])
                s.add_eq(V("n" + base) - V("n" + r) - V("n" + b1) - 1)
                s.info[r] = {"color": "B"} if self.fam.name == "rb" else {}
                s.note("the stack holds %s" % self.show(at))
                s.write(a, ("vec", b1, v[2], ()))
                for s2, item in self.stack_item(s, s.mem["elemty"], at, r):
                    out.append((s2, item))
            except Infeasible:
                pass
        return out

    def stack_item(self, st, ty, at, r):
        """value of the element type holding entry at and the subtree r still to visit"""
        fam = self.fam
        T = fam.prog.types[ty]

        def nodev():
            fs = [None] * len(fam.fields)
            for i, n in enumerate(fam.fields):
                fs[i] = self.entry_value(at) if i == fam.E else ("tree", r) if i == fam.R else ("top", "visited " + n)
            return ("agg", fam.node, 0, tuple(fs))

        def is_node(t):
            return t["k"] == "adt" and t["path"] == fam.node

        if is_node(T):
            return [(st, nodev())]
        if T["k"] == "ref" and is_node(fam.prog.types[T["t"]]):
            h = st.fresh("x")
            st.heap[h] = nodev()
            return [(st, ("ref", (("h", h), ())))]
        if T["k"] == "adt" and T["path"] == BOX and is_node(fam.prog.types[T["args"][0]]):
            h = st.fresh("x")
            st.heap[h] = nodev()
            return [(st, ("box", h))]
        if T["k"] == "adt" and T["path"] == OPTION:
            return [(s, some(x)) for s, x in self.stack_item(st, T["args"][0], at, r)]
        if T["k"] == "tuple" and len(T["ts"]) == 2:
            t0, t1 = fam.prog.types[T["ts"][0]], fam.prog.types[T["ts"][1]]
            if t0["k"] != "ref":
                raise Unsupported("stack element")
            e = ("ref", (("ent", at[1], at[2]), ()))
            c = st.fresh("c")
            st.heap[c] = ("tree", r)
            out = []
            if t1["k"] == "ref":
                return [(st, tup(e, ("ref", (("h", c), ()))))]
            if t1["k"] == "adt" and t1["path"] == OPTION and fam.prog.types[t1["args"][0]]["k"] == "ref":
                for s in self.interp.force_option(st, (("h", c), ())):
                    x = s.read((("h", c), ()))
                    if x[2] == 0:
                        out.append((s, tup(e, NONE)))
                    else:
                        out.append((s, tup(e, some(("ref", (("h", x[3][0][1]), ()))))))
                return out
        raise Unsupported("stack element type %s" % T["s"])
