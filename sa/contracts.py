"""Contracts of the recursive tree functions: what a call may assume and what it establishes.
Each contract is used at the recursive (and other) call sites and is itself verified against the function's body."""
from .interp import (Outcome, Unsupported, Infeasible, NONE, MOVED, UNIT, TRUE, FALSE, some, tup, integer)
from .lin import C, V
from .stdmodels import deep


def keyname(st, v):
    k = deep(st, v)
    if k[0] == "key":
        return k[1]
    raise Unsupported("key argument is %s" % k[0])


def cell(st, v):
    a = st.deref(v)
    x = st.read(a)
    while x[0] == "ref":
        a = x[1]
        x = st.read(a)
    return a, x


def addprob(st, probs):
    if probs:
        st.mem["probs"] = st.mem.get("probs", ()) + tuple(probs)


def entref(at):
    return ("ref", (("ent", at[1], at[2]), ()))


def is_none(v):
    return v[0] == "agg" and v[2] == 0 and not v[3]


class Contracts:
    def __init__(self, dom):
        self.dom = dom
        self.fam = dom.fam

    def table(self):
        m = self.fam.mod
        fam = self.fam.name
        t = {}
        if fam == "itreap":
            base = m + "::implicit_tree::"
            t = {base + "merge": self.merge, base + "split": self.isplit, base + "remove": self.iremove, base + "get": self.iget,
                 base + "get_mut": self.iget}
        else:
            base = m + "::tree::"
            for n, f in (("insert", self.insert), ("remove", self.remove), ("get", self.get), ("get_mut", self.get),
                         ("floor", self.floor), ("ceil", self.ceil), ("remove_min", self.remove_min)):
                t[base + n] = f
            if fam == "treap":
                t.update({base + "merge": self.merge, base + "split": self.split, base + "union": self.union,
                          base + "intersection": self.intersection, base + "difference": self.difference})
        return t

    # ---- measures of a tree given to a call ----
    def pre(self, st, v, lean=False):
        out = []
        for s, m, probs in self.dom.measure(st, v):
            if isinstance(m, dict) and m.get("rlean") and not lean:
                probs = probs + (("color", "a red link leans right at the root"),)
            addprob(s, [("pre:" + c, t + " when a subtree is handed to a call") for c, t in probs])
            out.append((s, m))
        return out

    def result(self, st, word, opts):
        """states with a fresh tree holding word, one per structural option"""
        out = []
        for info, facts in opts:
            s = st.copy() if len(opts) > 1 else st
            try:
                f = self.dom.new_sym(s, word, info)
                for x in facts(f):
                    s.add_eq(x)
                if info.get("ne"):
                    self.dom.nonemp(s, f)
                if self.fam.name == "avl":
                    h = s.red(V("h" + f))
                    if s.nonempty.get(f) is True:
                        s.add_ge(h - 1)
                    elif s.nonempty.get(f) is None:
                        if h.const() == 0:
                            self.dom.emp(s, f)
                        elif s.ge(h - 1):
                            self.dom.nonemp(s, f)
                    elif h.const() != 0:
                        s.add_eq(h)
                if self.fam.name == "rb" and s.nonempty.get(f) is not False:
                    self.dom.bh_facts(s, f)
                if s.nonempty.get(f) is False and info.get("color") == "R":
                    continue
            except Infeasible:
                continue
            out.append((s, f))
        return out

    # ---- maps ----
    def new_node(self, st, node):
        fam = self.fam
        if node[0] != "agg" or node[1] != fam.node:
            raise Unsupported("new node is %s" % node[0])
        fs = node[3]
        for i in (fam.L, fam.R):
            if not is_none(fs[i]):
                raise Unsupported("new node has children")
        at = self.dom.atom_of(fs[fam.E])
        if fam.name == "avl" and fs[fam.idx["height"]] != integer(1):
            addprob(st, [("pre:height", "a new node with height %s is inserted" % (fs[fam.idx["height"]],))])
        if fam.name == "rb" and fs[fam.idx["color"]][2] != fam.colors["Red"]:
            addprob(st, [("pre:color", "a black node is inserted")])
        p = None
        if fam.name in ("treap", "itreap"):
            if st.red(fs[fam.idx["len"]][1]).const() != 1:
                addprob(st, [("pre:size", "a new node with len %s is inserted" % (fs[fam.idx["len"]][1],))])
            p = fs[fam.idx["priority"]][1]
            st.mem[("pr", at[2] if at[1] is None else at[1])] = p
        return at, p

    def insert_opts(self, m, found):
        k = self.fam.name
        if k == "avl":
            return [({}, lambda f, d=d: [V("h" + f) - m - d]) for d in (0, 1)]
        if k == "rb":
            eq = lambda f: [V("b" + f) - m["bh"]]
            if m.get("nil"):
                return [({"color": "R", "ne": True}, eq)]
            if m["color"] == "R":
                return [({"color": "R", "ne": True}, eq), ({"color": "R", "rr": True, "ne": True}, eq)]
            return [({"ne": True}, eq)]
        return [({}, lambda f: [])]

    def insert(self, ip, st, args):
        a, v = cell(st, args[0])
        at, p = self.new_node(st, args[1])
        out = []
        for s0, m in self.pre(st, v):
            if self.fam.name == "rb" and m.get("rr"):
                addprob(s0, [("pre:color", "insert called on a subtree with a red root and a red left child")])
            for s, lo, e, hi in self.dom.split_word(s0, self.dom.word(s0, v), at[1]):
                for s2, f in self.result(s, lo + (at,) + hi, self.insert_opts(m, e)):
                    s2.write(a, ("tree", f))
                    out.append((s2, NONE if e is None else some(self.dom.entry_value(e))))
        return out

    def remove_opts(self, m, found):
        k = self.fam.name
        if k == "avl":
            return [({}, lambda f, d=d: [V("h" + f) - m + d]) for d in ((0, 1) if found else (0,))]
        if k == "rb":
            eq = lambda f: [V("b" + f) - m["bh"]]
            if m["color"] == "B" and not m.get("nil"):
                return [({"color": "B", "ne": True}, eq)]
            if m.get("nil"):
                return [({"color": "B"}, eq)]
            return [({}, eq)]
        return [({}, lambda f: [])]

    def rb_remove_pre(self, st, a, key=None):
        """a red-black removal descends only into a red root, a black root with a red left child, or (when the key is
        not below the root's) a black root whose right child alone is red"""
        if self.fam.name != "rb":
            return [(s, m) for s, m in self.pre(st, st.read(a))]
        out = []
        for s, m in self.pre(st, st.read(a), lean=True):
            if m.get("rlean"):
                ok = False
                if key is not None and m["color"] == "B" and not m["lr"]:
                    root = deep(s, s.read(a)[3][0])
                    k = self.dom.atom_of(root[3][self.fam.E])[1]
                    ok = s.rep(k) == s.rep(key) or s.is_lt(k, key)
                if not ok:
                    addprob(s, [("pre:color", "removal descends into a subtree whose red link leans right")])
                out.append((s, m))
                continue
            if m["color"] == "R" or m.get("nil") or s.nonempty.get(m.get("sym")) is False:
                out.append((s, m))
                continue
            if m.get("lr") is None or m.get("sym") and s.nonempty.get(m["sym"]) is None:
                for s2 in self.dom.interp.force_option(s, a):
                    v = s2.read(a)
                    if is_none(v):
                        out += self.rb_remove_pre(s2, a, key)
                    else:
                        hid = v[3][0][1]
                        for s3 in (self.dom.open_node(s2, hid) if s2.heap[hid][0] == "tnode" else [s2]):
                            out += self.rb_remove_pre(s3, a, key)
                continue
            if m["lr"] is False:
                addprob(s, [("pre:shift", "removal descends into a black node without a red child")])
            out.append((s, m))
        for s, m in out:
            if m.get("rr"):
                addprob(s, [("pre:color", "removal descends into a subtree with two consecutive red links")])
        return out

    def remove(self, ip, st, args):
        a, _ = cell(st, args[0])
        k = keyname(st, args[1])
        out = []
        for s0, m in self.rb_remove_pre(st, a, k):
            for s, lo, e, hi in self.dom.split_word(s0, self.dom.word(s0, s0.read(a)), k):
                for s2, f in self.result(s, lo + hi, self.remove_opts(m, e)):
                    s2.write(a, ("tree", f))
                    out.append((s2, NONE if e is None else some(self.dom.entry_value(e))))
        return out

    def first(self, st, word):
        """list of (state, first entry or None, rest)"""
        w = self.dom.expand(st, word)
        out = []
        s = st
        for i, it in enumerate(w):
            if not isinstance(it, str):
                return out + [(s, it, w[i + 1:])]
            if s.nonempty.get(it) is not False:
                s1 = s.copy()
                try:
                    x, e, y = self.dom.refine(s1, it, True)
                    self.dom.emp(s1, x)
                    out.append((s1, e, (y,) + w[i + 1:]))
                except Infeasible:
                    pass
                s = s.copy()
                try:
                    self.dom.emp(s, it)
                except Infeasible:
                    return out
        return out + [(s, None, ())]

    def last(self, st, word):
        w = self.dom.expand(st, word)
        out = []
        s = st
        for i in range(len(w) - 1, -1, -1):
            it = w[i]
            if not isinstance(it, str):
                return out + [(s, it, w[:i])]
            if s.nonempty.get(it) is not False:
                s1 = s.copy()
                try:
                    x, e, y = self.dom.refine(s1, it, True)
                    self.dom.emp(s1, y)
                    out.append((s1, e, w[:i] + (x,)))
                except Infeasible:
                    pass
                s = s.copy()
                try:
                    self.dom.emp(s, it)
                except Infeasible:
                    return out
        return out + [(s, None, ())]

    def remove_min(self, ip, st, args):
        a, _ = cell(st, args[0])
        fam = self.fam
        out = []
        for s0, m in self.rb_remove_pre(st, a):
            for s, e, rest in self.first(s0, self.dom.word(s0, s0.read(a))):
                if e is None:
                    out.append((s, Outcome("panic", s, None, "removing the minimum of an empty tree", "remove_min")))
                    continue
                for s2, f in self.result(s, rest, self.remove_opts(m, e)):
                    s2.write(a, ("tree", f))
                    # the node keeps whatever colour / height it had
                    for col in (sorted(fam.colors) if fam.name == "rb" else [None]):
                        s3 = s2.copy() if col else s2
                        fs = [None] * len(fam.fields)
                        for i, n in enumerate(fam.fields):
                            fs[i] = (NONE if i in (fam.L, fam.R) else self.dom.entry_value(e) if i == fam.E
                                     else ("agg", fam.coladt, fam.colors[col], ()) if n == "color"
                                     else ("int", V(s3.fresh("i"))) if n == "height" else ("top", "stale " + n))
                        hid = s3.fresh("x")
                        s3.heap[hid] = ("agg", fam.node, 0, tuple(fs))
                        out.append((s3, ("box", hid)))
        return out

    def get(self, ip, st, args):
        a, v = cell(st, args[0])
        k = keyname(st, args[1])
        out = []
        for s, lo, e, hi in self.dom.split_word(st, self.dom.word(st, v), k):
            out.append((s, NONE if e is None else some(entref(e))))
        return out

    def floor(self, ip, st, args):
        a, v = cell(st, args[0])
        k = keyname(st, args[1])
        out = []
        for s, lo, e, hi in self.dom.split_word(st, self.dom.word(st, v), k):
            if e is not None:
                out.append((s, some(entref(e))))
                continue
            for s2, x, rest in self.last(s, lo):
                out.append((s2, NONE if x is None else some(entref(x))))
        return out

    def ceil(self, ip, st, args):
        a, v = cell(st, args[0])
        k = keyname(st, args[1])
        out = []
        for s, lo, e, hi in self.dom.split_word(st, self.dom.word(st, v), k):
            if e is not None:
                out.append((s, some(entref(e))))
                continue
            for s2, x, rest in self.first(s, hi):
                out.append((s2, NONE if x is None else some(entref(x))))
        return out

    # ---- treaps ----
    def dominated(self, st, f, ms):
        """what dominates the roots of every argument dominates the result"""
        def ok(p, m):
            return (m[1] is None or m[1] == p or (p, m[1]) in st.dom) and \
                (m[2] is None or (p, m[2]) in st.dom or self.dom.prov_empty(st, m[2]))
        st.dom = st.dom | {(p, f) for p in {p for p, _ in st.dom} if all(ok(p, m) for m in ms)}

    def merge(self, ip, st, args):
        a, v = cell(st, args[0])
        r = args[1]
        out = []
        for s0, m1 in self.pre(st, v):
            for s, m2 in self.pre(s0, r):
                w1, w2 = self.dom.word(s, v), self.dom.word(s, r)
                if self.fam.keyed:
                    p = self.dom.sorted_problem(s, w1 + w2)
                    if p:
                        addprob(s, [("order", "merge of trees that are not in order: " + p)])
                for s2, f in self.result(s, w1 + w2, [({}, lambda f: [])]):
                    self.dominated(s2, f, (m1, m2))
                    s2.write(a, ("tree", f))
                    out.append((s2, UNIT))
        return out

    def leaf(self, st, e):
        fam = self.fam
        fs = [None] * len(fam.fields)
        fs[fam.L] = fs[fam.R] = NONE
        fs[fam.E] = self.dom.entry_value(e)
        fs[fam.idx["len"]] = integer(1)
        p = self.dom.prio_of(st, e)
        fs[fam.idx["priority"]] = ("prio", p) if p else ("top", "priority")
        hid = st.fresh("x")
        st.heap[hid] = ("agg", fam.node, 0, tuple(fs))
        return some(("box", hid))

    def split(self, ip, st, args):
        a, v = cell(st, args[0])
        k = keyname(st, args[1])
        out = []
        for s0, m in self.pre(st, v):
            for s, lo, e, hi in self.dom.split_word(s0, self.dom.word(s0, v), k):
                for s2, f in self.result(s, lo, [({}, lambda f: [])]):
                    for s3, g in self.result(s2, hi, [({}, lambda f: [])]):
                        self.dominated(s3, f, (m,))
                        self.dominated(s3, g, (m,))
                        s3.write(a, ("tree", f))
                        out.append((s3, tup(NONE if e is None else self.leaf(s3, e), ("tree", g))))
        return out

    def setop(self, op, st, l, r, swapped):
        if swapped[0] != "bool":
            raise Unsupported("swapped flag unknown")
        out = []
        for s0, m1 in self.pre(st, l):
            for s, m2 in self.pre(s0, r):
                w1, w2 = self.dom.word(s, l), self.dom.word(s, r)
                if swapped[1]:
                    w1, w2 = w2, w1
                word = self.dom.dist(s, op, w1, w2)
                for s2, f in self.result(s, word, [({}, lambda f: [])]):
                    self.dominated(s2, f, (m1, m2))
                    out.append((s2, ("tree", f)))
        return out

    def union(self, ip, st, args):
        return self.setop("union", st, args[0], args[1], args[2])

    def intersection(self, ip, st, args):
        return self.setop("intersection", st, args[0], args[1], args[2])

    def difference(self, ip, st, args):
        if args[3][0] != "bool":
            raise Unsupported("symmetric flag unknown")
        return self.setop("symmetric_difference" if args[3][1] else "difference", st, args[0], args[1], args[2])

    # ---- implicit treaps: positions ----
    def cut_at(self, st, word, m):
        """split word after its first m entries: list of (state, lo, hi, inside) where 0<=m<=size is decided by forking;
        positions outside the word clamp"""
        w = self.dom.expand(st, word)
        out = []

        def rec(s, i, lo, m):
            # entries still to take: m
            for s1, sg in self.dom.interp.decide_sign(s, m):
                if sg <= 0:
                    out.append((s1, lo, w[i:]))
                    continue
                if i >= len(w):
                    out.append((s1, lo, ()))
                    continue
                it = w[i]
                if not isinstance(it, str):
                    rec(s1, i + 1, lo + (it,), m - 1)
                    continue
                for s2, g in self.dom.interp.decide_sign(s1, m - V("n" + it)):
                    if g >= 0:
                        rec(s2, i + 1, lo + (it,), m - V("n" + it))
                    else:
                        try:
                            x, _, y = self.dom.refine(s2, it, False)
                            s2.add_eq(V("n" + x) - m)
                            self.dom.nonemp(s2, y)
                            out.append((s2, lo + (x,), (y,) + w[i + 1:]))
                        except Infeasible:
                            pass

        rec(st, 0, (), m)
        return out

    def isplit(self, ip, st, args):
        a, v = cell(st, args[0])
        idx, incl = args[1], args[2]
        if idx[0] != "int" or incl[0] != "bool":
            raise Unsupported("split arguments")
        m = idx[1] - 1 if incl[1] else idx[1]
        out = []
        for s0, m0 in self.pre(st, v):
            for s, lo, hi in self.cut_at(s0, self.dom.word(s0, v), m):
                for s2, f in self.result(s, lo, [({}, lambda f: [])]):
                    for s3, g in self.result(s2, hi, [({}, lambda f: [])]):
                        self.dominated(s3, f, (m0,))
                        self.dominated(s3, g, (m0,))
                        s3.write(a, ("tree", f))
                        out.append((s3, ("tree", g)))
        return out

    def at_index(self, st, word, idx):
        """entry number idx (1-based): list of (state, lo, entry or None, hi)"""
        out = []
        for s0, sg in self.dom.interp.decide_sign(st, idx - 1):
            if sg < 0:
                out.append((s0, (), None, word))
                continue
            for s, lo, hi in self.cut_at(s0, word, idx - 1):
                for s2, e, rest in self.first(s, hi):
                    if e is None:
                        out.append((s2, lo, None, ()))
                    else:
                        out.append((s2, lo, e, rest))
        return out

    def iremove(self, ip, st, args):
        a, v = cell(st, args[0])
        if args[1][0] != "int":
            raise Unsupported("index")
        out = []
        for s0, m0 in self.pre(st, v):
            for s, lo, e, hi in self.at_index(s0, self.dom.word(s0, v), args[1][1]):
                if e is None:
                    out.append((s, Outcome("panic", s, None, "index out of range", "remove")))
                    continue
                for s2, f in self.result(s, lo + hi, [({}, lambda f: [])]):
                    self.dominated(s2, f, (m0,))
                    s2.write(a, ("tree", f))
                    out.append((s2, self.dom.val(e)))
        return out

    def iget(self, ip, st, args):
        a, v = cell(st, args[0])
        if args[1][0] != "int":
            raise Unsupported("index")
        out = []
        for s, lo, e, hi in self.at_index(st, self.dom.word(st, v), args[1][1]):
            out.append((s, NONE if e is None else some(entref(e))))
        return out
