"""B+ map pages: insert and remove run on nodes whose contents are known only as far as pages are concerned.

A node is an array of pointers and opaque keys or entries; it is known by the allocation behind its keys or entries. The functions of
nodes are replaced by what they do to pages: which pointer comes in, goes out or moves on, and whether the node changes. Each page has a
balance: how often it became, less how often it ceased to be, pointed to by a node or as the root. Ancestors are generated when they are
popped: any internal node one of whose pointers leads to the page below."""
from ..interp import State, Unsupported, Bug, Infeasible, OPTION, RESULT, NONE, UNIT, MOVED, TRUE, FALSE, some, tup, integer
from ..lin import V, C
from ..simple import start
from .. import arrays
from ..colls import ok
from ..arrays import ADom, AInterp
from .bptree import Lay, NODE, INT, LEAF, ENTRY

MAP = "crate::bp_tree::map::BpMap::<T, U>::"
CASES = "crate::bp_tree::node::InsertCases"
DL, DI, LEN = V("hdl"), V("hdi"), V("nlen")
KEY, VAL = ("k",), ("val",)


def ref(h):
    return ("ref", (("h", h), ()))


def pgv(h):
    return ("pgv", ("h", h))


class PDom(ADom):
    tolerant = True

    def zero(self, st, l):
        l = st.red(l)
        c = l.const()
        return c == 0 if c is not None else st.ge(l) and st.ge(-l)

    def parameters(self, st):
        return []

    def keepname(self, l):
        return l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1 and l.t[0][0] in ("hdl", "hdi", "nlen")

    def instantiate(self, st, v):
        if v[0] == "anyptr":
            h = st.fresh("pg")
            st.heap[h] = ("page", "live", 0, v[1])
            return pgv(h)
        return v

    def at_head(self, st):
        ip = self.ip
        seen, work = set(), []
        for f, ls in self.live(st):
            for l in ls:
                if l in f.locals:
                    self.heap_refs(f.locals[l], work)
        while work:
            r = work.pop()
            if r[0] == "l":
                for f in st.frames:
                    if f.fid == r[1] and r[2] in f.locals:
                        self.heap_refs(f.locals[r[2]], work)
                continue
            if r[1] in seen or r[1] not in st.heap:
                continue
            seen.add(r[1])
            self.heap_refs(st.heap[r[1]], work)
        st.mem["root:nodes"] = tuple(n for n in st.mem["root:nodes"] if n[0][1] in seen or ip.dirty(st, n))
        alive = {n[0][1] for n in st.mem["root:nodes"]}
        st.mem["root:init"] = tuple(c for c in st.mem["root:init"] if c[0][1] in alive)
        st.mem["root:pages"] = tuple(p for p in st.mem["root:pages"] if not ip.balanced(st.heap[p[1][1]]))


def balanced(p):
    return p[1] == "live" and p[2] == 0 or p[1] == "free" and p[2] == -1 or p[1] == "new" and p[2] == 1


class PInterp(AInterp):
    MAXSTEPS = 400000

    def __init__(self, lay, dom):
        AInterp.__init__(self, lay.prog, dom)
        self.lay = lay
        self.balanced = balanced
        dom.ip = dom.interp = self
        self.override = dict(arrays.OVER)
        o = self.override
        o["std::vec::Vec::<T, A>::pop"] = self.pop
        o["std::vec::Vec::<T, A>::is_empty"] = self.is_empty
        o["std::cmp::max"] = o["std::cmp::Ord::max"] = self.maxmin
        o["std::cmp::min"] = o["std::cmp::Ord::min"] = self.maxmin
        o["std::clone::Clone::clone"] = self.clone
        names = {"crate::bp_tree::pager::Pager::<": ("set_root_page", "get_root_page", "get_len", "set_len", "get_leaf_degree", "get_internal_degree", "get_page", "allocate_node", "deallocate_node", "write_node", "validate_key", "validate_value"),
                 "crate::bp_tree::map::BpMap::<": ("search_node",),
                 INT + "::<": ("int_insert", "int_remove_at", "int_merge", "int_new"), LEAF + "::<": ("leaf_insert", "leaf_remove", "leaf_remove_at", "leaf_merge", "leaf_new")}
        found = 0
        for path in self.prog.fns:
            for pre, ns in names.items():
                for n in ns:
                    if path.startswith(pre) and path.endswith("::" + n.replace("leaf_", "" if pre[:len(LEAF)] == LEAF else "leaf_").replace("int_", "" if pre[:len(INT)] == INT else "int_")):
                        self.models[path] = getattr(self, n)
                        found += 1
        if found < 20:
            raise Unsupported("functions of pages or nodes are gone")

    # ------------------------------------------------------------ nodes
    def newnode(self, st, leaf, n, page, child=None, idx=None, kind=None):
        """a node as it is on its page"""
        a = LEAF if leaf else INT
        h = st.fresh("nd")
        st.heap[h] = ("arr", (("sum", ("ent" if leaf else "optkey",), DL if leaf else DI - 1),))
        kw = {"len": ("int", n), "entries" if leaf else "keys": ("box", h)}
        if leaf:
            kw["next_leaf"] = ("nxt",)
        else:
            p = st.fresh("pa")
            st.heap[p] = ("arr", (("sum", ("anyptr", kind), DI),))
            kw["pointers"] = ("box", p)
        v = self.lay.make(a, **kw)
        st.mem["root:nodes"] += ((("h", h), page, False, leaf, False),)
        return self.lay.node(a, v), h

    def ident(self, st, v):
        """the record of a node behind a value or reference"""
        v = st.strip_refs(v)
        if v[0] == "agg" and v[1] == NODE:
            v = v[3][0]
        if v[0] != "agg" or v[1] not in (INT, LEAF):
            raise Unsupported("node is " + str(v[0]))
        b = self.lay.get(v[1], v, "entries" if v[1] == LEAF else "keys")
        if b[0] != "box":
            raise Unsupported("node without contents")
        for n in st.mem["root:nodes"]:
            if n[0][1] == b[1]:
                return v, n
        raise Unsupported("node of another origin")

    def setrec(self, st, n, **kw):
        m = dict(zip(("id", "page", "dirty", "leaf", "emptied"), n))
        m.update(kw)
        m = tuple(m.values())
        st.mem["root:nodes"] = tuple(m if x[0] == n[0] else x for x in st.mem["root:nodes"])
        return m

    def drop(self, st, n):
        st.mem["root:nodes"] = tuple(x for x in st.mem["root:nodes"] if x[0] != n[0])

    def isolate(self, st, addr, i):
        """an element becomes known: what it is on the page"""
        outs = AInterp.isolate(self, st, addr, i)
        v = st.read(addr)
        box = v[1] if v[0] in ("box", "boxraw") else addr[0][1]
        for s in outs:
            n = self.ownerof(s, box)
            if n is None:
                continue
            known = {c[1] for c in s.mem["root:init"]}
            for kind, x, hi in s.heap[box][1]:
                if kind == "cell" and ("h", x) not in known:
                    s.mem["root:init"] += ((n[0], ("h", x), s.heap[x]),)
        return outs

    def ownerof(self, st, box):
        for n in st.mem["root:nodes"]:
            if n[0][1] == box or st.mem.get(("ptrs", n[0][1])) == box:
                return n
        for n in st.mem["root:nodes"]:
            if box in self.boxes(st, n):
                return n
        return None

    def boxes(self, st, n):
        """the arrays of a node, found through any value that holds it"""
        out = {n[0][1]}

        def walk(v):
            if isinstance(v, tuple):
                if len(v) == 4 and v[0] == "agg" and v[1] == INT:
                    k, p = self.lay.get(INT, v, "keys"), self.lay.get(INT, v, "pointers")
                    if k == ("box", n[0][1]) and p[0] == "box":
                        out.add(p[1])
                for x in v:
                    walk(x)
        for f in st.frames:
            for v in f.locals.values():
                walk(v)
        for v in list(st.heap.values()):
            if v[0] == "agg":
                walk(v)
        return out

    def dirty(self, st, n):
        return n[2] or any(c[0] == n[0] and st.heap.get(c[1][1]) != c[2] for c in st.mem["root:init"])

    def setlen(self, st, r, v, n):
        """r: reference to the node"""
        a = st.deref(r)
        st.write((a[0], a[1] + (self.lay.f[v[1]]["len"],)), ("int", n))

    def lenof(self, v):
        n = self.lay.get(v[1], v, "len")
        if n[0] != "int":
            raise Unsupported("length of a node is " + n[0])
        return n[1]

    def adjust(self, st, p, by):
        if p[0] != "pgv":
            raise Bug("B02", "a pointer that is no page is put into the tree")
        h = p[1][1]
        v = st.heap[h]
        st.heap[h] = v[:2] + (v[2] + by,) + v[3:]
        if p not in st.mem["root:pages"]:
            st.mem["root:pages"] += (p,)

    # ------------------------------------------------------------ pager
    def good(self, st, t, v):
        return self.finish(st, t, ok(v))

    def get_root_page(self, ip, st, args, t):
        raise Unsupported("the root page is read")

    def get_len(self, ip, st, args, t):
        return self.finish(st, t, ("int", LEN + st.mem["root:len"]))

    def set_len(self, ip, st, args, t):
        for k in (0, 1, -1, 2, -2):
            if args[1][0] == "int" and self.dom.zero(st, args[1][1] - LEN - k):
                st.mem["root:len"] = k
                break
        else:
            raise Bug("B01", "the stored length changes by something else than the entries added or removed")
        return self.good(st, t, UNIT)

    def get_leaf_degree(self, ip, st, args, t):
        return self.finish(st, t, ("int", DL))

    def get_internal_degree(self, ip, st, args, t):
        return self.finish(st, t, ("int", DI))

    def validate_key(self, ip, st, args, t):
        return self.good(st, t, UNIT)

    validate_value = validate_key

    def set_root_page(self, ip, st, args, t):
        if st.mem["root:bottom"] is not True:
            raise Bug("B02", "the root is replaced although the path to it is not used up")
        self.adjust(st, st.mem["root:cur"], -1)
        self.adjust(st, args[1], 1)
        st.mem["root:cur"] = args[1]
        st.note("root page set")
        return self.good(st, t, UNIT)

    def pageof(self, st, v, what):
        if v[0] != "pgv":
            raise Bug("B02", "a number that is no page is %s" % what)
        p = st.heap[v[1][1]]
        if p[1] == "free":
            raise Bug("B02", "a freed page is %s" % what)
        return p

    def settle(self, st, n):
        """what changed in a node counts now"""
        init = []
        for c in st.mem["root:init"]:
            if c[0] == n[0]:
                x = st.heap.get(c[1][1])
                if x is None:
                    continue
                if x != c[2]:
                    for y, by in ((c[2], -1), (x, 1)):
                        if y[0] == "pgv":
                            self.adjust(st, y, by)
                init.append((c[0], c[1], x))
            else:
                init.append(c)
        st.mem["root:init"] = tuple(init)

    def chained(self, st, v, n, page):
        """the page a leaf was split off to follows it"""
        for a, p in st.mem["root:splits"]:
            if a == n[0] and n[3]:
                if self.lay.get(LEAF, v, "next_leaf") != some(p):
                    raise Bug("B02", "a leaf is written that does not lead on to the leaf split off from it")

    def write_node(self, ip, st, args, t):
        v, n = self.ident(st, args[2])
        self.pageof(st, args[1], "written")
        if n[1] != args[1]:
            raise Bug("B01", "a node is written to the page of another")
        if n[4]:
            raise Bug("B02", "a node is written whose contents moved to another")
        self.chained(st, v, n, args[1])
        self.settle(st, n)
        self.setrec(st, n, dirty=False)
        st.note("a page is written")
        return self.good(st, t, UNIT)

    def allocate_node(self, ip, st, args, t):
        v, n = self.ident(st, args[1])
        if n[1] != NONE:
            raise Bug("B02", "a node is stored on a second page")
        h = st.fresh("pg")
        st.heap[h] = ("page", "new", 0, "leaf" if n[3] else "int")
        st.mem["root:pages"] += (pgv(h),)
        self.settle(st, n)
        self.setrec(st, n, dirty=False, page=pgv(h))
        if n[3]:
            st.mem["root:splits"] = tuple((a, pgv(h) if p == ("of", n[0]) else p) for a, p in st.mem["root:splits"])
        st.note("a page is allocated")
        return self.good(st, t, pgv(h))

    def deallocate_node(self, ip, st, args, t):
        p = self.pageof(st, args[1], "freed again" if args[1][0] == "pgv" and st.heap[args[1][1][1]][1] == "free" else "freed")
        if p[1] == "new":
            raise Unsupported("a new page is freed")
        h = args[1][1][1]
        st.heap[h] = ("page", "free") + p[2:]
        if args[1] not in st.mem["root:pages"]:
            st.mem["root:pages"] += (args[1],)
        mine = [n for n in st.mem["root:nodes"] if n[1] == args[1]]
        if not mine:
            raise Bug("B02", "a page is freed that was not read")
        n = mine[0]
        if not n[4]:
            if n[3]:
                raise Bug("B02", "a leaf is freed whose entries were not moved")
            v = self.find(st, n)
            if not self.dom.zero(st, self.lenof(v)):
                raise Bug("B02", "a node is freed that leads to other pages")
            for s in [st]:
                e = self.cell(s, (("h", self.lay.get(INT, v, "pointers")[1]), ()), C(0))
                if e is None:
                    raise Bug("B02", "a node is freed that leads to another page")
                self.adjust(s, s.heap[e], -1)
        self.drop(st, n)
        st.note("a page is freed")
        return self.good(st, t, UNIT)

    def find(self, st, n):
        r = []

        def walk(v):
            if isinstance(v, tuple):
                if len(v) == 4 and v[0] == "agg" and v[1] == INT and self.lay.get(INT, v, "keys") == ("box", n[0][1]):
                    r.append(v)
                    return
                for x in v:
                    walk(x)
        for f in st.frames:
            for v in f.locals.values():
                walk(v)
        for v in list(st.heap.values()):
            walk(v)
        if not r:
            raise Unsupported("a node that is gone")
        return r[0]

    def half(self, st, x):
        return self.divide(st, x, 2)[0][1]

    def get_page(self, ip, st, args, t):
        p = self.pageof(st, args[1], "read")
        if any(n[1] == args[1] for n in st.mem["root:nodes"]):
            raise Unsupported("a page is read twice")
        leaf = p[3] == "leaf"
        n = V(st.fresh("n"))
        if leaf:
            st.add_ge(n - self.half(st, DL + 1))
            st.add_ge(DL - n)
        else:
            st.add_ge(n - 1)
            st.add_ge(n + 1 - self.half(st, DI + 1))
            st.add_ge(DI - 1 - n)
        v, h = self.newnode(st, leaf, n, args[1], kind=None if leaf else "leaf" if p[3] == "int1" else "int")
        return self.good(st, t, v)

    # ------------------------------------------------------------ the path
    def search_node(self, ip, st, args, t):
        out = []
        for bottom in (True, False):
            s = st.copy()
            pg = s.fresh("pg")
            s.heap[pg] = ("page", "live", 0, "leaf")
            n = V(s.fresh("n"))
            s.add_ge(n)
            s.add_ge(DL - n)
            if not bottom:
                s.add_ge(n - self.half(s, DL + 1))
            v, h = self.newnode(s, True, n, pgv(pg))
            s.mem["root:cur"], s.mem["root:bottom"] = pgv(pg), bottom
            s.note("the leaf is %sthe root" % ("" if bottom else "not "))
            out += self.good(s, t, tup(pgv(pg), v, ("stack",)))
        return out

    def bottoms(self, st):
        b = st.mem["root:bottom"]
        if b is not None:
            return [(st, b)]
        s = st.copy()
        st.mem["root:bottom"], s.mem["root:bottom"] = True, False
        n = next((x for x in s.mem["root:nodes"] if x[1] == s.mem["root:cur"]), None)
        out = [(st, True)]
        return out + [(s, False)]

    def is_empty(self, ip, st, args, t, f):
        if st.strip_refs(args[0]) != ("stack",):
            raise Unsupported("is_empty")
        out = []
        for s, b in self.bottoms(st):
            out += self.finish(s, t, ("bool", b))
        return out

    def pop(self, ip, st, args, t, f):
        if st.strip_refs(args[0]) != ("stack",):
            raise Unsupported("pop")
        out = []
        for s, b in self.bottoms(st):
            if b:
                out += self.finish(s, t, NONE)
                continue
            cur = s.mem["root:cur"]
            kind = s.heap[cur[1][1]][3]
            for root in (True, False):
                s2 = s.copy()
                try:
                    pg = s2.fresh("pg")
                    s2.heap[pg] = ("page", "live", 0, "int1" if kind == "leaf" else "int")
                    n, i = V(s2.fresh("n")), V(s2.fresh("n"))
                    s2.add_ge(n - 1)
                    s2.add_ge(DI - 1 - n)
                    s2.add_ge(i)
                    s2.add_ge(n - i)
                    if not root:
                        s2.add_ge(n + 1 - self.half(s2, DI + 1))
                    v, h = self.newnode(s2, False, n, pgv(pg), kind=kind)
                    p = self.lay.get(INT, v[3][0], "pointers")[1]
                    c = s2.fresh("e")
                    s2.heap[c] = cur
                    s2.heap[p] = ("arr", (("sum", ("anyptr", kind), i), ("cell", c, i + 1), ("sum", ("anyptr", kind), DI)))
                    s2.mem["root:init"] += ((("h", h), ("h", c), cur),)
                    s2.mem["root:cur"], s2.mem["root:bottom"] = pgv(pg), root
                    s2.note("the parent is %sthe root" % ("" if root else "not "))
                    out += self.finish(s2, t, some(tup(pgv(pg), v, ("int", i))))
                except Infeasible:
                    pass
        return out

    # ------------------------------------------------------------ leaves
    def leaf_new(self, ip, st, args, t):
        v, h = self.newnode(st, True, C(0), NONE)
        self.setrec(st, self.ident(st, v)[1], dirty=True)
        return self.finish(st, t, v[3][0])

    def opts(self, st, cons):
        s = st.copy()
        try:
            for c in cons:
                s.add_ge(c)
            return [s]
        except Infeasible:
            return []

    def leaf_insert(self, ip, st, args, t):
        v, n = self.ident(st, args[0])
        l = self.lenof(v)
        e = args[1]
        moved = e[0] == "agg" and e[3][0] == ("k", "moved")
        out = []
        for s in self.opts(st, [DL - l - 1]):
            self.setrec(s, n, dirty=True)
            self.setlen(s, args[0], v, l + 1)
            s.note("the entry is added")
            if not moved:
                s.mem["root:want"] = 1
            out += self.finish(s, t, NONE)
        if moved:
            if not st.ge(DL - l - 1):
                raise Bug("B02", "an entry is moved into a leaf that may be full, and what is split off is lost")
            return out
        vs = {x["name"]: i for i, x in enumerate(self.prog.adts[CASES]["variants"])}
        for s in self.opts(st, [l - 1]):
            self.setrec(s, n, dirty=True)
            s.note("the key is there already")
            s.mem["root:want"] = 0
            s.mem["root:answer"] = some(tup(("k", "old"), ("val", "old")))
            out += self.finish(s, t, some(("agg", CASES, vs["Entry"], (("agg", ENTRY, 0, (("k", "old"), ("val", "old"))),))))
        for s in self.opts(st, [l - DL]):
            self.setrec(s, n, dirty=True)
            m = V(s.fresh("n"))
            s.add_ge(m - 1)
            s.add_ge(DL - m)
            self.setlen(s, args[0], v, m)
            w, h = self.newnode(s, True, DL + 1 - m, NONE)
            self.setrec(s, self.ident(s, w)[1], dirty=True)
            s.mem["root:splits"] += ((n[0], ("of", ("h", h))),)
            s.note("the leaf is split")
            s.mem["root:want"] = 1
            out += self.finish(s, t, some(("agg", CASES, vs["Split"], (KEY, w))))
        return out

    def leaf_remove(self, ip, st, args, t):
        v, n = self.ident(st, args[0])
        l = self.lenof(v)
        s0 = st.copy()
        s0.mem["root:want"] = 0
        s0.mem["root:answer"] = NONE
        s0.note("the key is not there")
        out = self.finish(s0, t, NONE)
        for s in self.opts(st, [l - 1, LEN - 1]):
            self.setrec(s, n, dirty=True)
            self.setlen(s, args[0], v, l - 1)
            s.note("the entry is taken out")
            s.mem["root:want"] = -1
            s.mem["root:answer"] = some(tup(("k", "old"), ("val", "old")))
            out += self.finish(s, t, some(("agg", ENTRY, 0, (("k", "old"), ("val", "old")))))
        return out

    def leaf_remove_at(self, ip, st, args, t):
        v, n = self.ident(st, args[0])
        l = self.lenof(v)
        if args[1][0] != "int" or not st.ge(l - args[1][1] - 1):
            raise Bug("B02", "an entry is taken that may not be there")
        self.setrec(st, n, dirty=True)
        self.setlen(st, args[0], v, l - 1)
        return self.finish(st, t, ("agg", ENTRY, 0, (("k", "moved"), ("val", "moved"))))

    def leaf_merge(self, ip, st, args, t):
        return self.merged(st, args[0], args[1], t)

    def merged(self, st, a, b, t, extra=0):
        v, n = self.ident(st, a)
        w, m = self.ident(st, b)
        if n[0] == m[0]:
            raise Bug("B02", "a node is merged with itself")
        for x in st.mem["root:nodes"]:
            if not x[3] and x[1] != NONE:
                try:
                    u = self.find(st, x)
                except Unsupported:
                    continue
                cs = [st.heap[c] for k, c, hi in st.heap[self.lay.get(INT, u, "pointers")[1]][1] if k == "cell"]
                if n[1] in cs and m[1] in cs and cs.index(n[1]) > cs.index(m[1]):
                    raise Bug("B03", "a node takes over the contents of the node on its left as if they came after its own")
        self.setrec(st, n, dirty=True)
        self.setrec(st, m, dirty=True, emptied=True)
        self.setlen(st, a, v, self.lenof(v) + self.lenof(w) + extra)
        self.setlen(st, b, w, C(0))
        # a leaf takes over what follows the other
        if v[1] == LEAF:
            st.mem["root:splits"] = tuple(x for x in st.mem["root:splits"] if x[0] != n[0])
        st.note("two nodes are merged")
        return self.finish(st, t, UNIT)

    # ------------------------------------------------------------ internal nodes
    def int_new(self, ip, st, args, t):
        v, h = self.newnode(st, False, C(0), NONE)
        p = self.lay.get(INT, v[3][0], "pointers")[1]
        st.heap[p] = ("arr", (("sum", integer(0), DI),))
        self.setrec(st, self.ident(st, v)[1], dirty=True)
        return self.finish(st, t, v[3][0])

    def int_insert(self, ip, st, args, t):
        v, n = self.ident(st, args[0])
        l = self.lenof(v)
        self.pageof(st, args[2], "put into a node")
        # a pointer taken from another node moves here; where it goes among the others is not followed
        self.settle(st, n)
        p = self.lay.get(INT, v, "pointers")
        st.mem["root:init"] = tuple(c for c in st.mem["root:init"] if c[0] != n[0])
        k = next((x[1] for x in st.heap[p[1]][1] if x[0] == "sum" and x[1][0] == "anyptr"), ("anyptr", "int"))
        self.adjust(st, args[2], 1)
        out = []
        for s in self.opts(st, [DI - 2 - l]):
            self.setrec(s, n, dirty=True)
            s.heap[p[1]] = ("arr", (("sum", k, DI),))
            self.setlen(s, args[0], v, l + 1)
            s.note("a pointer is added")
            out += self.finish(s, t, NONE)
        for s in self.opts(st, [l - DI + 1]):
            self.setrec(s, n, dirty=True)
            s.heap[p[1]] = ("arr", (("sum", k, DI),))
            m = V(s.fresh("n"))
            s.add_ge(m - 1)
            s.add_ge(DI - 1 - m)
            self.setlen(s, args[0], v, m)
            w, h = self.newnode(s, False, DI - 1 - m, NONE, kind=k[1])
            self.setrec(s, self.ident(s, w)[1], dirty=True)
            s.note("an internal node is split")
            if st.mem["root:op"] == "remove":
                raise Bug("B02", "a pointer is moved into a node that may be full, and what is split off is lost")
            out += self.finish(s, t, some(tup(KEY, w)))
        return out

    def int_remove_at(self, ip, st, args, t):
        v, n = self.ident(st, args[0])
        l = self.lenof(v)
        i = args[1]
        right = args[2]
        if i[0] != "int" or right[0] != "bool":
            raise Unsupported("remove_at of another form")
        i = i[1]
        if not st.ge(l - i - 1):
            raise Bug("B02", "a key is taken that may not be there")
        j = i + 1 if right[1] else i
        p = self.lay.get(INT, v, "pointers")[1]
        a = (("h", p), ())
        states = [st] if self.cell(st, a, j) is not None else self.isolate(st, a, j)
        out = []
        for s in states:
            c = self.cell(s, a, j)
            x = s.heap[c]
            segs, lo, gone = [], C(0), False
            for kind, y, hi in s.heap[p][1]:
                if kind == "cell" and y == c:
                    gone = True
                    continue
                segs.append((kind, y, hi - 1 if gone else hi))
            segs.append(("sum", integer(0), DI))
            s.heap[p] = ("arr", tuple(segs))
            init = [z for z in s.mem["root:init"] if z[1] == ("h", c)]
            if init and init[0][2] != x:
                raise Unsupported("a pointer is written and taken out")
            s.mem["root:init"] = tuple(z for z in s.mem["root:init"] if z[1] != ("h", c))
            if x[0] != "pgv":
                raise Bug("B02", "a pointer that is not there is taken out")
            self.adjust(s, x, -1)
            self.setrec(s, n, dirty=True)
            self.setlen(s, args[0], v, l - 1)
            s.note("a pointer is taken out")
            out += self.finish(s, t, tup(KEY, x))
        return out

    def int_merge(self, ip, st, args, t):
        return self.merged(st, args[0], args[2], t, 1)

    # ------------------------------------------------------------ values
    def binop(self, st, r, l, rr):
        if "pgv" in (l[0], rr[0]) and r["op"] in ("Eq", "Ne"):
            if l == rr:
                return [(st, ("bool", r["op"] == "Eq"))]
            if l[0] == rr[0]:
                return [(st, ("bool", r["op"] == "Ne"))]
            s = st.copy()
            s.note("the page has this number")
            return [(st, ("bool", r["op"] == "Ne")), (s, ("bool", r["op"] == "Eq"))]
        return AInterp.binop(self, st, r, l, rr)

    def maxmin(self, ip, st, args, t, f):
        mx = f["path"].endswith("max")
        out = []
        for s, ge in self.decide_rel(st, "Ge", args[0], args[1]):
            out += self.finish(s, t, args[0] if ge == mx else args[1])
        return out

    def clone(self, ip, st, args, t, f):
        v = st.strip_refs(args[0])
        if v[0] == "optkey":
            v = some(KEY)
        return self.finish(st, t, v)

    def decide_eq_none(self, st, v):
        return None

    def thaw(self, v):
        return some(KEY) if v == ("optkey",) else some(("agg", ENTRY, 0, (("k", "here"), ("val", "here")))) if v == ("ent",) else v


# an unused slot is not told from a used one: every element read is a used one
_inst = PDom.instantiate


def instantiate(self, st, v):
    if v[0] in ("optkey", "ent"):
        return self.ip.thaw(v)
    return _inst(self, st, v)


PDom.instantiate = instantiate


class Op:
    def __init__(self, lay, name):
        self.lay, self.name = lay, name
        self.path = MAP + name
        self.probs, self.paths, self.unsupported = [], 0, []

    def run(self):
        fn = self.lay.prog.fns.get(self.path)
        if fn is None:
            raise Unsupported("%s is gone" % self.path)
        d = PDom()
        ip = self.ip = PInterp(self.lay, d)
        st = State()
        st.add_ge(DL - 1)
        st.add_ge(DI - 2)
        st.add_ge(LEN)
        st.mem.update({"root:nodes": (), "root:init": (), "root:pages": (), "root:splits": (), "root:len": 0, "root:cur": None, "root:bottom": None, "root:want": None, "root:answer": NONE, "root:op": self.name})
        st.heap["self"] = ("agg", "crate::bp_tree::map::BpMap", 0, (("opaque", "pager"),))
        st.heap["karg"] = ("k", "arg")
        args = {"insert": [ref("self"), ("k", "arg"), ("val", "new")], "remove": [ref("self"), ref("karg")]}[self.name]
        outs = ip.run(start(ip, fn, args, st))
        self.unsupported = sorted(set(ip.unsupported))
        for o in outs:
            self.paths += 1
            where = getattr(o, "where", "")
            if o.kind == "bug":
                self.probs.append((getattr(o, "cat", "B02"), o.msg, o.state.trace[-14:], where))
            elif o.kind == "panic":
                self.unsupported = sorted(set(self.unsupported) | {"a path that panics: %s" % o.msg})
            else:
                try:
                    for c, m in self.check(ip, o):
                        self.probs.append((c, m, o.state.trace[-14:], ""))
                except Unsupported as e:
                    self.unsupported.append(str(e))
        return self

    def check(self, ip, o):
        st, v = o.state, o.value
        if v[0] != "agg" or v[1] != RESULT:
            raise Unsupported("result is " + v[0])
        if v[2] == 1:
            return
        for n in st.mem["root:nodes"]:
            if n[1] == NONE:
                if ip.dirty(st, n):
                    yield "B01", "a node made by a split, or a new root, is never stored"
                continue
            if ip.dirty(st, n) and st.heap[n[1][1][1]][1] != "free":
                yield ("B02", "a node whose contents moved to another keeps its page") if n[4] else ("B01", "a changed node is not written back")
        for p in st.mem["root:pages"]:
            q = st.heap[p[1][1]]
            if not balanced(q):
                if q[1] == "free":
                    yield "B02", "a freed page is still pointed to" if q[2] > -1 else "a page is taken out of the tree twice"
                elif q[1] == "new":
                    yield "B02", "a page is allocated that nothing points to" if q[2] < 1 else "a new page is pointed to twice"
                else:
                    yield "B02", "a page is no longer pointed to but not freed" if q[2] < 0 else "a page is pointed to twice"
        n = st.mem["root:len"]
        w = st.mem["root:want"]
        if w is None:
            raise Unsupported("no leaf was changed or searched")
        if n != w:
            yield "B01", "the stored length does not change by exactly the entries added or removed"
        if v[3][0] != st.mem["root:answer"]:
            yield "B03", "the answer is not the entry that was replaced or removed"


if __name__ == "__main__":
    import sys, time
    from .. import mir
    lay = Lay(mir.load(sys.argv[1]))
    for name in sys.argv[2].split(","):
        t = time.time()
        r = Op(lay, name).run()
        print(name, "paths", r.paths, "steps", r.ip.steps, "%.1fs" % (time.time() - t))
        for u in r.unsupported[:8]:
            print("   UNSUPPORTED", u[:300])
        seen = set()
        for p in r.probs:
            if (p[0], p[1]) not in seen:
                seen.add((p[0], p[1]))
                print("   ", p[0], p[1], p[3], "|", "; ".join(p[2]))
