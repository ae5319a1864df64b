"""Skip lists: every operation is run on abstract nodes, with the linked list of one arbitrary level w followed exactly.

Nodes are discovered as links are read. In a search for a key K (or index) a node lies before it ("lt"), is the one looked for
("eq", a single node) or lies after it ("gt"); a node reached through a link of level h has more than h levels. Links of levels
other than w are read as any well-formed list would hold them and writes to them are forgotten; what the operation does to
level w has to be exactly the insertion or removal it stands for, and w is arbitrary."""
from ..interp import State, Unsupported, Bug, Infeasible, OPTION, NONE, UNIT, MOVED, TRUE, FALSE, some, tup, integer
from ..lin import V, C, Lin
from ..simple import start, SYM
from .. import arrays
from ..arrays import ADom, AInterp

HR = V("hrem")            # distance to the index from the last node before it one level above w
W, LEN, EL, IDX = V("hw"), V("nlen"), V("hel"), V("hidx")
NULL = ("null",)
MAXL = 33
BASE, UNITSZ = 1 << 20, 1
ENTRY = "crate::entry::Entry"


def ref(h, *p):
    return ("ref", (("h", h), tuple(p)))


class Lay:
    def __init__(self, prog, which):
        self.prog, self.which = prog, which
        self.mod = "crate::skiplist::%s::" % which
        self.node = self.mod + "Node"
        self.own = self.mod + {"map": "SkipMap", "list": "SkipList"}[which]
        self.f = {}
        for a in (self.node, self.own):
            adt = prog.adts.get(a)
            if not adt:
                raise Unsupported(a + " is gone")
            self.f[a] = {x["name"]: i for i, x in enumerate(adt["variants"][0]["fields"])}
        self.content = "entry" if which == "map" else "value"
        for n in ("links_len", "links", self.content):
            if n not in self.f[self.node]:
                raise Unsupported("a node has no field " + n)
        for n in ("head", "len"):
            if n not in self.f[self.own]:
                raise Unsupported("the skip list has no field " + n)
        self.NL, self.NE, self.NK = (self.f[self.node][n] for n in ("links_len", self.content, "links"))
        self.link = self.mod + "Link"
        if which == "list":
            adt = prog.adts.get(self.link)
            if not adt:
                raise Unsupported(self.link + " is gone")
            self.lf = {x["name"]: i for i, x in enumerate(adt["variants"][0]["fields"])}

    def mk(self, adt, **kw):
        vs = [("opaque", "?")] * len(self.f[adt])
        for n, v in kw.items():
            vs[self.f[adt][n]] = v
        return ("agg", adt, 0, tuple(vs))

    def drops(self):
        out = {}
        for p in self.prog.fns:
            if p.startswith("crate::<" + self.mod[7:]) and p.endswith(" as std::ops::Drop>::drop"):
                out["crate::" + p[8:p.index("<", 8)]] = p
        return out


# a node's links: ("links", cls, base, cells, size, pos); cells = ((("int", level), ("h", cell), initial value), ...)
class SDom(ADom):
    tolerant = True
    twoway = True
    fixed = ()

    def __init__(self, lay, op, walk):
        self.lay, self.op, self.walk = lay, op, walk
        self.mut = op in ("insert", "remove")

    def parameters(self, st):
        r = set()
        for l in list(st.lin) + list(st.eqs.values()):
            r |= {x for x in l.syms() if not SYM.match(x)}
        return sorted(r | {"hw", "hmax"})

    def keepname(self, l):
        return l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1

    def zero(self, st, l):
        l = st.red(l)
        c = l.const()
        if c is not None:
            return c == 0
        return st.ge(l) and st.ge(-l)

    def node(self, st, h):
        v = st.heap.get(h)
        if v is not None and v[0] == "agg" and v[1] == self.lay.node:
            return v
        return None

    def links(self, st, h):
        return self.node(st, h)[3][self.lay.NK]

    def setlinks(self, st, h, k):
        v = st.heap[h]
        fs = list(v[3])
        fs[self.lay.NK] = k
        st.heap[h] = v[:3] + (tuple(fs),)

    def levels(self, st, h):
        v = self.node(st, h)[3][self.lay.NL]
        if v[0] != "int":
            raise Bug("S02", "a node is used before its height is set")
        return v[1]

    def new(self, st, cls, lvl, pos=None, name=None):
        h = name or st.fresh("q")
        n = EL if cls == "eq" else V(st.fresh("n"))
        st.add_ge(n - lvl - 1)
        st.add_ge(C(MAXL) - n)
        st.add_ge(n - 1)
        c = ("val", "old") if self.lay.which == "list" else ("agg", ENTRY, 0, (("k", cls), ("val", "old")))
        fs = [None] * 3
        fs[self.lay.NL], fs[self.lay.NE], fs[self.lay.NK] = ("int", n), c, ("links", cls, "list", (), None, pos)
        st.heap[h] = ("agg", self.lay.node, 0, tuple(fs))
        return h

    # ------------------------------------------------------------ what a link of a well-formed list may hold
    def mklink(self, st, nxt, dist):
        if self.lay.which == "map":
            return nxt
        fs = [None, None]
        fs[self.lay.lf["next"]], fs[self.lay.lf["distance"]] = nxt, ("int", dist)
        return ("agg", self.lay.link, 0, tuple(fs))

    def nextof(self, v):
        if self.lay.which == "map":
            return v
        if v[0] != "agg":
            raise Unsupported("link is " + v[0])
        return v[3][self.lay.lf["next"]]

    def distof(self, st, v):
        x = v[3][self.lay.lf["distance"]]
        x = self.plain(st, x)
        if x[0] != "int":
            raise Unsupported("distance is " + x[0])
        return x[1]

    def rem(self, st, r):
        """how far the index is beyond a node"""
        if r is None:
            return IDX - LEN
        if r[0] == "hr":
            return HR
        if r[0] == "at":
            return C(-1)
        v = st.heap.get(r[1][0][1])
        k = v[3] if v[0] == "dead" else self.links(st, r[1][0][1])
        if k[1] == "eq":
            return C(-1)
        if k[5] is None:
            raise Unsupported("distance of a new node")
        return k[5][1]

    def plain(self, st, v):
        if v[0] == "dist":
            return ("int", self.rem(st, v[1]) - self.rem(st, v[2]) + v[3])
        return v

    def generalise(self, st):
        """distances are kept as differences of positions"""
        if self.lay.which == "list":
            nodes = []
            for h in sorted(st.heap):
                v = st.heap[h]
                k = v[3] if v[0] == "dead" else self.links(st, h) if self.node(st, h) is not None else None
                if k is not None and k[0] == "links" and (k[5] is not None or k[1] == "eq"):
                    nodes.append((ref(h), st.red(self.rem(st, ref(h)))))
            nodes.append((None, st.red(IDX - LEN)))
            if self.op == "insert":
                nodes.append((("at",), C(-1)))
            diffs = {}
            for a, x in nodes:
                for b, y in nodes:
                    if a != b:
                        d = st.red(x - y)
                        diffs.setdefault(d.t, []).append((a, b, d.c))

            def walk(v):
                if not isinstance(v, tuple) or not v or v[0] == "ref":
                    return v
                if v[0] == "agg" and v[1] == self.lay.link:
                    fs = list(v[3])
                    i = self.lay.lf["distance"]
                    if fs[i][0] == "int":
                        d = st.red(fs[i][1])
                        if d.t:
                            for a, b, c in sorted(diffs.get(d.t, ()), key=lambda x: abs(d.c - x[2])):
                                fs[i] = ("dist", a, b, d.c - c)
                                break
                    return v[:3] + (tuple(fs),)
                return tuple(walk(x) if isinstance(x, tuple) else x for x in v)
            sums = [v[1][1] for f in st.frames for v in f.locals.values() if v[0] == "lvlarr" and v[2] == "pair"]
            for h in sorted(st.heap):
                st.heap[h] = walk(st.heap[h])
            for h in sums:
                v = st.heap[h]
                if v[0] == "agg" and v[3][1][0] == "int" and "root:entry" in st.mem:
                    d = st.red(v[3][1][1])
                    e = st.mem["root:entry"]
                    if self.zero(st, d):
                        d = C(0)
                    for a, b, c in sorted(diffs.get(d.t, []) + ([(e, e, 0)] if not d.t else []), key=lambda x: abs(d.c - x[2])):
                        if a == e and d.c == c:
                            st.heap[h] = v[:3] + ((v[3][0], ("dist", a, b, 0)),)
                            break
                    else:
                        for b, y in nodes:
                            if self.zero(st, d - st.red(self.rem(st, e)) + y):
                                st.heap[h] = v[:3] + ((v[3][0], ("dist", e, b, 0)),)
                                break
        ADom.generalise(self, st)
        if self.lay.which == "list" and not self.walk:
            for h in sorted(st.heap):
                if self.node(st, h) is not None:
                    k = self.links(st, h)
                    if k[1] in ("lt", "gt") and k[5] is not None:
                        q = k[5][1]
                        st.add_ge(q if k[1] == "lt" else -q - (1 if self.op == "insert" else 2))

    def successors(self, st, h, lvl):
        """(state, value of the link) for a link of that level that the operation has not written"""
        k = self.links(st, h)
        cls, base, pos = k[1], k[2], k[5]
        if base == "null" and st.mem.get("root:p2") and not self.zero(st, lvl - W):
            s = st.copy()
            n = V(s.fresh("n"))
            s.add_ge(n - s.mem["root:p2"][1][1])
            yield s, self.mklink(s, NULL, n)
            return
        if base == "null":
            yield st, self.mklink(st, NULL, C(0))
            return
        if base == "uninit":
            raise Bug("S02", "a link is read before it is set")
        if base == "other":
            yield st, self.mklink(st, NULL, C(0))
            return
        if self.lay.which == "list" and not self.walk:
            for x in self.listnext(st, h, lvl, cls, pos):
                yield x
            return
        if self.walk == "kk":
            yield from self.kknext(st, h, lvl, cls)
            return
        opts = {"head": ("lt", "eq", "gt", None), "lt": ("lt", "eq", "gt", None), "eq": ("gt", None), "gt": ("gt", None), "any": ("any", None)}[cls]
        if cls == "head" and self.walk:
            opts = ("any", None)
        for o in opts:
            for s in self.eqcases(st, lvl, o, cls):
                try:
                    if self.walk and h in ("first", "head") and self.zero(s, lvl):
                        s.mem["root:next:" + h] = NULL
                    if o is None:
                        v = NULL
                    elif o == "eq":
                        v = ref("eq")
                    else:
                        v = ref(self.new(s, o, lvl))
                        if self.walk:
                            self.tag(s, h, v[1][0][1])
                            if h in ("first", "head") and self.zero(s, lvl):
                                s.mem["root:next:" + h] = v
                    yield s, self.mklink(s, v, C(0))
                except Infeasible:
                    pass

    def tag(self, st, h, nh):
        """nodes of a list that is walked belong to that list"""
        st.mem["root:owed"] = st.mem.get("root:owed", ()) + (ref(nh),)

    def eqcases(self, st, lvl, o, cls):
        """states in which the next node from before the key is of class o, as far as the node looked for goes"""
        s = st.copy()
        if cls in ("lt", "head") and o != "lt" and not self.walk and self.op in SEARCHES:
            e = s.mem["E"]
            try:
                if o == "eq":
                    if not e:
                        return
                    s.add_ge(EL - lvl - 1)
                elif e:
                    s.add_ge(lvl - EL)
                if e and self.mut:
                    s.add_ge(EL - W - 1 if s.mem["EW"] else W - EL)
            except Infeasible:
                return
        elif o == "eq":
            return
        yield s

    def listnext(self, st, h, lvl, cls, p):
        """places are kept as the distance to the index: the head is IDX before it, the element looked for one beyond; a link's
        distance is the difference, up to the end if there is no next node"""
        ins = self.op == "insert"
        p, end = self.rem(st, ref(h)), IDX - LEN
        opts = {"head": ("lt", "eq", "gt", None), "lt": ("lt", "eq", "gt", None), "eq": ("gt", None), "gt": ("gt", None)}[cls]
        if ins:
            opts = tuple(o for o in opts if o != "eq")
        for o in opts:
            for s in [st.copy()] if ins else self.eqcases(st, lvl, o, cls):
                for z in (True, False):
                    s2 = s.copy()
                    try:
                        s2.add_ge(-lvl if z else lvl - 1)
                        gone = not ins and s2.mem.get("E") is False
                        if o == "eq":
                            v, q = ref("eq"), C(-1)
                            s2.add_ge(q - end)
                        elif o is None:
                            v, q = NULL, end
                            s2.add_ge(p - end)
                        else:
                            q = V(s2.fresh("z"))
                            s2.add_ge(p - q - 1)
                            s2.add_ge(q - end)
                            if o == "lt":
                                s2.add_ge(q)
                            else:
                                s2.add_ge(-q - (1 if ins else 2))
                                if gone:
                                    raise Infeasible()
                            v = ref(self.new(s2, o, lvl, ("int", q)))
                        if z:
                            s2.add_eq(p - q - (0 if o is None else 1))
                        yield s2, self.mklink(s2, v, p - q)
                    except Infeasible:
                        pass

    def kknext(self, st, h, lvl, cls):
        """the node after one in level 0 of a list that holds the key or not"""
        if not self.zero(st, lvl):
            raise Unsupported("links above the lowest level are followed")
        side = self.links(st, h)[5][1]
        e = st.mem["E" + side]
        for o in (("lt", "eq") if e else ("lt", "gt", None)) if cls in ("lt", "head") else ("gt", None):
            for inw in (True, False) if o in ("lt", "gt") and not self.zero(st, W) else (True,):
                s = st.copy()
                if o is None:
                    v = NULL
                elif o == "eq":
                    v = ref("eq" + side)
                else:
                    v = ref(self.knode(s, o, side, inw))
                if o:
                    s.mem["root:owed"] = s.mem.get("root:owed", ()) + (v,)
                yield s, v

    def knode(self, st, cls, side, inw, name=None):
        h = self.new(st, cls, C(0), ("in" if inw else "out", side), name)
        v = st.heap[h]
        fs = list(v[3])
        n = V(st.fresh("n"))
        st.add_ge(n - 1)
        st.add_ge(C(MAXL) - n)
        st.add_ge(n - W - 1 if inw else W - n)
        fs[self.lay.NL], fs[self.lay.NE] = ("int", n), ("agg", ENTRY, 0, (("k", cls), ("val", "old" + side)))
        st.heap[h] = v[:3] + (tuple(fs),)
        return h

    def wlink(self, st, h):
        """what the link of level w of a node holds"""
        k = self.links(st, h)
        for l, c, i in k[3]:
            if self.isw(st, l):
                return st.heap[c[1]]
        return NULL if k[2] == "null" else None

    def chain(self, st):
        """the nodes given to the result so far: in level w, one after another in the order of their keys"""
        tail = st.mem.get("root:tail")
        arr = [v for f in st.frames for v in f.locals.values() if v[0] == "lvlarr"]
        if len(arr) != 1:
            return
        T = st.heap[arr[0][1][1]]
        if tail is None:
            if T not in st.mem.get("root:alloc", ()):
                raise Unsupported("levels that do not begin at the new head")
            st.mem["root:tail"] = tail = T
            st.mem["root:head"] = T
            st.mem["root:kept"] = integer(0)
        if T != tail:
            th, ph = T[1][0][1], tail[1][0][1]
            if self.wlink(st, ph) != T:
                raise Bug("S03", "the nodes kept are not linked one after another")
            o = {"new": -1, "lt": 0, "eq": 1, "gt": 2}
            a, b = (o[self.links(st, x)[1]] for x in (ph, th))
            if b < a or a == b == 1:
                raise Bug("S03", "the nodes kept are not linked in the order of their keys")
            for l, c, i in self.links(st, ph)[3]:
                if self.isw(st, l):
                    st.heap[c[1]] = ("chain",)
            if tail != st.mem["root:head"]:
                st.mem["root:owed"] = tuple(x for x in st.mem["root:owed"] if x != tail)
            st.mem["root:kept"] = ("int", st.mem["root:kept"][1] + 1)
            if b == 1:
                st.mem["K"] = th
            st.mem["root:tail"] = T
        if self.wlink(st, T[1][0][1]) != NULL:
            raise Bug("S02", "the last node of a level leads on")
        # nodes nobody refers to any more
        work = []
        for f, ls in self.live(st):
            for l in ls:
                if l in f.locals and f.locals[l][0] != "lvlarr":
                    self.heap_refs(f.locals[l], work)
        seen = set()
        while work:
            r = work.pop()
            if r[0] != "h" or r[1] in seen or r[1] not in st.heap:
                continue
            seen.add(r[1])
            if self.node(st, r[1]) is None:
                self.heap_refs(st.heap[r[1]], work)
            else:
                for l, c, i in self.links(st, r[1])[3]:
                    if self.zero(st, l[1]):
                        self.heap_refs(st.heap[c[1]], work)
        owed = []
        for x in st.mem.get("root:owed", ()):
            h = x[1][0][1]
            if h in seen or x == T or self.node(st, h) is None:
                owed.append(x)
            elif self.links(st, h)[5][0] == "in":
                raise Bug("S01", "a node is lost without being released")
        st.mem["root:owed"] = tuple(sorted(owed, key=lambda x: (self.links(st, x[1][0][1])[1], self.links(st, x[1][0][1])[5] or (), x) if self.node(st, x[1][0][1]) is not None else ("", (), x)))

    # ------------------------------------------------------------ the slot of a link
    def slot(self, st, h, lvl):
        """list of (state, heap cell holding the link); forks until the level is known relative to w and to known cells"""
        v = st.heap.get(h)
        if v is None:
            raise Unsupported("node is gone")
        if v[0] == "dead":
            raise Bug(v[1], v[2])
        if self.node(st, h) is None:
            raise Unsupported("not a node")
        n = self.levels(st, h)
        if not st.ge(n - lvl - 1) or not st.ge(lvl):
            raise Bug("S02", "a link above a node's height is used")
        k = self.links(st, h)
        for l, c, i in k[3]:
            if self.zero(st, lvl - l[1]):
                return [(st, c[1])]
        for l, c, i in k[3]:
            if not st.ge(lvl - l[1] - 1) and not st.ge(l[1] - lvl - 1):
                return self.split(st, lvl - l[1], lambda s: self.slot(s, h, lvl))
        if not self.zero(st, lvl - W) and not st.ge(lvl - W - 1) and not st.ge(W - lvl - 1):
            return self.split(st, lvl - W, lambda s: self.slot(s, h, lvl))
        out = []
        for s, v in list(self.successors(st, h, lvl)):
            s = s.copy()
            c = s.fresh("c")
            s.heap[c] = v
            k = self.links(s, h)
            if self.op == "insert" and self.lay.which == "list" and k[2] == "list" and k[1] in ("lt", "head"):
                if self.zero(s, lvl - W):
                    s.mem.setdefault("root:entry", ref(h))
                elif "root:entry" in s.mem and s.ge(W - lvl - 1):
                    self.walked(s)
                    if s.mem["root:p1"] != ref(h):
                        raise Bug("S04", "the node remembered for a level is not where the walk goes on")
            self.setlinks(s, h, k[:3] + (k[3] + ((("int", W if self.zero(s, lvl - W) else lvl), ("h", c), v),),) + k[4:])
            out.append((s, c))
        return out

    def split(self, st, d, f):
        out = []
        for sg in (0, 1, -1):
            s = st.copy()
            try:
                if sg == 0:
                    s.add_eq(d)
                else:
                    s.add_ge(d.scale(sg) - 1)
            except Infeasible:
                continue
            out += f(s)
        return out

    # ------------------------------------------------------------ loop heads
    def refs_of(self, st):
        """heap objects that live values reach directly"""
        out, work = [], []
        for f, ls in self.live(st):
            for l in ls:
                if l in f.locals:
                    self.heap_refs(f.locals[l], work)
        return [w[1] for w in work if w[0] == "h"]

    def changed(self, st, a, b):
        if a == b:
            return False
        return self.lay.which == "map" or self.nextof(a) != self.nextof(b) or not self.zero(st, self.distof(st, a) - self.distof(st, b))

    def isw(self, st, l):
        return self.zero(st, l[1] - W)

    def at_head(self, st):
        direct = set()
        work = []
        for f, ls in self.live(st):
            for l in ls:
                if l in f.locals:
                    self.heap_refs(f.locals[l], work)
        direct = {w[1] for w in work if w[0] == "h"}
        self.release(st)
        if self.walk == "kk":
            self.chain(st)
        keep = []
        for h in list(st.heap):
            v = self.node(st, h)
            if v is None:
                continue
            k = self.links(st, h)
            cells, sig = [], k[1] in ("new", "eq")
            for l, c, i in k[3]:
                w = self.isw(st, l)
                if self.walk == "kk":
                    if w or self.zero(st, l[1]) or c[1] in direct:
                        cells.append((l, c, NULL))
                elif w and (self.changed(st, st.heap[c[1]], i) or self.marks(k, i)):
                    sig = True
                    cells.append((l, c, i))
                elif c[1] in direct or w and (self.walk or sig or k[1] in ("new", "eq")):
                    cells.append((l, c, i))
            if tuple(cells) != k[3]:
                self.setlinks(st, h, k[:3] + (tuple(cells),) + k[4:])
            if sig:
                keep.append(ref(h))
        if not self.walk:
            st.mem["root:keep"] = tuple(sorted(keep))

    def marks(self, k, i):
        """the last node of level w before the place looked for"""
        if k[2] != "list" or k[1] not in ("lt", "head"):
            return False
        n = self.nextof(i)
        return n == NULL or n[1][0][1] == "eq" or self.clsof.get(n[1][0][1]) != "lt"

    clsof = {}
    maxfolds = 40

    def fold(self, st):
        self.clsof = {h: self.links(st, h)[1] for h in st.heap if self.node(st, h) is not None}
        return ADom.fold(self, st)

    # ------------------------------------------------------------ arrays with an element per level
    def release(self, st, only=None):
        """check and forget elements of per-level arrays other than that of level w"""
        out = []
        for a, l, c, i in st.mem.get("root:tmps", ()):
            v = st.heap[c[1]]
            p = v[3][0] if v[0] == "agg" else v
            if p[0] != "ref" or self.node(st, p[1][0][1]) is None:
                raise Bug("S02", "the node remembered for a level is not a node")
            if not st.ge(self.levels(st, p[1][0][1]) - l[1] - 1):
                raise Bug("S02", "the node remembered for a level does not have that level")
            p2 = st.mem.get("root:p2")
            if p2 and v[0] == "agg" and self.zero(st, l[1] - p2[0][1]):
                y = self.plain(st, v[3][1])
                if y[0] != "int" or not self.zero(st, y[1] - p2[2][1]):
                    raise Bug("S04", "the distances walked are not summed up level by level")
        if st.mem.get("root:p2") and not only:
            p2 = st.mem["root:p2"]
            if self.zero(st, p2[0][1] - W):
                v = st.heap[self.sumcell(st)]
                y = self.plain(st, v[3][1])
                if y[0] != "int" or not self.zero(st, y[1] - HR):
                    raise Bug("S04", "the distances walked are not summed up level by level")
                st.heap[self.sumcell(st)] = v[:3] + ((v[3][0], ("int", HR)),)
            st.mem["root:p2"] = None
        st.mem["root:tmps"] = ()


    def sumcell(self, st):
        for f in st.frames:
            for v in f.locals.values():
                if v[0] == "lvlarr" and v[2] == "pair":
                    return v[1][1]
        raise Unsupported("no distances per level")

    def walked(self, st):
        """the walk of level w is over: what it noted there"""
        if "root:entry" not in st.mem:
            return
        c = self.sumcell(st)
        v = st.heap[c]
        last = [h for h in st.heap if self.node(st, h) is not None and self.links(st, h)[2] == "list" and self.links(st, h)[1] in ("lt", "head")
                and any(self.isw(st, l) and self.marks(self.links(st, h), i) for l, _, i in self.links(st, h)[3])]
        if not last:
            raise Bug("S04", "the walk of a level ends before the index")
        if len(last) != 1:
            raise Unsupported("the walk is not over")
        p = ref(last[0])
        if v[3][0] != p:
            raise Bug("S04", "the node remembered for a level is not the last before the index")
        y = self.plain(st, v[3][1])
        if y[0] != "int" or not self.zero(st, y[1] - self.rem(st, st.mem["root:entry"]) + self.rem(st, p)):
            raise Bug("S04", "the distance walked in a level is not what is remembered")
        st.heap[c] = v[:3] + ((p, ("dist", ("hr",), p, 0)),)
        st.mem["root:p1"] = p
        del st.mem["root:entry"]

    def second(self, st):
        self.walked(st)
        v = st.heap[self.sumcell(st)]
        p = st.mem.pop("root:p1", None)
        if p is None:
            raise Unsupported("the walk is not over")
        if v[3] != (p, ("dist", ("hr",), p, 0)):
            raise Unsupported("what is remembered for a level changes after the walk")
        st.mem["p2"] = True


class SInterp(AInterp):
    MAXSTEPS = 400000

    def __init__(self, lay, dom):
        AInterp.__init__(self, lay.prog, dom)
        self.lay = lay
        dom.ip = self
        dom.interp = self
        self.dropfns = lay.drops()
        o = self.override = dict(arrays.OVER)
        for n in ("core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr"):
            o[n] = self.as_ptr
        for n in ("std::ptr::const_ptr::<impl *const T>::add", "std::ptr::mut_ptr::<impl *mut T>::add", "std::ptr::const_ptr::<impl *const T>::offset", "std::ptr::mut_ptr::<impl *mut T>::offset"):
            o[n] = self.padd
        for n in ("std::ptr::mut_ptr::<impl *mut T>::is_null", "std::ptr::const_ptr::<impl *const T>::is_null"):
            o[n] = self.is_null
        o["std::ptr::write_bytes"] = self.write_bytes
        o["std::ptr::write"] = self.pwrite
        o["std::ptr::read"] = self.pread
        o["std::ptr::drop_in_place"] = self.drop_in_place
        o["std::ptr::null_mut"] = o["std::ptr::null"] = lambda ip, st, a, t, f: self.finish(st, t, NULL)
        o["std::mem::size_of"] = self.size_of
        o["std::mem::align_of"] = lambda ip, st, a, t, f: self.finish(st, t, integer(8))
        o["std::alloc::Layout::from_size_align"] = self.layout
        o["std::alloc::Layout::from_size_align_unchecked"] = self.layout
        o["std::alloc::alloc"] = self.alloc
        o["std::alloc::dealloc"] = self.dealloc
        o["std::alloc::handle_alloc_error"] = lambda ip, st, a, t, f: []
        o["core::num::<impl u32>::leading_zeros"] = self.lz
        o["core::num::<impl u32>::trailing_zeros"] = self.lz
        o["<rand::XorShiftRng as rand::Rng>::next_u32"] = lambda ip, st, a, t, f: self.finish(st, t, ("top", "random"))
        o["rand::XorShiftRng::new_unseeded"] = lambda ip, st, a, t, f: self.finish(st, t, ("opaque", "rng"))
        o["std::clone::Clone::clone"] = o["std::clone::impls::<impl std::clone::Clone for *mut T>::clone"] = lambda ip, st, a, t, f: self.finish(st, t, st.read(st.deref(a[0])))
        o["core::slice::<impl [T]>::iter_mut"] = self.iter_mut
        if dom.op == "insert" and lay.which == "list":
            o["std::ops::RangeInclusive::<Idx>::new"] = self.lrange
            for n in ("std::iter::Iterator::next", "std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next", "std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next"):
                o[n] = self.rnext
        o["std::iter::Iterator::enumerate"] = self.adapt
        o["std::iter::Iterator::take"] = self.adapt
        o["<std::iter::Take<I> as std::iter::Iterator>::next"] = self.lnext
        o["<std::iter::Enumerate<I> as std::iter::Iterator>::next"] = self.lnext
        pn = o["std::iter::Iterator::next"]
        o["std::iter::Iterator::next"] = lambda ip, st, a, t, f: self.lnext(ip, st, a, t, f) if self.lvat(st, st.deref(a[0]))[1][0] == "lviter" else pn(ip, st, a, t, f)
        prev = o.get("<I as std::iter::IntoIterator>::into_iter")
        o["<I as std::iter::IntoIterator>::into_iter"] = lambda ip, st, a, t, f: self.finish(st, t, a[0]) if a[0][0] == "lviter" or prev is None else prev(ip, st, a, t, f)

    # ------------------------------------------------------------ comparison
    def cmp_values(self, st, a, b):
        a, b = self.target(st, a), self.target(st, b)
        if a[0] == "agg" and a[1] == ENTRY:
            a = a[3][0]
        if b[0] == "agg" and b[1] == ENTRY:
            b = b[3][0]
        if a[0] == "k" and b[0] == "k":
            o = {"lt": 0, "eq": 1, "K": 1, "gt": 2}
            if a[1] == "any" or b[1] == "any":
                sg = (-1, 0, 1)
            else:
                x, y = o[a[1]], o[b[1]]
                sg = (0,) if x == y == 1 else (-1, 0, 1) if x == y else (-1 if x < y else 1,)
            return [(st.copy(), s) for s in sg]
        if a[0] in ("ref", "null") and b[0] in ("ref", "null"):
            return [(st, 0 if a == b else 1)]
        if "moved" in (a[0], b[0]):
            raise Bug("S01", "an element is looked at after it was moved out of its node")
        return AInterp.cmp_values(self, st, a, b)

    def target(self, st, v):
        """through references, down to a key or to a pointer to a node"""
        while v[0] == "ref":
            x = st.heap.get(v[1][0][1]) if v[1][0][0] == "h" and not v[1][1] else None
            if x is not None and (x[0] == "dead" or x[0] == "agg" and x[1] == self.lay.node):
                return v
            v = self.dom.plain(st, st.read(v[1]))
        return v

    def operand(self, st, o):
        v = AInterp.operand(self, st, o)
        return self.dom.plain(st, v) if v[0] == "dist" else v

    def decide_rel(self, st, op, a, b):
        if self.target(st, a)[0] != "int":
            return [(s, self.rel(op, sg)) for s, sg in self.cmp_values(st, a, b)]
        return AInterp.decide_rel(self, st, op, self.target(st, a), self.target(st, b))

    def binop(self, st, r, l, rr):
        if l[0] in ("ref", "null") and rr[0] in ("ref", "null") and r["op"] in ("Eq", "Ne"):
            return [(st, ("bool", (l == rr) == (r["op"] == "Eq")))]
        return AInterp.binop(self, st, r, l, rr)

    # ------------------------------------------------------------ raw memory
    def as_ptr(self, ip, st, args, t, f):
        v = args[0]
        if v[0] == "ref":
            x = st.read(v[1])
            if x[0] == "links" and v[1][0][0] == "h":
                return self.finish(st, t, ("lp", v[1][0][1]))
            if x[0] == "dead":
                raise Bug(x[1], x[2])
        raise Unsupported("pointer to " + v[0])

    def padd(self, ip, st, args, t, f):
        if args[0][0] != "lp" or args[1][0] != "int":
            raise Unsupported("pointer arithmetic")
        out = []
        for s, c in self.dom.slot(st, args[0][1], args[1][1]):
            out += self.finish(s, t, ref(c))
        return out

    def is_null(self, ip, st, args, t, f):
        v = args[0]
        if v[0] not in ("ref", "null"):
            raise Unsupported("is_null of " + v[0])
        return self.finish(st, t, ("bool", v[0] == "null"))

    def write_bytes(self, ip, st, args, t, f):
        p, b, n = args
        if p[0] != "lp" or b != integer(0) or n[0] != "int":
            raise Unsupported("write_bytes")
        h, n = p[1], n[1]
        d = self.dom
        lv = d.levels(st, h)
        k = d.links(st, h)
        if k[4] is not None and d.zero(st, lv - n) is False and not st.ge(lv - n):
            raise Bug("S02", "links above a node's height are written")
        if not st.ge(lv - n):
            raise Bug("S02", "links above a node's height are written")
        if st.ge(lv - n - 1) and n.const() and h == "head" and d.walk:
            return self.finish(st, t, UNIT)
        if not st.ge(n - lv) and d.walk == "kk":
            # the levels from n on keep their links
            out = []
            for cut in (True, False):
                s = st.copy()
                try:
                    s.add_ge(W - n if cut else n - W - 1)
                except Infeasible:
                    continue
                out += self.finish(s, t, UNIT) if cut else self.cleared(s, h, k, t)
            return out
        if not st.ge(n - lv):
            raise Unsupported("part of a node's links is cleared")
        return self.cleared(st, h, k, t)

    def cleared(self, st, h, k, t):
        d = self.dom
        if d.walk and k[2] == "list":
            self.handover(st, h, k)
        z = d.mklink(st, NULL, C(0))
        for l, c, i in k[3]:
            st.heap[c[1]] = z
        d.setlinks(st, h, k[:2] + ("null",) + k[3:])
        return self.finish(st, t, UNIT)

    def handover(self, st, h, k):
        """a node stops being the owner of the nodes after it"""
        if not any(st.red(l[1]).const() == 0 or self.dom.zero(st, l[1]) for l, c, i in k[3]) and ("r0", h) not in st.mem:
            raise Bug("S01", "the nodes after a node are lost")

    def pwrite(self, ip, st, args, t, f):
        a = st.deref(args[0])
        st.write(a, args[1])
        if a[0][0] == "h" and a[1] == (self.lay.NL,):
            v = self.dom.node(st, a[0][1])
            size = v[3][self.lay.NK][4]
            if size is not None and not self.dom.zero(st, size[1] - args[1][1].scale(UNITSZ) - BASE):
                raise Bug("S02", "a node is not allocated with room for exactly its links")
            if self.dom.mut:
                try:
                    st.add_ge(args[1][1] - W - 1 if st.mem["NW"] else W - args[1][1])
                except Infeasible:
                    return []
        return self.finish(st, t, UNIT)

    def pread(self, ip, st, args, t, f):
        a = st.deref(args[0])
        v = st.read(a)
        if v[0] == "moved" or v[0] == "agg" and MOVED in v[3]:
            raise Bug("S01", "an element is read out of a node twice, or before it is there")
        if a[0][0] == "h" and self.dom.node(st, a[0][1]) is not None and a[1] and a[1][0] == self.lay.NE:
            st.write(a, MOVED)
        else:
            raise Unsupported("ptr::read")
        return self.finish(st, t, v)

    def drop_in_place(self, ip, st, args, t, f):
        a = st.deref(args[0])
        v = st.read(a)
        if not (a[0][0] == "h" and a[1] == (self.lay.NE,)):
            raise Unsupported("drop_in_place")
        if v[0] == "moved" or v[0] == "agg" and MOVED in v[3]:
            raise Bug("S01", "an element is dropped that is not (or no longer) in its node")
        if v == ("val", "old") or v[0] == "agg" and v[3][1] == ("val", "old"):
            st.mem["dropped"] = st.mem.get("dropped", 0) + 1 if self.dom.walk is False else 0
        st.write(a, MOVED)
        return self.finish(st, t, UNIT)

    def size_of(self, ip, st, args, t, f):
        s = f["args"][0] if f.get("args") else ""
        if isinstance(s, int):
            s = self.prog.types[s]["s"]
        s = str(s)
        ptr = s.startswith("*") or s.startswith("&")
        return self.finish(st, t, integer(BASE if "Node<" in s and not ptr and "Link<" not in s else UNITSZ))

    def layout(self, ip, st, args, t, f):
        if args[0][0] != "int":
            raise Unsupported("layout of " + args[0][0])
        v = ("layout", args[0])
        return self.finish(st, t, v if f["path"].endswith("unchecked") else ("agg", "std::result::Result", 0, (v,)))

    def alloc(self, ip, st, args, t, f):
        if args[0][0] != "layout":
            raise Unsupported("alloc of " + args[0][0])
        h = st.fresh("q")
        fs = [MOVED] * 3
        fs[self.lay.NK] = ("links", "new", "uninit", (), args[0][1], None)
        st.heap[h] = ("agg", self.lay.node, 0, tuple(fs))
        st.mem["root:alloc"] = st.mem.get("root:alloc", ()) + (ref(h),)
        return self.finish(st, t, ref(h))

    def dealloc(self, ip, st, args, t, f):
        p, l = args
        if p[0] == "null":
            raise Bug("S01", "a null node is released")
        if p[0] != "ref" or p[1][1] or l[0] != "layout":
            raise Unsupported("dealloc of " + p[0])
        h = p[1][0][1]
        v = st.heap.get(h)
        if v is not None and v[0] == "dead":
            raise Bug("S01", "a node is released twice")
        if self.dom.node(st, h) is None:
            raise Unsupported("dealloc of something else")
        d = self.dom
        k = d.links(st, h)
        if not d.zero(st, l[1][1] - d.levels(st, h).scale(UNITSZ) - BASE):
            raise Bug("S01", "a node is not released with the size it was allocated with")
        c = v[3][self.lay.NE]
        if c[0] != "moved" and not (c[0] == "agg" and all(x == MOVED for x in c[3])):
            raise Bug("S01", "a node is released with its element still in it")
        if d.walk and k[2] == "list":
            self.handover(st, h, k)
        st.heap[h] = ("dead", "S01", "a node is used after it was released", None if d.walk else k)
        for key in ("root:owed", "root:alloc"):
            st.mem[key] = tuple(x for x in st.mem.get(key, ()) if x != ref(h))
        return self.finish(st, t, UNIT)

    def lz(self, ip, st, args, t, f):
        n = V(st.fresh("n"))
        st.add_ge(C(32) - n)
        return self.finish(st, t, ("int", n))

    # ------------------------------------------------------------ drop glue
    def term(self, st, t):
        if t["k"] == "drop":
            a = self.addr(st, t["p"])
            v = st.read(a)
            if v[0] == "agg" and v[1] in self.dropfns:
                def done(s, r, a=a, t=t):
                    s.write(a, MOVED)
                    return [self.goto(s, t["t"])]
                return self.inline(st, self.prog.fns[self.dropfns[v[1]]], [("ref", a)], None, done)
        return AInterp.term(self, st, t)

    # ------------------------------------------------------------ per-level arrays: ("lvlarr", cell of level w)
    def rvalue(self, st, r):
        if r["k"] == "repeat":
            v = self.operand(st, r["o"])
            p = v[3][0] if v[0] == "agg" and v[1] == "tuple" else v
            if p[0] == "ref" and self.dom.node(st, p[1][0][1]) is not None:
                if str(r["n"]) != str(MAXL) or not st.ge(self.dom.levels(st, p[1][0][1]) - MAXL):
                    raise Bug("S02", "an array with a node per level does not fit the levels")
                c = st.fresh("c")
                st.heap[c] = v
                return [(st, ("lvlarr", ("h", c), "pair" if v is not p else "one"))]
        return AInterp.rvalue(self, st, r)

    def lvat(self, st, addr):
        v = st.read(addr)
        while v[0] == "ref":
            addr = v[1]
            v = st.read(addr)
        return addr, v

    def cell(self, st, addr, i):
        addr, v = self.lvat(st, addr)
        if v[0] != "lvlarr":
            return AInterp.cell(self, st, addr, i)
        if self.dom.zero(st, i - W):
            return v[1][1]
        for a, l, c, x in st.mem.get("root:tmps", ()):
            if a == ("ref", addr) and self.dom.zero(st, i - l[1]):
                return c[1]
        return None

    def isolate(self, st, addr, i):
        addr, v = self.lvat(st, addr)
        if v[0] != "lvlarr":
            return AInterp.isolate(self, st, addr, i)
        d = self.dom
        for l in [W] + [l[1] for a, l, c, x in st.mem.get("root:tmps", ()) if a == ("ref", addr)]:
            if not st.ge(i - l - 1) and not st.ge(l - i - 1):
                return d.split(st, i - l, lambda s: [s])
        if not st.ge(C(MAXL - 1) - i):
            s = st.copy()
            s.add_ge(C(MAXL - 1) - i)
            st = s
        s = st.copy()
        h = d.new(s, "other", i)
        k = d.links(s, h)
        d.setlinks(s, h, k[:2] + ("other",) + k[3:])
        c = s.fresh("c")
        x = ref(h)
        if v[2] == "pair":
            y = ("int", V(s.fresh("n")))
            p2 = s.mem.get("root:p2")
            if p2:
                if d.zero(s, i - p2[0][1]):
                    y = ("int", p2[2][1] - p2[1][1])
                elif d.zero(s, i + 1 - p2[0][1]):
                    y = p2[1]
                else:
                    raise Unsupported("another element per level")
            x = tup(x, y)
        s.heap[c] = x
        s.mem["root:tmps"] = s.mem.get("root:tmps", ()) + ((("ref", addr), ("int", i), ("h", c), x),)
        return [s]

    def lrange(self, ip, st, args, t, f):
        return self.finish(st, t, ("agg", "std::ops::RangeInclusive", 0, (args[0], args[1])))

    def rnext(self, ip, st, args, t, f):
        d = self.dom
        a, v = self.lvat(st, st.deref(args[0]))
        if v[0] == "agg" and v[1].startswith("std::ops::Range"):
            lo, hi = v[3][0], v[3][1]
            if lo[0] != "int" or not d.zero(st, lo[1] - 1) or hi[0] != "int" or not SAFE(st, d):
                raise Unsupported("range")
            d.second(st)
            v = ("lvrange", ("int", hi[1] + (1 if "Inclusive" in v[1] else 0)), "before")
        if v[0] != "lvrange":
            raise Unsupported("next of " + v[0])
        d.release(st)
        out = []
        lim, stage = v[1][1], v[2]
        n = lambda s: V(s.fresh("z"))
        rw = d.rem(st, st.heap[d.sumcell(st)][3][0])
        for what in ("below", "w", "next", "above", "end"):
            s = st.copy()
            try:
                if what in ("below", "w") and stage != "before" or what in ("next", "above") and stage == "before":
                    continue
                if what == "end":
                    if stage == "before":
                        s.add_ge(W - lim)
                    out += self.finish(s, t, NONE)
                    continue
                i = W if what == "w" else W + 1 if what == "next" else V(s.fresh("n"))
                s.add_ge(i - 1)
                s.add_ge(lim - i - 1)
                if what == "below":
                    s.add_ge(W - i - 1)
                elif what == "above":
                    s.add_ge(i - W - 2)
                x = rw if what == "w" else HR if what == "next" else n(s)
                y = HR if what == "w" else n(s)
                s.mem["root:p2"] = (("int", i), ("int", x), ("int", y))
                s.write(a, ("lvrange", v[1], "after" if what == "w" or stage == "after" else "before"))
                out += self.finish(s, t, some(("int", i)))
            except Infeasible:
                pass
        return out

    def iter_mut(self, ip, st, args, t, f):
        addr, v = self.lvat(st, st.deref(args[0]))
        if v[0] != "lvlarr":
            raise Unsupported("iter_mut of " + v[0])
        return self.finish(st, t, ("lviter", ("ref", addr), False, ("int", C(MAXL)), "before"))

    def adapt(self, ip, st, args, t, f):
        v = args[0]
        if v[0] != "lviter":
            raise Unsupported(f["path"] + " of " + v[0])
        if f["path"].endswith("enumerate"):
            return self.finish(st, t, v[:2] + (True,) + v[3:])
        n = args[1]
        out = []
        for s, ge in self.decide_rel(st, "Le", n, v[3]):
            out += self.finish(s, t, v[:3] + ((n if ge else v[3]),) + v[4:])
        return out

    def lnext(self, ip, st, args, t, f):
        a, v = self.lvat(st, st.deref(args[0]))
        if v[0] != "lviter" or not v[2]:
            raise Unsupported("next of " + v[0])
        self.dom.release(st)
        out = []
        lim = v[3][1]
        arr = v[1][1]
        for what in ("other", "w", "end"):
            s = st.copy()
            try:
                if what == "other":
                    i = V(s.fresh("n"))
                    s.add_ge(lim - i - 1)
                    s.add_ge(W - i - 1 if v[4] == "before" else i - W - 1)
                    for s2 in self.isolate(s, arr, i):
                        out += self.finish(s2, t, some(tup(("int", i), ref(self.cell(s2, arr, i)))))
                elif what == "w":
                    if v[4] != "before":
                        continue
                    s.add_ge(lim - W - 1)
                    s.write(a, v[:4] + ("after",))
                    out += self.finish(s, t, some(tup(("int", W), ref(s.read(arr)[1][1]))))
                else:
                    if v[4] == "before":
                        s.add_ge(W - lim)
                    out += self.finish(s, t, NONE)
            except Infeasible:
                pass
        return out


def SAFE(st, d):
    return not st.mem.get("p2")


# ---------------------------------------------------------------- operations
class Op:
    walk = False

    def __init__(self, lay, name, path):
        self.lay, self.name, self.path = lay, name, path
        self.probs, self.paths, self.unsupported, self.steps = [], 0, [], 0

    def setup(self, d, st):
        """the skip list and the arguments"""
        fs = [None] * 3
        lay = self.lay
        fs[lay.NL], fs[lay.NE], fs[lay.NK] = integer(MAXL), MOVED, ("links", "head", "list", (), None, ("int", IDX) if lay.which == "list" else None)
        st.heap["head"] = ("agg", lay.node, 0, tuple(fs))
        st.mem["root:me"] = ref("me")
        st.heap["me"] = lay.mk(lay.own, head=ref("head"), len=("int", LEN))
        st.add_ge(W)
        st.add_ge(C(MAXL - 1) - W)
        st.add_ge(V("hmax") - MAXL)
        st.add_ge(C(MAXL) - V("hmax"))
        st.add_ge(LEN)

    def args(self, st):
        k = ("k", "K")
        st.heap["karg"] = k
        me = ref("me")
        n = self.name
        if self.lay.which == "list":
            st.add_ge(IDX)
            return {"insert": [me, ("int", IDX), ("val", "new")]}.get(n, [me, ("int", IDX)] if n in ("remove", "get", "get_mut") else [me])
        if n == "insert":
            return [me, k, ("val", "new")]
        if n in ("remove", "get", "get_mut", "contains_key", "floor", "ceil"):
            return [me, ref("karg")]
        return [me]

    def run(self):
        fn = self.lay.prog.fns.get(self.path)
        if fn is None:
            raise Unsupported("%s is gone" % self.path)
        for case in self.cases():
            self.one(fn, case)
        return self

    def cases(self):
        """whether the key is there; whether it and the new node reach level w"""
        mut = self.name in ("insert", "remove")
        es = ((True, True), (True, False), (False, False)) if mut else ((True, True), (False, False))
        if self.lay.which == "list" and self.name == "insert" or self.name not in SEARCHES:
            es = ((False, False),)
        return [e + (n,) for e in es for n in ((True, False) if self.name == "insert" else (None,))]

    def one(self, fn, case):
        self.first = case[3] if len(case) > 3 else None
        d = SDom(self.lay, self.name, self.walk)
        ip = self.ip = SInterp(self.lay, d)
        d.maxfolds = 200 if self.walk == "kk" else 40
        st = State()
        self.setup(d, st)
        E, EW, NW = case[:3]
        self.dom = d
        st.mem.update(E=E, EW=EW, NW=NW)
        if E:
            st.add_ge(LEN - 1)
            if self.lay.which == "list":
                st.add_ge(LEN - IDX - 1)
            d.new(st, "eq", C(0), None, "eq")
            st.mem["root:E"] = ref("eq")
        elif self.lay.which == "list" and self.name in ("get", "get_mut", "remove"):
            st.add_ge(IDX - LEN)
        if self.name not in ("insert", "remove") and self.walk != "kk":
            st.add_eq(W)
        outs = ip.run(start(ip, fn, self.args(st), st))
        self.steps += ip.steps
        self.unsupported = sorted(set(self.unsupported) | set(ip.unsupported))
        for o in outs:
            self.paths += 1
            if o.kind == "bug":
                self.probs.append((getattr(o, "cat", "S02"), o.msg, o.state.trace[-12:], o.where))
                continue
            try:
                for c, m in self.check(d, o):
                    self.probs.append((c, m, o.state.trace[-12:], o.where if o.kind == "panic" else ""))
            except Bug as e:
                self.probs.append((e.cat, e.text, o.state.trace[-12:], ""))
            except Unsupported as e:
                self.unsupported.append(str(e))

    # ------------------------------------------------------------ the end of a path
    def cells(self, d, st):
        """links of level w that were looked at: node -> (initial, final)"""
        out = {}
        for h, v in st.heap.items():
            k = None
            if v[0] == "dead":
                k = v[3]
            elif d.node(st, h) is not None:
                k = d.links(st, h)
            if not k:
                continue
            for l, c, i in k[3]:
                if d.isw(st, l):
                    out[h] = (i, st.heap.get(c[1], i), k)
        return out

    def same(self, d, st, a, b):
        if d.nextof(a) != d.nextof(b):
            return False
        return self.lay.which == "map" or self.name == "insert" or d.zero(st, d.distof(st, a) - d.distof(st, b))

    def check(self, d, o):
        st = o.state
        st.frames = []
        S = "S03" if self.lay.which == "map" else "S04"
        E = st.mem.get("E")
        if o.kind == "panic":
            if self.lay.which == "list" and self.name == "insert" and "Overflow" in o.msg and not st.mem.get("p2"):
                raise Unsupported("distances after an insertion")
            if self.lay.which == "list" and self.name in ("insert", "remove"):
                try:
                    s = st.copy()
                    s.add_ge(LEN - IDX - (0 if self.name == "insert" else 1))
                except Infeasible:
                    return
                if st.ge(LEN - IDX - (0 if self.name == "insert" else 1)):
                    yield S, "may panic: " + o.msg
                    return
            yield S, "may panic: " + o.msg
            return
        d.clsof = {h: d.links(st, h)[1] for h in st.heap if d.node(st, h) is not None}
        d.clsof["eq"] = "eq"
        me = st.heap["me"]
        n = me[3][self.lay.f[self.lay.own]["len"]]
        if me[3][self.lay.f[self.lay.own]["head"]] != ref("head"):
            yield S, "the list loses its head"
            return
        mut = self.name in ("insert", "remove")
        delta = 0
        if self.name == "insert":
            delta = 1 - (1 if E else 0)
        elif self.name == "remove":
            delta = -1 if E else 0
        if n[0] != "int" or not d.zero(st, n[1] - LEN - delta):
            yield "X01", "the length does not change by exactly the elements added or removed"
        cs = self.cells(d, st)
        if not mut:
            for h, (i, v, k) in cs.items():
                if d.changed(st, v, i):
                    yield "S02", "a query changes a link"
            yield from self.answer(d, st, o.value, cs, S, E)
            return
        if self.lay.which == "map":
            exp = some(tup(("k", "eq"), ("val", "old"))) if E else NONE
            if o.value != exp:
                yield S, "the answer is not the pair that was stored"
        elif self.name == "remove":
            if not E:
                yield S, "no element is removed"
                return
            if o.value != ("val", "old"):
                yield S, "the answer is not the element at the index"
        if E and st.heap["eq"][0] != "dead":
            yield "S01", "a removed node is never released"
        alive = [x[1][0][1] for x in st.mem.get("root:alloc", ())]
        new = [h for h in alive if d.node(st, h) is not None]
        if self.name == "insert":
            if len(new) != 1:
                yield S, "an insertion makes %d nodes" % len(new)
                return
            c = st.heap[new[0]][3][self.lay.NE]
            if c != (("agg", ENTRY, 0, (("k", "K"), ("val", "new"))) if self.lay.which == "map" else ("val", "new")):
                yield S, "the new node does not hold the element given"
        elif new:
            yield "S01", "a node is allocated and lost"
        # the list of level w
        yield from self.level(d, st, cs, E, new, S)

    def level(self, d, st, cs, E, new, S):
        ein, nin = bool(E) and st.mem["EW"], bool(new) and st.mem["NW"]
        last = [h for h, (i, v, k) in cs.items() if k[2] == "list" and k[1] in ("lt", "head") and d.marks(k, i)]
        lst = self.lay.which == "list"
        if len(last) > 1:
            raise Unsupported("two last nodes")
        for h, (i, v, k) in cs.items():
            if h not in last and k[1] not in ("new", "eq") and not self.same(d, st, i, v):
                yield "S02", "a link elsewhere in the list changes"
                return
        if not last:
            if ein:
                yield "S02", "a removed node stays linked in a level it has"
            elif nin:
                yield S, "the new node is not linked into a level it has"
            elif lst:
                yield S, "the distances of a level are not adjusted"
            return
        i, v, k = cs[last[0]]
        after = i
        if ein:
            if "eq" not in cs:
                yield "S02", "a removed node stays linked in a level it has"
                return
            after = cs["eq"][0]
        if nin:
            if d.nextof(v) != ref(new[0]):
                yield S, "the new node is not linked into a level it has"
                return
            if new[0] not in cs or d.nextof(cs[new[0]][1]) != d.nextof(after):
                yield "S02" if ein and new[0] in cs and d.nextof(cs[new[0]][1]) == ref("eq") else S, "the new node does not lead to the nodes after it"
                return
        elif d.nextof(v) != d.nextof(after):
            yield "S02", "a removed node stays linked in a level it has" if ein and d.nextof(v) == ref("eq") else "the nodes of a level are no longer linked"
            return
        if not lst:
            return
        p = k[5]
        if self.name == "insert":
            if not st.mem.get("p2"):
                raise Unsupported("distances after an insertion")
            rp = d.rem(st, ref(last[0]))
            if nin:
                ok = d.zero(st, d.distof(st, v) - rp - 1) and d.zero(st, d.distof(st, cs[new[0]][1]) - d.distof(st, after) + rp)
            else:
                ok = d.zero(st, d.distof(st, v) - d.distof(st, i) - 1)
            if not ok:
                yield S, "the distance of a link does not count the elements it spans"
        if self.name == "remove":
            want = d.distof(st, i) + (d.distof(st, after) if ein else 0) - 1
            if not d.zero(st, d.distof(st, v) - want):
                yield S, "the distance of a link does not count the elements it spans"

    def answer(self, d, st, v, cs, S, E):
        n = self.name
        fld = self.lay.NE
        if n in ("len", "is_empty"):
            if n == "len" and v != ("int", LEN):
                yield "X01", "len is not the stored length"
            if n == "is_empty":
                if v[0] != "bool" or not (d.zero(st, LEN) if v[1] else st.ge(LEN - 1)):
                    yield "X01", "is_empty is not whether the length is zero"
            return
        lst = self.lay.which == "list"
        if n in ("get", "get_mut", "contains_key"):
            if n == "contains_key":
                exp = ("bool", E)
            else:
                exp = some(ref("eq", fld) if lst else ref("eq", fld, 1)) if E else NONE
            if v != exp:
                yield S, "the answer is not the element stored"
            return
        if n in ("floor", "ceil", "min", "max"):
            if v == NONE:
                h = None
            elif v[0] == "agg" and v[3][0][0] == "ref" and v[3][0][1][1] == (fld, 0):
                h = v[3][0][1][0][1]
            else:
                raise Unsupported("answer is " + str(v[0]))
            head = cs.get("head")
            if n == "min":
                if not head or (d.nextof(head[0]) != (ref(h) if h else NULL)):
                    yield S, "the answer is not the first key"
                return
            if n == "max":
                if h is None:
                    if not head or d.nextof(head[0]) != NULL:
                        yield S, "nothing is answered although there may be keys"
                elif h not in cs or d.nextof(cs[h][0]) != NULL:
                    yield S, "the answer is not the last key"
                return
            if E:
                if h != "eq":
                    yield S, "the answer is not the key itself although it is there"
                return
            last = [x for x, (i, w, k) in cs.items() if k[1] in ("lt", "head") and d.marks(k, i)]
            if len(last) != 1:
                yield S, "the search ends before the lowest level"
                return
            if n == "floor":
                want = None if last[0] == "head" else last[0]
            else:
                x = d.nextof(cs[last[0]][0])
                want = None if x == NULL else x[1][0][1]
            if h != want:
                yield S, "the answer is not the nearest key"
            return
        raise Unsupported("no rule for " + n)


SEARCHES = ("insert", "remove", "get", "get_mut", "contains_key", "floor", "ceil")
class Walk(Op):
    """operations that pass over or give up a whole list: level 0 is followed, every node met has an owner at the end"""
    walk = True

    def cases(self):
        return [(False, False, None, first) for first in ((None,) if self.kind in ("clear", "drop", "into_iter", "iter", "iter_mut") else (True, False))]

    def __init__(self, lay, kind, path, adt=None):
        Op.__init__(self, lay, kind, path)
        self.kind, self.adt = kind, adt

    def setup(self, d, st):
        Op.setup(self, d, st)
        st.add_eq(W)
        if self.kind in ("iter_next", "into_next", "into_drop"):
            del st.heap["head"], st.heap["me"]
            del st.mem["root:me"]

    def args(self, st):
        k = self.kind
        if k in ("drop", "into_iter"):
            st.mem["root:owed"] = (ref("head"),)
        if k in ("clear", "drop", "iter", "iter_mut"):
            return [ref("me")]
        if k == "into_iter":
            v = st.heap.pop("me")
            del st.mem["root:me"]
            return [v]
        v = NULL
        if self.first:
            v = ref(self.dom.new(st, "any", C(0), None, "first"))
            if k != "iter_next":
                st.mem["root:owed"] = (v,)
        adt = self.lay.prog.adts.get(self.adt)
        if not adt or len(adt["variants"][0]["fields"]) != 1:
            raise Unsupported("the iterator has other fields")
        if k == "iter_next":
            st.heap["slot"] = v
            v = ref("slot")
        st.heap["it"] = ("agg", self.adt, 0, (v,))
        st.mem["root:it"] = ref("it")
        return [ref("it")]

    def check(self, d, o):
        st = o.state
        st.frames = []
        S = "S03" if self.lay.which == "map" else "S04"
        k = self.kind
        if o.kind == "panic":
            yield S, "may panic: " + o.msg
            return
        cs = self.cells(d, st)
        head = st.heap.get("head")
        dead = lambda h: st.heap.get(h, ("dead",))[0] == "dead"
        first = st.mem.get("root:next:head")
        for h, (i, v, kk) in cs.items():
            if d.nextof(v) != d.nextof(i) and not (h == "head" and kk[2] == "null"):
                yield "S02", "a link changes"
        owed = [x[1][0][1] for x in st.mem.get("root:owed", ())]
        roots = []
        me = st.heap.get("me")
        if k == "clear":
            n = me[3][self.lay.f[self.lay.own]["len"]]
            if n[0] != "int" or not d.zero(st, n[1]):
                yield "X01", "clear leaves a length"
            if dead("head") or me[3][self.lay.f[self.lay.own]["head"]] != ref("head"):
                yield S, "the list loses its head"
                return
            if d.links(st, "head")[2] != "null":
                yield "S02", "links to released nodes are left in the head"
        elif k in ("drop", "into_iter"):
            if not dead("head"):
                yield "S01", "the head is never released"
        elif k in ("iter", "iter_mut"):
            x = o.value[3][0] if o.value[0] == "agg" else o.value
            if "head" not in cs or x[0] != "ref" or self.slotof(d, st, "head") != x:
                yield S, "iteration does not begin at the first element"
            if d.links(st, "head")[2] != "list" or owed:
                return
        if k == "into_iter":
            x = o.value[3][0] if o.value[0] == "agg" else None
            if first is None or x != first:
                yield S, "iteration does not begin at the first element"
            elif x != NULL:
                roots.append(x[1][0][1])
        if k in ("into_next", "iter_next"):
            x = st.heap["it"][3][0]
            if not self.first:
                if o.value != NONE or (x if k == "into_next" else st.heap.get("slot")) != NULL:
                    yield S, "an iterator that is at the end goes on"
                return
            fld = self.lay.NE
            mp = self.lay.which == "map"
            if k == "into_next":
                exp = tup(("k", "any"), ("val", "old")) if mp else ("val", "old")
            else:
                exp = tup(ref("first", fld, 0), ref("first", fld, 1)) if mp else ref("first", fld)
            if o.value != some(exp):
                yield S, "an iterator does not answer the element it is at"
            if k == "into_next":
                n = st.mem.get("root:next:first")
                if not dead("first"):
                    yield "S01", "a node whose element was given away is not released"
                elif x != n:
                    yield S, "an iterator does not go on with the next element"
                elif x != NULL:
                    roots.append(x[1][0][1])
            elif x != self.slotof(d, st, "first"):
                yield S, "an iterator does not go on with the next element"
            if k == "iter_next":
                return
        seen = set()
        while roots:
            h = roots.pop()
            if h in seen:
                continue
            seen.add(h)
            if dead(h):
                yield "S01", "a released node stays in use"
                return
            if h in cs and cs[h][1] != NULL:
                n = d.nextof(cs[h][1])
                if n != NULL:
                    roots.append(n[1][0][1])
        if [h for h in owed if h not in seen and not dead(h)]:
            yield "S01", "a node is lost without being released"

    def slotof(self, d, st, h):
        for l, c, i in d.links(st, h)[3]:
            if d.isw(st, l):
                return ref(c[1]) if self.lay.which == "map" else ref(c[1], self.lay.lf["next"])


class SetOp(Op):
    """set operations: both lists are walked in level 0 for an arbitrary key, the result is followed in level w"""
    walk = "kk"
    high = False
    KEEP = {"union": lambda l, r: l or r, "intersection": lambda l, r: l and r, "difference": lambda l, r: l and not r, "symmetric_difference": lambda l, r: l != r}

    def cases(self):
        out = [(False, False, None, (True, l, r)) for l in (None, True) for r in (None, True)]
        # which keys are kept shows in level 0 already
        return out + [(False, False, None, (False, None, None))] * self.high

    def setup(self, d, st):
        low, l, r = self.first
        lay = self.lay
        st.add_ge(V("hmax") - MAXL)
        st.add_ge(C(MAXL) - V("hmax"))
        if low:
            st.add_eq(W)
        else:
            st.add_ge(W - 1)
            st.add_ge(C(MAXL - 1) - W)
        owed = []
        for side, e in (("L", l), ("R", r)):
            fs = [None] * 3
            fs[lay.NL], fs[lay.NE], fs[lay.NK] = integer(MAXL), MOVED, ("links", "head", "list", (), None, ("in", side))
            st.heap["head" + side] = ("agg", lay.node, 0, tuple(fs))
            owed.append(ref("head" + side))
            st.mem["E" + side] = e is not None
            if e is not None:
                d.knode(st, "eq", side, e, "eq" + side)
        st.mem["root:owed"] = tuple(owed)
        st.mem["root:eq"] = tuple(ref("eq" + x) for x in "LR" if st.mem["E" + x])
        for x in "LR":
            n = V("nlen" + x)
            st.add_ge(n)

    def args(self, st):
        return [self.lay.mk(self.lay.own, head=ref("head" + x), len=("int", V("nlen" + x))) for x in "LR"]

    def check(self, d, o):
        st = o.state
        st.frames = []
        if o.kind == "panic":
            yield "S03", "may panic: " + o.msg
            return
        low, l, r = self.first
        f = self.lay.f[self.lay.own]
        v = o.value
        for x in ("root:head", "root:tail"):
            if x in st.mem and d.node(st, st.mem[x][1][0][1]) is None:
                yield "S01", "a node of the result was released"
                return
        if "root:tail" not in st.mem:
            raise Unsupported("no levels")
        head, T = st.mem["root:head"], st.mem["root:tail"]
        if v[3][f["head"]] != head:
            yield "S03", "the result does not begin at its head"
            return
        n = v[3][f["len"]]
        if low and (n[0] != "int" or not d.zero(st, n[1] - st.mem["root:kept"][1])):
            yield "X01", "the length of the result is not the number of nodes kept"
        keep = self.KEEP[self.name](l is not None, r is not None)
        which = "L" if l is not None else "R"
        want = "eq" + which if keep and {"L": l, "R": r}[which] else None
        if st.mem.get("K") != want:
            if want and st.mem.get("K") is None:
                yield "S03", "a key that belongs to the result is missing"
            elif want is None:
                yield "S03", "a key that does not belong to the result is in it"
            else:
                yield "S03", "of two equal keys the one of the right map is kept"
        w = d.wlink(st, head[1][0][1])
        if T != head and w != ("chain",) or T == head and w != NULL or T != head and d.wlink(st, T[1][0][1]) != NULL:
            yield "S02", "the links of the result change after it was made"
        for x in st.mem.get("root:owed", ()):
            h = x[1][0][1]
            if x != T and d.node(st, h) is not None and d.links(st, h)[5][0] == "in":
                yield "S01", "a node is lost without being released"
                return
        for x in "LR":
            if d.node(st, "head" + x) is not None:
                yield "S01", "the head of a list that was given up is never released"
                return


MAPOPS = ("insert", "remove", "get", "get_mut", "contains_key", "floor", "ceil", "min", "max", "len", "is_empty")
LISTOPS = ("insert", "remove", "get", "get_mut", "len", "is_empty")


def ops(prog, kinds=("map", "list")):
    for which, names in (("map", MAPOPS), ("list", LISTOPS)):
        if which not in kinds:
            continue
        lay = Lay(prog, which)
        own = lay.own + ("::<T, U>::" if which == "map" else "::<T>::")
        for n in names:
            yield Op(lay, n, own + n)
        if which == "map":
            for k in SetOp.KEEP:
                yield SetOp(lay, k, own + k)
        ty = lay.own[7:] + ("<T, U>" if which == "map" else "<T>")
        it = lambda k: lay.own[7:] + k + ("<'a, T, U>" if which == "map" and k != "IntoIter" else "<'a, T>" if k != "IntoIter" else "<T, U>" if which == "map" else "<T>")
        for k in ("clear", "iter", "iter_mut"):
            yield Walk(lay, k, own + k)
        yield Walk(lay, "drop", "crate::<%s as std::ops::Drop>::drop" % ty)
        yield Walk(lay, "into_iter", "crate::<%s as std::iter::IntoIterator>::into_iter" % ty)
        for k, n in (("IntoIter", "into_next"), ("Iter", "iter_next"), ("IterMut", "iter_next")):
            yield Walk(lay, n, "crate::<%s as std::iter::Iterator>::next" % it(k), lay.own + k)
        yield Walk(lay, "into_drop", "crate::<%s as std::ops::Drop>::drop" % it("IntoIter"), lay.own + "IntoIter")


# ---------------------------------------------------------------- reporting
def task(job):
    which, i, case = job
    op = ALL[which][i]
    op.probs, op.paths, op.unsupported, op.steps = [], 0, [], 0
    try:
        fn = op.lay.prog.fns.get(op.path)
        if fn is None:
            raise Unsupported("%s is gone" % op.path)
        op.one(fn, case)
    except Unsupported as e:
        op.unsupported.append(str(e))
    except RecursionError:
        op.unsupported.append("too deep")
    except Exception as e:
        op.unsupported.append("%s: %s" % (type(e).__name__, e))
    return job, op.probs, op.paths, op.steps, op.unsupported


ALL = {}


def results(ctx, which):
    """(operation, problems, paths, reasons it is undecided) for every operation of the maps or the lists"""
    key = "skip:%s:%s" % (which, SetOp.high)
    memo = ctx.__dict__.setdefault("memo", {})
    if key in memo:
        return memo[key]
    import multiprocessing as mp
    ALL[which] = [o for o in ops(ctx.prog, (which,))]
    jobs = [(which, i, c) for i, o in enumerate(ALL[which]) for c in o.cases()]
    jobs.sort(key=lambda j: (j[2][3:] != ((False, None, None),), ALL[which][j[1]].name not in ("insert", "remove")))
    acc = {}
    with mp.get_context("fork").Pool(8) as pool:
        for job, probs, paths, steps, uns in pool.imap_unordered(task, jobs, 1):
            r = acc.setdefault(job[1], [[], 0, 0, []])
            r[0] += probs
            r[1] += paths
            r[2] += steps
            r[3] += uns
    memo[key] = [(ALL[which][i], r[0], r[1], r[2], sorted(set(r[3]))) for i, r in sorted(acc.items())]
    return memo[key]


def report(ctx, whiches, cats, floor, pick=None):
    n = 0
    for which in whiches:
        try:
            rs = results(ctx, which)
        except Unsupported as e:
            ctx.undecided("skip:" + which, "crate::skiplist::" + which, str(e))
            continue
        for op, probs, paths, steps, uns in rs:
            if pick and not pick(op):
                continue
            n += 1
            key = "skip:%s:%s:%s" % (which, op.name, op.path.rsplit("::", 2)[-2][-20:] if " as " in op.path else "")
            ctx.count("abstract paths", paths)
            ctx.count("abstract steps", steps)
            seen = set()
            for c, text, trace, where in probs:
                if c in cats and text not in seen:
                    seen.add(text)
                    ctx.bad("%s:%s" % (key, text[:60]), op.path, "%s %s\non the path: %s" % (text, where, "; ".join(trace)))
            if uns:
                ctx.undecided(key, op.path, "; ".join(uns[:3]))
            elif not seen:
                ctx.ok(key, op.path, "%d abstract paths" % paths)
    ctx.floor("skip-list operations", n, floor)


def assume(ctx):
    ctx.assumptions += ["the list an operation begins with is well formed: every level is a subsequence of the one below, in order, and nodes have 1 to 33 levels (kept by the rule at every step)",
                        "an index given to a list and lengths stay below usize::MAX", "allocation succeeds, the entropy of heights is arbitrary"]


def S01(ctx):
    ctx.rule("node ownership", "every node an operation takes out is released once with the size it was allocated with, after its element was moved out or dropped once; nodes that stay are not released; nothing is used after its release, and no node is left without an owner")
    assume(ctx)
    report(ctx, ("map", "list"), {"S01"}, 30)


def S02(ctx):
    SetOp.high = True
    ctx.rule("levels and links", "every link that is read or written lies below the height of its node, is set, and is not followed when null; in an arbitrary level, the links after an operation are exactly those before with the node put in or taken out, so no link leads to a released node")
    assume(ctx)
    report(ctx, ("map", "list"), {"S02"}, 30)


def S03(ctx):
    ctx.rule("ordered map", "in an arbitrary level, the node is put in or taken out at the place of the key; the answer is the pair at, or nearest to, the key")
    assume(ctx)
    report(ctx, ("map",), {"S03"}, 15)


def S04(ctx):
    ctx.rule("sequence with distances", "in an arbitrary level, the node is put in or taken out at the index, and every link's distance is again the number of elements it spans; the answer is the element at the index")
    assume(ctx)
    report(ctx, ("list",), {"S04"}, 12)


def X01(ctx):
    report(ctx, ("map", "list"), {"X01"}, 8, lambda o: o.name in ("insert", "remove", "len", "is_empty", "clear") or isinstance(o, SetOp))


if __name__ == "__main__":
    import sys, time
    from .. import mir
    prog = mir.load(sys.argv[1])
    for op in ops(prog):
        if len(sys.argv) > 2 and "%s.%s" % (op.lay.which, op.name) not in sys.argv[2].split(","):
            continue
        t = time.time()
        try:
            op.run()
        except Unsupported as e:
            op.unsupported.append("STOP " + str(e))
        sys.stdout.flush()
        print(op.lay.which, op.name, "paths", op.paths, "steps", op.steps, "%.1fs" % (time.time() - t))
        for u in op.unsupported[:6]:
            print("   UNSUPPORTED", u)
        seen = set()
        for p in op.probs:
            if (p[0], p[1]) not in seen:
                seen.add((p[0], p[1]))
                print("   ", p[0], p[1], p[3], "|", "; ".join(p[2]))
