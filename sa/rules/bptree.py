"""B+ map: every operation is run abstractly against a file of pages, following one arbitrary key kk (the witness).

A page is known by its place relative to kk: every key below it ("l"), every key above it ("r") or the page whose range holds kk ("c").
A well-formed internal node is [keys <= kk][keys > kk] with pointers [l..][c][r..], a leaf [entries < kk][kk, if present][entries > kk]; as kk is
arbitrary this is exactly a sorted search tree without duplicates. An operation is on key K = kk, K < kk or K > kk. Ancestors on the
search path are generated when they are popped: any well-formed node whose path child is the page below."""
from ..interp import State, Unsupported, Bug, Infeasible, OPTION, RESULT, NONE, UNIT, MOVED, TRUE, FALSE, some, tup, integer
from ..lin import V, C, Lin
from ..simple import start, SYM
from .. import colls, arrays
from ..colls import ok, err
from ..arrays import ADom, AInterp, arr

P = "bp_tree::"
NODE, INT, LEAF, ENTRY = "crate::bp_tree::node::Node", "crate::bp_tree::node::InternalNode", "crate::bp_tree::node::LeafNode", "crate::entry::Entry"
ATOMS = {"eq": ("lt", "kk", "gt"), "less": ("lt", "K", "md", "kk", "gt"), "more": ("lt", "kk", "md", "K", "gt")}
ORD = {"b": 0, "p": 1, "a": 2}
DL, DI, LEN = V("hdl"), V("hdi"), V("nlen")


def key(c, rel="p"):
    return ("k", c, rel)


def entry(c, rel="p", val=None):
    return ("agg", ENTRY, 0, (key(c, rel), ("val", val or {"kk": "old", "K": "oldK"}.get(c, "any"))))


class Lay:
    def __init__(self, prog):
        self.prog = prog
        self.f = {}
        for a in (INT, LEAF):
            adt = prog.adts.get(a)
            if not adt:
                raise Unsupported(a + " is gone")
            self.f[a] = {x["name"]: i for i, x in enumerate(adt["variants"][0]["fields"])}
            self.f[a, "n"] = len(adt["variants"][0]["fields"])
        self.v = {x["name"]: i for i, x in enumerate(prog.adts[NODE]["variants"])}
        for a, names in ((INT, ("len", "keys", "pointers")), (LEAF, ("len", "entries", "next_leaf"))):
            for n in names:
                if n not in self.f[a]:
                    raise Unsupported("%s has no field %s" % (a, n))

    def get(self, adt, v, name):
        return v[3][self.f[adt][name]]

    def make(self, adt, **kw):
        vs = [("top", "phantom")] * self.f[adt, "n"]
        for n, i in self.f[adt].items():
            if n in kw:
                vs[i] = kw[n]
        return ("agg", adt, 0, tuple(vs))

    def node(self, adt, v):
        return ("agg", NODE, self.v["Leaf" if adt == LEAF else "Internal"], (v,))


class BDom(ADom):
    tolerant = True
    soften = True
    twoway = True

    def __init__(self, lay, case, post=None):
        self.lay, self.case, self.post = lay, case, post
        self.atoms = ATOMS[case]
        self.kkat = self.atoms.index("kk")

    # ------------------------------------------------------------ pages in the heap
    def heap_refs(self, v, out):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "pg":
            out.append(("h", v[1]))
            return
        ADom.heap_refs(self, v, out)

    def atomset(self, c):
        if c == "le":
            return self.atoms[:self.kkat + 1]
        if c == "gt" and self.case != "more":
            return ("gt",)
        return (c,)

    def side(self, c):
        """an atom relative to kk"""
        if c in ("le", "kk"):
            return c
        i = self.atoms.index(c)
        return "lt" if i < self.kkat else "gt"

    def signs(self, a, b):
        if a[2] != b[2]:
            return {-1 if ORD[a[2]] < ORD[b[2]] else 1}
        sa = self.sepset(a[1])
        sb = self.sepset(b[1])
        out = set()
        for x in sa:
            for y in sb:
                i, j = self.atoms.index(x), self.atoms.index(y)
                if i != j:
                    out.add(-1 if i < j else 1)
                elif x in ("kk", "K"):
                    out.add(0)
                else:
                    out |= {-1, 1}
        return out

    def sepset(self, c):
        if c == "le":
            return self.atoms[:self.kkat + 1]
        if c == "sg":
            return self.atoms[self.kkat + 1:]
        return (c,)

    def instantiate(self, st, v):
        if v[0] == "ptr":
            return self.page(st, (v[1],), v[3], v[2])
        return v

    def page(self, st, roles, lvl, rel):
        h = st.fresh("pg")
        st.heap[h] = ("page", tuple(roles), lvl, rel, "live", False, None)
        return ("pg", h)

    def sep(self, k):
        """a separator key relative to kk"""
        c = self.side(k[1]) if k[1] not in ("le", "sg") else k[1]
        return ("k", "le" if c in ("lt", "kk", "le") else "sg", k[2])

    def summary(self, st, v):
        if v[0] == "agg" and v[1] == OPTION and v[2] == 1 and v[3][0][0] == "k":
            return some(self.sep(v[3][0]))
        if v[0] == "pg":
            p = st.heap[v[1]]
            if p[4] == "live" and len(p[1]) == 1 and p[6] is None:
                self.refd(st, [v[1]])
                return ("ptr", p[1][0], p[3], p[2])
        return v

    needs = ()

    def refd(self, st, hs):
        new = st.mem.get("root:new", ())
        if any(("pg", h) in new for h in hs):
            st.mem["root:new"] = tuple(x for x in new if x[1] not in hs)

    # ------------------------------------------------------------ nodes on disk
    def freeze(self, st, v):
        def walk(x):
            if isinstance(x, tuple):
                if x and x[0] == "box":
                    a = st.heap[x[1]]
                    segs = []
                    lo = C(0)
                    for k, y, hi in a[1]:
                        w = st.red(hi - lo).const()
                        lo = hi
                        if w == 0:
                            continue
                        segs.append(("sum", st.heap[y] if k == "cell" else y, hi))
                    return ("frz", tuple(segs))
                return tuple(walk(y) for y in x)
            return x
        return walk(v)

    def thaw(self, st, v):
        if isinstance(v, tuple):
            if v and v[0] == "frz":
                h = st.fresh("v")
                segs = []
                for k, x, hi in v[1]:
                    if x[0] == "pg":
                        e = st.fresh("e")
                        st.heap[e] = x
                        segs.append(("cell", e, hi))
                    else:
                        segs.append((k, x, hi))
                st.heap[h] = ("arr", tuple(segs))
                return ("box", h)
            return tuple(self.thaw(st, x) for x in v)
        return v

    # ------------------------------------------------------------ loop heads
    def at_head(self, st):
        self.settle_pages(st, False)

    def inhand(self, st):
        """pages that live values refer to, not counting references from pages"""
        out, seen, work = set(), set(), []
        for f, ls in self.live(st):
            for l in ls:
                if l in f.locals:
                    work.append(f.locals[l])
        while work:
            v = work.pop()
            if not isinstance(v, tuple):
                continue
            if len(v) == 2 and v[0] == "pg":
                out.add(v[1])
                continue
            refs = []
            ADom.heap_refs(self, v, refs)
            for r in refs:
                if r[0] == "h" and r not in seen:
                    seen.add(r)
                    x = st.heap.get(r[1])
                    if x is not None and x[0] != "page":
                        work.append(x)
                elif r[0] == "l" and r not in seen:
                    seen.add(r)
                    for f in st.frames:
                        if f.fid == r[1] and r[2] in f.locals:
                            work.append(f.locals[r[2]])
            work.extend(x for x in v if isinstance(x, tuple))
        return out

    def kids(self, content):
        out = []

        def walk(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == "pg":
                    out.append(v[1])
                    return
                for x in v:
                    walk(x)
        walk(content)
        return out

    def settle_pages(self, st, final):
        """replace the contents of pages by the places they fit, children first"""
        pages = {h: v for h, v in st.heap.items() if v[0] == "page" and v[6] is not None and v[4] == "live"}
        hand = set() if final else self.inhand(st)
        if not final and any(v[5] and v[2] == 0 for v in pages.values()) and not st.mem.get("chain_ok"):
            if self.chain(st) is not None:
                return
            st.mem["chain_ok"] = True
            if st.mem.get("root:chain"):
                st.mem["root:chain"] = st.mem["root:orig"] = ()
        done, prog = set(), True
        todo = dict(pages)
        while todo and prog:
            prog = False
            for h in sorted(todo):
                v = st.heap[h]
                if v[6][0] == "stale":
                    del todo[h]
                    prog = True
                    continue
                ks = [k for k in self.kids(v[6]) if k in st.heap and st.heap[k][0] == "page"]
                leaf = self.isleaf(v[6])
                if leaf:
                    ks = []
                if any(k in todo for k in ks):
                    continue
                del todo[h]
                prog = True
                if v[6][0] == "watch":
                    why = self.fits(st, h, v[6], None)
                    if why is not None:
                        st.heap[h] = v[:6] + (("stale", why),)
                    elif not any(k in hand for k in ks):
                        st.heap[h] = v[:6] + (None,)
                    continue
                if any(k in hand for k in ks):
                    # its children are still being worked on: it is well-formed as long as they keep their places
                    if not v[5]:
                        self.needs = []
                        why = self.fits(st, h, v[6], v[1][0])
                        st.heap[h] = v[:6] + (("stale", why) if why else ("watch", tuple(self.needs)),)
                    continue
                changed = v[5] or any(st.heap[k][5] or st.heap[k][4] != "live" for k in ks)
                if changed:
                    roles, why = self.roles(st, h, v)
                else:
                    roles, why = v[1], None
                if changed:
                    self.refd(st, self.kids(v[6]))
                if roles:
                    st.heap[h] = v[:1] + (tuple(roles),) + v[2:4] + ("live", changed, None)
                else:
                    st.heap[h] = v[:6] + (("stale", why),)
        for t in st.mem.get("root:new", ()):
            if t[1] not in hand and t != st.mem["root:root"] and st.heap[t[1]][4] == "live":
                raise Bug("B02", "an allocated page is referenced from nowhere")
        st.mem["root:track"] = tuple(("pg", h) for h in sorted(st.heap) if st.heap[h][0] == "page" and st.heap[h][6] is not None)

    def isleaf(self, c):
        return c[0] == "agg" and c[2] == self.lay.v["Leaf"]

    def roles(self, st, h, v):
        self.needs = []
        out, why = [], ""
        for r in ("l", "c", "r"):
            w = self.fits(st, h, v[6], r)
            if w is None:
                out.append(r)
            elif r in v[1] or not why:
                why = w
        return out, why

    def fits(self, st, h, content, role):
        """None, or why the node on disk is not a well-formed node of that place"""
        c = content
        if c[0] == "stale":
            return c[1]
        if c[0] == "watch":
            for pg, need in c[1]:
                p = st.heap[pg[1]]
                if p[4] != "live":
                    return "a freed page is still referenced from the tree"
                rs = p[1]
                if p[6] is not None and p[6][0] == "stale":
                    return p[6][1]
                if p[6] is not None and p[6][0] != "watch" and p[5]:
                    rs = [r for r in ("l", "c", "r") if self.fits(st, pg[1], p[6], r) is None]
                if need not in rs:
                    return "a pointer of an internal node leads to a subtree that does not lie between its keys"
            return None
        lay = self.lay
        isroot = st.mem.get("root:root") == ("pg", h)
        if c[2] == lay.v["Leaf"]:
            n = c[3][0]
            ln, ents = lay.get(LEAF, n, "len"), lay.get(LEAF, n, "entries")
            j = ln[1]
            if not self.zero(st, ents[1][-1][2] - DL if ents[1] else C(0) - DL):
                return "a leaf does not have room for exactly its degree"
            order, lo, got = 0, C(0), False
            for _, x, hi in ents[1]:
                w = hi - lo
                if not self.zero(st, w):
                    if x == NONE:
                        if not st.ge(lo - j):
                            return "a leaf has a gap, or its length counts entries it does not have"
                    else:
                        if x[0] != "agg" or x[1] != OPTION or x[3][0][0] != "agg":
                            raise Unsupported("entry is %s" % (x[0],))
                        if not st.ge(j - hi):
                            return "the length of a leaf does not count all its entries"
                        k, val = x[3][0][3]
                        s = self.side(k[1])
                        o = ("lt", "kk", "gt").index(s)
                        if o < order or s == "kk" and got:
                            return "the entries of a leaf are not in strictly increasing order"
                        order = o
                        if s == "kk":
                            got = val
                            if not self.zero(st, w - 1):
                                return "a key occurs twice in a leaf"
                        if s == "lt" and role == "r" or s == "gt" and role == "l" or s == "kk" and role != "c":
                            return "an entry is in a leaf the search for it does not lead to"
                lo = hi
            post = self.expected(st)
            if role == "c" and post != "?":
                if post is None and got:
                    return "a removed entry is still there"
                if post is not None and not got:
                    return "an entry that should be there is lost"
                if post is not None and got != post:
                    return "the entry does not have the value stored last"
            if not st.ge(DL - j):
                return "a leaf holds more than its degree"
            if not isroot:
                self.ip.minleaf(st)
                if not st.ge(j - self.ip.minleaf(st)):
                    return "a leaf other than the root is less than half full"
            return None
        n = c[3][0]
        ln, keys, ptrs = (lay.get(INT, n, x) for x in ("len", "keys", "pointers"))
        j = ln[1]
        if not keys[1] or not self.zero(st, keys[1][-1][2] - DI) or not self.zero(st, ptrs[1][-1][2] - DI - 1):
            return "an internal node does not have room for exactly its degree"
        lo, cut, gts = C(0), C(0), False
        for _, x, hi in keys[1]:
            if not self.zero(st, hi - lo):
                if x == NONE:
                    if not st.ge(lo - j):
                        return "an internal node has a gap among its keys, or its length counts keys it does not have"
                else:
                    if not st.ge(j - hi):
                        return "the length of an internal node does not count all its keys"
                    s = self.sep(x[3][0])[1]
                    if s == "le":
                        if gts:
                            return "the keys of an internal node are not in increasing order"
                        if role == "r":
                            return "a key is in a subtree the search for it does not lead to"
                        cut = hi
                    else:
                        gts = True
                        if role == "l":
                            return "a key is in a subtree the search for it does not lead to"
            lo = hi
        lo, got = C(0), False
        for _, x, hi in ptrs[1]:
            if not self.zero(st, hi - lo):
                if x[0] == "int":
                    if st.red(x[1]).const() != 0:
                        raise Unsupported("page number %s" % (x[1],))
                    if not st.ge(lo - j - 1):
                        return "an internal node has fewer pointers than its keys need"
                elif x[0] in ("ptr", "pg"):
                    if not st.ge(j + 1 - hi):
                        return "an internal node has more pointers than its keys need"
                    if x[0] == "pg":
                        p = st.heap[x[1]]
                        if p[4] != "live":
                            return "a freed page is still referenced from the tree"
                        rs = p[1]
                        if p[6] is not None and p[6][0] == "stale":
                            return p[6][1]
                        if p[6] is not None and p[6][0] != "watch":
                            rs = [r for r in ("l", "c", "r") if self.fits(st, x[1], p[6], r) is None]
                    else:
                        rs = (x[1],)
                    if role in ("l", "r"):
                        need = role
                    elif st.ge(cut - hi):
                        need = "l"
                    elif self.zero(st, lo - cut) and self.zero(st, hi - cut - 1):
                        need, got = "c", True
                    elif st.ge(lo - cut - 1):
                        need = "r"
                    else:
                        return "a subtree lies across the keys that should bound it"
                    if x[0] == "pg":
                        self.needs.append((x, need))
                    if need not in rs:
                        return "a pointer of an internal node leads to a subtree that does not lie between its keys"
                else:
                    raise Unsupported("pointer is %s" % (x[0],))
            lo = hi
        if role == "c" and not got:
            return "the subtree a key belongs to is no longer reachable"
        if not st.ge(DI - j):
            return "an internal node holds more keys than its degree"
        if isroot:
            if not st.ge(j - 1):
                return "the root is an internal node without keys"
        elif not st.ge(j + 1 - self.ip.minint(st)):
            return "an internal node other than the root is less than half full"
        return None

    def parameters(self, st):
        r = set()
        for l in list(st.lin) + list(st.eqs.values()):
            r |= {x for x in l.syms() if not SYM.match(x) and x != "nlen"}
        return sorted(r)

    def zero(self, st, l):
        l = st.red(l)
        c = l.const()
        if c is not None:
            return c == 0
        return st.ge(l) and st.ge(-l)

    def expected(self, st):
        pre = st.mem.get("pre")
        if self.post is not None:
            return self.post(pre)
        if pre is None:
            return "?"
        return ("val", "old") if pre else None

    # ------------------------------------------------------------ the chain of leaves
    def chain(self, st):
        ch = st.mem.get("root:chain")
        if not ch:
            return None
        live = [t for t in ch if st.heap[t[1]][4] == "live"]
        orig = [t for t in ch if t in st.mem["root:orig"]]
        for i, t in enumerate(live):
            p = st.heap[t[1]]
            if p[6] is None or p[6][0] in ("stale", "watch"):
                continue
            nx = self.lay.get(LEAF, p[6][3][0], "next_leaf")
            if i + 1 < len(live):
                want = {some(live[i + 1])}
                if t in orig and live[i + 1] in orig and orig.index(live[i + 1]) == orig.index(t) + 1:
                    want.add(("nxt", t))
            else:
                want = {("nxt", orig[-1])}
            if nx not in want:
                return "the chain of leaves does not lead from a leaf to the next one"
        return None


class BInterp(AInterp):
    def __init__(self, lay, dom):
        AInterp.__init__(self, lay.prog, dom)
        self.lay = lay
        dom.ip = self
        dom.interp = self
        self.override = dict(arrays.OVER)
        o = self.override
        o["std::vec::Vec::<T, A>::push"] = self.push
        o["std::vec::Vec::<T, A>::pop"] = self.pop
        o["std::vec::Vec::<T, A>::is_empty"] = self.is_empty
        o["std::cmp::max"] = o["std::cmp::Ord::max"] = self.maxmin
        o["std::cmp::min"] = o["std::cmp::Ord::min"] = self.maxmin
        o["std::clone::Clone::clone"] = self.clone
        o["std::mem::take"] = self.take
        for n in ("get_root_page", "set_root_page", "get_len", "set_len", "get_leaf_degree", "get_internal_degree", "get_page", "allocate_node", "deallocate_node", "write_node", "validate_key", "validate_value"):
            for path in self.prog.fns:
                if path.startswith("crate::bp_tree::pager::Pager::<") and path.endswith("::" + n):
                    self.models[path] = getattr(self, n)

    # ------------------------------------------------------------ arithmetic
    def half(self, st, x):
        return self.divide(st, x, 2)[0][1]

    def minleaf(self, st):
        return self.half(st, DL + 1)

    def minint(self, st):
        q = self.half(st, DI + 1)
        return q if st.ge(q - 2) else C(2) if st.ge(C(2) - q) else q

    def maxmin(self, ip, st, args, t, f):
        mx = f["path"].endswith("max")
        out = []
        for s, ge in self.decide_rel(st, "Ge", args[0], args[1]):
            out += self.finish(s, t, args[0] if ge == mx else args[1])
        return out

    def clone(self, ip, st, args, t, f):
        v = st.strip_refs(args[0])
        if v[0] == "agg" and v[1] == OPTION and v[2] == 1 and v[3][0][0] in ("k", "val") or v[0] in ("k", "val", "int", "pg"):
            return self.finish(st, t, v)
        if v == NONE:
            return self.finish(st, t, v)
        raise Unsupported("clone of %s" % v[0])

    def take(self, ip, st, args, t, f):
        a = args[0][1]
        v = st.read(a)
        if v[0] in ("pg", "ptr", "int"):
            st.write(a, integer(0))
            return self.finish(st, t, v)
        if v[0] == "nxt" or v[0] == "agg" and v[1] == OPTION:
            st.write(a, NONE)
            return self.finish(st, t, v)
        raise Unsupported("take of " + v[0])

    def cmp_values(self, st, a, b):
        a, b = st.strip_refs(a), st.strip_refs(b)
        if a[0] == "k" and b[0] == "k":
            sg = sorted(self.dom.signs(a, b))
            out = []
            for s in sg:
                x = st.copy() if len(sg) > 1 else st
                if len(sg) > 1:
                    x.note("%s %s %s" % (a[1], "<=>"[s + 1], b[1]))
                out.append((x, s))
            return out
        if a[0] == "pg" and b[0] == "pg":
            if a == b:
                return [(st, 0)]
        return AInterp.cmp_values(self, st, a, b)

    # ------------------------------------------------------------ pager
    def get_root_page(self, ip, st, args, t):
        return self.finish(st, t, st.mem["root:root"])

    def set_root_page(self, ip, st, args, t):
        if args[1][0] != "pg":
            raise Bug("B03", "the root page is set to a number that is no page of the tree")
        st.mem["root:root"] = args[1]
        st.note("root page set")
        return self.finish(st, t, ok(UNIT))

    def get_len(self, ip, st, args, t):
        return self.finish(st, t, st.mem["root:len"])

    def set_len(self, ip, st, args, t):
        st.mem["root:len"] = args[1]
        return self.finish(st, t, ok(UNIT))

    def get_leaf_degree(self, ip, st, args, t):
        return self.finish(st, t, ("int", DL))

    def get_internal_degree(self, ip, st, args, t):
        return self.finish(st, t, ("int", DI))

    def validate_key(self, ip, st, args, t):
        return self.finish(st, t, ok(UNIT))

    validate_value = validate_key

    def nodearg(self, st, v):
        v = st.strip_refs(v)
        if v[0] != "agg" or v[1] != NODE:
            raise Unsupported("node is " + v[0])
        return v

    def pageof(self, v):
        if v[0] != "pg":
            if v[0] == "int" and v[1].const() == 0:
                raise Bug("B03", "an unused pointer is followed")
            raise Unsupported("page is " + v[0])
        return v[1]

    def track(self, st, h):
        t = st.mem.get("root:track", ())
        if ("pg", h) not in t:
            st.mem["root:track"] = t + (("pg", h),)

    def write_node(self, ip, st, args, t):
        h = self.pageof(args[1])
        v = self.nodearg(st, args[2])
        p = st.heap[h]
        if p[4] != "live":
            raise Bug("B02", "a freed page is written")
        st.heap[h] = p[:5] + (True, self.dom.freeze(st, v))
        self.track(st, h)
        st.note("a %s page is written" % "/".join(p[1]))
        return self.finish(st, t, ok(UNIT))

    def allocate_node(self, ip, st, args, t):
        v = self.nodearg(st, args[1])
        leaf = v[2] == self.lay.v["Leaf"]
        h = st.fresh("pg")
        st.heap[h] = ("page", ("l", "c", "r"), 0 if leaf else "m", "p", "live", True, self.dom.freeze(st, v))
        self.track(st, h)
        st.mem["root:new"] = st.mem.get("root:new", ()) + (("pg", h),)
        if leaf and st.mem.get("root:chain"):
            ch = list(st.mem["root:chain"])
            i = ch.index(st.mem["root:orig"][0])
            st.mem["root:chain"] = tuple(ch[:i + 1] + [("pg", h)] + ch[i + 1:])
        st.note("a page is allocated")
        return self.finish(st, t, ok(("pg", h)))

    def deallocate_node(self, ip, st, args, t):
        h = self.pageof(args[1])
        p = st.heap[h]
        if p[4] != "live":
            raise Bug("B02", "a page is freed twice")
        st.heap[h] = p[:4] + ("free", True, None)
        st.note("a %s page is freed" % "/".join(p[1]))
        return self.finish(st, t, ok(UNIT))

    def get_page(self, ip, st, args, t):
        h = self.pageof(args[1])
        p = st.heap[h]
        if p[4] != "live":
            raise Bug("B02", "a freed page is read")
        out = []
        if p[6] is not None:
            if p[6][0] in ("stale", "watch"):
                raise Unsupported("a page that is being rewritten is read")
            return self.finish(st, t, ok(self.dom.thaw(st, p[6])))
        for role in p[1]:
            for leaf in ((True,) if p[2] == 0 else (True, False) if p[2] == "?" else (False,)):
                for s, v in (self.leaf if leaf else self.internal)(st.copy(), h, role, p):
                    q = s.heap[h]
                    s.heap[h] = ("page", (role,), 0 if leaf else p[2], p[3], "live", q[5], self.dom.freeze(s, v))
                    if leaf:
                        self.enchain(s, h, p[3])
                    out += self.finish(s, t, ok(v))
        return out

    def enchain(self, st, h, rel):
        ch = st.mem.get("root:chain")
        if ch is None:
            return
        if ("pg", h) in ch:
            return
        if not ch:
            ch = (("pg", h),)
            st.mem["root:orig"] = ch
        elif rel == "a":
            ch = ch + (("pg", h),)
            st.mem["root:orig"] = st.mem["root:orig"] + (("pg", h),)
        elif rel == "b":
            ch = (("pg", h),) + ch
            st.mem["root:orig"] = st.mem["root:orig"] + (("pg", h),)
        st.mem["root:chain"] = ch

    # ------------------------------------------------------------ arbitrary well-formed nodes
    def build(self, st, parts, total, pad):
        """parts: (value, width). The array holding them one after another, padded to total"""
        h = st.fresh("v")
        segs, at = [], C(0)
        for v, w in parts:
            at = at + w
            if v[0] == "pg":
                e = st.fresh("e")
                st.heap[e] = v
                segs.append(("cell", e, at))
            else:
                segs.append(("sum", v, at))
        st.add_ge(total - at)
        segs.append(("sum", pad, total))
        st.heap[h] = ("arr", tuple(segs))
        return ("box", h), at

    def leaf(self, st, h, role, p):
        case, rel = self.dom.case, p[3]
        spec = {
            ("eq", "c"): "lt kk? gt", ("eq", "l"): "lt", ("eq", "r"): "gt",
            ("less", "c"): {"p": "lt K? md kk? gt", "a": "md kk? gt", "b": "lt"}[rel], ("less", "l"): {"p": "lt K? md", "a": "md", "b": "lt"}[rel], ("less", "r"): "gt",
            ("more", "c"): {"p": "lt kk? md K? gt", "a": "gt", "b": "lt kk? md"}[rel], ("more", "l"): "lt", ("more", "r"): {"p": "md K? gt", "a": "gt", "b": "md"}[rel],
        }[case, role].split()
        if case == "less" and role == "c" and rel == "b" or case == "more" and role == "c" and rel == "a":
            return
        alts = [(st, [])]
        for c in spec:
            nxt = []
            for s, parts in alts:
                if c.endswith("?"):
                    c0 = c[:-1]
                    for there in (True, False):
                        s2 = s.copy()
                        name = "pre" if c0 == "kk" else "hadK"
                        if s2.mem.get(name) not in (None, there):
                            continue
                        s2.mem[name] = there
                        if case == "eq":
                            s2.mem["hadK"] = there
                        s2.note("%s is %sthere" % (c0, "" if there else "not "))
                        nxt.append((s2, parts + [(some(entry(c0, rel)), C(1))] if there else list(parts)))
                else:
                    nxt.append((s, parts + [(some(entry(c, rel)), V(s.fresh("n")))]))
            alts = nxt
        for s, parts in alts:
            try:
                b, n = self.build(s, parts, DL, NONE)
                if s.mem["root:root"] != ("pg", h):
                    s.add_ge(n - self.minleaf(s))
                nx = ("nxt", ("pg", h))
                yield s, self.lay.node(LEAF, self.lay.make(LEAF, len=("int", n), entries=b, next_leaf=nx))
            except Infeasible:
                pass

    def internal(self, st, h, role, p):
        """a node that is read as such (not popped)"""
        rel = p[3]
        lvl = {"?": "?", 1: 0, "m": "?", 2: "m"}[p[2]]
        j, m = V(st.fresh("n")), V(st.fresh("n"))
        if role == "l":
            ks, ps = [("le", j)], [("l", j + 1)]
        elif role == "r":
            ks, ps = [("sg", j)], [("r", j + 1)]
        else:
            ks, ps = [("le", j), ("sg", m)], [("l", j), ("c", C(1)), ("r", m)]
        b, n = self.build(st, [(some(key(c, rel)), w) for c, w in ks], DI, NONE)
        q, _ = self.build(st, [(("ptr", r, rel, lvl), w) for r, w in ps], DI + 1, integer(0))
        st.add_ge(n - 1)
        if st.mem["root:root"] != ("pg", h):
            st.add_ge(n + 1 - self.minint(st))
        yield st, self.lay.node(INT, self.lay.make(INT, len=("int", n), keys=b, pointers=q))

    # ------------------------------------------------------------ the search history
    def push(self, ip, st, args, t, f):
        a = args[0][1]
        v = st.read(a)
        box = v
        if v[0] == "box":
            a, v = (("h", v[1]), ()), st.heap[v[1]]
        x = args[1]
        if not (x[0] == "agg" and x[1] == "tuple" and len(x[3]) == 3 and x[3][0][0] == "pg"):
            return arrays.vpush(ip, st, args, t, f)
        pg, node, idx = x[3]
        if node[0] != "agg" or node[1] != NODE or idx[0] != "int":
            raise Unsupported("search history of another form")
        if node[2] != self.lay.v["Internal"]:
            raise Unsupported("a leaf in the search history")
        ptrs = self.lay.get(INT, node[3][0], "pointers")
        c = self.cell(st, (("h", ptrs[1]), ()), idx[1])
        if c is None:
            raise arrays.Exposed(self.isolate(st, (("h", ptrs[1]), ()), idx[1]))
        child = st.heap[c]
        if child[0] != "pg":
            raise Bug("B03", "the search follows an unused pointer")
        if v == ("arr", ()):
            if pg != st.mem["root:root"]:
                raise Bug("B03", "the search history does not start at the root")
        elif v[0] == "pstack":
            if v[2] != pg:
                raise Bug("B03", "the search history does not follow the path of the search")
        else:
            raise Unsupported("history is " + v[0])
        role = st.heap[child[1]][1][0]
        self.onpath(role)
        st.mem["root:top"] = child
        st.mem["toprole"] = role
        st.write(a, ("pstack", role, child))
        return self.finish(st, t, UNIT)

    def onpath(self, role):
        if self.dom.case == "eq" and role != "c" or self.dom.case == "less" and role == "r" or self.dom.case == "more" and role == "l":
            raise Bug("B03", "the search for a key leaves the path that leads to it")

    def stackat(self, st, r):
        a = r[1]
        v = st.read(a)
        while v[0] == "ref":
            a = v[1]
            v = st.read(a)
        if v[0] == "box":
            a, v = (("h", v[1]), ()), st.heap[v[1]]
        return a, v

    def is_empty(self, ip, st, args, t, f):
        a, v = self.stackat(st, args[0])
        if v[0] == "pstack":
            return self.finish(st, t, FALSE)
        if v[0] == "arr":
            return self.finish(st, t, ("bool", not v[1]))
        raise Unsupported("is_empty of " + v[0])

    def unrel(self, st):
        """every key at hand lies within the path child of the node that is popped"""
        def walk(v):
            if isinstance(v, tuple):
                if len(v) == 3 and v[0] == "k":
                    return ("k", v[1], "p")
                if v and v[0] in ("page",):
                    return v
                if v and v[0] == "ptr":
                    return ("ptr", v[1], "p", v[3])
                return tuple(walk(x) for x in v)
            return v
        for f in st.frames:
            for l in f.locals:
                f.locals[l] = walk(f.locals[l])
        for h in st.heap:
            st.heap[h] = walk(st.heap[h])

    def pop(self, ip, st, args, t, f):
        a, v = self.stackat(st, args[0])
        if v[0] == "arr" and not v[1]:
            return self.finish(st, t, NONE)
        if v[0] != "pstack":
            raise Unsupported("pop of " + v[0])
        _, prole, top = v
        out = []
        for isroot in (True, False):
            for role in (("c",) if prole == "c" else ("c", prole)):
                if isroot and role != "c":
                    continue
                s = st.copy()
                try:
                    self.unrel(s)
                    lvl = 1 if not s.mem.get("popped") else 2
                    s.mem["popped"] = True
                    if isroot:
                        pg = s.mem["root:root"]
                        if s.heap[pg[1]][4] != "live":
                            continue
                    else:
                        pg = self.dom.page(s, (role,), lvl, "p")
                    tk = "p" if prole != role else role
                    idx, j, m, w = (V(s.fresh("n")) for _ in range(4))
                    cl = 0 if lvl == 1 else "m"
                    if role == "c" and prole == "c":
                        ks = [("le", "b", idx), ("sg", "a", m)]
                        ps = [("l", "b", idx), top, ("r", "a", m)]
                    elif role == "c" and prole == "l":
                        ks = [("le", "b", idx), ("le", "a", j + 1), ("sg", "a", m)]
                        ps = [("l", "b", idx), top, ("l", "a", j), ("c", "a", C(1)), ("r", "a", m)]
                    elif role == "c":
                        ks = [("le", "b", j), ("sg", "b", m + 1), ("sg", "a", w)]
                        ps = [("l", "b", j), ("c", "b", C(1)), ("r", "b", m), top, ("r", "a", w)]
                        idx = j + m + 1
                    else:
                        k = "le" if role == "l" else "sg"
                        ks = [(k, "b", idx), (k, "a", m)]
                        ps = [(role, "b", idx), top, (role, "a", m)]
                    b, n = self.build(s, [(some(key(c, r)), x) for c, r, x in ks], DI, NONE)
                    q, _ = self.build(s, [(x, C(1)) if x[0] == "pg" else (("ptr", x[0], x[1], cl), x[2]) for x in ps], DI + 1, integer(0))
                    s.add_ge(n - 1)
                    if not isroot:
                        s.add_ge(n + 1 - self.minint(s))
                    node = self.lay.node(INT, self.lay.make(INT, len=("int", n), keys=b, pointers=q))
                    x = s.heap[pg[1]]
                    s.heap[pg[1]] = ("page", (role,), lvl, "p", "live", False, self.dom.freeze(s, node))
                    self.track(s, pg[1])
                    s.mem["root:top"] = pg
                    s.mem["toprole"] = role
                    s.write(a, ("arr", ()) if isroot else ("pstack", role, pg))
                    s.note("the parent (%s%s) is popped" % ("root, " if isroot else "", role))
                    out += self.finish(s, t, some(tup(pg, node, ("int", idx))))
                except Infeasible:
                    pass
        return out


# ---------------------------------------------------------------- operations
MAP = "crate::bp_tree::map::BpMap::<T, U>::"


class Op:
    def __init__(self, lay, name, case, deg2):
        self.lay, self.name, self.case, self.deg2 = lay, name, case, deg2
        self.path = MAP + name
        self.probs, self.paths = [], 0

    def post(self, pre):
        if self.case == "eq" and self.name == "insert":
            return ("val", "new")
        if self.case == "eq" and self.name == "remove":
            return None
        if pre is None:
            return "?"
        return ("val", "old") if pre else None

    def run(self):
        fn = self.lay.prog.fns.get(self.path)
        if fn is None:
            raise Unsupported("%s is gone" % self.path)
        d = BDom(self.lay, self.case, self.post)
        ip = self.ip = BInterp(self.lay, d)
        st = State()
        st.add_ge(DL - 1)
        st.add_ge(DI - 2)
        if self.deg2:
            st.add_eq(DI - 2)
        else:
            st.add_ge(DI - 3)
        root = d.page(st, ("c",), "?", "p")
        st.mem.update({"root:root": root, "root:top": root, "root:R": root, "toprole": "c", "root:len": ("int", LEN)})
        if self.name in ("insert", "remove"):
            st.mem["root:chain"] = ()
        st.heap["self"] = ("agg", "crate::bp_tree::map::BpMap", 0, (("opaque", "pager"),))
        me = ("ref", (("h", "self"), ()))
        k = key("kk" if self.case == "eq" else "K")
        st.heap["karg"] = k
        ref = ("ref", (("h", "karg"), ()))
        args = {"insert": [me, k, ("val", "new")], "remove": [me, ref], "get": [me, ref], "contains_key": [me, ref]}.get(self.name, [me])
        outs = ip.run(start(ip, fn, args, st))
        self.unsupported = sorted(set(ip.unsupported))
        for o in outs:
            self.paths += 1
            if o.kind == "bug":
                self.probs.append((getattr(o, "cat", "B03"), o.msg, o.state.trace[-12:], o.where))
                continue
            if o.kind == "panic":
                self.probs.append(("B03", "may panic: " + o.msg, o.state.trace[-12:], o.where))
                continue
            try:
                for c, m in self.check(d, o):
                    self.probs.append((c, m, o.state.trace[-12:], ""))
            except Bug as e:
                self.probs.append((e.cat, e.text, o.state.trace[-12:], ""))
            except Unsupported as e:
                self.unsupported.append(str(e))
        return self

    def check(self, d, o):
        st, v = o.state, o.value
        if v[0] != "agg" or v[1] != RESULT:
            raise Unsupported("result is " + v[0])
        if v[2] == 1:
            yield "B03", "an error is reported although every call succeeded"
            return
        r = v[3][0]
        st.frames = []
        d.expected_pre = None
        dirty = bool(st.mem.get("root:track"))
        why = d.chain(st) if not st.mem.get("chain_ok") else None
        if why:
            yield "chain", why
        d.settle_pages(st, True)
        R, root, top = (st.mem["root:" + x] for x in ("R", "root", "top"))
        for h, p in sorted(st.heap.items()):
            if p[0] == "page" and p[4] == "live" and p[6] is not None and p[6][0] == "stale":
                yield ("B02" if "freed" in p[6][1] else "tree"), p[6][1]
                return
        if top != R and root != R:
            yield "tree", "the root changes although the path to it was not followed"
        elif st.heap[root[1]][4] != "live":
            yield "B02", "the root page is a freed page"
        elif "c" not in st.heap[root[1]][1]:
            yield "tree", "the root no longer leads to every key"
        if top != R:
            p = st.heap[top[1]]
            if p[4] != "live":
                yield "B02", "a freed page is still referenced from the tree"
            elif st.mem["toprole"] not in p[1]:
                yield "tree", "a subtree no longer holds the keys that the search for them leads to"
        had = st.mem.get("hadK")
        n, m = st.mem["root:len"], None
        if self.name in ("insert", "remove"):
            if had is None:
                raise Unsupported("no leaf was read")
            want = LEN + ({"insert": 1, "remove": -1}[self.name] if had == (self.name == "remove") else 0)
            if n[0] != "int" or not d.zero(st, n[1] - want):
                yield "len", "the stored length does not change by exactly the entries added or removed"
            if self.case == "eq":
                exp = some(tup(key("kk"), ("val", "old"))) if had else NONE
                if self.strip(r) != exp:
                    yield "B03", "the answer is not the entry that was there"
        else:
            if dirty and any(p[0] == "page" and p[5] for p in st.heap.values()):
                yield "B03", "a query writes a page"
            if n != ("int", LEN):
                yield "len", "a query changes the stored length"
            if self.name in ("get", "contains_key") and self.case == "eq":
                exp = {"get": some(("val", "old")) if had else NONE, "contains_key": ("bool", had)}[self.name]
                if r != exp:
                    yield "B03", "the answer is not the value stored under the key"
            if self.name in ("min", "max"):
                if r == NONE:
                    if had is not False:
                        yield "B03", "nothing is answered for a map that may hold a key"
                elif r[0] == "agg" and r[3][0][0] == "k":
                    if had is not False and r[3][0][1] == ("gt" if self.name == "min" else "lt"):
                        yield "B03", "the answer is not the %s key" % ("least" if self.name == "min" else "greatest")
                else:
                    raise Unsupported("answer is %s" % (r,))

    @staticmethod
    def strip(v):
        def walk(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == "k":
                    return ("k", x[1], "p")
                return tuple(walk(y) for y in x)
            return x
        return walk(v)


if __name__ == "__main__":
    import sys, time
    from .. import mir
    lay = Lay(mir.load(sys.argv[1]))
    for name in sys.argv[2].split(","):
        for case in sys.argv[3].split(",") if len(sys.argv) > 3 else ("eq", "less", "more"):
            for deg2 in (False, True):
                t = time.time()
                r = Op(lay, name, case, deg2).run()
                print(name, case, deg2, "paths", r.paths, "steps", r.ip.steps, "%.1fs" % (time.time() - t))
                for u in r.unsupported[:6]:
                    print("   UNSUPPORTED", u)
                seen = set()
                for p in r.probs:
                    if (p[0], p[1]) not in seen:
                        seen.add((p[0], p[1]))
                        print("   ", p[0], p[1], p[3], "|", "; ".join(p[2]))
