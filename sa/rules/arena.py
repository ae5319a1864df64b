"""Typed arena: abstract interpretation of every operation over a lazily discovered table of blocks; indices are
linear expressions, and each path's final table is compared with the table it started from."""
from ..interp import (Interp, State, Outcome, Unsupported, Infeasible, Bug, OPTION, UNIT, NONE, MOVED, VEC, some, tup, integer)
from ..lin import V, C
from ..simple import Dom, start


class ArenaDom(Dom):
    tolerant = True
    fixed = ("v0",)

    def on_drop(self, st, v):
        k = v[0]
        if k == "val":
            st.mem["drops"] = st.mem.get("drops", ()) + (v[1],)
        elif k == "agg":
            for x in v[3]:
                self.on_drop(st, x)

    # a table is ("tab", id): entries known so far are mem[("at", id)] = ((Lin index, heap id), ...), length mem[("len", id)]
    def table(self, st, kind):
        s = st.fresh("w")
        st.mem[("kind", s)] = kind
        st.mem[("len", s)] = V(st.fresh("n"))
        st.mem[("at", s)] = ()
        return ("tab", s)

    def bounds(self, st, tab, i):
        """list of (state, inside)"""
        out = []
        for s, sg in self.interp.decide_sign(st, i - st.mem[("len", tab)], "index %s - length" % i):
            out.append((s, sg < 0))
        return out

    def locate(self, st, tab, i):
        """list of (state, heap id) of element i, which is inside"""
        out = []
        todo = [(st, 0)]
        while todo:
            s, k = todo.pop()
            at = s.mem[("at", tab)]
            if k == len(at):
                for s2, v in self.fresh_elem(s, s.mem[("kind", tab)]):
                    h = s2.fresh("x")
                    s2.heap[h] = v
                    s2.mem[("pre", h)] = v
                    s2.mem[("where", h)] = (tab, i)
                    s2.mem[("at", tab)] = s2.mem[("at", tab)] + ((i, h),)
                    out.append((s2, h))
                continue
            for s2, sg in self.interp.decide_sign(s, i - at[k][0], "%s - %s" % (i, at[k][0])):
                if sg == 0:
                    out.append((s2, at[k][1]))
                else:
                    todo.append((s2, k + 1))
        return out

    def fresh_elem(self, st, kind):
        if kind == "chunks":
            return [(st, self.table(st, "blocks"))]
        s1, s2, s3 = st.copy(), st.copy(), st.copy()
        s1.note("the block is occupied")
        s2.note("the block is vacant, last of the free list")
        s3.note("the block is vacant with a successor")
        v = s1.fresh("s")
        nx = ("agg", self.entry, 0, (("int", V(s3.fresh("n"))), ("int", V(s3.fresh("n")))))
        rest = [(s2, ("agg", self.block, self.vac, (NONE,))), (s3, ("agg", self.block, self.vac, (some(nx),)))]
        try:
            # an occupied block counts
            if "size0" in s1.mem:
                s1.add_ge(s1.mem["size0"][1] - 1)
        except Infeasible:
            return rest
        return rest + [(s1, ("agg", self.block, self.occ, (("val", v),)))]

    def roots(self, st):
        return [("ref", (("h", h), ())) for h in st.heap]


def models(dom):
    M = {}

    def tab(st, r):
        v = st.strip_refs(r)
        if v[0] != "tab":
            raise Unsupported("vector is " + v[0])
        return v[1]

    def vlen(ip, st, args, t):
        return ip.finish(st, t, ("int", st.mem[("len", tab(st, args[0]))]))

    def vempty(ip, st, args, t):
        return [x for s, sg in ip.decide_sign(st, st.mem[("len", tab(st, args[0]))]) for x in ip.finish(s, t, ("bool", sg == 0))]

    def vnew(ip, st, args, t):
        v = dom.table(st, "new")
        st.mem[("len", v[1])] = C(0)
        return ip.finish(st, t, v)

    def vpush(ip, st, args, t):
        w = tab(st, args[0])
        i = st.mem[("len", w)]
        h = st.fresh("x")
        st.heap[h] = args[1]
        st.mem[("where", h)] = (w, i)
        st.mem[("at", w)] = st.mem[("at", w)] + ((i, h),)
        st.mem[("len", w)] = i + 1
        return ip.finish(st, t, UNIT)

    def vindex(ip, st, args, t):
        w = tab(st, args[0])
        if args[1][0] != "int":
            raise Unsupported("index is " + args[1][0])
        out = []
        for s, ok in dom.bounds(st, w, args[1][1]):
            if not ok:
                out += ip.panic(s, "index out of bounds")
                continue
            for s2, h in dom.locate(s, w, args[1][1]):
                out += ip.finish(s2, t, ("ref", (("h", h), ())))
        return out

    def vget(ip, st, args, t):
        w = tab(st, args[0])
        out = []
        for s, ok in dom.bounds(st, w, args[1][1]):
            if not ok:
                out += ip.finish(s, t, NONE)
                continue
            for s2, h in dom.locate(s, w, args[1][1]):
                out += ip.finish(s2, t, some(("ref", (("h", h), ()))))
        return out

    def vlast(ip, st, args, t):
        w = tab(st, args[0])
        out = []
        for s, sg in ip.decide_sign(st, st.mem[("len", w)]):
            if sg == 0:
                out += ip.finish(s, t, NONE)
                continue
            for s2, h in dom.locate(s, w, s.mem[("len", w)] - 1):
                out += ip.finish(s2, t, some(("ref", (("h", h), ()))))
        return out

    def vderef(ip, st, args, t):
        tab(st, args[0])
        return ip.finish(st, t, args[0])

    for p in ("std::vec::Vec::<T, A>::", "core::slice::<impl [T]>::", "std::slice::<impl [T]>::"):
        M[p + "len"], M[p + "is_empty"], M[p + "push"] = vlen, vempty, vpush
        M[p + "get"] = M[p + "get_mut"] = vget
        M[p + "last"] = M[p + "last_mut"] = vlast
    M["std::vec::Vec::<T>::new"] = M["std::vec::Vec::<T>::with_capacity"] = vnew
    for n in ("index", "index_mut"):
        M["<std::vec::Vec<T, A> as std::ops::Index%s<I>>::%s" % ("Mut" if n == "index_mut" else "", n)] = vindex
    M["<std::vec::Vec<T, A> as std::ops::Deref>::deref"] = M["<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut"] = vderef

    def mdrop(ip, st, args, t):
        dom.on_drop(st, args[0])
        return ip.finish(st, t, UNIT)
    M["std::mem::drop"] = mdrop
    return M


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.results = []
        self.adt = prog.adts.get("crate::arena::TypedArena")
        if self.adt is None:
            self.results.append(("type", "crate::arena::TypedArena", [("anchor", "the type is gone", ())], 0, None))
            return
        self.fields = self.adt["variants"][0]["fields"]
        self.pos = {}
        for i, f in enumerate(self.fields):
            t = prog.types[f["ty"]]
            if t["k"] == "adt" and t["path"] == OPTION:
                self.pos["head"] = i
                self.entry = prog.types[t["args"][0]]["path"]
            elif t["k"] == "adt" and t["path"] == VEC:
                self.pos["chunks"] = i
                u = prog.types[t["args"][0]]
                if u.get("path") == VEC:
                    self.block = prog.types[u["args"][0]]["path"]
            elif t["s"] == "usize":
                self.pos[f["name"]] = i
        ok = all(k in self.pos for k in ("head", "chunks", "size", "capacity", "chunk_size")) and hasattr(self, "block") and len(self.fields) == 5
        ea = prog.adts.get(getattr(self, "entry", None))
        ok = ok and ea and len(ea["variants"][0]["fields"]) == 2
        ba = prog.adts.get(getattr(self, "block", None))
        ok = ok and ba and len(ba["variants"]) == 2
        if not ok:
            self.results.append(("type", "crate::arena::TypedArena", [], 0, "the arena's representation is not the one this analysis knows"))
            return
        self.ci = next((i for i, f in enumerate(ea["variants"][0]["fields"]) if "chunk" in f["name"]), 0)
        self.occ = next(i for i, v in enumerate(ba["variants"]) if v["fields"] and prog.types[v["fields"][0]["ty"]]["k"] == "param")
        self.vac = 1 - self.occ
        fns = {}
        for im in prog.impls:
            t = prog.types[im["self"]]
            if t["k"] == "adt" and t["path"] == self.adt["path"]:
                for it in im["items"]:
                    if im.get("trait") in (None, "std::ops::Index", "std::ops::IndexMut"):
                        fns[it.rsplit("::", 1)[1]] = it
        for n in ("new", "allocate", "free", "get", "get_mut", "index", "index_mut"):
            f = prog.fn(fns.get(n))
            if f is None:
                self.results.append((n, self.adt["path"], [("anchor", "the operation is gone", ())], 0, None))
            else:
                self.run(n, f)
        for n, p in fns.items():
            f = prog.fn(p)
            if f is not None and f.d.get("exported") and n not in ("new", "allocate", "free", "get", "get_mut", "index", "index_mut"):
                self.results.append((n, p, [], 0, "operation without a specification"))

    def states(self, dom, ip):
        """well-formed arenas"""
        for headed in (False, True):
            st = State()
            ch = dom.table(st, "chunks")
            size, cap, cs = (V(st.fresh("n")) for _ in range(3))
            st.mem["size0"] = ("int", size)
            st.mem["root:n"] = (("int", size), ("int", cap), ("int", cs))
            nc = st.mem[("len", ch[1])]
            base = []
            for eq in (True, False):
                s = st.copy()
                if eq:
                    s.add_eq(size - cap)
                    base.append(s)
                else:
                    # an element count other than the capacity means a chunk exists
                    s.add_ge(nc - 1)
                    for less in (True, False):
                        s2 = s.copy()
                        s2.add_ge(cap - size - 1 if less else size - cap - 1)
                        base.append(s2)
            for s in base:
                head = NONE
                outs = [(s, NONE)]
                if headed:
                    outs = []
                    e = [V(s.fresh("n")), V(s.fresh("n"))]
                    ci, bi = e[self.ci], e[1 - self.ci]
                    try:
                        s.add_ge(nc - ci - 1)
                    except Infeasible:
                        continue
                    for s2, h in dom.locate(s, ch[1], ci):
                        w = s2.heap[h][1]
                        s2.add_ge(s2.mem[("len", w)] - bi - 1)
                        for s3, hb in dom.locate(s2, w, bi):
                            if s3.heap[hb][2] != self.vac:
                                continue
                            outs.append((s3, some(("agg", self.entry, 0, tuple(("int", x) for x in e)))))
                for s2, hd in outs:
                    fs = [None] * 5
                    fs[self.pos["head"]] = hd
                    fs[self.pos["chunks"]] = ch
                    fs[self.pos["size"]] = ("int", size)
                    fs[self.pos["capacity"]] = ("int", cap)
                    fs[self.pos["chunk_size"]] = ("int", cs)
                    s2.heap["arena"] = ("agg", self.adt["path"], 0, tuple(fs))
                    s2.mem["head0"] = hd
                    s2.mem["size0"] = ("int", size)
                    s2.mem["table"] = ch
                    s2.mem["nc0"] = nc
                    s2.trace = ("free list %s" % ("not empty" if headed else "empty"),)
                    yield s2

    def run(self, name, fn):
        dom = ArenaDom()
        dom.entry, dom.block, dom.occ, dom.vac = self.entry, self.block, self.occ, self.vac
        ip = Interp(self.prog, dom, {}, models(dom))
        probs = []
        n = 0
        try:
            sts = [State()] if name == "new" else self.states(dom, ip)
            for st in sts:
                if name == "new":
                    args = [("int", V("n0"))]
                elif name == "allocate":
                    args = [("ref", (("h", "arena"), ())), ("val", "v0")]
                else:
                    e = ("agg", self.entry, 0, (("int", V(st.fresh("n"))), ("int", V(st.fresh("n")))))
                    st.heap["entry"] = e
                    st.mem["root:e"] = e
                    a = e if prog_byval(self.prog, fn) else ("ref", (("h", "entry"), ()))
                    args = [("ref", (("h", "arena"), ())), a]
                start(ip, fn, args, st)
                for o in ip.run(st):
                    n += 1
                    if o.kind == "bug":
                        probs.append((o.cat, o.msg, o.state.trace))
                    else:
                        for c, t in getattr(self, "chk_" + name.replace("_mut", ""))(dom, o):
                            probs.append((c, t, o.state.trace))
            err = ip.unsupported[0] if ip.unsupported else None if n else "no path returns"
        except Unsupported as e:
            err = str(e)
        self.results.append((name, fn.path, probs, n, err))

    def field(self, o, n):
        return o.state.heap["arena"][3][self.pos[n]]

    def eqv(self, st, a, b):
        """provably equal values"""
        if a[0] == "int" and b[0] == "int":
            return st.red(a[1] - b[1]).const() == 0 or st.sign_options(a[1] - b[1]) == [0]
        if a[0] == "agg" and b[0] == "agg":
            return a[1:3] == b[1:3] and len(a[3]) == len(b[3]) and all(self.eqv(st, x, y) for x, y in zip(a[3], b[3]))
        return a == b

    def touched(self, o, but=()):
        """blocks whose content differs from what it was"""
        st = o.state
        for k, v in list(st.mem.items()):
            if isinstance(k, tuple) and k[0] == "pre" and k[1] not in but and k[1] in st.heap:
                if not self.eqv(st, st.heap[k[1]], v):
                    yield k[1], v

    def size_is(self, o, d):
        st = o.state
        a = self.field(o, "size")
        if a[0] != "int":
            raise Unsupported("size is " + a[0])
        if not self.eqv(st, ("int", a[1] - d), st.mem["size0"]):
            yield "size", "the element count changes by something other than %+d" % d

    def find(self, o, e):
        """block of entry e among the blocks known on this path: (heap id or None, decided)"""
        st = o.state
        ci, bi = e[3][self.ci][1], e[3][1 - self.ci][1]
        amb = False
        for i, h in st.mem[("at", st.mem["table"][1])]:
            sg = st.sign_options(i - ci)
            if sg == [0]:
                w = st.heap[h]
                if w[0] != "tab":
                    raise Unsupported("chunk replaced")
                for j, hb in st.mem[("at", w[1])]:
                    s2 = st.sign_options(j - bi)
                    if s2 == [0]:
                        return hb, False
                    amb = amb or 0 in s2
            elif 0 in sg:
                amb = True
        return None, amb

    def outside(self, o, e):
        st = o.state
        ci, bi = e[3][self.ci][1], e[3][1 - self.ci][1]
        if st.ge(ci - st.mem["nc0"]):
            return True
        for i, h in st.mem[("at", st.mem["table"][1])]:
            if st.sign_options(i - ci) == [0] and st.heap[h][0] == "tab" and st.ge(bi - st.mem[("len", st.heap[h][1])]):
                return True
        return False

    def unchanged(self, o, what):
        for h, v in self.touched(o):
            yield "damage", "%s changes a block" % what
            break
        if not self.eqv(o.state, self.field(o, "head"), o.state.mem["head0"]):
            yield "damage", "%s changes the free list" % what
        for x in self.size_is(o, 0):
            yield "damage", "%s changes the element count" % what
        if o.state.mem.get("drops"):
            yield "damage", "%s drops a value" % what
        if not self.eqv(o.state, ("int", o.state.mem[("len", o.state.mem["table"][1])]), ("int", o.state.mem["nc0"])):
            yield "damage", "%s changes the number of chunks" % what

    def chk_new(self, dom, o):
        if o.kind != "return":
            yield "panic", "new may panic: " + o.msg
            return
        v = o.value
        h = v[3][self.pos["head"]]
        w = v[3][self.pos["chunks"]]
        if h != NONE or w[0] != "tab" or o.state.mem[("len", w[1])] != C(0):
            yield "slot", "a new arena does not start without blocks"
        if v[3][self.pos["size"]] != integer(0) or v[3][self.pos["capacity"]] != integer(0):
            yield "size", "a new arena does not start with size and capacity zero"

    def chk_allocate(self, dom, o):
        st = o.state
        if o.kind == "panic":
            if "overflow" not in o.msg.lower():
                yield "panic", "allocate may panic: %s" % o.msg
            return
        e = o.value
        if e[0] != "agg" or e[1] != self.entry:
            raise Unsupported("allocate returns " + e[0])
        hb, amb = self.find(o, e)
        if hb is None:
            yield "slot", "the entry returned is not the block the value was stored in"
            return
        if not self.eqv(st, st.heap[hb], ("agg", self.block, self.occ, (("val", "v0"),))):
            yield "slot", "the block the returned entry names does not hold the value"
        pre = st.mem.get(("pre", hb))
        if pre is not None and pre[2] == self.occ:
            yield "slot", "the block handed out is occupied by a live entry"
        for h, v in self.touched(o, (hb,)):
            yield "slot", "a block other than the one handed out changes"
            break
        head, h0 = self.field(o, "head"), st.mem["head0"]
        if pre is None:
            # a new block: the free list stays
            if not self.eqv(st, head, h0):
                yield "slot", "the free list changes although a new block was handed out"
            w, i = st.mem[("where", hb)]
            if st.mem.get(("kind", w)) == "new" and not any(st.heap.get(h) == ("tab", w) for _, h in st.mem[("at", st.mem["table"][1])]):
                yield "slot", "the value was stored in a chunk the arena does not own"
        else:
            nx = pre[3][0]
            if h0 == NONE:
                yield "slot", "a vacant block is handed out although the free list is empty"
            elif not self.eqv(st, h0[3][0], e):
                yield "slot", "the block handed out is not the first of the free list"
            elif not self.eqv(st, head, nx):
                yield "slot", "the free list does not go on with the successor of the block handed out"
        if st.mem.get("drops"):
            yield "slot", "the stored value is dropped"
        if not st.ge(st.mem[("len", st.mem["table"][1])] - 1):
            yield "slot", "no chunk exists after an allocation"
        for x in self.size_is(o, 1):
            yield x

    def chk_free(self, dom, o):
        st = o.state
        e = st.heap["entry"]
        hb, amb = self.find(o, e)
        if o.kind == "panic":
            if "overflow(add" in o.msg.lower():
                return
            for x in self.unchanged(o, "a rejected free"):
                yield x
            if hb is not None and st.mem.get(("pre", hb), (0, 0, -1))[2] == self.occ:
                yield "panic", "freeing a live entry panics: " + o.msg
            elif hb is None and not self.outside(o, e):
                yield "panic", "freeing an entry that may be live panics: " + o.msg
            return
        if hb is None:
            yield "free", "free returns a value without looking at the entry's block"
            return
        pre = st.mem.get(("pre", hb))
        if pre[2] != self.occ:
            yield "free", "freeing a vacant block is accepted"
            return
        if not self.eqv(st, o.value, pre[3][0]):
            yield "free", "free does not return the value stored under the entry"
        now = st.heap[hb]
        head, h0 = self.field(o, "head"), st.mem["head0"]
        if now[0] != "agg" or now[2] != self.vac:
            yield "free", "the freed block still holds a value"
        elif not self.eqv(st, now[3][0], h0):
            yield "slot", "the freed block does not link to the rest of the free list"
        if head == NONE or head[0] != "agg" or not self.eqv(st, head[3][0], e):
            yield "slot", "the free list does not start with the freed block"
        for h, v in self.touched(o, (hb,)):
            yield "slot", "a block other than the freed one changes"
            break
        if st.mem.get("drops"):
            yield "free", "the freed value is also dropped"
        for x in self.size_is(o, -1):
            yield x

    def chk_get(self, dom, o):
        st = o.state
        e = st.heap["entry"]
        if o.kind == "panic":
            yield "panic", "get may panic: " + o.msg
            return
        for x in self.unchanged(o, "get"):
            yield x
        v = o.value
        if v[0] != "agg":
            raise Unsupported("get returns " + v[0])
        for x in self.answer(o, e, v[3][0] if v[2] == 1 else None):
            yield x

    def answer(self, o, e, r):
        st = o.state
        hb, amb = self.find(o, e)
        if r is None:
            if hb is not None and st.heap[hb][2] == self.occ:
                yield "get", "nothing is answered for a live entry"
            elif hb is None and not self.outside(o, e):
                yield "get", "nothing is answered for an entry that may be live"
            return
        if r[0] != "ref":
            raise Unsupported("answer is " + r[0])
        if hb is None:
            yield "get", "a value is answered for an entry whose block was not looked at"
        elif st.heap[hb][2] != self.occ:
            yield "get", "a value is answered for a vacant block"
        elif r[1] != (("h", hb), (0,)):
            yield "get", "the answer is not the value stored under the entry"

    def chk_index(self, dom, o):
        st = o.state
        e = st.heap["entry"]
        for x in self.unchanged(o, "indexing"):
            yield x
        if o.kind == "panic":
            for x in self.answer(o, e, None):
                yield x
            return
        for x in self.answer(o, e, o.value):
            yield x


def prog_byval(prog, fn):
    return prog.types[fn.locals[2]["ty"]]["k"] == "adt"


def A01(ctx):
    ctx.rule("block table", "every operation on every well-formed arena (any number of chunks and blocks, any free list) ends with exactly the block of the entry changed, the free list extended or shortened by that block alone, the count changed by one, and the answer read from that block; a rejected call changes nothing")
    ctx.assumptions += ["sizes stay below usize::MAX", "a well-formed free list visits each vacant block once (kept by the rule at every step)"]
    n = 0
    a = Analysis(ctx.prog)
    for name, path, probs, paths, err in a.results:
        n += 1
        key = "arena:%s" % name
        ctx.count("abstract paths", paths)
        if err:
            ctx.undecided(key, path, err)
        seen = set()
        for c, text, trace in probs:
            if text not in seen:
                seen.add(text)
                ctx.bad("%s:%s" % (key, text[:60]), path, "%s\non the path: %s" % (text, "; ".join(trace)))
        if not probs and not err:
            ctx.ok(key, path, "%d abstract paths" % paths)
    ctx.floor("arena operations", n, 7)


if __name__ == "__main__":
    import sys
    from .. import mir
    p = mir.load(sys.argv[1])
    for r in Analysis(p).results:
        print(r[0], r[1], "paths", r[3], "err", r[4])
        for x in r[2][:5]:
            print("   ", x[0], x[1], "|", "; ".join(x[2]))
