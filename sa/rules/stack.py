"""Concurrent stack: abstract interpretation of each operation of one thread, with every shared read
answered by an arbitrary value (interference), followed by ownership and publication checks on every path."""
from ..interp import (Interp, State, Outcome, Unsupported, Infeasible, Bug, UNIT, NONE, MOVED, TRUE, FALSE, RESULT, some, tup, integer)
from ..lin import V
from ..simple import Dom, start

REL = {1, 3, 4}     # Release, AcqRel, SeqCst   (Relaxed Release Acquire AcqRel SeqCst)
ACQ = {2, 3, 4}
NAMES = ["Relaxed", "Release", "Acquire", "AcqRel", "SeqCst"]


def order(v):
    """index of a memory ordering value; a pair gives (success, failure)"""
    if v[0] == "agg" and v[1].endswith("atomic::Ordering"):
        return v[2]
    if v[0] == "agg" and v[1] == "tuple" and v[3]:
        return order(v[3][0])
    raise Unsupported("memory ordering not constant")


class StackDom(Dom):
    fixed = ("v0",)
    tolerant = True

    def __init__(self, prog, node):
        self.prog, self.node = prog, node
        fs = node["variants"][0]["fields"]
        self.nfields = len(fs)
        self.next = [i for i, f in enumerate(fs) if "Atomic<" in prog.tys(f["ty"])]
        self.val = [i for i, f in enumerate(fs) if i not in self.next]
        if len(self.next) != 1 or len(self.val) != 1:
            raise Unsupported("node layout")
        self.next, self.val = self.next[0], self.val[0]
        vt = prog.tys(fs[self.val]["ty"])
        self.wrap = "md" if "ManuallyDrop" in vt or "MaybeUninit" in vt else None

    # ------------------------------------------------------------ shared nodes
    def content(self, s):
        """what a node another thread published looks like"""
        v = ("val", s)
        fs = [None, None]
        fs[self.val] = ("md", v) if self.wrap else v
        fs[self.next] = ("atom", ("sh", None))
        return ("agg", self.node["path"], 0, tuple(fs))

    def fresh_shared(self, st, guard):
        s = st.fresh("s")
        v = [None, None]
        v[self.val] = ("md", ("val", s)) if self.wrap else ("val", s)
        v[self.next] = ("atom", "lazy")
        st.heap[s] = ("agg", self.node["path"], 0, tuple(v))
        if guard is not None:
            st.mem[("guard", s)] = guard
        return s

    def load(self, st, a, ordn, guard):
        v = st.read(a)
        if v[0] != "atom":
            raise Unsupported("atomic is %s" % v[0])
        ex = st.mem.get("exclusive")
        if guard is not None and st.mem.get(("dead", guard)):
            raise Bug("pub", "a link is followed after the guard that protects it was dropped")
        if a == self.head and not ex:
            s = self.fresh_shared(st, guard)
            st.mem[("ord", s)] = ordn
            return ("sh", s)
        if v[1] == "lazy":
            s = self.fresh_shared(st, guard)
            st.write(a, ("atom", ("sh", s)))
            root = a[0]
            if root[0] == "h":
                st.mem[("after", s)] = root[1]
                if ("ord", root[1]) in st.mem:
                    # the acquire that makes a node visible also makes everything below it visible
                    st.mem[("ord", s)] = max(st.mem[("ord", root[1])], 0)
            return ("sh", s)
        return v[1]

    def null(self, st, s):
        """list of (state, is null)"""
        if s is None:
            return [(st, True)]
        if isinstance(s, str) and s.startswith("x"):
            return [(st, False)]
        k = st.mem.get(("null", s))
        if k is not None:
            return [(st, k)]
        out = []
        for b in (True, False):
            x = st.copy()
            x.mem[("null", s)] = b
            x.note("%s is %s" % (self.desc(st, s), "null" if b else "a node"))
            out.append((x, b))
        return out

    def desc(self, st, s):
        return ("the node below %s" % st.mem[("after", s)]) if ("after", s) in st.mem else "the loaded head " + s

    def touch(self, st, s):
        """the contents of node s are about to be used"""
        if isinstance(s, str) and s.startswith("s") and not st.mem.get("exclusive"):
            g = st.mem.get(("guard", s))
            if g is None or st.mem.get(("dead", g)):
                raise Bug("pub", "a shared node is used outside the guard it was loaded under")
            if g == "unprotected":
                raise Bug("pub", "a shared node is used without pinning the epoch")
            if st.mem.get(("ord", s), 0) not in ACQ and not st.mem.get("fence"):
                raise Bug("pub", "the node's contents are used although its address was loaded with %s ordering, which does not make the pushing thread's writes visible" % NAMES[st.mem.get(("ord", s), 0)])

    def event(self, st, *e):
        st.mem["ev"] = st.mem.get("ev", ()) + (e,)

    def dispose(self, st, v):
        """a value goes out of scope"""
        k = v[0]
        if k == "val":
            self.event(st, "dropval", v[1])
        elif k == "agg":
            for x in v[3]:
                self.dispose(st, x)
        elif k == "closure":
            for x in v[2]:
                self.dispose(st, x)
        elif k in ("owned", "box"):
            x = st.heap.get(v[1])
            self.free(st, v[1])
        elif k == "guard" and v[1] != "unprotected":
            st.mem[("dead", v[1])] = True
            for h in list(st.heap):
                if st.mem.get(("guard", h)) == v[1] and st.heap[h][0] == "agg" and not st.mem.get("exclusive"):
                    st.heap[h] = ("dead", "pub", "a shared node is used after the guard it was loaded under was dropped")

    def free(self, st, h):
        x = st.heap.get(h)
        if x is None:
            return
        if x[0] == "dead":
            raise Bug("pub", "a node is freed twice or after its guard")
        deferred = st.mem.get("deferred", False)
        self.event(st, "free", h, deferred)
        self.dispose(st, x)
        if not deferred:
            st.heap[h] = ("dead", "pub", "a node is used after its memory was released")

    def on_drop(self, st, v):
        self.dispose(st, v)

    def at_head(self, st):
        if st.mem.get("exclusive"):
            ev = st.mem.get("ev", ())
            done = {e[1] for e in ev if e[0] == "free"}
            for s in done:
                if [e for e in ev if e[0] == "dropval" and e[1] == s].__len__() != 1:
                    return
            # nodes that are freed and whose value was dropped once are finished with
            st.mem["ev"] = tuple(e for e in ev if e[0] == "cas" and False or e[0] in ("free", "dropval") and e[1] not in done)
            hv = st.read(self.head)
            if hv[0] == "atom" and isinstance(hv[1], tuple) and hv[1][1] in done:
                st.write(self.head, ("atom", ("sh", "gone")))
        else:
            keep = []
            for e in st.mem.get("ev", ()):
                keep.append(e)
            st.mem["ev"] = tuple(keep)
        for k in [k for k in st.mem if isinstance(k, tuple) and k[0] == "dead"]:
            pass

    def roots(self, st):
        return [st.mem.get("ev", ())]


# ---------------------------------------------------------------- models of crossbeam-epoch and atomics
def models(dom):
    M = {}
    P = "crossbeam_epoch::"

    def m(*names):
        def d(f):
            for n in names:
                M[n] = f
            return f
        return d

    def gid(st, v):
        v = st.strip_refs(v) if v[0] == "ref" else v
        if v[0] == "guard":
            return v[1]
        if v[0] == "gref":
            return "unprotected"
        raise Unsupported("guard is %s" % v[0])

    @m(P + "pin", P + "default::pin")
    def pin(ip, st, args, t):
        g = st.fresh("g")
        return ip.finish(st, t, ("guard", g))

    @m(P + "unprotected", P + "guard::unprotected")
    def unprotected(ip, st, args, t):
        return ip.finish(st, t, ("ref", (("const", ("guard", "unprotected")), ())))

    @m(P + "Atomic::<T>::null", P + "Atomic::null")
    def anull(ip, st, args, t):
        return ip.finish(st, t, ("atom", ("sh", None)))

    @m(P + "Owned::<T>::new")
    def onew(ip, st, args, t):
        h = st.fresh("x")
        st.heap[h] = args[0]
        return ip.finish(st, t, ("owned", h))

    @m(P + "Shared::<'g, T>::null", P + "Shared::<'_, T>::null")
    def snull(ip, st, args, t):
        return ip.finish(st, t, ("sh", None))

    def aload(ip, st, args, t):
        return ip.finish(st, t, dom.load(st, st.deref(args[0]), order(args[1]), gid(st, args[2])))

    def astore(ip, st, args, t):
        a = st.deref(args[0])
        v = args[1]
        if v[0] == "owned":
            v = ("sh", v[1])
        if v[0] != "sh":
            raise Unsupported("stored pointer is %s" % v[0])
        if a == dom.head and not st.mem.get("exclusive"):
            raise Bug("own", "the head is overwritten by a plain store, which loses whatever other threads pushed in between")
        if a[0][0] == "h" and st.mem.get(("published", a[0][1])):
            raise Bug("pub", "the link of a node is changed after the node was published")
        st.write(a, ("atom", v))
        return ip.finish(st, t, UNIT)

    def cas(ip, st, args, t):
        a, cur, new = st.deref(args[0]), args[1], args[2]
        o = order(args[3])
        if a != dom.head:
            raise Unsupported("compare-and-set on a link")
        g = gid(st, args[4])
        if cur[0] != "sh" or new[0] not in ("sh", "owned"):
            raise Unsupported("compare-and-set operands")
        out = []
        if st.mem.get("exclusive"):
            hv = st.read(a)[1]
            if hv == "lazy":
                hv = ("sh", None)
            if hv != cur:
                raise Unsupported("compare-and-set on an exclusively owned head that differs")
            st.write(a, ("atom", ("sh", new[1])))
            dom.event(st, "cas", cur[1], new[1], o, None)
            return ip.finish(st, t, ("agg", RESULT, 0, (("sh", new[1]),)))
        ok = st.copy()
        snap = None
        if new[0] == "owned":
            snap = ok.heap[new[1]]
            ok.mem[("published", new[1])] = True
            ok.mem[("guard", new[1])] = g
        dom.event(ok, "cas", cur[1], new[1], o, snap)
        if cur[1] is not None:
            ok.mem[("unlinked", cur[1])] = True
        ok.note("compare-and-set succeeds")
        out += ip.finish(ok, t, ("agg", RESULT, 0, (("sh", new[1]),)))
        no = st.copy()
        no.note("compare-and-set fails")
        now = dom.fresh_shared(no, g)
        no.mem[("ord", now)] = 0
        out += ip.finish(no, t, ("agg", RESULT, 1, (("agg", P + "CompareAndSetError", 0, (("sh", now), new)),)))
        return out

    for pre in (P + "Atomic::<T>::", P + "atomic::Atomic::<T>::"):
        M[pre + "load"] = aload
        M[pre + "store"] = astore
        M[pre + "compare_and_set"] = cas
        M[pre + "compare_and_set_weak"] = cas

    def as_ref(ip, st, args, t):
        v = st.strip_refs(args[0])
        if v[0] != "sh":
            raise Unsupported("as_ref of " + v[0])
        out = []
        for s, n in dom.null(st, v[1]):
            if n:
                out += ip.finish(s, t, NONE)
            else:
                dom.touch(s, v[1])
                out += ip.finish(s, t, some(("ref", (("h", v[1]), ()))))
        return out

    def is_null(ip, st, args, t):
        v = st.strip_refs(args[0])
        out = []
        for s, n in dom.null(st, v[1]):
            out += ip.finish(s, t, ("bool", n))
        return out

    def deref(ip, st, args, t):
        v = st.strip_refs(args[0])
        if v[0] == "owned":
            return ip.finish(st, t, ("ref", (("h", v[1]), ())))
        if v[0] != "sh":
            raise Unsupported("deref of " + v[0])
        for s, n in dom.null(st, v[1]):
            if n:
                raise Bug("pub", "a possibly null head is dereferenced")
        st.mem[("null", v[1])] = False
        dom.touch(st, v[1])
        return ip.finish(st, t, ("ref", (("h", v[1]), ())))

    def into_owned(ip, st, args, t):
        v = args[0]
        if v[0] != "sh":
            raise Unsupported("into_owned of " + v[0])
        for s, n in dom.null(st, v[1]):
            if n:
                raise Bug("pub", "a possibly null pointer is turned into an owned node")
        if not st.mem.get("exclusive"):
            if not st.mem.get(("unlinked", v[1])) and not st.mem.get(("published", v[1])) is None:
                raise Bug("pub", "a node is taken over although it was not unlinked")
            if not st.mem.get(("unlinked", v[1])):
                raise Bug("pub", "a node is retired before the compare-and-set that unlinks it has succeeded")
            if not st.mem.get("deferred"):
                raise Bug("pub", "a node other threads may still be reading is taken over at once instead of after the epoch")
        return ip.finish(st, t, ("owned", v[1]))

    for pre in (P + "Shared::<'g, T>::", P + "Shared::<'_, T>::", P + "atomic::Shared::<'g, T>::"):
        M[pre + "as_ref"] = as_ref
        M[pre + "is_null"] = is_null
        M[pre + "deref"] = deref
        M[pre + "into_owned"] = into_owned

    def owned_deref(ip, st, args, t):
        v = st.read(st.deref(args[0]))
        if v[0] != "owned":
            raise Unsupported("deref of " + v[0])
        return ip.finish(st, t, ("ref", (("h", v[1]), ())))

    def into_shared(ip, st, args, t):
        return ip.finish(st, t, ("sh", args[0][1]))

    def into_box(ip, st, args, t):
        return ip.finish(st, t, ("box", args[0][1]))

    for pre in (P + "Owned::<T>::",):
        M[pre + "into_shared"] = into_shared
        M[pre + "into_box"] = into_box
    M["<crossbeam_epoch::Owned<T> as std::ops::Deref>::deref"] = owned_deref
    M["<crossbeam_epoch::Owned<T> as std::ops::DerefMut>::deref_mut"] = owned_deref

    def defer(ip, st, args, t):
        g = gid(st, args[0])
        if st.mem.get(("dead", g)):
            raise Bug("pub", "a node is retired through a guard that was dropped")
        immediate = g == "unprotected"
        before = st.mem.get("deferred", False)
        st.mem["deferred"] = not immediate

        def fin(s, v):
            dom.dispose(s, v)
            s.mem["deferred"] = before
            return ip.finish(s, t, UNIT)
        return ip.call_value(st, args[1], [], t, fin)

    def defer_destroy(ip, st, args, t):
        g = gid(st, args[0])
        v = args[1]
        if not st.mem.get(("unlinked", v[1])) and not st.mem.get("exclusive"):
            raise Bug("pub", "a node is retired before the compare-and-set that unlinks it has succeeded")
        before = st.mem.get("deferred", False)
        st.mem["deferred"] = g != "unprotected"
        dom.free(st, v[1])
        st.mem["deferred"] = before
        return ip.finish(st, t, UNIT)

    for pre in (P + "Guard::", P + "guard::Guard::"):
        M[pre + "defer"] = M[pre + "defer_unchecked"] = defer
        M[pre + "defer_destroy"] = defer_destroy
        M[pre + "flush"] = lambda ip, st, args, t: ip.finish(st, t, UNIT)

    # counters
    def counter(st, v):
        x = st.read(st.deref(v))
        if x != ("counter",):
            raise Unsupported("atomic integer other than the length")

    @m("std::sync::atomic::Atomic::<usize>::new", "std::sync::atomic::AtomicUsize::new")
    def cnew(ip, st, args, t):
        return ip.finish(st, t, ("counter0", args[0]))

    def cop(sign):
        def f(ip, st, args, t):
            counter(st, args[0])
            n = args[1][1].const() if args[1][0] == "int" else None
            if n is None:
                raise Unsupported("length changed by an unknown amount")
            dom.event(st, "len", sign * n)
            return ip.finish(st, t, ("int", V(st.fresh("n"))))
        return f

    def cload(ip, st, args, t):
        counter(st, args[0])
        s = st.fresh("n")
        st.mem["lenload"] = s
        return ip.finish(st, t, ("int", V(s)))

    for pre in ("std::sync::atomic::Atomic::<usize>::", "std::sync::atomic::AtomicUsize::"):
        M[pre + "fetch_add"] = cop(1)
        M[pre + "fetch_sub"] = cop(-1)
        M[pre + "load"] = cload

    @m("std::sync::atomic::fence")
    def fence(ip, st, args, t):
        if order(args[0]) in ACQ:
            st.mem["fence"] = True
        return ip.finish(st, t, UNIT)

    # unowned values
    def wrap(ip, st, args, t):
        return ip.finish(st, t, ("md", args[0]))

    def unwrap(ip, st, args, t):
        if args[0][0] != "md":
            raise Unsupported("unwrap of " + args[0][0])
        return ip.finish(st, t, args[0][1])

    for n in ("std::mem::ManuallyDrop::<T>::new", "std::mem::MaybeUninit::<T>::new"):
        M[n] = wrap
    for n in ("std::mem::ManuallyDrop::<T>::into_inner", "std::mem::MaybeUninit::<T>::assume_init"):
        M[n] = unwrap

    def mdref(ip, st, args, t):
        a = st.deref(args[0])
        return ip.finish(st, t, ("ref", (a[0], a[1] + (0,))))
    M["<std::mem::ManuallyDrop<T> as std::ops::Deref>::deref"] = mdref
    M["<std::mem::ManuallyDrop<T> as std::ops::DerefMut>::deref_mut"] = mdref
    M["std::mem::MaybeUninit::<T>::as_ptr"] = mdref
    M["std::mem::MaybeUninit::<T>::as_mut_ptr"] = mdref

    def mdtake(ip, st, args, t):
        v = st.read(st.deref(args[0]))
        if v[0] != "md":
            raise Unsupported("take of " + v[0])
        return ip.finish(st, t, v[1])
    M["std::mem::ManuallyDrop::<T>::take"] = mdtake
    M["std::mem::MaybeUninit::<T>::assume_init_read"] = mdtake

    def mddrop(ip, st, args, t):
        v = st.read(st.deref(args[0]))
        if v[0] != "md":
            raise Unsupported("drop of " + v[0])
        dom.dispose(st, v[1])
        return ip.finish(st, t, UNIT)
    M["std::mem::ManuallyDrop::<T>::drop"] = mddrop
    M["std::mem::MaybeUninit::<T>::assume_init_drop"] = mddrop

    def pread(ip, st, args, t):
        v = st.read(st.deref(args[0]))
        if v[0] == "dead":
            raise Bug(v[1], v[2])
        return ip.finish(st, t, v)
    for n in ("std::ptr::read", "std::ptr::const_ptr::<impl *const T>::read", "std::ptr::mut_ptr::<impl *mut T>::read"):
        M[n] = pread

    def pdrop(ip, st, args, t):
        dom.dispose(st, st.read(st.deref(args[0])))
        return ip.finish(st, t, UNIT)
    M["std::ptr::drop_in_place"] = pdrop

    @m("std::mem::drop")
    def mdrop(ip, st, args, t):
        dom.dispose(st, args[0])
        return ip.finish(st, t, UNIT)

    @m("std::mem::forget")
    def forget(ip, st, args, t):
        return ip.finish(st, t, UNIT)

    def isres(ok):
        def f(ip, st, args, t):
            v = st.strip_refs(args[0])
            return ip.finish(st, t, ("bool", (v[2] == 0) == ok))
        return f
    M["std::result::Result::<T, E>::is_ok"] = isres(True)
    M["std::result::Result::<T, E>::is_err"] = isres(False)

    def res_ok(ip, st, args, t):
        v = args[0]
        return ip.finish(st, t, some(v[3][0]) if v[2] == 0 else NONE)
    M["std::result::Result::<T, E>::ok"] = res_ok

    def res_err(ip, st, args, t):
        v = args[0]
        return ip.finish(st, t, some(v[3][0]) if v[2] == 1 else NONE)
    M["std::result::Result::<T, E>::err"] = res_err

    @m("std::result::Result::<T, E>::unwrap_or_else", "std::result::Result::<T, E>::map", "std::result::Result::<T, E>::map_err")
    def res_comb(ip, st, args, t):
        raise Unsupported("Result combinator")
    return M


# ---------------------------------------------------------------- obligations
class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.results = []       # (op, path, cat-list, paths, error)
        self.stack = next((a for p, a in prog.adts.items() if p.startswith("crate::sync") and p.endswith("::Stack")), None)
        if self.stack is None:
            self.results.append(("type", "crate::sync::stack::Stack", [("anchor", "the type is gone", ())], 0, None))
            return
        fs = self.stack["variants"][0]["fields"]
        self.hi = self.li = None
        node = None
        for i, f in enumerate(fs):
            ty = prog.types[f["ty"]]
            if "crossbeam_epoch::Atomic<" in ty["s"]:
                self.hi = i
                node = prog.types[ty["args"][0]] if ty.get("args") else None
            elif "Atomic<usize>" in ty["s"] or "AtomicUsize" in ty["s"]:
                self.li = i
        self.nf = len(fs)
        if self.hi is None or node is None or node.get("path") not in prog.adts:
            self.results.append(("type", self.stack["path"], [], 0, "the head is not an epoch pointer to a node"))
            return
        self.node = prog.adts[node["path"]]
        fns = {}
        self.dropfn = None
        for im in prog.impls:
            t = prog.types[im["self"]]
            if t["k"] == "adt" and t["path"] == self.stack["path"]:
                for it in im["items"]:
                    n = it.rsplit("::", 1)[1]
                    if im.get("trait") == "std::ops::Drop":
                        self.dropfn = prog.fn(it)
                    elif im.get("trait") is None:
                        fns[n] = it
        self.fns = fns
        for n, chk in (("new", self.chk_new), ("push", self.chk_push), ("try_pop", self.chk_pop), ("len", self.chk_len), ("is_empty", self.chk_empty)):
            f = prog.fn(fns.get(n))
            if f is None:
                self.results.append((n, self.stack["path"], [("anchor", "the operation is gone", ())], 0, None))
                continue
            self.run(n, f, chk)
        if self.dropfn is None:
            self.results.append(("drop", self.stack["path"], [("own", "the stack has no Drop implementation: dropping it releases neither the nodes nor the values that were never popped", ())], 1, None))
        else:
            self.run("drop", self.dropfn, self.chk_drop)
        for n in fns:
            f = prog.fn(fns[n])
            if n not in ("new", "push", "try_pop", "len", "is_empty") and f is not None and f.d.get("exported"):
                self.results.append((n, fns[n], [], 0, "operation without a specification"))

    def setup(self, exclusive):
        dom = StackDom(self.prog, self.node)
        dom.head = (("h", "stack"), (self.hi,))
        ip = Interp(self.prog, dom, {}, models(dom))
        st = State()
        fs = [("top", "field")] * self.nf
        fs[self.hi] = ("atom", "lazy")
        if self.li is not None:
            fs[self.li] = ("counter",)
        st.heap["stack"] = ("agg", self.stack["path"], 0, tuple(fs))
        if exclusive:
            st.mem["exclusive"] = True
        st.mem["ev"] = ()
        return dom, ip, st

    def run(self, name, fn, chk):
        try:
            dom, ip, st = self.setup(name == "drop")
            args = [] if name == "new" else [("ref", (("h", "stack"), ()))]
            if name == "push":
                args.append(("val", "v0"))
            start(ip, fn, args, st)
            outs = ip.run(st)
            probs = []
            n = 0
            for o in outs:
                n += 1
                if o.kind == "bug":
                    probs.append((o.cat, o.msg + " at " + o.where, o.state.trace))
                elif o.kind == "panic":
                    probs.append(("own", "the operation may panic: " + o.msg, o.state.trace))
                else:
                    for c, t in chk(dom, o):
                        probs.append((c, t, o.state.trace))
            err = ip.unsupported[0] if ip.unsupported else None if outs else "no path returns"
            self.results.append((name, fn.path, probs, n, err))
        except Unsupported as e:
            self.results.append((name, fn.path, [], 0, str(e)))

    # --- checks
    def evs(self, o):
        ev = o.state.mem.get("ev", ())
        return ([(i, e) for i, e in enumerate(ev) if e[0] == "cas"], [(i, e) for i, e in enumerate(ev) if e[0] == "len"],
                [(i, e) for i, e in enumerate(ev) if e[0] == "dropval"], [(i, e) for i, e in enumerate(ev) if e[0] == "free"])

    def chk_new(self, dom, o):
        v = o.value
        if v[0] != "agg":
            raise Unsupported("new returns " + v[0])
        if v[3][self.hi] != ("atom", ("sh", None)):
            yield "own", "a new stack does not start empty"
        if self.li is not None and v[3][self.li] != ("counter0", integer(0)):
            yield "own", "a new stack does not count zero elements"

    def vals(self, v, out):
        if v[0] == "val":
            out.append(v[1])
        elif v[0] in ("agg",):
            for x in v[3]:
                self.vals(x, out)
        elif v[0] == "md":
            self.vals(v[1], out)

    def count(self, lens, want, cas, pop):
        if self.li is None:
            return
        tot = sum(e[1] for _, e in lens)
        if tot != want:
            yield "own", "the length count changes by %+d instead of %+d on this path" % (tot, want)
        if want > 0 and cas and lens and lens[0][0] > cas[0][0]:
            yield "own", "the element is counted only after it was published: a pop in between takes the count below zero"
        if want < 0 and cas and lens and any(e[1] < 0 and i < cas[0][0] for i, e in lens):
            yield "own", "the element is discounted before the compare-and-set that takes it off has succeeded"

    def chk_push(self, dom, o):
        cas, lens, drops, frees = self.evs(o)
        good = [c for c in cas if c[1][4] is not None]
        if len(cas) != 1 or len(good) != 1:
            yield "own", "push returns after %d successful publications of the new node" % len(good)
            return
        i, (_, cur, new, od, snap) = good[0]
        vs = []
        self.vals(snap, vs)
        if vs != ["v0"]:
            yield "own", "the published node does not hold exactly the pushed value"
        nx = snap[3][dom.next]
        if nx == ("atom", "lazy") or nx[0] != "atom":
            raise Unsupported("link of the new node is %s" % nx[0])
        if nx[1] != ("sh", cur):
            yield "own", "the published node's link is not the head that the compare-and-set replaces, so what was below is lost"
        if od not in REL:
            yield "pub", "the node is published with %s ordering: another thread may see it before its contents" % NAMES[od]
        if drops:
            yield "own", "the pushed value is dropped by push"
        if frees:
            yield "pub", "push releases a node"
        for x in self.count(lens, 1, good, False):
            yield x

    def chk_pop(self, dom, o):
        st = o.state
        cas, lens, drops, frees = self.evs(o)
        v = o.value
        if v[0] != "agg":
            raise Unsupported("try_pop returns " + v[0])
        if v[2] == 0:
            if cas:
                yield "own", "an element was taken off the stack but is not returned"
            for x in self.count(lens, 0, cas, True):
                yield x
            if drops or frees:
                yield "own", "a value or node is released although nothing was popped"
            if not any(k[0] == "null" and x for k, x in st.mem.items() if isinstance(k, tuple)):
                yield "own", "None is answered although the head was not seen to be empty"
            return
        if len(cas) != 1:
            yield "own", "an element is returned after %d successful removals" % len(cas)
            return
        i, (_, s, new, od, snap) = cas[0]
        if snap is not None or not isinstance(s, str):
            yield "own", "the removal does not replace a node by the one below it"
            return
        if st.mem.get(("null", s)) is not False:
            yield "pub", "the removed head was not tested for null"
        if new is None or st.mem.get(("after", new)) != s:
            yield "own", "the head is not replaced by the removed node's own link, so nodes are lost or duplicated"
        vs = []
        self.vals(v, vs)
        if vs != [s]:
            yield "own", "the returned value is not the one in the node taken off"
        for _, e in drops:
            yield "own", "the value that is returned is also dropped" if e[1] == s else "a value that was not taken off is dropped"
        fs = [(j, e) for j, e in frees]
        if not fs:
            yield "pub", "the node taken off is never released"
        elif len(fs) > 1:
            yield "pub", "a node is released twice"
        else:
            j, e = fs[0]
            if e[1] != s:
                yield "pub", "a node other than the one taken off is released"
            if not e[2]:
                yield "pub", "the node is released at once although other threads may be reading it"
            if j < i:
                yield "pub", "the node is retired before it is unlinked"
        for x in self.count(lens, -1, cas, True):
            yield x

    def chk_len(self, dom, o):
        if self.li is None:
            raise Unsupported("no length counter")
        v = o.value
        if v[0] != "int" or o.state.mem.get("ev"):
            yield "own", "len changes the stack or does not answer a number"
        elif o.state.red(v[1]) != o.state.red(V(o.state.mem.get("lenload", "n0"))):
            yield "own", "len does not answer the count"

    def chk_empty(self, dom, o):
        v = o.value
        st = o.state
        if v[0] != "bool":
            raise Unsupported("is_empty returns " + v[0])
        if st.mem.get("ev"):
            yield "own", "is_empty changes the stack"
        n = st.mem.get("lenload")
        nul = [x for k, x in st.mem.items() if isinstance(k, tuple) and k[0] == "null"]
        if n:
            if v[1] and not st.red(V(n)).const() == 0 or not v[1] and not st.ge(V(n) - 1):
                yield "own", "is_empty does not agree with the count"
        elif nul:
            if v[1] != nul[-1]:
                yield "own", "is_empty does not agree with the head"
        else:
            yield "own", "is_empty consults neither the count nor the head"

    def chk_drop(self, dom, o):
        st = o.state
        cas, lens, drops, frees = self.evs(o)
        # follow the chain of nodes that was seen
        nodes = {h for h in st.heap if h.startswith("s") and h != "stack" and st.mem.get(("null", h)) is not True}
        seen = {e[1] for _, e in frees}
        for s in sorted(nodes | seen):
            f = [e for _, e in frees if e[1] == s]
            d = [e for _, e in drops if e[1] == s]
            if len(f) == 1 and len(d) == 1:
                continue
            if st.mem.get(("null", s)) is None and not f and not d:
                yield "own", "dropping the stack stops before its end is reached"
                continue
            if len(f) != 1:
                yield "pub", "dropping the stack releases a node %d times" % len(f)
            if len(d) != 1:
                yield "own", "dropping the stack drops an element %d times" % len(d)
        if not any(k[0] == "null" and x for k, x in st.mem.items() if isinstance(k, tuple)):
            yield "own", "dropping the stack does not empty it"


_cache = {}


def analysis(prog):
    if id(prog) not in _cache:
        _cache[id(prog)] = Analysis(prog)
    return _cache[id(prog)]


def report(ctx, cats):
    ctx.rule("thread-modular", "each operation is interpreted on all paths for one thread; every load of the shared head answers an arbitrary node or null, every compare-and-set may succeed or fail; loops are folded")
    n = 0
    for name, path, probs, paths, err in analysis(ctx.prog).results:
        n += 1
        key = "stack:%s" % name
        if err:
            ctx.undecided(key, path, err)
        mine = [p for p in probs if p[0] in cats or p[0] == "anchor"]
        ctx.count("abstract paths", paths)
        seen = set()
        for c, text, trace in mine:
            if text not in seen:
                seen.add(text)
                ctx.bad(key + ":" + text[:60], path, "%s\non the path: %s" % (text, "; ".join(trace) or "(every path)"))
        if not mine and not err:
            ctx.ok(key, path, "%d abstract paths" % paths)
    ctx.floor("stack operations", n, 5)


def C01(ctx):
    ctx.rule("ownership", "a successful push publishes the pushed value once, on top of the head it replaces; a successful pop returns exactly the value of the node whose compare-and-set succeeded and nothing else drops it; dropping the stack disposes of every remaining value once; the count is raised once before publication and lowered once after removal")
    report(ctx, {"own"})


def C02(ctx):
    ctx.rule("publication", "publication uses at least Release, the head is loaded with at least Acquire before a node is read; nodes are only read under the guard they were loaded with; a node is retired exactly once, after the compare-and-set that unlinks it, through the epoch")
    report(ctx, {"pub"})


if __name__ == "__main__":
    import sys
    from .. import mir
    p = mir.load(sys.argv[1])
    for r in analysis(p).results:
        print(r[0], r[1], "paths", r[3], "err", r[4])
        for x in r[2]:
            print("   ", x[0], x[1], "|", "; ".join(x[2]))
