"""Folding of abstract heaps at loop heads: what no live reference needs becomes opaque again, so that loops reach a fixpoint."""
from .interp import Unsupported, Infeasible, OPTION, NONE, some
from .lin import Lin, V, C


def tv(v):
    """is v a tree-ish value (option of box / opaque tree / context)"""
    return v[0] in ("tree", "ctx") or (v[0] == "agg" and v[1] == OPTION and (v[2] == 0 or v[3][0][0] == "box"))


class Folder:
    def __init__(self, dom, st):
        self.dom, self.st = dom, st
        self.ip = dom.interp
        self.node = dom.fam.node

    # ---------- liveness ----------
    def live_locals(self):
        st = self.st
        live = set()
        n = len(st.frames)
        for i, f in enumerate(st.frames):
            li = self.ip.live_in(f.fn)
            if i == n - 1:
                ls = li[f.bb]
            else:
                t = f.fn.blocks[f.bb]["t"]
                ls = set()
                for b in f.fn.succs(f.bb):
                    ls |= li[b]
                if t["k"] == "call" and t["d"]["p"]:
                    ls.add(t["d"]["l"])
            live |= {(f.fid, l) for l in ls}
        return live

    def refs_in(self, v, out, depth=0):
        k = v[0]
        if k == "ref":
            out.append(v[1])
        elif k == "agg":
            for x in v[3]:
                self.refs_in(x, out)
        elif k == "closure":
            for x in v[2]:
                self.refs_in(x, out)
        elif k == "vec":
            for x in v[3]:
                self.refs_in(x, out)
        elif k in ("box", "boxraw"):
            o = self.st.heap.get(v[1])
            if o is not None:
                self.refs_in(o, out)
        elif k == "ctx":
            self.refs_in(self.st.heap[self.st.mem[("ctx", v[1])][2]], out)

    def roots(self):
        """live root positions: ('l', fid, local) and plain heap cells, closed under references"""
        st = self.st
        live = self.live_locals()
        seen = set()
        work = [("l",) + x for x in live]
        for k in ("cell",):
            if k in st.mem:
                work.append(st.mem[k][1][0])
        order = []
        while work:
            r = work.pop()
            if r in seen or r[0] not in ("l", "h"):
                continue
            seen.add(r)
            if r[0] == "l":
                try:
                    v = st.root_get(r)
                except Unsupported:
                    continue
                if v[0] == "moved":
                    continue
            else:
                v = st.heap.get(r[1])
                if v is None:
                    continue
            order.append(r)
            refs = []
            self.refs_in(v, refs)
            work += [a[0] for a in refs]
        # drop dead locals
        for f in st.frames:
            for l in list(f.locals):
                if ("l", f.fid, l) not in seen:
                    del f.locals[l]
        return order

    def is_node_obj(self, hid):
        v = self.st.heap.get(hid)
        return v is not None and (v[0] == "tnode" or v[0] == "agg" and v[1] == self.node)

    def rewrite_refs(self, f, roots=None):
        """apply f(addr)->addr to every reference in the state"""
        st = self.st

        def go(v):
            k = v[0]
            if k == "ref":
                a = f(v[1])
                return ("ref", a) if a != v[1] else v
            if k == "agg":
                n = tuple(go(x) for x in v[3])
                return v if n == v[3] else ("agg", v[1], v[2], n)
            if k == "closure":
                n = tuple(go(x) for x in v[2])
                return v if n == v[2] else ("closure", v[1], n)
            if k == "vec":
                n = tuple(go(x) for x in v[3])
                return v if n == v[3] else ("vec", v[1], v[2], n)
            return v

        for fr in st.frames:
            for l, v in list(fr.locals.items()):
                fr.locals[l] = go(v)
            if fr.dest is not None:
                fr.dest = f(fr.dest)
        for h, v in list(st.heap.items()):
            st.heap[h] = go(v)

    def owned(self, roots):
        """node objects owned by live positions"""
        st = self.st
        out = set()

        def go(v):
            k = v[0]
            if k == "agg":
                for x in v[3]:
                    go(x)
            elif k == "closure":
                for x in v[2]:
                    go(x)
            elif k == "vec":
                for x in v[3]:
                    go(x)
            elif k in ("box", "boxraw"):
                if v[1] in out:
                    return
                out.add(v[1])
                go(st.heap[v[1]])
            elif k == "ctx":
                go(st.heap[st.mem[("ctx", v[1])][2]])

        for r in roots:
            if r[0] == "l":
                go(st.root_get(r))
            elif not self.is_node_obj(r[1]):
                go(st.heap[r[1]])
        return out

    # ---------- the fold ----------
    def run(self):
        st, dom = self.st, self.dom
        fam = dom.fam
        roots = self.roots()
        self.vecs(roots)
        roots = self.roots()
        own = self.owned(roots)
        # entry references become detached
        def ent(a):
            root, proj = a
            if root[0] == "h" and proj and proj[0] == fam.E and st.heap.get(root[1], ("",))[0] == "agg" and st.heap[root[1]][1] == self.node:
                at = dom.atom_of(st.heap[root[1]][3][fam.E])
                return (("ent", at[1], at[2]), proj[1:])
            return a
        self.rewrite_refs(ent)
        roots = self.roots()
        own = self.owned(roots)
        # views into nodes nobody live owns
        moved = {}

        def detach(a):
            root, proj = a
            if root[0] == "h" and root[1] not in own and self.is_node_obj(root[1]) and proj and proj[0] in (fam.L, fam.R):
                key = (root[1], proj[0])
                if key not in moved:
                    c = st.fresh("c")
                    st.heap[c] = st.heap[root[1]][3][proj[0]]
                    moved[key] = c
                return (("h", moved[key]), proj[1:])
            return a
        self.rewrite_refs(detach)
        roots = self.roots()
        own = self.owned(roots)
        self.gc(roots)
        self.livek = self.live_entries()
        self.renorm()
        self.contexts(roots, own)
        roots = self.roots()
        self.collapse_all(roots)
        roots = self.roots()
        self.gc(roots)
        self.words(roots)
        return st

    def pending(self, item):
        """content still to come from a stack item"""
        dom, st, fam = self.dom, self.st, self.dom.fam
        k = item[0]
        if k == "agg" and item[1] == self.node:
            return (dom.atom_of(item[3][fam.E]),) + dom.word(st, item[3][fam.R])
        if k in ("ref", "box"):
            v = st.read(st.deref(item))
            if v[0] == "tnode":
                raise Unsupported("folded node in a stack")
            if v[0] == "agg" and v[1] == self.node or v[0] in ("ref", "box"):
                return self.pending(v)
            if v[0] == "agg" and (not fam.keyed or v[1] == "crate::entry::Entry"):
                return (dom.atom_of(v),)
            return dom.word(st, v)
        if k == "agg" and item[1] == OPTION:
            return self.pending(item[3][0]) if item[2] == 1 else ()
        if k == "agg" and item[1] == "tuple":
            e = item[3][0]
            ev = st.read(st.deref(e)) if e[0] == "ref" else e
            return (dom.atom_of(ev),) + dom.word(st, item[3][1])
        raise Unsupported("stack item %s" % k)

    def vecword(self, v):
        w = ()
        for it in reversed(v[3]):
            p = self.pending(it)
            if not p:
                raise Unsupported("stack item without an entry")
            w = w + p
        return w + ((v[1],) if v[1] else ())

    def vecs(self, roots):
        st, dom = self.st, self.dom

        def go(v):
            k = v[0]
            if k == "vec" and v[3]:
                w = self.vecword(v)
                b = self.content_sym(w)
                return ("vec", b, v[2], ())
            if k == "agg" and any(x[0] in ("agg", "vec") for x in v[3]):
                n = tuple(go(x) for x in v[3])
                return v if n == v[3] else ("agg", v[1], v[2], n)
            return v

        for r in roots:
            v = st.root_get(r)
            n = go(v)
            if n is not v:
                st.root_set(r, n)

    def content_sym(self, word):
        """a symbol standing for a run of content (no structure)"""
        st, dom = self.st, self.dom
        f = dom.new_sym(st, word, {})
        del st.info[f]
        return f

    def live_entries(self):
        """keys and values of entries that something outside the nodes still mentions"""
        st = self.st
        ks, vs = set(), set()

        def go(v):
            k = v[0]
            if k == "key":
                ks.add(v[1])
            elif k == "val":
                vs.add(v[1])
            elif k == "agg":
                if v[1] != self.node:
                    for x in v[3]:
                        go(x)
            elif k == "closure":
                for x in v[2]:
                    go(x)
            elif k == "vec":
                for x in v[3]:
                    go(x)
            elif k == "ref":
                r = v[1][0]
                if r[0] == "ent":
                    if r[1] is not None:
                        ks.add(r[1])
                    else:
                        vs.add(r[2])
                elif r[0] == "const":
                    go(r[1])

        for fr in st.frames:
            for v in fr.locals.values():
                go(v)
        for h, v in st.heap.items():
            if not self.is_node_obj(h):
                go(v)
        return ks, vs

    def is_live_entry(self, it):
        ks, vs = self.livek
        return isinstance(it, tuple) and it[0] == "e" and (it[1] in ks if it[1] is not None else it[2] in vs)

    def live_word(self, word):
        """runs of content nobody mentions become one symbol"""
        word = [x for x in word if not (isinstance(x, str) and self.st.nonempty.get(x) is False)]
        if not any(self.is_live_entry(x) for x in word):
            if not word:
                return ()
            return (word[0],) if len(word) == 1 and isinstance(word[0], str) else (self.content_sym(tuple(word)),)
        out, run = [], []
        for it in list(word) + [None]:
            if it is not None and not self.is_live_entry(it):
                run.append(it)
                continue
            if run:
                out.append(run[0] if len(run) == 1 and isinstance(run[0], str) else self.content_sym(tuple(run)))
                run = []
            if it is not None:
                out.append(it)
        return tuple(out)

    def renorm(self):
        """entries in contexts that are no longer mentioned are merged into runs"""
        st = self.st
        for k, v in list(st.mem.items()):
            if isinstance(k, tuple) and k[0] == "ctx":
                st.mem[k] = (self.live_word(v[0]), self.live_word(v[1]), v[2])

    def contexts(self, roots, own):
        """trees owned by a live position with a live cursor inside become context + hole"""
        st, dom, fam = self.st, self.dom, self.dom.fam
        targets = set()
        for r in roots:
            refs = []
            v = st.root_get(r)
            self.refs_in(v, refs)
            for a in refs:
                if a[0][0] == "h" and a[0][1] in own and self.is_node_obj(a[0][1]):
                    targets.add(a)
        if not targets:
            return
        done = set()
        for r in roots:
            if r[0] == "h" and self.is_node_obj(r[1]):
                continue
            for addr, v in self.slots(r, (), st.root_get(r)):
                pins = []
                self.find(v, addr, (), (), targets, pins)
                if not pins:
                    continue
                if len({p[0] for p in pins}) > 1:
                    raise Unsupported("several cursors into one tree")
                hole, pre, post, direct, inner = pins[0]
                done |= {p[3] for p in pins}
                if hole == addr:
                    continue   # the cursor is at the top of this tree
                if hole[0][0] == "h" and hole[1] == () and v[0] == "ctx" and st.mem[("ctx", v[1])][2] == hole[0][1]:
                    continue   # already a context with this hole
                h = st.fresh("c")
                st.heap[h] = st.read(hole)
                cid = st.fresh("g")
                st.mem[("ctx", cid)] = (self.live_word(pre), self.live_word(post), h)
                st.write(addr, ("ctx", cid))

                def f(a):
                    if a[0] == hole[0] and a[1][:len(hole[1])] == hole[1]:
                        return (("h", h), a[1][len(hole[1]):])
                    return a
                self.rewrite_refs(f)
        if targets - done:
            raise Unsupported("cursor not found in any tree")

    def slots(self, root, proj, v):
        if tv(v) or v[0] == "box":
            yield ((root, proj), v)
        elif v[0] == "agg" and v[1] == self.node:
            for i in (self.dom.fam.L, self.dom.fam.R):
                yield ((root, proj + (i,)), v[3][i])
        elif v[0] == "agg":
            for i, x in enumerate(v[3]):
                yield from self.slots(root, proj + (i,), x)
        elif v[0] == "closure":
            for i, x in enumerate(v[2]):
                yield from self.slots(root, proj + (i,), x)

    def find(self, v, addr, pre, post, targets, pins):
        """v: tree value stored at addr"""
        st, dom, fam = self.st, self.dom, self.dom.fam
        for t in targets:
            if t[0] == addr[0] and t[1][:len(addr[1])] == addr[1] and t[0][0] == "h" and self.is_node_obj(t[0][1]):
                pins.append((addr, pre, post, t, t[1][len(addr[1]):]))
        if v[0] == "ctx":
            p, q, h = st.mem[("ctx", v[1])]
            self.find(st.heap[h], (("h", h), ()), pre + p, q + post, targets, pins)
            return
        b = None
        if v[0] == "agg" and v[1] == OPTION and v[2] == 1 and v[3][0][0] == "box":
            b = v[3][0][1]
        elif v[0] == "box":
            b = v[1]
        if b is None:
            return
        for t in targets:
            if t[0] == ("h", b) and t[1] == ():
                pins.append((addr, pre, post, t, ()))
        n = st.heap[b]
        if n[0] == "agg" and n[1] == self.node:
            at = (dom.atom_of(n[3][fam.E]),) if n[3][fam.E][0] != "moved" else ()
            lw = lambda: dom.word(st, n[3][fam.L])
            rw = lambda: dom.word(st, n[3][fam.R])
            before = len(pins)
            lp, rp = [], []
            self.find(n[3][fam.L], (("h", b), (fam.L,)), (), (), targets, lp)
            self.find(n[3][fam.R], (("h", b), (fam.R,)), (), (), targets, rp)
            for h, a, z, t, i in lp:
                pins.append((h, pre + a, z + at + rw() + post, t, i))
            for h, a, z, t, i in rp:
                pins.append((h, pre + lw() + at + a, z + post, t, i))

    def collapse_all(self, roots):
        st = self.st
        pinned = set()
        for r in roots:
            refs = []
            self.refs_in(st.root_get(r), refs)
            pinned |= set(refs)
        self.pinned = pinned
        for r in roots:
            if r[0] == "h" and self.is_node_obj(r[1]):
                v = st.heap[r[1]]
                if v[0] != "tnode":
                    st.heap[r[1]] = ("tnode", self.fold_tree(v))
                continue
            v = st.root_get(r)
            n = self.collapse(v, (r, ()))
            if n != v:
                st.root_set(r, n)

    def node_pinned(self, hid):
        return any(a[0] == ("h", hid) for a in self.pinned)

    def collapse(self, v, addr):
        st = self.st
        k = v[0]
        if k == "agg" and v[1] == OPTION and v[2] == 1 and v[3][0][0] == "box":
            hid = v[3][0][1]
            inner = any(a[0] == addr[0] and a[1][:len(addr[1]) + 1] == addr[1] + (0,) for a in self.pinned)
            o = st.heap[hid]
            if not self.is_node_obj(hid):
                return v
            s = o[1] if o[0] == "tnode" else self.fold_tree(o)
            if inner or self.node_pinned(hid):
                st.heap[hid] = ("tnode", s)
                return v
            return ("tree", s)
        if k == "box" and self.is_node_obj(v[1]):
            o = st.heap[v[1]]
            if o[0] != "tnode":
                st.heap[v[1]] = ("tnode", self.fold_tree(o))
            return v
        if k == "ctx":
            h = st.mem[("ctx", v[1])][2]
            n = self.collapse(st.heap[h], (("h", h), ()))
            st.heap[h] = n
            return v
        if k == "agg":
            n = tuple(self.collapse(x, (addr[0], addr[1] + (i,))) for i, x in enumerate(v[3]))
            return v if n == v[3] else ("agg", v[1], v[2], n)
        if k == "closure":
            n = tuple(self.collapse(x, (addr[0], addr[1] + (i,))) for i, x in enumerate(v[2]))
            return v if n == v[2] else ("closure", v[1], n)
        return v

    def fold_tree(self, node):
        """a structure symbol for a well-formed materialised node"""
        st, dom = self.st, self.dom
        if dom.fam.name == "splay":
            info, facts = {}, []
        else:
            ms = dom.measure(st.copy(), node)
            if len(ms) != 1:
                raise Unsupported("structure undetermined at a loop head")
            _, m, probs = ms[0]
            if probs:
                raise Unsupported("broken structure at a loop head: %s" % (probs[0],))
            info, facts = {}, []
            if dom.fam.name == "avl":
                facts = lambda f: [V("h" + f) - m]
            elif dom.fam.name == "rb":
                if m["rr"] or m.get("rlean"):
                    raise Unsupported("unbalanced structure at a loop head")
                info = {"color": m["color"]}
                if m.get("lr") is not None:
                    info["lr"] = m["lr"]
                facts = lambda f: [V("b" + f) - m["bh"]]
        f = dom.new_sym(st, dom.word(st, node), info)
        for x in (facts(f) if facts else []):
            st.add_eq(x)
        dom.nonemp(st, f)
        return f

    def gc(self, roots):
        st = self.st
        keep = set()

        def go(v):
            k = v[0]
            if k in ("box", "boxraw"):
                if v[1] not in keep:
                    keep.add(v[1])
                    go(st.heap[v[1]])
            elif k == "ref" and v[1][0][0] == "h":
                if v[1][0][1] not in keep and v[1][0][1] in st.heap:
                    keep.add(v[1][0][1])
                    go(st.heap[v[1][0][1]])
            elif k == "agg":
                for x in v[3]:
                    go(x)
            elif k == "closure":
                for x in v[2]:
                    go(x)
            elif k == "vec":
                for x in v[3]:
                    go(x)
            elif k == "ctx":
                h = st.mem[("ctx", v[1])][2]
                keep.add(h)
                go(st.heap[h])

        for r in roots:
            if r[0] == "h":
                keep.add(r[1])
            go(st.root_get(r))
        st.heap = {h: v for h, v in st.heap.items() if h in keep}

    # ---------- content words ----------
    def live_items(self):
        """symbols, entries, keys, values and int symbols mentioned by the live heap"""
        st = self.st
        syms, keys, vals, ints, ctxs, prios = [], [], [], set(), [], []

        def go(v, seen):
            k = v[0]
            if k in ("tree", "tnode"):
                syms.append(v[1])
            elif k == "key":
                keys.append(v[1])
            elif k == "val":
                vals.append(v[1])
            elif k == "prio":
                prios.append(v[1])
            elif k == "int":
                ints.update(v[1].syms())
            elif k == "agg":
                for x in v[3]:
                    go(x, seen)
            elif k == "closure":
                for x in v[2]:
                    go(x, seen)
            elif k == "vec":
                if v[1]:
                    syms.append(v[1])
                for x in v[3]:
                    go(x, seen)
            elif k == "ref":
                r = v[1][0]
                if r[0] == "ent":
                    (keys if r[1] is not None else vals).append(r[1] if r[1] is not None else r[2])
                elif r[0] == "const":
                    go(r[1], seen)
            elif k == "ctx":
                if v[1] not in ctxs:
                    ctxs.append(v[1])
                    pre, post, h = st.mem[("ctx", v[1])]
                    for x in pre + post:
                        if isinstance(x, str):
                            syms.append(x)
                        elif x[1] is not None:
                            keys.append(x[1])
                        else:
                            vals.append(x[2])

        for fr in st.frames:
            for l, v in fr.locals.items():
                go(v, None)
        for h, v in st.heap.items():
            go(v, None)
        return syms, keys, vals, ints, ctxs, prios

    def words(self, roots):
        st, dom = self.st, self.dom
        syms, keys, vals, ints, ctxs, prios = self.live_items()
        live = set(syms)
        keyset, valset = set(keys) | {k for k in st.mem.get("keys", ())}, set(vals)
        ghosts = {g: list(dom.expand(st, w)) for g, w in st.ghost.items()}
        alts = {}
        explained = set()
        order = sorted(live, key=lambda x: -int(x[1:]))
        runs = {}
        for f in order:
            if st.nonempty.get(f) is False:
                continue
            cand = []
            if f in st.alt:
                cand.append(dom.norm_expand(st, st.alt[f]))
            if f in st.mat:
                cand.append(dom.expand(st, (f,)))
            runs[f] = [c for c in cand if c]

        def replace(w, f, run):
            n = len(run)
            for i in range(len(w) - n + 1):
                if tuple(w[i:i + n]) == run:
                    w[i:i + n] = [f]
                    return True
            return False

        for f in order:
            for g, w in ghosts.items():
                if f in w:
                    explained.add(f)
                for run in runs.get(f, ()):
                    if replace(w, f, run):
                        explained.add(f)
        for f in order:
            if f not in explained and f in st.alt and st.nonempty.get(f) is not False:
                w = list(dom.expand(st, st.alt[f]))
                for f2 in order:
                    if f2 != f:
                        for run in runs.get(f2, ()):
                            replace(w, f2, run)
                alts[f] = w
            elif f not in explained and f in st.mat and st.nonempty.get(f) is not False:
                alts[f] = list(dom.expand(st, (f,)))
        # items needed by unexplained contents stay; everything else is merged into runs
        need = set(live)
        for w in alts.values():
            need |= set(x for x in w)

        def livei(it):
            if it in need:
                return True
            if isinstance(it, tuple) and it[0] == "e":
                return (it[1] in keyset if it[1] is not None else it[2] in valset)
            return isinstance(it, tuple)

        def compress(w):
            out, run = [], []
            for it in list(w) + [None]:
                if it is not None and not livei(it):
                    run.append(it)
                    continue
                if run:
                    out.append(self.content_sym(tuple(run)))
                    run = []
                if it is not None:
                    out.append(it)
            return tuple(x for x in out if not (isinstance(x, str) and st.nonempty.get(x) is False))

        newg = {g: compress(w) for g, w in ghosts.items()}
        newa = {f: tuple(w) for f, w in alts.items()}
        kept = {it for w in list(newg.values()) + list(newa.values()) for it in w}
        for g, w in st.ghost.items():
            for it in dom.expand(st, w):
                if isinstance(it, tuple) and it[0] == "e" and livei(it) and it not in kept:
                    raise Unsupported("a live entry is lost in folded content")
        used = set(live)
        for w in list(newg.values()) + list(newa.values()):
            for it in w:
                used.add(it if isinstance(it, str) else it[1] if it[0] == "e" else None)
                if isinstance(it, tuple) and it[0] == "op":
                    raise Unsupported("set operation at a loop head")
        used |= keyset | {"k0"}
        used |= set(st.info) & {st.mem.get("t0")}
        st.ghost = newg
        st.alt = newa
        st.mat = {x: () for x in used if x is not None and st.nonempty.get(x) is False}
        # keys: representatives
        rep = {}
        for k in used:
            if k is not None and k.startswith("k"):
                rep.setdefault(st.rep(k), []).append(k)
        used |= set(rep)
        st.eqk = {k: st.rep(k) for k in st.eqk if k in used}
        st.lt = frozenset((a, b) for a, b in st.lt if a in used and b in used)
        st.nonempty = {k: v for k, v in st.nonempty.items() if k in used}
        st.info = {k: v for k, v in st.info.items() if k in used}
        pr = set(prios) | {v for k, v in st.mem.items() if isinstance(k, tuple) and k[0] == "pr" and k[1] in used} | {"pq"}
        st.dom = frozenset((a, b) for a, b in st.dom if (a in pr or a in used) and (b in pr or b in used))
        st.mem = {k: v for k, v in st.mem.items() if not (isinstance(k, tuple) and (k[0] == "pr" and k[1] not in used or k[0] == "ctx" and k[1] not in ctxs))}
        self.project(used, ints)

    def project(self, used, ints):
        st = self.st

        def livev(v):
            return v in ints or v[0] == "i" or v[1:] in used

        eqs = [V(k) - e for k, e in st.eqs.items()]
        lin = list(st.lin)
        dead = {s for e in eqs + lin for s in e.syms() if not livev(s)}
        for d in sorted(dead):
            piv = None
            for e in eqs:
                c = dict(e.t).get(d)
                if c is not None and abs(c) == 1:
                    piv = (e, c)
                    break
            if piv:
                e, c = piv
                eqs.remove(e)
                rest = Lin(tuple((s, v) for s, v in e.t if s != d), e.c).scale(-c)
                m = {d: rest}
                eqs = [x.subst(m) for x in eqs]
                lin = [x.subst(m) for x in lin]
                lin.append(rest)   # the eliminated quantity is not negative
            else:
                eqs = [e for e in eqs if d not in e.syms()]
                lin = [e for e in lin if d not in e.syms()]
        lin = [l for l in lin if all(livev(s) for s in l.syms())]
        st.eqs, st.lin = {}, ()
        for e in eqs:
            if e.t:
                st.add_eq(e)
        for l in lin:
            if l.t:
                st.add_ge(l)


def canon(dom, st):
    """state up to renaming of symbols"""
    names = {}

    def nm(x):
        if x is None:
            return None
        if x not in names:
            names[x] = "%s#%d" % (x[0], len(names))
        return names[x]

    def lin(l):
        return ("lin", tuple((v[0] + nm(v[1:]) if v[0] in "nhb" else v, c) for v, c in l.t), l.c)

    out = []
    hseen = {}
    hq = []

    def hn(h):
        if h not in hseen:
            hseen[h] = len(hseen)
            hq.append(h)
        return hseen[h]

    def val(v):
        k = v[0]
        if k in ("tree", "tnode", "key", "val", "prio"):
            return (k, nm(v[1]))
        if k == "int":
            return lin(st.red(v[1]))
        if k == "agg":
            return ("agg", v[1], v[2], tuple(val(x) for x in v[3]))
        if k == "closure":
            return ("closure", v[1], tuple(val(x) for x in v[2]))
        if k == "vec":
            return ("vec", nm(v[1]), tuple(val(x) for x in v[3]))
        if k in ("box", "boxraw"):
            return (k, hn(v[1]))
        if k == "ref":
            return ("ref", addr(v[1]))
        if k == "ctx":
            pre, post, h = st.mem[("ctx", v[1])]
            return ("ctx", word(pre), word(post), hn(h))
        return v if k != "fn" else ("fn", v[1])

    def addr(a):
        r = a[0]
        if r[0] == "h":
            return (hn(r[1]), a[1])
        if r[0] == "ent":
            return ("ent", nm(r[1]), nm(r[2]), a[1])
        if r[0] == "const":
            return ("const", val(r[1]), a[1])
        if r[0] == "l":
            return ("l", [i for i, f in enumerate(st.frames) if f.fid == r[1]][0], r[2], a[1])
        return (r, a[1])

    def word(w):
        return tuple(nm(x) if isinstance(x, str) else ("e", nm(x[1]), nm(x[2])) if x[0] == "e" else ("op", x[1], word(x[2]), word(x[3])) for x in w)

    for i, f in enumerate(st.frames):
        out.append((f.fn.path, f.bb, tuple((l, val(f.locals[l])) for l in sorted(f.locals)), addr(f.dest) if f.dest else None))
    if "cell" in st.mem:
        out.append(addr(st.mem["cell"][1]))
    i = 0
    while i < len(hq):
        if hq[i] in st.heap:
            out.append((i, val(st.heap[hq[i]])))
        i += 1
    for g in sorted(st.ghost):
        out.append((g, word(st.ghost[g])))
    for f in [x for x in list(names)]:
        if f in st.alt:
            out.append(("alt", names[f], word(st.alt[f])))
    facts = set()
    for a, b in st.lt:
        facts.add(("lt", nm(a), nm(b)) if a in names and b in names else ("lt?", a in names, b in names))
    for a, b in st.dom:
        facts.add(("dom", nm(a), nm(b)))
    for k, v in st.nonempty.items():
        if k in names:
            facts.add(("ne", names[k], v))
    for k, v in st.info.items():
        if k in names:
            facts.add(("info", names[k], tuple(sorted((str(a), str(b)) for a, b in v.items()))))
    for k, v in st.eqk.items():
        if k in names:
            facts.add(("eqk", names[k], nm(st.rep(k))))
    for a, v in st.mem.items():
        if a == "probs":
            facts.add(("probs", len(v)))
    # numeric facts over named symbols, as inequalities
    nums = []
    for k, e in st.eqs.items():
        l = V(k) - e
        nums += [l, -l]
    nums += list(st.lin)

    def known(v):
        return v[0] not in "nhb" or v[1:] in names

    nums = [lin(l) for l in nums if all(known(v) for v in l.syms())]
    inv = {n: x for x, n in names.items()}
    return (tuple(out), frozenset(facts)), frozenset(nums), inv


def weaken(st, stored, inv):
    """keep of the numeric facts only those in stored that the state implies; None if it implies all of them"""
    kept, all_ = [], True
    for f in stored:
        l = Lin(tuple(sorted((v[0] + inv[v[1:]] if v[0] in "nhb" else v, c) for v, c in f[1])), f[2])
        if st.ge(l):
            kept.append((f, l))
        else:
            all_ = False
    if all_:
        return None
    st.eqs, st.lin = {}, ()
    ls = [l for _, l in kept]
    for l in ls:
        if -l in ls:
            st.add_eq(l)
    for l in ls:
        if -l not in ls:
            st.add_ge(l)
    return frozenset(f for f, _ in kept)
