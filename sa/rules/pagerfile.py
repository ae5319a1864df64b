"""The pager of the B+ map: every method that succeeds leaves on the file what it has in memory.

A file is the list of writes to it, each with its place; places are linear in the size of the header, the size of a node and page * size."""
from ..interp import State, Unsupported, Bug, Infeasible, OPTION, RESULT, NONE, UNIT, TRUE, FALSE, some, tup, integer
from ..lin import V, C
from ..simple import start
from .. import arrays
from ..colls import ok
from ..arrays import AInterp, product
from .bptree import Lay, NODE, LEAF
from .pages import PDom, ref

PG = "crate::bp_tree::pager::Pager"
META = "crate::bp_tree::pager::Metadata"
H, N, I = V("nhsz"), V("nnsz"), V("nidx")


def off(i):
    return H + product(N, i)


class FInterp(AInterp):
    MAXSTEPS = 60000

    def __init__(self, lay, dom):
        AInterp.__init__(self, lay.prog, dom)
        self.lay = lay
        dom.ip = dom.interp = self
        self.override = dict(arrays.OVER)
        o = self.override
        o["std::io::Seek::seek"] = self.seek
        o["<std::fs::File as std::io::Seek>::seek"] = self.seek
        o["std::io::Write::write_all"] = self.write_all
        o["<std::fs::File as std::io::Write>::write_all"] = self.write_all
        o["std::io::Read::read_exact"] = self.read_exact
        o["<std::fs::File as std::io::Read>::read_exact"] = self.read_exact
        o["std::fs::File::set_len"] = self.set_len
        o["bincode::serialize"] = self.serialize
        o["bincode::deserialize"] = self.deserialize
        o["std::vec::from_elem"] = self.buffer
        for n in ("std::vec::Vec::<T, A>::as_mut_slice", "std::vec::Vec::<T, A>::as_slice"):
            o[n] = lambda ip, st, a, t, f: self.finish(st, t, a[0])
        for n in ("new", "read", "write", "create"):
            o["std::fs::OpenOptions::" + n] = lambda ip, st, a, t, f: self.finish(st, t, a[0] if a else ("opaque", "options"))
        o["std::fs::OpenOptions::open"] = lambda ip, st, a, t, f: self.finish(st, t, ok(("file",)))
        for path in self.prog.fns:
            if path.endswith("::get_metadata_size") and path.startswith(PG):
                self.models[path] = lambda ip, st, args, t: self.finish(st, t, ("int", H))
            if path.endswith("::get_node_size") and path.startswith(PG) or path.startswith(NODE + "::<") and path.endswith("::get_max_size"):
                self.models[path] = lambda ip, st, args, t: self.finish(st, t, ("int", N))
            if path.startswith(LEAF + "::<") and path.endswith("::new"):
                self.models[path] = lambda ip, st, args, t: self.finish(st, t, ("emptyleaf", st.strip_refs(args[0])))

    def seek(self, ip, st, args, t, f):
        w = args[1]
        if w[0] != "agg" or not w[3] or w[3][0][0] != "int" or w[2] != 0:
            raise Unsupported("seek of another form")
        st.mem["pos"] = w[3][0]
        return self.finish(st, t, ok(w[3][0]))

    def at(self, st):
        p = st.mem.get("pos")
        if p is None:
            raise Bug("B01", "the file is read or written wherever the last access ended")
        st.mem["pos"] = None
        return p

    def write_all(self, ip, st, args, t, f):
        b = st.strip_refs(args[1])
        if b[0] != "ser":
            raise Unsupported("bytes of another origin are written")
        st.mem["w"] += ((self.at(st), b[1]),)
        return self.finish(st, t, ok(UNIT))

    def read_exact(self, ip, st, args, t, f):
        r = args[1]
        while r[0] == "ref" and st.read(st.deref(r))[0] == "ref":
            r = st.read(st.deref(r))
        v = st.read(st.deref(r)) if r[0] == "ref" else r
        if v[0] != "box":
            raise Unsupported("buffer")
        p = self.at(st)
        for q, x in st.mem["w"]:
            if self.dom.zero(st, q[1] - p[1]):
                raise Bug("B02", "a place is read after it was overwritten")
        st.heap[v[1]] = ("buf", p)
        return self.finish(st, t, ok(UNIT))

    def set_len(self, ip, st, args, t, f):
        st.mem["size"] = args[1]
        return self.finish(st, t, ok(UNIT))

    def serialize(self, ip, st, args, t, f):
        return self.finish(st, t, ok(("ser", self.snap(st, args[0]))))

    def snap(self, st, v):
        v = st.strip_refs(v)
        return v[:3] + (tuple(self.snap(st, x) for x in v[3]),) if v[0] == "agg" else v

    def buffer(self, ip, st, args, t, f):
        h = st.fresh("bf")
        st.heap[h] = ("buf", None)
        return self.finish(st, t, ("box", h))

    def deserialize(self, ip, st, args, t, f):
        v = st.strip_refs(args[0])
        if v[0] == "box":
            v = st.heap[v[1]]
        if v[0] != "buf":
            raise Unsupported("decoding of something else")
        if v[1] is None:
            raise Bug("B02", "a buffer is decoded that nothing was read into")
        if self.dom.zero(st, v[1][1]):
            return self.finish(st, t, ok(("meta", "read")))
        out = []
        for n, x in (("Free", ("nextfree", v[1])), ("Leaf", ("node", v[1]))):
            out += self.finish(st.copy(), t, ok(("agg", NODE, self.lay.v[n], (x,))))
        return out

    def drop_value(self, *a, **k):
        return None


OPS = ("set_len", "set_root_page", "get_page", "write_node", "allocate_node", "deallocate_node", "clear", "new", "open")


class Op:
    def __init__(self, prog, name):
        self.prog, self.name = prog, name
        self.probs, self.paths, self.unsupported = [], 0, []
        self.path = next((p for p in prog.fns if p.startswith(PG + "::<") and p.endswith("::" + name)), None)

    def run(self):
        if self.path is None:
            raise Unsupported("Pager::%s is gone" % self.name)
        fn = self.prog.fns[self.path]
        lay = self.lay = Lay(self.prog)
        self.mf = {x["name"]: i for i, x in enumerate(self.prog.adts[META]["variants"][0]["fields"])}
        self.pf = {x["name"]: i for i, x in enumerate(self.prog.adts[PG]["variants"][0]["fields"])}
        for n in ("pages", "len", "root_page", "free_page"):
            if n not in self.mf:
                raise Unsupported("metadata without " + n)
        for free in (False, True) if self.name in ("allocate_node", "deallocate_node", "clear") else (False,):
            self.one(fn, lay, free)
        return self

    def one(self, fn, lay, free):
        d = PDom()
        ip = self.ip = FInterp(lay, d)
        st = State()
        for x in (H, N):
            st.add_ge(x - 1)
        st.add_ge(V("npg") - 1)
        st.mem.update({"pos": None, "w": (), "size": None, "root:nodes": (), "root:init": (), "root:pages": ()})
        ms = [("top", "?")] * len(self.mf)
        for n, i in self.mf.items():
            ms[i] = ("int", V("n:" + n))
        ms[self.mf["pages"]] = ("int", V("npg"))
        ms[self.mf["free_page"]] = some(("int", V("nfree"))) if free else NONE
        self.old = ("agg", META, 0, tuple(ms))
        ps = [("top", "phantom")] * len(self.pf)
        ps[self.pf["metadata"]] = self.old
        ps[self.pf["db_file"]] = ("file",)
        st.heap["self"] = ("agg", PG, 0, tuple(ps))
        st.heap["node"] = ("thenode",)
        args = {"set_len": [ref("self"), ("int", V("nnew"))], "set_root_page": [ref("self"), ("int", V("nnew"))], "get_page": [ref("self"), ("int", I)],
                "write_node": [ref("self"), ("int", I), ref("node")], "allocate_node": [ref("self"), ref("node")], "deallocate_node": [ref("self"), ("int", I)],
                "clear": [ref("self")], "new": [("opaque", "path")] + [("int", V("n:" + n)) for n in ("key_size", "value_size", "leaf_degree", "internal_degree")], "open": [("opaque", "path")]}[self.name]
        outs = ip.run(start(ip, fn, args, st))
        self.unsupported += sorted(set(ip.unsupported))
        for o in outs:
            self.paths += 1
            where = getattr(o, "where", "")
            if o.kind == "bug":
                self.probs.append((getattr(o, "cat", "B01"), o.msg, o.state.trace[-8:], where))
            elif o.kind == "panic":
                if "free node" not in o.msg and "Overflow" not in o.msg and not (self.name == "allocate_node" and free):
                    self.unsupported.append("a path that panics: " + o.msg)
            else:
                try:
                    for c, m in self.check(ip, o, free):
                        self.probs.append((c, m, o.state.trace[-8:], ""))
                except Unsupported as e:
                    self.unsupported.append(str(e))

    def check(self, ip, o, free):
        st, v = o.state, o.value
        z = ip.dom.zero
        if v[0] != "agg" or v[1] != RESULT:
            raise Unsupported("result is " + v[0])
        if v[2] == 1:
            return
        r = v[3][0]
        name = self.name
        me = r if name in ("new", "open") else st.heap["self"]
        if me[0] != "agg" or me[1] != PG:
            raise Unsupported("pager is " + me[0])
        md = me[3][self.pf["metadata"]]
        w = list(st.mem["w"])
        metas = [x for x in w if z(st, x[0][1])]
        rest = [x for x in w if not z(st, x[0][1])]
        if name == "open":
            if md != ("meta", "read"):
                yield "B01", "the metadata of an opened map is not what its file holds"
            return
        want = dict((n, self.old[3][i]) for n, i in self.mf.items())
        place, node, size = None, ("thenode",), None
        if name == "set_len":
            want["len"] = ("int", V("nnew"))
        elif name == "set_root_page":
            want["root_page"] = ("int", V("nnew"))
        elif name == "write_node":
            place = off(I)
        elif name == "allocate_node":
            if free:
                place = off(V("nfree"))
                want["free_page"] = ("nextfree", ("int", place))
                page = V("nfree")
            else:
                page = V("npg")
                place = off(page)
                want["pages"] = ("int", V("npg") + 1)
                size = off(V("npg") + 1)
        elif name == "deallocate_node":
            place = off(I)
            node = ("agg", NODE, self.lay.v["Free"], (want["free_page"],))
            want["free_page"] = some(("int", I))
        elif name in ("clear", "new"):
            want.update(pages=integer(1), len=integer(0), root_page=integer(0), free_page=NONE)
            place, size = H, H + N
            node = ("agg", NODE, self.lay.v["Leaf"], (("emptyleaf", want["leaf_degree"]),))

        def same(a, b):
            if a[0] == "int" and b[0] == "int":
                return z(st, a[1] - b[1])
            if a[0] == b[0] == "nextfree":
                return same(a[1], b[1])
            if a[0] == "agg" and b[0] == "agg":
                return a[1:3] == b[1:3] and len(a[3]) == len(b[3]) and all(same(x, y) for x, y in zip(a[3], b[3]))
            if a[0] == b[0] == "emptyleaf":
                return same(a[1], b[1])
            return a == b
        cat = "B02" if name in ("allocate_node", "deallocate_node") else "B01"
        for n, i in self.mf.items():
            if not same(md[3][i], want[n]):
                for c in {cat} | ({"B01", "B02"} if n in ("free_page", "pages") else set()):
                    yield c, "%s is not what it has to be in the metadata" % n
                return
        if name == "get_page":
            if w:
                yield "B01", "reading a page writes to the file"
            if r[0] != "agg" or r[1] != NODE or not r[3][0][1:] or r[3][0][0] not in ("node", "nextfree") or not same(r[3][0][1], ("int", off(I))):
                yield "B01", "what is read is not what stands at the place of the page"
            return
        if want != dict((n, self.old[3][i]) for n, i in self.mf.items()) or name in ("new", "clear"):
            if not metas:
                yield "B01", "changed metadata is not written to the file"
            elif not same(metas[-1][1], md):
                yield "B01", "the metadata written to the file is not that in memory"
        elif metas and not same(metas[-1][1], md):
            yield "B01", "the metadata written to the file is not that in memory"
        if place is None:
            if rest:
                yield "B01", "something besides the metadata is written"
        else:
            last = [x for x in rest if z(st, x[0][1] - place)]
            if len(last) != len(rest):
                yield cat, "a node is written at another place than that of its page"
            elif not last:
                yield "B01", "the node is not written"
            elif not same(last[-1][1], node):
                yield cat, "what is written to the page is not what belongs there"
        s = st.mem["size"]
        if size is not None and (s is None or not z(st, s[1] - size)):
            yield cat, "the file does not have room for exactly its pages"
        if size is None and s is not None:
            yield cat, "the size of the file changes"
        if name == "allocate_node" and (r[0] != "int" or not z(st, r[1] - page)):
            yield "B02", "the page answered is not the page allocated"


if __name__ == "__main__":
    import sys
    from .. import mir
    prog = mir.load(sys.argv[1])
    for n in OPS:
        r = Op(prog, n)
        try:
            r.run()
        except Unsupported as e:
            r.unsupported.append("STOP " + str(e))
        print(n, "paths", r.paths)
        for u in sorted(set(r.unsupported))[:6]:
            print("   UNSUPPORTED", u[:300])
        for p in sorted(set((x[0], x[1]) for x in r.probs)):
            print("   ", p)
