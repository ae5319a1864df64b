"""Tables of the LSM map: what the builder writes is what a lookup and an iteration find.

Every method is run once, on arbitrary contents. Files are lists of writes, each with its place; a record is its length and its bytes.
The builder: after an append, data file, block of index entries, index, ranges, counts and filter are those before with the entry added;
after a flush, all of it is on file and both streams are flushed. The table: a lookup of an arbitrary key finds the entry if the table
holds it and nothing otherwise; an iteration reads one record after the other."""
from ..interp import State, Unsupported, Bug, Infeasible, OPTION, RESULT, NONE, UNIT, TRUE, FALSE, some, tup, integer
from ..lin import V, C
from ..simple import start, SYM
from .. import arrays
from ..colls import ok
from ..arrays import ADom, AInterp

SST = "crate::lsm_tree::sstable::SSTable"
BUILDER = SST + "Builder"
SUMMARY = SST + "Summary"
VALUE = SST + "Value"
DITER = SST + "DataIter"
NEXT = "crate::<lsm_tree::sstable::SSTableDataIter<T, U> as std::iter::Iterator>::next"
ENTRY = "crate::entry::Entry"
ORDER = {"lt": 0, "kk": 1, "gt": 2}


def LIT(s):
    return ("str", '"%s"' % s)


def ref(h):
    return ("ref", (("h", h), ()))


class TDom(ADom):
    tolerant = True
    soften = True

    def instantiate(self, st, v):
        return v

    def summary(self, st, v):
        return v

    def on_drop(self, st, v):
        pass

    def parameters(self, st):
        r = set()
        for l in list(st.lin) + list(st.eqs.values()):
            r |= {x for x in l.syms() if not SYM.match(x)}
        return sorted(r)

    def zero(self, st, l):
        l = st.red(l)
        c = l.const()
        return c == 0 if c is not None else st.ge(l) and st.ge(-l)


class TInterp(AInterp):
    MAXSTEPS = 60000

    def __init__(self, prog, dom):
        AInterp.__init__(self, prog, dom)
        dom.ip = dom.interp = self
        self.override = dict(arrays.OVER)
        o = self.override
        for n in dir(self):
            if n.startswith("m_"):
                for p in getattr(self, n).__doc__.split(" | "):
                    o[p.strip()] = getattr(self, n)
        for p in self.prog.fns:
            if p.startswith(BUILDER + "::<") and p.endswith("::generate_file_name"):
                self.models[p] = lambda ip, st, args, t: self.finish(st, t, ("opaque", "name"))

    def drop_value(self, *a, **k):
        return None

    # -- values
    def cmp_values(self, st, a, b):
        a, b = st.strip_refs(a), st.strip_refs(b)
        if a[0] == b[0] == "k" and a[1] in ORDER and b[1] in ORDER:
            i, j = ORDER[a[1]], ORDER[b[1]]
            if i != j:
                return [(st, -1 if i < j else 1)]
            if a[1] == "kk":
                return [(st, 0)]
            return [(st, -1), (st.copy(), 1)]
        return AInterp.cmp_values(self, st, a, b)

    def snap(self, st, v):
        v = st.strip_refs(v)
        if v[0] in ("box", "boxraw") and v[1] in st.heap:
            return self.snap(st, st.heap[v[1]])
        if v[0] == "arr":
            return ("arr", tuple(("cell", self.snap(st, st.heap[x]), hi) if k == "cell" else (k, x, hi) for k, x, hi in v[1]))
        if v[0] == "agg":
            return v[:3] + (tuple(self.snap(st, x) for x in v[3]),)
        return v

    def thaw(self, st, v):
        if v[0] == "arr":
            h = st.fresh("v")
            segs = []
            for k, x, hi in v[1]:
                if k == "cell":
                    e = st.fresh("e")
                    st.heap[e] = self.thaw(st, x)
                    x = e
                segs.append((k, x, hi))
            st.heap[h] = ("arr", tuple(segs))
            return ("box", h)
        if v[0] == "agg":
            return v[:3] + (tuple(self.thaw(st, x) for x in v[3]),)
        return v

    def m_clone(self, ip, st, args, t, f):
        """std::clone::Clone::clone"""
        return self.finish(st, t, self.thaw(st, self.snap(st, args[0])))

    def m_same(self, ip, st, args, t, f):
        """std::convert::AsRef::as_ref | std::ops::Deref::deref | std::path::PathBuf::as_path | std::vec::Vec::<T, A>::as_mut_slice | std::vec::Vec::<T, A>::as_slice | std::io::BufWriter::<W>::new | <std::path::PathBuf as std::convert::From>::from | std::path::Path::to_path_buf | std::borrow::Borrow::borrow | std::ops::DerefMut::deref_mut"""
        return self.finish(st, t, args[0])

    def m_from(self, ip, st, args, t, f):
        """std::convert::From::from | std::convert::Into::into"""
        return self.finish(st, t, st.strip_refs(args[0]))

    def m_take(self, ip, st, args, t, f):
        """std::option::Option::<T>::take | std::mem::take"""
        a = st.deref(args[0])
        v = st.read(a)
        if v[0] != "agg" or v[1] != OPTION:
            raise Unsupported("take of " + v[0])
        st.write(a, NONE)
        return self.finish(st, t, v)

    def m_maxmin(self, ip, st, args, t, f):
        """std::cmp::max | std::cmp::Ord::max | std::cmp::min | std::cmp::Ord::min"""
        mx = f["path"].endswith("max")
        out = []
        for s, ge in self.decide_rel(st, "Ge", args[0], args[1]):
            out += self.finish(s, t, args[0] if ge == mx else args[1])
        return out

    def m_clear(self, ip, st, args, t, f):
        """std::vec::Vec::<T, A>::clear"""
        a, v = self.arrayat(st, args[0])
        st.write(a, ("arr", ()))
        return self.finish(st, t, UNIT)

    def m_empty(self, ip, st, args, t, f):
        """std::vec::Vec::<T, A>::is_empty | core::slice::<impl [T]>::is_empty"""
        n = self.length(self.arrayat(st, args[0])[1])
        out = []
        for e in (True, False):
            s = st.copy()
            try:
                s.add_eq(n) if e else s.add_ge(n - 1)
            except Infeasible:
                continue
            out += self.finish(s, t, TRUE if e else FALSE)
        return out

    def m_first(self, ip, st, args, t, f):
        """core::slice::<impl [T]>::first"""
        n = self.length(self.arrayat(st, args[0])[1])
        if not st.ge(n - 1):
            if st.ge(C(0) - n):
                return self.finish(st, t, NONE)
            raise Unsupported("first of a list that may be empty")
        return self.elem(st, t, args[0], C(0), some)

    def elem(self, st, t, r, i, wrap):
        a, v = self.arrayat(st, r)
        out = []
        for s in [st] if self.cell(st, a, i) is not None else self.isolate(st, a, i):
            out += self.finish(s, t, wrap(self.element(s, r, i)))
        return out

    def m_index(self, ip, st, args, t, f):
        """std::ops::Index::index | std::ops::IndexMut::index_mut"""
        i = args[1]
        if i[0] != "int":
            raise Unsupported("index is " + i[0])
        n = self.length(self.arrayat(st, args[0])[1])
        if not st.ge(n - i[1] - 1):
            s = st.copy()
            try:
                s.add_ge(i[1] - n)
                return self.panic(s, "index out of bounds")
            except Infeasible:
                pass
        return self.elem(st, t, args[0], i[1], lambda r: r)

    def m_search(self, ip, st, args, t, f):
        """core::slice::<impl [T]>::binary_search_by_key | core::slice::<impl [T]>::binary_search_by"""
        if f["path"].endswith("_by"):
            raise Unsupported("search with a comparison")
        k = st.strip_refs(args[1])
        a, v = self.arrayat(st, args[0])
        lo = C(0)
        for kind, x, hi in v[1]:
            e = st.heap[x] if kind == "cell" else x
            if e[0] == "agg" and e[3][0] == k and k == ("k", "kk", "p"):
                return self.finish(st, t, ok(("int", lo)))
            lo = hi
        n = V(st.fresh("n"))
        st.add_ge(n)
        st.add_ge(lo - n)
        return self.finish(st, t, ("agg", RESULT, 1, (("int", n),)))

    # -- files
    def m_join(self, ip, st, args, t, f):
        """std::path::Path::join"""
        return self.finish(st, t, ("path", self.path(st, args[0]), self.path(st, args[1])))

    def path(self, st, v):
        v = st.strip_refs(v)
        if v[0] in ("box", "boxraw"):
            v = st.heap[v[1]]
        if v[0] not in ("path", "opaque") and not (v[0] == "str" and v[1].startswith('"')):
            raise Unsupported("name of a file is %s" % (v[:2],))
        return v

    def m_open(self, ip, st, args, t, f):
        """std::fs::File::open | std::fs::File::create"""
        st.mem["pos"] = st.mem["pos"] + ((self.path(st, args[0]), C(0)),)
        st.mem["files"] = st.mem.get("files", ()) + ((f["path"].rsplit("::", 1)[1], self.path(st, args[0])),)
        return self.finish(st, t, ok(("file", self.path(st, args[0]))))

    def m_dir(self, ip, st, args, t, f):
        """std::fs::create_dir | std::fs::create_dir_all"""
        return self.finish(st, t, ok(UNIT))

    def file(self, st, v):
        v = st.strip_refs(v)
        if v[0] != "file":
            raise Unsupported("file is " + v[0])
        return v[1]

    def place(self, st, v, move=None):
        p = self.file(st, v)
        at = dict(st.mem["pos"]).get(p)
        if at is None:
            raise Bug("L02", "a file is read or written at an unknown place")
        if move is not None:
            st.mem["pos"] = tuple((q, at + move if q == p else x) for q, x in st.mem["pos"])
        return p, at

    def m_seek(self, ip, st, args, t, f):
        """std::io::Seek::seek | <std::fs::File as std::io::Seek>::seek"""
        w = args[1]
        p = self.file(st, args[0])
        if w[0] != "agg" or not w[3] or w[2] != 0:
            raise Unsupported("seek of another form")
        x = w[3][0]
        st.mem["pos"] = tuple((q, (x[1] if x[0] == "int" else x) if q == p else y) for q, y in st.mem["pos"])
        return self.finish(st, t, ok(x))

    def m_serialize(self, ip, st, args, t, f):
        """bincode::serialize"""
        st.mem["sers"] = st.mem.get("sers", 0) + 1
        n = V("nsz%d" % (900000 + st.mem["sers"]))
        st.add_ge(n)
        return self.finish(st, t, ok(("ser", n, self.snap(st, args[0]))))

    def m_len(self, ip, st, args, t, f):
        """std::vec::Vec::<T, A>::len | core::slice::<impl [T]>::len"""
        v = st.strip_refs(args[0])
        if v[0] == "ser":
            return self.finish(st, t, ("int", v[1]))
        return arrays.length(ip, st, args, t, f)

    def m_w64(self, ip, st, args, t, f):
        """byteorder::WriteBytesExt::write_u64"""
        p, at = self.place(st, args[0], C(8))
        st.mem["w"] += ((p, at, "len", args[1]),)
        return self.finish(st, t, ok(UNIT))

    def m_write(self, ip, st, args, t, f):
        """std::io::Write::write_all"""
        b = st.strip_refs(args[1])
        if b[0] != "ser":
            raise Unsupported("bytes of another origin are written")
        p, at = self.place(st, args[0], b[1])
        st.mem["w"] += ((p, at, "rec", b),)
        return self.finish(st, t, ok(UNIT))

    def m_fswrite(self, ip, st, args, t, f):
        """std::fs::write"""
        b = st.strip_refs(args[1])
        if b[0] != "ser":
            raise Unsupported("bytes of another origin are written")
        st.mem["w"] += ((self.path(st, args[0]), C(0), "rec", b),)
        return self.finish(st, t, ok(UNIT))

    def m_flush(self, ip, st, args, t, f):
        """std::io::Write::flush | std::fs::File::sync_all | std::fs::File::sync_data"""
        p = self.file(st, args[0])
        st.mem["w"] += ((p, C(0), "flush", None),)
        return self.finish(st, t, ok(UNIT))

    def m_r64(self, ip, st, args, t, f):
        """byteorder::ReadBytesExt::read_u64"""
        p, at = self.place(st, args[0])
        rec = self.record(st, p, at)
        if rec is None:
            raise Bug("L02", "a length is read where no record begins")
        self.place(st, args[0], C(8))
        return self.finish(st, t, ok(("int", rec[0])))

    def record(self, st, p, at):
        for q, x, n, content in st.mem["recs"]:
            if q == p and (x == at or isinstance(x, type(at)) and not isinstance(x, tuple) and self.dom.zero(st, x - at)):
                return n, content
        return None

    def m_elem(self, ip, st, args, t, f):
        """std::vec::from_elem"""
        h = st.fresh("bf")
        st.heap[h] = ("buf", None, args[1])
        return self.finish(st, t, ("box", h))

    def m_read(self, ip, st, args, t, f):
        """std::io::Read::read_exact"""
        r = args[1]
        while r[0] == "ref" and st.read(st.deref(r))[0] == "ref":
            r = st.read(st.deref(r))
        v = st.read(st.deref(r)) if r[0] == "ref" else r
        if v[0] != "box" or st.heap[v[1]][0] != "buf":
            raise Unsupported("buffer")
        n = st.heap[v[1]][2]
        if n[0] != "int":
            raise Unsupported("length of a buffer")
        p, at = self.place(st, args[0], n[1])
        rec = None
        for q, x, m, content in st.mem["recs"]:
            if q == p and self.dom.zero(st, x + 8 - at):
                rec = m, content
        if rec is None or not self.dom.zero(st, rec[0] - n[1]):
            raise Bug("L02", "what is read is not a whole record")
        st.heap[v[1]] = ("buf", rec[1], n)
        return self.finish(st, t, ok(UNIT))

    def m_fsread(self, ip, st, args, t, f):
        """std::fs::read"""
        h = st.fresh("bf")
        st.heap[h] = ("buf", ("whole", self.path(st, args[0])), None)
        return self.finish(st, t, ok(("box", h)))

    def m_deserialize(self, ip, st, args, t, f):
        """bincode::deserialize"""
        v = st.strip_refs(args[0])
        if v[0] == "box":
            v = st.heap[v[1]]
        if v[0] != "buf":
            raise Unsupported("decoding of something else")
        if v[1] is None:
            raise Bug("L02", "a buffer is decoded that nothing was read into")
        return self.finish(st, t, ok(self.thaw(st, v[1])))

    # -- filter
    def m_finsert(self, ip, st, args, t, f):
        """probabilistic_collections::bloom::BloomFilter::<T>::insert"""
        st.mem["filter"] = st.mem.get("filter", ()) + (st.strip_refs(args[1]),)
        return self.finish(st, t, UNIT)

    def m_fhas(self, ip, st, args, t, f):
        """probabilistic_collections::bloom::BloomFilter::<T>::contains"""
        k = st.strip_refs(args[1])
        if st.mem.get("held") == k:
            return self.finish(st, t, TRUE)
        return self.finish(st.copy(), t, TRUE) + self.finish(st, t, FALSE)

    def m_fnew(self, ip, st, args, t, f):
        """probabilistic_collections::bloom::BloomFilter::<T>::new"""
        return self.finish(st, t, ("filter",))

    def m_float(self, ip, st, args, t, f):
        """std::f64::<impl f64>::ceil | std::f64::<impl f64>::sqrt"""
        return self.finish(st, t, ("opaque", "float"))


class Table:
    def __init__(self, prog):
        self.prog = prog
        self.fields, self.n = {}, {}
        for a in (SST, BUILDER, SUMMARY, VALUE, DITER, ENTRY):
            adt = prog.adts.get(a)
            if not adt:
                raise Unsupported(a + " is gone")
            fs = adt["variants"][0]["fields"]
            self.fields[a] = {x["name"]: i for i, x in enumerate(fs)}
            self.n[a] = len(fs)

    def make(self, adt, **kw):
        vs = [("top", "unknown")] * self.n[adt]
        for k, v in kw.items():
            if k not in self.fields[adt]:
                raise Unsupported("%s has no field %s" % (adt, k))
            vs[self.fields[adt][k]] = v
        return ("agg", adt, 0, tuple(vs))

    def get(self, v, name):
        if v[0] != "agg":
            raise Unsupported("no structure but " + v[0])
        if name not in self.fields[v[1]]:
            raise Unsupported("%s has no field %s" % (v[1], name))
        return v[3][self.fields[v[1]][name]]

    def fn(self, prefix, name):
        p = next((p for p in self.prog.fns if p.startswith(prefix + "::<") and p.endswith(">::" + name)), None)
        if p is None:
            raise Unsupported("%s::%s is gone" % (prefix, name))
        return p

    def cases(self):
        for first in (True, False):
            for dead in (True, False):
                yield "append", "first" if first else "later", "marker" if dead else "value"
        for rest in ("no block", "a block"):
            yield "flush", rest, ""
        yield "new", "builder", ""
        yield "new", "table", ""
        for at in ("none", "before", "first", "within", "equal"):
            yield "floor_offset", at, ""
        for at in ("held", "opens a block", "least", "greatest", "only", "gap", "below", "above"):
            yield "get", at, ""
        yield "data_iter", "", ""
        for at in ("start", "later"):
            yield "next", at, ""

    def array(self, st, *parts):
        segs, n = [], C(0)
        for x in parts:
            if x[0] == "many":
                m = V(st.fresh("n"))
                st.add_ge(m)
                n = n + m
                segs.append(("sum", x[1], n))
            else:
                n = n + 1
                e = st.fresh("e")
                st.heap[e] = x
                segs.append(("cell", e, n))
        h = st.fresh("v")
        st.heap[h] = ("arr", tuple(segs))
        return ("box", h)

    def run(self, what, a, b):
        self.probs, self.paths, self.unsupported = [], 0, []
        d = TDom()
        ip = self.ip = TInterp(self.prog, d)
        st = State()
        st.mem.update({"pos": (), "w": (), "recs": ()})
        path, args, check = getattr(self, "go_" + what)(st, a, b)
        fn = self.prog.fns.get(path)
        if fn is None:
            raise Unsupported(path + " is gone")
        self.path = path
        outs = ip.run(start(ip, fn, args, st))
        self.unsupported += sorted(set(ip.unsupported))
        for o in outs:
            self.paths += 1
            if o.kind == "bug":
                self.probs.append((getattr(o, "cat", "L02"), o.msg, o.state.trace[-8:], getattr(o, "where", "")))
            elif o.kind == "panic":
                if "verflow" not in o.msg:
                    self.probs.append(("L02", "may panic: " + o.msg, o.state.trace[-8:], getattr(o, "where", "")))
            else:
                try:
                    for c, m in check(ip, o.state, o.value):
                        self.probs.append((c, m, o.state.trace[-8:], ""))
                except Unsupported as e:
                    self.unsupported.append(str(e))
        return self

    def okv(self, v):
        if v[0] != "agg" or v[1] != RESULT:
            raise Unsupported("result is " + v[0])
        if v[2] == 1:
            return None
        return v[3][0]

    # -- the builder
    def builder(self, st, first, empty):
        self.old = dict(IO=V("nio"), DO=V("ndo"), E=V("nent"), D=V("ntomb"), t0=V("nt0"), t1=V("nt1"))
        o = self.old
        for x in o.values():
            st.add_ge(x)
        st.add_ge(o["t1"] - o["t0"])
        fe = tup(("k", "firstkey", "p"), ("int", V("nfo")))
        st.heap["unused"] = UNIT
        blk = self.array(st) if empty else self.array(st, fe, ("many", tup(("k", "blockkey", "p"), ("off", "block"))))
        b = V(st.fresh("n")) if False else None
        n = AInterp.length(st.heap[blk[1]])
        idx = self.array(st, ("many", tup(("k", "indexkey", "p"), ("off", "index"))))
        path = ("path", "dir", "table")
        df, xf = ("path", path, LIT("data.dat")), ("path", path, LIT("index.dat"))
        st.mem["pos"] = ((df, o["DO"]), (xf, o["IO"]))
        self.df, self.xf, self.tp = df, xf, path
        bv = self.make(BUILDER, sstable_path=path, entry_count=("int", o["E"]), tombstone_count=("int", o["D"]), size=("int", V("nsize")),
                       key_range=NONE if first else some(tup(("k", "minkey", "p"), ("k", "maxkey", "p"))),
                       logical_time_range=NONE if first else some(tup(("int", o["t0"]), ("int", o["t1"]))),
                       index=idx, block_index=("int", n), block_size=("int", V("nblk")), index_block=blk, filter=("filter",),
                       index_offset=("int", o["IO"]), index_stream=("file", xf), data_offset=("int", o["DO"]), data_stream=("file", df))
        st.heap["self"] = bv
        self.oldblk, self.oldidx = None, None
        ip = self.ip
        self.oldblk, self.oldidx = ip.snap(st, blk), ip.snap(st, idx)
        self.fe = fe
        return bv

    def same(self, st, a, b):
        z = self.ip.dom.zero
        if a[0] == b[0] == "int":
            return z(st, a[1] - b[1])
        if a[0] == b[0] == "agg":
            return a[1:3] == b[1:3] and len(a[3]) == len(b[3]) and all(self.same(st, x, y) for x, y in zip(a[3], b[3]))
        if a[0] == b[0] == "arr":
            return self.sameseq(st, self.segs(st, a), self.segs(st, b))
        return a == b

    def segs(self, st, a):
        out, lo = [], C(0)
        for k, x, hi in a[1]:
            w = st.red(hi - lo)
            if w.const() != 0 and not self.ip.dom.zero(st, w):
                if out and k == "sum" and out[-1][1] == x and out[-1][0] == "sum":
                    out[-1] = ("sum", x, out[-1][2] + w)
                else:
                    out.append((k, x, w))
            lo = hi
        return out

    def sameseq(self, st, a, b):
        return len(a) == len(b) and all(self.same(st, x[1], y[1]) and self.ip.dom.zero(st, x[2] - y[2]) for x, y in zip(a, b))

    def plus(self, a, x):
        return ("arr", a[1] + (("cell", x, AInterp.length(a) + 1),))

    def go_append(self, st, a, b):
        self.builder(st, a == "first", a == "first")
        t = V("nnewt")
        st.add_ge(t)
        self.t = t
        self.key = ("k", "newkey", "p")
        self.val = self.make(VALUE, data=NONE if b == "marker" else some(("val", "new")), logical_time=("int", t))
        return self.fn(BUILDER, "append"), [ref("self"), self.key, self.val], lambda ip, s, v: self.appended(ip, s, v, a, b)

    def writes(self, st, p, at):
        """the record written to a file at a place, and the length of what is written; None if nothing is"""
        w = [x for x in st.mem["w"] if x[0] == p and x[2] != "flush"]
        if not w:
            return None
        z = self.ip.dom.zero
        if len(w) != 2 or w[0][2] != "len" or w[1][2] != "rec" or w[0][3][0] != "int" or not z(st, w[0][3][1] - w[1][3][1]) or not z(st, w[0][1] - at):
            return "bad", None
        return w[1][3][2], w[1][3][1] + 8

    def block(self, ip, st, bv, want, name):
        """what became of the block of index entries: still there, or written and in the index"""
        o = self.old
        blk, idx = ip.snap(st, self.get(bv, "index_block")), ip.snap(st, self.get(bv, "index"))
        w = self.writes(st, self.xf, o["IO"])
        if w is None:
            if not self.same(st, idx, self.oldidx):
                yield "L02", "the index leads to a block that is not written"
            if name == "append" and not self.same(st, blk, want):
                yield "L02", "the entry is not in the block of index entries exactly once, with the place of its record"
            if name == "flush" and self.segs(st, want):
                yield "L02", "the last block of index entries is not written"
            return
        if w[0] == "bad" or not self.same(st, w[0], want):
            yield "L02", "the record written to the index file is not the block of index entries behind its length"
            return
        sg = self.segs(st, want)
        fk = sg[0][1][3][0]
        if not self.same(st, idx, self.plus(self.oldidx, tup(fk, ("int", o["IO"])))):
            yield "L02", "the index does not get the first key and the place of the block written"
        if name == "append":
            if self.segs(st, blk):
                yield "L02", "the block of index entries is not emptied after it was written"
            if not self.ip.dom.zero(st, self.get(bv, "index_offset")[1] - o["IO"] - w[1]):
                yield "L02", "the place of the next block is not the end of the index file"

    def appended(self, ip, st, v, a, b):
        if self.okv(v) is None:
            yield "E01", "an error is reported although every call succeeded"
            return
        o = self.old
        bv = st.heap["self"]
        z = self.ip.dom.zero
        w = self.writes(st, self.df, o["DO"])
        rec = w and w[0]
        if w is None or w[0] == "bad" or rec[0] != "agg" or len(rec[3]) != 2 or rec[3][0] != self.key or not self.same(st, rec[3][1], self.val):
            yield "L02", "what is written to the data file is not the entry behind its length"
            return
        if not z(st, self.get(bv, "data_offset")[1] - o["DO"] - w[1]):
            yield "L02", "the place of the next record is not the end of the data file"
        want = self.plus(self.oldblk, tup(self.key, ("int", o["DO"])))
        for p in self.block(ip, st, bv, want, "append"):
            yield p
        bi, blk = self.get(bv, "block_index"), ip.snap(st, self.get(bv, "index_block"))
        if bi[0] != "int" or not z(st, bi[1] - AInterp.length(blk)):
            yield "L02", "the number of entries in the block is not counted"
        if self.key not in st.mem.get("filter", ()):
            yield "L02", "the key is not added to the filter"
        kr = some(tup(self.key if a == "first" else ("k", "minkey", "p"), self.key))
        if not self.same(st, self.get(bv, "key_range"), kr):
            for c in ("L02", "L03"):
                yield c, "the range of keys does not end at the key appended, or begins elsewhere than before"
        tr = self.get(bv, "logical_time_range")
        if tr[0] != "agg" or tr[2] != 1 or tr[3][0][0] != "agg":
            yield "L02", "the range of times is lost"
            return
        lo, hi = tr[3][0][3]
        t = self.t
        los = [("int", t)] if a == "first" else [("int", t), ("int", o["t0"])]
        his = [("int", t)] if a == "first" else [("int", t), ("int", o["t1"])]
        if not all(st.ge(x[1] - lo[1]) for x in los) or not any(z(st, x[1] - lo[1]) for x in los) or not all(st.ge(hi[1] - x[1]) for x in his) or not any(z(st, x[1] - hi[1]) for x in his):
            yield "L02", "the range of times is not that of the entries"
            yield "L03", "the range of times is not that of the entries"

    def go_flush(self, st, a, b):
        self.builder(st, False, a == "no block")
        return self.fn(BUILDER, "flush"), [ref("self")], self.flushed

    def flushed(self, ip, st, v):
        r = self.okv(v)
        if r is None:
            yield "E01", "an error is reported although every call succeeded"
            return
        bv = st.heap["self"]
        for p in self.block(ip, st, bv, self.oldblk, "flush"):
            yield p
        if self.ip.path(st, r) != self.tp:
            yield "L02", "the path answered is not that of the table"
        w = st.mem["w"]
        got = {x[0][2]: x for x in w if x[2] == "rec" and x[0][1] == self.tp}
        s = got.get(LIT("summary.dat"))
        if s is None:
            yield "L01", "the summary is not written"
        else:
            sv = s[3][2]
            for n in self.fields[SUMMARY]:
                src = self.get(bv, n)
                x = self.get(sv, n)
                if n not in ("key_range", "logical_time_range", "index"):
                    continue        # counts do not decide what a read answers
                if n in ("key_range", "logical_time_range"):
                    src = src[3][0]
                if not self.same(st, x, ip.snap(st, src)):
                    yield "L02", "%s in the summary written is not that of the table" % n
        f = got.get(LIT("filter.dat"))
        if f is None:
            yield "L01", "the filter is not written"
        elif f[3][2] != ("filter",):
            yield "L02", "what is written as the filter is something else"
        for p, n in ((self.df, "data"), (self.xf, "index")):
            last = max([i for i, x in enumerate(w) if x[0] == p and x[2] != "flush"] or [-1])
            if not any(i > last and x[0] == p and x[2] == "flush" for i, x in enumerate(w)):
                yield "L01", "the %s file is not flushed after the last write to it" % n

    def go_new(self, st, a, b):
        if a == "builder":
            return self.fn(BUILDER, "new"), [("opaque", "dir"), ("int", V("nhint"))], self.begun
        return self.fn(SST, "new"), [("opaque", "table")], self.opened

    def begun(self, ip, st, v):
        b = self.okv(v)
        if b is None:
            return
        z = self.ip.dom.zero
        for n in ("block_index", "index_offset", "data_offset"):
            x = self.get(b, n)
            if x[0] != "int" or not z(st, x[1]):
                yield "L02", "%s of a new table is not zero" % n
        for n in ("key_range", "logical_time_range"):
            if self.get(b, n) != NONE:
                yield "L02", "%s of a new table is not empty" % n
        for n in ("index", "index_block"):
            if self.segs(st, ip.snap(st, self.get(b, n))):
                yield "L02", "%s of a new table is not empty" % n
        p = ip.path(st, self.get(b, "sstable_path"))
        for n in ("data", "index"):
            f = self.get(b, n + "_stream")
            if f != ("file", ("path", p, LIT(n + ".dat"))):
                yield "L02", "the %s of a new table is written to another file" % n
        if self.get(b, "filter") != ("filter",):
            yield "L02", "a new table has no empty filter"

    def opened(self, ip, st, v):
        t = self.okv(v)
        if t is None:
            return
        p = ip.path(st, self.get(t, "path"))
        if p != ("opaque", "table"):
            yield "L02", "the table opened has another path"
        for n in ("summary", "filter"):
            if self.get(t, n) != ("whole", ("path", ("opaque", "table"), LIT(n + ".dat"))):
                yield "L02", "the %s of the table opened is not read from its file" % n

    # -- the table
    def go_floor_offset(self, st, a, b):
        le, gt = tup(("k", "lt", "p"), ("off", "lt")), tup(("k", "gt", "p"), ("off", "gt"))
        P, N = V("hplace"), V("hsize")
        st.add_ge(P)
        st.add_ge(N - P - 1)
        segs = {"before": (("sum", gt, N),), "first": (("cell", "e0", C(1)), ("sum", gt, N)),
                "within": (("sum", le, P + 1), ("sum", gt, N)), "equal": (("sum", le, P), ("cell", "e0", P + 1), ("sum", gt, N)), "none": ()}[a]
        st.heap["e0"] = tup(("k", "kk", "p"), ("off", "kk"))
        st.heap["ix"] = ("arr", segs)
        want = {"before": None, "none": None, "first": C(0)}.get(a, P)
        st.heap["kk"] = ("k", "kk", "p")

        def check(ip, s, v):
            if want is None:
                if v != NONE:
                    yield "L02", "a block is answered although every block begins after the key"
            elif v == NONE or v[0] != "agg" or v[3][0][0] != "int" or not ip.dom.zero(s, v[3][0][1] - want):
                yield "L02", "the block answered is not the last one that does not begin after the key"
        return self.fn(SST, "floor_offset"), [ref("ix"), ref("kk")], check

    def go_get(self, st, a, b):
        case, a = a, a if a in ("gap", "below", "above") else "held"
        K = ("k", "kk", "p")
        lt, gt = ("k", "lt", "p"), ("k", "gt", "p")
        io, do = V("nio"), V("ndo")
        xp, dp = ("path", ("opaque", "table"), LIT("index.dat")), ("path", ("opaque", "table"), LIT("data.dat"))
        st.add_ge(io)
        st.add_ge(do)
        first = case in ("least", "only")
        idx = self.array(st, *([] if first else [("many", tup(lt, ("off", "earlier")))]), tup(K if case in ("opens a block", "least", "only") else lt, ("int", io)), ("many", tup(gt, ("off", "later")))) if a != "below" else self.array(st, ("many", tup(gt, ("off", "later"))))
        tmp = self.array(st, *([] if first or case == "opens a block" else [("many", tup(lt, ("off", "smaller")))]), *([tup(K, ("int", do))] if a == "held" else []), ("many", tup(gt, ("off", "greater"))))
        block = self.ip.snap(st, tmp)
        del st.heap[tmp[1]]
        self.found = self.make(VALUE, data=("val", "found"), logical_time=("int", V("nfoundt")))
        e = self.make(ENTRY, key=K, value=self.found)
        n1, n2 = V("nrecx"), V("nrecd")
        st.add_ge(n1)
        st.add_ge(n2)
        st.mem["recs"] = ((xp, io, n1, block), (dp, do, n2, e))
        if a == "held":
            st.mem["held"] = K
        s = self.make(SUMMARY, key_range=tup(*{"held": (lt, gt), "opens a block": (lt, gt), "least": (K, gt), "greatest": (lt, K), "only": (K, K), "gap": (lt, gt), "below": (gt, gt), "above": (lt, lt)}[case]), index=idx)
        st.heap["self"] = self.make(SST, path=("opaque", "table"), summary=s, filter=("filter",))
        st.heap["kk"] = K

        def check(ip, s, v):
            r = self.okv(v)
            if r is None:
                yield "E01", "an error is reported although every call succeeded"
            elif a == "held":
                if r == NONE or r[0] != "agg" or r[1] != OPTION:
                    yield "L02", "nothing is found although the table holds the key"
                elif not self.same(s, r[3][0], self.found):
                    yield "L02", "what is found is not the value of the key"
            elif r != NONE:
                yield "L02", "something is found although the table does not hold the key"
        return self.fn(SST, "get"), [ref("self"), ref("kk")], check

    def go_data_iter(self, st, a, b):
        st.heap["self"] = self.make(SST, path=("opaque", "table"), summary=("opaque", "summary"), filter=("filter",))

        def check(ip, s, v):
            if ip.path(s, self.get(v, "data_path")) != ("path", ("opaque", "table"), LIT("data.dat")):
                yield "L02", "the iteration reads another file"
            if self.get(v, "data_file") != NONE:
                yield "L02", "the iteration does not begin at the start of the file"
        return self.fn(SST, "data_iter"), [ref("self")], check

    def go_next(self, st, a, b):
        dp = ("path", ("opaque", "table"), LIT("data.dat"))
        at, n = C(0) if a == "start" else V("nplace"), V("nrecd")
        st.add_ge(at)
        st.add_ge(n)
        e = self.make(ENTRY, key=("k", "kk", "p"), value=("val", "read"))
        st.mem["recs"] = ((dp, at, n, e),)
        if a != "start":
            st.mem["pos"] = ((dp, at),)
        st.heap["self"] = self.make(DITER, data_path=dp, data_file=NONE if a == "start" else some(("file", dp)))

        def check(ip, s, v):
            if v == NONE or v[0] != "agg" or v[1] != OPTION or self.okv(v[3][0]) is None:
                yield "L02", "the iteration ends although there is a record"
                return
            if not self.same(s, v[3][0][3][0], e):
                yield "L02", "the entry answered is not the next record"
            if self.get(s.heap["self"], "data_file") != some(("file", dp)) or not ip.dom.zero(s, dict(s.mem["pos"])[dp] - at - n - 8):
                yield "L02", "the iteration does not go on behind the record read"
        return NEXT, [ref("self")], check


def table(prog):
    t = Table(prog)
    for c in t.cases():
        name = "table:" + ":".join(x for x in c if x)
        t = Table(prog)
        t.path = SST
        try:
            t.run(*c)
            yield name, t.path, t.probs, t.paths, t.ip.steps, t.unsupported
        except Unsupported as e:
            yield name, t.path, [], 0, 0, [str(e)]
        except Exception as e:
            import traceback
            yield name, t.path, [], 0, 0, ["%s: %s %s" % (type(e).__name__, e, traceback.format_exc(limit=-3))]


if __name__ == "__main__":
    import sys
    from .. import mir
    for name, path, probs, paths, steps, uns in table(mir.load(sys.argv[1])):
        if len(sys.argv) > 2 and sys.argv[2] not in name:
            continue
        print(name, "paths", paths, "steps", steps)
        for u in sorted(set(uns))[:4]:
            print("   UNSUPPORTED", u[:600])
        for p in sorted(set((x[0], x[1], x[3]) for x in probs)):
            print("   ", p)
        if len(sys.argv) > 3:
            for x in probs[:2]:
                print(x[2])
