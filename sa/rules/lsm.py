"""Log-structured merge maps: witness abstraction. One or two tables and one key are followed exactly through metadata,
snapshots, compactions and the disk; everything else is arbitrary. Collections are opaque apart from the witnesses."""
from ..interp import (Interp, State, Outcome, Unsupported, Infeasible, Bug, OPTION, RESULT, UNIT, NONE, MOVED, TRUE, FALSE, VEC, some, tup, integer)
from ..lin import V, C
from ..simple import start
from .. import colls
from ..colls import CDom, CInterp, coll, cat, ok, err, fallible

TRAIT = "crate::lsm_tree::compaction::CompactionStrategy"
SST = "crate::lsm_tree::sstable::SSTable"
BUILDER = "crate::lsm_tree::sstable::SSTableBuilder"
VALUE = "crate::lsm_tree::sstable::SSTableValue"
DITER = "crate::lsm_tree::sstable::SSTableDataIter"
KEEPS = "%s keeps a table that the finished compaction has replaced: entries that were removed come back"
ARC = ("std::sync::Arc", "std::rc::Rc")


class Layout:
    """what the representation looks like, found by type"""

    def __init__(self, prog):
        self.prog = prog
        self.strategies = []
        for im in prog.impls:
            if im.get("trait") == TRAIT:
                t = prog.types[im["self"]]
                if t["k"] == "adt" and t["path"] in prog.adts:
                    self.strategies.append((t["path"], {i.rsplit("::", 1)[1]: i for i in im["items"]}))
        self.strategies.sort()

    def fields(self, adt):
        return self.prog.adts[adt]["variants"][0]["fields"]

    def index(self, adt, name):
        for i, f in enumerate(self.fields(adt)):
            if f["name"] == name:
                return i
        raise Unsupported("%s has no field %s" % (adt, name))

    def inherent(self, adt):
        out = {}
        for im in self.prog.impls:
            t = self.prog.types[im["self"]]
            if not im.get("trait") and t["k"] == "adt" and t["path"] == adt:
                for i in im["items"]:
                    out[i.rsplit("::", 1)[1]] = i
        return out

    def merge_iters(self):
        """crate iterators that read several tables at once"""
        out = []
        for p, a in self.prog.adts.items():
            if a["kind"] != "struct" or not a.get("local"):
                continue
            if any("Vec<" in self.prog.types[f["ty"]]["s"] and "SSTableDataIter" in self.prog.types[f["ty"]]["s"] for f in a["variants"][0]["fields"]):
                out.append(p)
        return out

    def trait_fn(self, adt, trait, name):
        for im in self.prog.impls:
            t = self.prog.types[im["self"]]
            if im.get("trait") == trait and t["k"] == "adt" and t["path"] == adt:
                for i in im["items"]:
                    if i.rsplit("::", 1)[1] == name:
                        return i
        return None


def rename(v, a, b):
    if v == a:
        return b
    return tuple(rename(x, a, b) for x in v) if isinstance(v, tuple) else v


class LsmDom(CDom):
    twoway = True
    soften = True

    """scenario: witness tables by name, facts about the tables that are not followed"""

    def __init__(self, lay):
        self.lay = lay
        self.witnesses = ()
        self.md = None
        self.lock_names = {}
        self.edges = {}

    def is_witness(self, st, x):
        return x[0] == "path" and x[1] in self.witnesses

    def roots(self, st):
        r = [v for k, v in sorted(st.mem.items(), key=str) if isinstance(k, str) and k.startswith("root:")]
        return r + [("arc", w) for w in self.witnesses if w in st.heap]

    # ------------------------------------------------------------ tables
    def heap_refs(self, v, out):
        if isinstance(v, tuple) and len(v) >= 2 and v[0] in ("diter", "merge") and isinstance(v[1], str):
            out.append(("h", v[1]))
            return
        CDom.heap_refs(self, v, out)

    def contents(self, st, h):
        """the followed versions a table holds"""
        t = st.heap[h]
        x = t[3][-1]
        return x[1:] if x[0] == "names" else ()

    def versions(self, st, v):
        return sorted({x for a in self.tables(st, v) for x in self.contents(st, a[1])})

    def table(self, st, name=None, tag=None, ids=None, has=()):
        lay = self.lay
        h = name or st.fresh("a")

        def v(n):
            return V("%s_%s" % (n, name)) if name else V(st.fresh("k"))
        kl, kh, tl, th = v("kl"), v("kh"), v("tl"), v("th")
        summ = {"key_range": tup(("int", kl), ("int", kh)), "logical_time_range": tup(("int", tl), ("int", th))}
        sadt = next(lay.prog.types[f["ty"]]["path"] for f in lay.fields(SST) if f["name"] == "summary")
        fs = []
        for f in lay.fields(sadt):
            fs.append(summ.get(f["name"]) or (("top", "n") if lay.prog.types[f["ty"]]["s"] in ("usize", "u64") else ("opaque", f["name"])))
        summ = ("agg", sadt, 0, tuple(fs))
        fs = []
        for f in lay.fields(SST):
            fs.append({"path": ("path", ids or h), "summary": summ}.get(f["name"], ("opaque", f["name"])))
        fs.append(("names",) + tuple(has))
        st.heap[h] = ("agg", SST, 0, tuple(fs))
        st.add_ge(kh - kl)
        st.add_ge(th - tl)
        self.table_facts(st, tag, h, kl, kh, tl, th)
        return ("arc", h)

    def table_facts(self, st, tag, h, kl, kh, tl, th):
        if tag == "N":
            st.add_ge(V("smax") - th)

    def summ(self, st, arc):
        """(kl, kh, tl, th) of a table"""
        t = st.heap[arc[1]]
        s = t[3][self.lay.index(SST, "summary")]
        r = []
        for n in ("key_range", "logical_time_range"):
            x = s[3][self.lay.index(s[1], n)]
            r += [x[3][0][1], x[3][1][1]]
        return r

    def path_id(self, st, arc):
        return st.heap[arc[1]][3][self.lay.index(SST, "path")][1]

    def base(self, ip, st, b):
        k = b[0]
        if k == "sst":
            return [(st, self.table(st, None, b[1]))]
        if k == "entry":
            a = self.table(st, None, b[1])
            return [(st, tup(("int", self.summ(st, a)[1]), a))]
        if k == "level":
            return [(st, coll("map", (), ((("entry", b[1]), ()),)))]
        if k == "path":
            return [(st, ("path", st.fresh("p")))]
        if k == "diterof":
            return [(st, ("diter", self.table(st, None, b[1])[1]))]
        if k == "dirent":
            s = st.copy()
            s.note("reading the directory fails")
            return [(st, ok(("opaque", "dirent"))), (s, err())]
        return [(st, ("opaque", b))]

    def classify(self, st, v, base):
        while v[0] == "ref":
            v = st.read(v[1])
        tag = base[1] if len(base) > 1 else "any"
        if v[0] == "arc" and v[1] in st.heap and st.heap[v[1]][1] == SST:
            return ("sst", tag)
        if v[0] == "diter":
            return ("diterof", tag)
        if v[0] == "path":
            return ("path",)
        return ("opaque", "element")

    # ------------------------------------------------------------ levels
    def level_segments(self, ip, st, c):
        order = [(st, [])]
        for i, (x, m) in enumerate(c[2]):
            nxt = []
            for s, o in order:
                todo = [(s, 0)]
                while todo:
                    s1, p = todo.pop()
                    if p == len(o):
                        nxt.append((s1, o + [i]))
                        continue
                    for s2, sg in ip.decide_sign(s1, x - c[2][o[p]][0]):
                        if sg < 0:
                            nxt.append((s2, o[:p] + [i] + o[p:]))
                        elif sg > 0:
                            todo.append((s2, p + 1))
            order = nxt
        out = []
        for s, o in order:
            seg = []
            n = 0
            for i in o:
                if c[3]:
                    seg.append(("many", ((("level", self.level_tag(c[3], n)), ()),)))
                seg.append(("one", i))
                n += 1 if self.witness_tables(s, c[2][i][1]) else 0
            if c[3]:
                seg.append(("many", ((("level", self.level_tag(c[3], n)), ()),)))
            out.append((s, tuple(seg)))
        return out

    def level_tag(self, rest, n):
        return rest[0]

    def locate_level(self, ip, st, a, i):
        c = st.read(a)
        todo = [(st, 0)]
        out = []
        while todo:
            s, k = todo.pop()
            if k == len(c[2]):
                if c[3]:
                    m = coll("map", (), ((("entry", self.level_tag(c[3], 0)), ()),))
                    s.write(a, ("lvls", c[1], c[2] + ((i, m),), c[3]))
                    out.append((s, k))
                continue
            for s2, sg in ip.decide_sign(s, i - c[2][k][0], "level %s - %s" % (i, c[2][k][0])):
                if sg == 0:
                    out.append((s2, k))
                else:
                    todo.append((s2, k + 1))
        return out

    # ------------------------------------------------------------ membership
    def tables(self, st, v, out=None, depth=0):
        """tables a value refers to (by handle)"""
        out = [] if out is None else out
        if isinstance(v, tuple) and v:
            if v[0] == "arc" and len(v) == 2 and v[1] in st.heap and st.heap[v[1]][0] == "agg" and st.heap[v[1]][1] == SST:
                out.append(v)
            elif v[0] in ("coll", "lvls", "agg", "iter", "closure", "merge", "adapted", "box"):
                if v[0] == "box":
                    self.tables(st, st.heap.get(v[1]), out)
                for x in v[1:]:
                    self.tables(st, x, out)
            elif v[0] == "diter":
                out.append(("arc", v[1]))
            elif isinstance(v[0], tuple) or v[0] in ("one", "tuple"):
                for x in v:
                    self.tables(st, x, out)
            elif len(v) == 2 and not isinstance(v[0], str):
                for x in v:
                    self.tables(st, x, out)
        return out

    def witness_tables(self, st, v):
        return sorted({self.path_id(st, a) for a in self.tables(st, v)} & set(self.witnesses))

    def locked(self, ip, st, h):
        held = st.mem.get("held", ())
        if h in held:
            raise Bug("L04", "the lock of %s is taken while it is held: the operation waits for itself" % self.lock_names.get(h, h))
        for x in held:
            a, b = self.lock_names.get(x, x), self.lock_names.get(h, h)
            self.edges.setdefault((a, b), (ip.where(st), st.trace))

    # ------------------------------------------------------------ normalisation at loop heads
    # ------------------------------------------------------------ what replacing tables was decided on
    def on_max(self, st, rest, c, mx):
        if not any(len(b) > 1 and b[1] == "N" for b, _ in rest):
            return
        st.mem["maxseen"] = TRUE
        if c is None:
            st.mem["maxnone"] = TRUE
        elif not mx:
            while c[0] == "agg" and c[1] == OPTION and c[2]:
                c = c[3][0]
            c = st.strip_refs(c)
            if c[0] == "int":
                st.mem["mins"] = st.mem.get("mins", ("lins",)) + (c[1],)

    def keep_item(self, st, arc):
        return self.path_id(st, arc) in self.witnesses or bool(self.contents(st, arc[1]))

    thread = False

    def fold(self, st):
        if self.thread:
            self.forget(st)
        st = CDom.fold(self, st)
        if self.thread:
            self.keyfacts, self.keyof, old = [], {}, {}
            for h in sorted(st.heap):
                v = st.heap[h]
                if v[0] == "agg" and v[1] == SST:
                    old[h] = self.summ(st, ("arc", h))[1]
                    self.plain_table(st, h, v)
            self.plain_keys(st, old)
            self.generalise(st)
        return st

    def forget(self, st):
        """values that are only going to be dropped, and whose drop does nothing that is followed"""
        held = set()
        for f in st.frames:
            for v in f.locals.values():
                self.borrowed(v, held)
        for h, v in st.heap.items():
            self.borrowed(v, held)
        for f, ls in self.live(st, False):
            for l in list(f.locals):
                if l not in ls and (f.fid, l) not in held and self.inert(st, f.locals[l]):
                    f.locals[l] = ("opaque", "to be dropped")

    def borrowed(self, v, out):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == "l" and isinstance(v[1], str):
                out.add((v[1], v[2]))
            for x in v:
                self.borrowed(x, out)

    def inert(self, st, v):
        if v[0] in ("merge", "diter", "int", "opaque", "iter"):
            return True
        if v[0] == "arc":
            return v[1] in st.heap and st.heap[v[1]][1] == SST
        if v[0] == "agg":
            return v[1] in (VALUE, BUILDER) or v[1] in (OPTION, RESULT, "tuple") and all(self.inert(st, x) for x in v[3])
        return False

    def plain_table(self, st, h, v):
        """what is known of a table at a loop head: the followed versions it holds, and ranges around them"""
        has = self.contents(st, h)
        fs = list(v[3])
        i = self.lay.index(SST, "path")
        if h not in self.witnesses:
            fs[i] = ("path", "-".join(has) or "anon")
            j = self.lay.index(SST, "summary")
            sm = list(fs[j][3])
            r = []
            for n in ("key_range", "logical_time_range"):
                a, b = V(st.fresh("k")), V(st.fresh("k"))
                r.append((a, b))
                sm[self.lay.index(fs[j][1], n)] = tup(("int", a), ("int", b))
            fs[j] = ("agg", fs[j][1], 0, tuple(sm))
            if has:
                self.keyfacts.append(V("kk") - r[0][0])
                self.keyfacts.append(r[0][1] - V("kk"))
                for x in has:
                    self.keyfacts.append(V("t_" + x) - r[1][0])
                    self.keyfacts.append(r[1][1] - V("t_" + x))
            self.keyof[h] = r[0][1]
        st.heap[h] = ("agg", SST, 0, tuple(fs))

    def plain_keys(self, st, old):
        """keys are known only as the bounds of tables; a map entry keeps its table's upper bound as its key"""
        def walk(v):
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] == "agg" and v[1] == SST:
                return v
            if v[0] == "agg" and v[1] == "tuple" and len(v[3]) == 2 and v[3][0][0] == "int" and v[3][1][0] == "arc":
                h = v[3][1][1]
                if h in self.keyof and v[3][0][1] == old.get(h):
                    return tup(("int", self.keyof[h]), v[3][1])
            if v[0] == "int":
                if any(n[0] == "k" and n[1:].isdigit() for n in v[1].syms()):
                    n = V(st.fresh("k"))
                    for x in ("kk", "t_new", "t_old"):
                        if st.ge(V(x) - v[1]):
                            self.keyfacts.append(V(x) - n)
                        if st.ge(v[1] - V(x)):
                            self.keyfacts.append(n - V(x))
                    return ("int", n)
                return v
            return tuple(walk(x) for x in v)
        for f in st.frames:
            for l in sorted(f.locals):
                f.locals[l] = walk(f.locals[l])
        for h in sorted(st.heap):
            st.heap[h] = walk(st.heap[h])
        st.lin = tuple(l for l in st.lin if not any(n[0] == "k" and n[1:].isdigit() for n in l.syms()))
        for l in self.keyfacts:
            st.add_ge(l)

    def generalise(self, st):
        """give every counter at a loop head a name of its own and keep only the order between them"""
        pos = {}
        related = {n for l in st.lin for n in l.syms()}

        def plain(l):
            l = st.red(l)
            if len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1 and l.syms()[0] not in related:
                return False
            return all(n[0] in "nhbi" and n[1:].isdigit() for n in l.syms())

        def walk(v):
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] == "int":
                if plain(v[1]):
                    return ("int", name(v[1]))
                return v
            if v[0] == "agg":
                if v[1] in (SST, BUILDER):
                    return v
                return ("agg", v[1], v[2], tuple(walk(x) for x in v[3]))
            if v[0] == "lvls":
                return ("lvls", name(v[1]), tuple((name(i), m) for i, m in v[2]), v[3])
            return v

        def name(l):
            s = V(st.fresh("n"))
            pos[s] = st.red(l)
            return s
        for f in st.frames:
            for l in sorted(f.locals):
                f.locals[l] = walk(f.locals[l])
        for h in sorted(st.heap):
            if st.heap[h][0] == "agg" and st.heap[h][1] != SST:
                st.heap[h] = walk(st.heap[h])
        if not pos:
            return
        ps = sorted(pos, key=str)
        new = []
        base = [s for s in ps if pos[s].const() is not None or len(pos[s].t) == 1]
        for a in ps:
            for c in (2, 1, 0):
                if st.ge(pos[a] - c):
                    if c:
                        new.append(a - c)
                    break
            for b in ps:
                if a == b:
                    continue
                d = pos[a] - pos[b]
                for c in (2, 1, 0, -1, -2):
                    if st.ge(d - c):
                        new.append(a - b - c)
                        break
        used = {n for l in pos.values() for n in l.syms()}
        st.lin = tuple(l for l in st.lin if not used & set(l.syms()))
        for l in new:
            st.add_ge(l)

    def at_head(self, st):
        def tab(x):
            if x[0] == "arc":
                return x
            if x[0] == "agg" and x[1] == "tuple" and len(x[3]) == 2 and x[3][1][0] == "arc":
                return x[3][1]
            if x[0] == "diter":
                return ("arc", x[1])
            return None

        def norm(v):
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] == "coll":
                items, rest = [], list(v[3])
                for x in v[2]:
                    a = tab(x)
                    if a is not None and a[1] in st.heap and st.heap[a[1]][0] == "agg" and st.heap[a[1]][1] == SST and not self.keep_item(st, a):
                        alt = (("sst" if x[0] == "arc" else "diterof" if x[0] == "diter" else "entry", "any"), ())
                        if alt not in rest:
                            rest.append(alt)
                    else:
                        items.append(norm(x))
                return (v[0], v[1], tuple(items), tuple(rest))
            if v[0] == "lvls":
                known = []
                for i, m in v[2]:
                    m = norm(m)
                    if m[0] != "coll" or m[2]:
                        known.append((i, m))
                rest = v[3] or (("any",) if len(known) < len(v[2]) else ())
                return ("lvls", v[1], tuple(known), rest)
            if v[0] == "agg":
                return ("agg", v[1], v[2], tuple(norm(x) for x in v[3]))
            return v
        for h, v in list(st.heap.items()):
            st.heap[h] = norm(v)
        for f in st.frames:
            for l, v in list(f.locals.items()):
                if v[0] in ("coll", "lvls", "agg"):
                    f.locals[l] = norm(v)


# ---------------------------------------------------------------------------------------- models of the environment
class Env:
    """library models that need the layout"""

    def __init__(self, lay, dom):
        self.lay, self.dom = lay, dom

    def over(self):
        d = {}
        for n in dir(self):
            if n.startswith("m_"):
                for p in getattr(self, n).__doc__.split():
                    d[p.replace("~", " ")] = getattr(self, n)
        return d

    def m_join(self, ip, st, args, t, f):
        """std::path::Path::join"""
        b = st.strip_refs(args[0])
        n = st.strip_refs(args[1])
        return ip.finish(st, t, ("path", (b[1] if b[0] == "path" else "?"), n[1] if n[0] == "str" else "?"))

    def m_serialize(self, ip, st, args, t, f):
        """bincode::serialize"""
        v = st.strip_refs(args[0])
        if v[0] == "agg" and v[1] == self.dom.md:
            b = ("bytes", "meta", tuple(self.dom.witness_tables(st, v)))
        else:
            b = ("bytes", "data", ())
        return fallible(ip, st, t, b, "serialize")

    def m_seek(self, ip, st, args, t, f):
        """std::io::Seek::seek"""
        v = st.strip_refs(args[0])
        w = args[1]
        pos = "start" if w[0] == "agg" and w[3] and w[2] == 0 and w[3][0] == integer(0) else "?"
        s = st.copy()
        if v[0] == "file":
            st.mem["pos:" + v[1]] = ("s", pos)
        s.note("seek fails")
        return ip.finish(st, t, ok(("int", C(0)))) + ip.finish(s, t, err())

    def m_write_all(self, ip, st, args, t, f):
        """std::io::Write::write_all std::io::Write::write"""
        v = st.strip_refs(args[0])
        b = st.strip_refs(args[1])
        s = st.copy()
        s.note("write fails")
        out = ip.finish(s, t, err())
        if v[0] == "file":
            if b[0] == "bytes" and b[1] == "meta":
                if st.mem.get("pos:" + v[1]) != ("s", "start"):
                    raise Bug("L01", "metadata is written somewhere else than at the start of its file, so that reopening reads stale metadata")
                gone = st.mem.get("gone", ("names",))[1:]
                for w in b[2]:
                    if w in gone:
                        raise Bug("L01", "metadata that refers to a table is written after the table's files were deleted")
                st.mem["disk"] = ("names",) + b[2]
                st.mem["metafile"] = ("s", v[1])
            st.mem["pos:" + v[1]] = ("s", "?")
        return out + ip.finish(st, t, ok(UNIT))

    def m_write_u64(self, ip, st, args, t, f):
        """byteorder::WriteBytesExt::write_u64"""
        v = st.strip_refs(args[0])
        s = st.copy()
        s.note("write fails")
        out = ip.finish(s, t, err())
        if v[0] == "file":
            if st.mem.get("pos:" + v[1]) != ("s", "start"):
                raise Bug("L01", "the logical time is written somewhere else than at the start of its file")
            st.mem["timefile"] = ("s", v[1])
            st.mem["disktime"] = args[1]
            st.mem["endian"] = ("s", ip.prog.types[f["args"][-1]]["s"])
            st.mem["pos:" + v[1]] = ("s", "?")
        return out + ip.finish(st, t, ok(UNIT))

    def m_read_u64(self, ip, st, args, t, f):
        """byteorder::ReadBytesExt::read_u64"""
        v = st.strip_refs(args[0])
        if v[0] == "file" and st.mem.get("pos:" + v[1]) == ("s", "start"):
            st.mem["pos:" + v[1]] = ("s", "?")
            return fallible(ip, st, t, ("filetime", v[1], ip.prog.types[f["args"][-1]]["s"]), "read")
        return fallible(ip, st, t, ("int", V(st.fresh("n"))), "read")

    def m_read_to_end(self, ip, st, args, t, f):
        """std::io::Read::read_to_end"""
        v = st.strip_refs(args[0])
        a = st.deref(args[1])
        s = st.copy()
        s.note("read fails")
        out = ip.finish(s, t, err())
        if v[0] == "file" and st.mem.get("pos:" + v[1]) == ("s", "start"):
            st.write(a, ("filebytes", v[1]))
        else:
            st.write(a, ("opaque", "bytes"))
        return out + ip.finish(st, t, ok(("int", V(st.fresh("n")))))

    def m_deserialize(self, ip, st, args, t, f):
        """bincode::deserialize"""
        v = st.strip_refs(args[0])
        return fallible(ip, st, t, ("decoded", v[1]) if v[0] == "filebytes" else ("opaque", "decoded"), "deserialize")

    def m_opts(self, ip, st, args, t, f):
        """std::fs::OpenOptions::new std::fs::OpenOptions::read std::fs::OpenOptions::write std::fs::OpenOptions::create std::fs::OpenOptions::create_new"""
        n = f["path"].rsplit("::", 1)[1]
        if n == "new":
            return ip.finish(st, t, ("opaque", "options"))
        return ip.finish(st, t, args[0])

    def m_open(self, ip, st, args, t, f):
        """std::fs::OpenOptions::open std::fs::File::open std::fs::File::create"""
        p = st.strip_refs(args[-1])
        name = p[2] if p[0] == "path" and len(p) > 2 else "?"
        st.mem["pos:" + name] = ("s", "start")
        return fallible(ip, st, t, ("file", name), "open")

    def m_fs(self, ip, st, args, t, f):
        """std::fs::create_dir std::fs::create_dir_all std::fs::write std::fs::rename std::fs::remove_file std::fs::File::sync_all std::fs::File::sync_data std::io::Write::flush std::fs::File::set_len"""
        return fallible(ip, st, t, UNIT, f["path"].rsplit("::", 1)[1])

    def m_read(self, ip, st, args, t, f):
        """std::fs::read"""
        p = st.strip_refs(args[0])
        return fallible(ip, st, t, ("filebytes", p[2] if p[0] == "path" and len(p) > 2 else "?"), "read")

    def m_readdir(self, ip, st, args, t, f):
        """std::fs::read_dir"""
        seg = [("many", ((("dirent",), ()),))]
        return fallible(ip, st, t, ("iter", tuple(seg)), "read_dir")

    def m_direntpath(self, ip, st, args, t, f):
        """std::fs::DirEntry::path"""
        out = []
        gone = st.mem.get("gone", ("names",))[1:]
        for w in self.dom.witnesses:
            if w not in gone:
                s = st.copy()
                s.note("the directory entry is the table followed")
                out += ip.finish(s, t, ("path", w))
        return out + ip.finish(st, t, ("path", st.fresh("p")))

    def m_isdir(self, ip, st, args, t, f):
        """std::path::Path::is_dir std::path::Path::exists"""
        s = st.copy()
        return ip.finish(st, t, TRUE) + ip.finish(s, t, FALSE)

    def m_rmdir(self, ip, st, args, t, f):
        """std::fs::remove_dir_all std::fs::remove_dir"""
        p = st.strip_refs(args[0])
        s = st.copy()
        s.note("remove_dir_all fails")
        out = ip.finish(s, t, err())
        if p[0] == "path" and p[1] in self.dom.witnesses and len(p) == 2:
            if p[1] in st.mem.get("disk", ("names",))[1:]:
                raise Bug("L01", "the files of a table are deleted while the persisted metadata still refers to it")
            st.mem["gone"] = st.mem.get("gone", ("names",)) + (p[1],)
        elif p[0] != "path":
            raise Unsupported("directory removed is " + p[0])
        return out + ip.finish(st, t, ok(UNIT))

    def m_hashcontains(self, ip, st, args, t, f):
        """probabilistic_collections::bloom::BloomFilter::<T>::contains"""
        s = st.copy()
        return ip.finish(st, t, TRUE) + ip.finish(s, t, FALSE)

    def m_load(self, ip, st, args, t, f):
        """std::sync::atomic::Atomic::<bool>::load"""
        v = st.read(st.deref(args[0]))
        return ip.finish(st, t, v[3][0])

    def m_store(self, ip, st, args, t, f):
        """std::sync::atomic::Atomic::<bool>::store"""
        a = st.deref(args[0])
        if args[1] == TRUE and "spawned" in st.mem:
            raise Bug("L04", "the compacting flag is raised after the thread that lowers it was started: the flag can stay raised for good")
        if args[1] == FALSE:
            st.mem["cleared"] = ("next", self.next_value(st))
        st.write(a, ("agg", "abool", 0, (args[1],)))
        return ip.finish(st, t, UNIT)

    def next_value(self, st):
        h = st.mem.get("root:next")
        return st.heap.get(h[1], NONE) if h else NONE

    def m_swap(self, ip, st, args, t, f):
        """std::sync::atomic::Atomic::<bool>::swap"""
        a = st.deref(args[0])
        v = st.read(a)
        r = self.m_store(ip, st, args, t, f)
        for s in r:
            s.write(ip.addr(s, t["d"]), v[3][0])
        return r

    def m_cas(self, ip, st, args, t, f):
        """std::sync::atomic::Atomic::<bool>::compare_exchange"""
        a = st.deref(args[0])
        v = st.read(a)[3][0]
        if v != args[1]:
            return ip.finish(st, t, err(v))
        st.write(a, ("agg", "abool", 0, (args[2],)))
        return ip.finish(st, t, ok(v))

    def m_join_thread(self, ip, st, args, t, f):
        """std::thread::JoinHandle::<T>::join"""
        for h in st.mem.get("held", ()):
            if self.dom.lock_names.get(h) in self.dom.thread_locks:
                raise Bug("L04", "the compaction thread is waited for while the lock of %s is held, which the thread needs to finish" % self.dom.lock_names[h])
        out = []
        st.mem["joined"] = TRUE
        for s in self.dom.thread_ends(ip, st):
            out += ip.finish(s, t, ok(UNIT))
        return out + ip.finish(st.copy(), t, err())

    def m_spawn(self, ip, st, args, t, f):
        """std::thread::spawn"""
        c = st.strip_refs(args[0])
        self.dom.on_spawn(ip, st, c)
        st.mem["spawned"] = TRUE
        return ip.finish(st, t, ("opaque", "thread"))

    def m_float(self, ip, st, args, t, f):
        """core::num::<impl~u64>::pow std::f64::<impl~f64>::sqrt std::f64::<impl~f64>::ceil"""
        return ip.finish(st, t, ("top", "number"))

    def m_hash(self, ip, st, args, t, f):
        """bincode::serialized_size"""
        return fallible(ip, st, t, ("int", V(st.fresh("n"))), "serialized_size")


class LInterp(CInterp):
    MAXSTEPS = 400000

    def __init__(self, prog, dom, env, models=None):
        CInterp.__init__(self, prog, dom, {}, models or {})
        self.override = env.over()

    def loopheads(self, fn):
        r = self._loopheads.get(fn.path)
        if r is None:
            r = Interp.loopheads(self, fn)
            if self.dom.thread and len(fn.blocks) > 60:
                # states are merged where many paths meet, too
                n = {}
                for b in fn.reachable_blocks():
                    for x in fn.succs(b):
                        n[x] = n.get(x, 0) + 1
                r = self._loopheads[fn.path] = r | {b for b, k in n.items() if k >= 3}
        return r


# ---------------------------------------------------------------------------------------- operations of a strategy
class Ops:
    """every operation of a strategy against the metadata, the disk, the locks and a finished compaction"""

    def __init__(self, lay, adt, items):
        self.lay, self.prog, self.adt, self.items = lay, lay.prog, adt, items
        self.short = adt.rsplit("::", 1)[1]
        self.results = []
        self.role = {}
        self.edges = {}
        self.thread_locks = set()
        self.threads = []
        self.find_roles()

    def find_roles(self):
        pr = self.prog
        for i, f in enumerate(self.lay.fields(self.adt)):
            t = pr.types[f["ty"]]
            s = t["s"]
            if s == "std::path::PathBuf":
                self.role["path"] = i
            elif t["k"] == "adt" and t["path"] == OPTION and "JoinHandle" in s:
                self.role["handle"] = i
            elif "Atomic<bool>" in s:
                self.role["flag"] = i
            elif "Cell<" in s:
                self.role["count"] = i
            elif "Mutex<std::option::Option<" in s:
                self.role["next"] = i
            elif "Mutex<" in s:
                self.role["curr"] = i
                m = pr.types[pr.types[t["args"][0]]["args"][0]]
                self.md = m["path"]
            elif "HashSet<std::path::PathBuf>" in s:
                self.role["snap"] = i
            elif s == "u64":
                self.role["time"] = i
        for k in ("path", "handle", "flag", "count", "next", "curr", "time"):
            if k not in self.role:
                raise Unsupported("%s has no %s" % (self.adt, k))

    # -------- scenario values
    def metadata(self, st, dom, in_tables, in_levels, rest):
        fs = []
        for f in self.lay.fields(self.md):
            t = self.prog.types[f["ty"]]
            s = t["s"]
            if s.startswith("std::vec::Vec<std::sync::Arc<"):
                fs.append(coll("vec", [("arc", w) for w in in_tables], ((("sst", rest), ()),)))
            elif s.startswith("std::vec::Vec<std::collections::BTreeMap<"):
                n = V(st.fresh("n"))
                known = []
                for w, idx in in_levels:
                    st.add_ge(n - idx - 1)
                    known.append((idx, coll("map", [tup(("int", V("kh_" + w)), ("arc", w))], ((("entry", rest), ()),))))
                fs.append(("lvls", n, tuple(known), (rest,)))
            elif s in ("u64", "usize"):
                fs.append(("int", V(st.fresh("n"))))
            else:
                fs.append(("top", f["name"]))
        return ("agg", self.md, 0, tuple(fs))

    def has_levels(self):
        return any(self.prog.types[f["ty"]]["s"].startswith("std::vec::Vec<std::collections::BTreeMap<") for f in self.lay.fields(self.md))

    def md_at(self, st, h):
        v = st.heap[h]
        return v

    def scenarios(self, dom):
        """(name, state): the witness table tau in the current metadata / the finished compaction / its snapshot"""
        levels = self.has_levels()
        for curr in ("no", "tables") + (("levels",) if levels else ()):
            for nxt in ("none", "absent", "tables") + (("levels",) if levels else ()):
                for snap in (False, True):
                    if snap and curr == "no":
                        continue
                    if curr == "levels" and not snap and nxt != "none":
                        continue
                    if nxt in ("tables", "levels") and curr != "no" and not snap:
                        continue
                    if nxt == "tables" and curr == "levels":
                        continue
                    if nxt == "tables" and curr == "tables" and levels:
                        continue      # a leveled compaction moves every table of the snapshot into the levels
                    for flag in (False, True):
                        if flag and nxt != "none" and False:
                            continue
                        st = State()
                        dom.table(st, "tau")
                        smax = V("smax")
                        if snap or nxt in ("tables", "levels"):
                            st.add_ge(smax - V("th_tau"))
                        elif curr == "tables":
                            st.add_ge(V("tl_tau") - smax - 1)
                        md = self.metadata(st, dom, ["tau"] if curr == "tables" else [], [("tau", V("n_lnew"))] if curr == "levels" else [], "C")
                        nx = NONE
                        if nxt != "none":
                            nx = some(self.metadata(st, dom, ["tau"] if nxt == "tables" else [], [("tau", V("n_lold"))] if nxt == "levels" else [], "N"))
                        st.heap["curr"], st.heap["next"] = md, nx
                        st.heap["flag"] = ("agg", "abool", 0, (("bool", flag),))
                        st.heap["count"] = ("agg", "cell", 0, (("int", V("n_count")),))
                        for a, b in (("currlock", ("mutex", "curr")), ("nextlock", ("mutex", "next"))):
                            st.heap[a] = b
                        fs = []
                        for i, f in enumerate(self.lay.fields(self.adt)):
                            s = self.prog.types[f["ty"]]["s"]
                            r = {v: k for k, v in self.role.items()}.get(i)
                            if r == "path":
                                v = ("path", "dir")
                            elif r == "handle":
                                v = some(("opaque", "thread")) if flag or nxt != "none" or snap else NONE
                            elif r in ("flag", "count"):
                                v = ("arc", r)
                            elif r == "time":
                                v = ("int", V("n_time"))
                            elif r == "curr":
                                v = ("arc", "currlock")
                            elif r == "next":
                                v = ("arc", "nextlock")
                            elif r == "snap":
                                v = coll("set", [("path", "tau")] if snap else [], ((("path",), ()),))
                            elif s == "std::fs::File":
                                v = ("file", f["name"])
                                st.mem["pos:" + f["name"]] = ("s", "?")
                            else:
                                v = ("opaque", f["name"])
                            fs.append(v)
                        st.heap["self"] = ("agg", self.adt, 0, tuple(fs))
                        for r in ("self", "curr", "next", "flag", "count", "currlock", "nextlock"):
                            st.mem["root:" + r] = ("h", r) if r == "next" else ("ref", (("h", r), ()))
                        st.mem["disk"] = ("names",) + (("tau",) if curr != "no" else ())
                        st.mem["flag0"] = ("bool", flag)
                        name = "table %s; compaction %s%s%s" % (
                            {"no": "not in the current metadata", "tables": "in the current tables", "levels": "in a level"}[curr],
                            {"none": "not finished", "absent": "finished without it", "tables": "finished with it", "levels": "finished with it in a level"}[nxt],
                            ", which started with it" if snap else "", ", running" if flag else "")
                        st.trace = (name,)
                        dom.scen = (curr, nxt, snap, flag)
                        yield st, (curr, nxt, snap, flag)

    def dom(self):
        d = LsmDom(self.lay)
        d.witnesses = ("tau",)
        d.md = self.md
        d.lock_names = {"curr": "the current metadata", "next": "the finished compaction", }
        d.edges = self.edges
        d.thread_locks = self.thread_locks
        ops = self
        d.spawned = None

        def thread_ends(ip, st):
            return [st]

        def on_spawn(ip, st, c):
            ops.on_spawn(d, ip, st, c)
        d.thread_ends, d.on_spawn = thread_ends, on_spawn
        return d

    def on_spawn(self, d, ip, st, c):
        if c[0] != "closure":
            raise Unsupported("thread body")
        if c[1] not in [x[0] for x in self.threads]:
            self.threads.append((c[1], c[2]))
        flag = st.heap["flag"][3][0]
        if st.mem["flag0"] == TRUE:
            raise Bug("L04", "a second compaction is started while one is running")
        self.thread_locks |= {d.lock_names[st.heap[x[1]][1]] for x in c[2] if x[0] == "arc" and st.heap.get(x[1], ("",))[0] == "mutex" and st.heap[x[1]][1] in d.lock_names}
        if flag != TRUE:
            raise Bug("L04", "a compaction is started without raising the flag that keeps others from starting")
        if st.heap["next"] != NONE:
            raise Bug("L03", "a compaction is started before the finished one was taken over: it works on tables that are about to be deleted")
        snaps = [x for x in c[2] if x[0] == "agg" and x[1] == self.md]
        if len(snaps) != 1:
            raise Unsupported("snapshot given to the thread")
        now = d.witness_tables(st, st.heap["curr"])
        got = d.witness_tables(st, snaps[0])
        if now != got:
            raise Bug("L03", "the snapshot given to the compaction differs from the current metadata in a table")
        if "snap" in self.role:
            sv = st.heap["self"][3][self.role["snap"]]
            has = any(x == ("path", "tau") for x in sv[2])
            if has != ("tau" in got):
                raise Bug("L03", "the recorded snapshot names other tables than the compaction works on")
        st.mem["snapped"] = ("names",) + tuple(got)

    def env(self, d):
        return Env(self.lay, d)

    def models(self, d):
        """the parts of the strategy that do not touch metadata, disk or locks"""
        M = {}
        for p in self.lay.merge_iters():
            inh = self.lay.inherent(p)
            if "new" in inh:
                M[inh["new"]] = self.merge_new
            nx = self.lay.trait_fn(p, "std::iter::Iterator", "next")
            if nx:
                M[nx] = self.merge_next
        for n, p in self.lay.inherent(self.md).items():
            fn = self.prog.fn(p)
            if fn is not None and self.pure_choice(fn):
                M[p] = self.choose
        inh = self.lay.inherent(SST)
        if "get" in inh:
            M[inh["get"]] = lambda ip, st, args, t: fallible(ip, st, t, NONE, "get")
        if "data_iter" in inh:
            M[inh["data_iter"]] = lambda ip, st, args, t: ip.finish(st, t, ("diter", cat(st, args[0])[0][0][1]))
        return M

    def pure_choice(self, fn):
        """chooses a range of tables and changes no table list except for its order"""
        s = self.prog.types[fn.locals[0]["ty"]]["s"]
        if s != "std::option::Option<(usize, usize)>":
            return False
        for b in fn.blocks:
            t = b["t"]
            if t["k"] == "call" and t.get("f"):
                n = t["f"]["path"].rsplit("::", 1)[-1]
                if n in ("push", "remove", "drain", "clear", "truncate", "insert", "pop", "swap_remove", "split_off", "retain", "append", "extend", "replace", "take", "dedup_by_key", "swap"):
                    return False
        return True

    def choose(self, ip, st, args, t):
        s = st.copy()
        s.note("nothing to compact")
        return ip.finish(s, t, NONE) + ip.finish(st, t, some(tup(("int", V(st.fresh("n"))), ("int", V(st.fresh("n"))))))

    def merge_new(self, ip, st, args, t):
        return fallible(ip, st, t, ("opaque", "merge"), "the merge")

    def merge_next(self, ip, st, args, t):
        s, s2 = st.copy(), st.copy()
        return ip.finish(st, t, NONE) + ip.finish(s, t, some(err())) + ip.finish(s2, t, some(ok(tup(("opaque", "key"), ("opaque", "value")))))

    def run_all(self):
        for name in ("try_compact", "flush", "get", "len_hint", "iter", "clear", "get_max_in_memory_size", "get_and_increment_logical_time"):
            p = self.items.get(name)
            fn = self.prog.fn(p) if p else None
            if fn is None:
                self.results.append((name, self.adt, [("anchor", "the operation is gone", ())], 0, None))
                continue
            self.run(name, fn)
        inh = self.lay.inherent(self.adt)
        self.run_new_open(inh)

    def run(self, name, fn):
        probs, n, e = [], 0, None
        self.tally = [0, 0]
        d = self.dom()
        ip = LInterp(self.prog, d, self.env(d), self.models(d))
        ip.override["std::iter::Iterator::next"] = self.any_next
        ip.override["std::collections::BTreeMap::<K, V, A>::range"] = self.any_range
        try:
            for st, sc in self.scenarios(d):
                if name in ("get_max_in_memory_size", "get_and_increment_logical_time") and sc[1] != "none":
                    continue
                args = [("ref", (("h", "self"), ()))]
                if name == "try_compact":
                    sg = d.table(st, "sigma")
                    d.witnesses = ("tau", "sigma")
                    st.add_ge(V("tl_sigma") - V("th_tau") - 1)
                    st.add_ge(V("tl_sigma") - V("smax") - 1)
                    args.append(st.heap.pop("sigma"))
                elif name == "get":
                    args.append(("ref", (("const", ("opaque", "key")), ())))
                else:
                    d.witnesses = ("tau",)
                start(ip, fn, args, st)
                for o in ip.run(st):
                    n += 1
                    if o.kind == "bug":
                        probs.append((o.cat, o.msg, o.state.trace))
                    elif o.kind == "return":
                        for c, x in self.check(d, name, sc, o):
                            probs.append((c, x, o.state.trace))
            if self.tally[1] and not self.tally[0]:
                probs.append(("L03", KEEPS % name, ("whatever the times of the table's entries are",)))
            if ip.unsupported:
                e = ip.unsupported[0]
            elif not n:
                e = "no path returns"
        except Unsupported as x:
            e = str(x)
        self.results.append((name, fn.path, probs, n, e))

    @staticmethod
    def any_range(ip, st, args, t, f):
        """BTreeMap::range: whatever part of the map lies within the bounds"""
        a, c = cat(st, args[0])
        if c[0] != "coll":
            raise Unsupported("range of " + c[0])
        rest = colls.with_op(c[3], ("entryref", None)) if c[3] else ()
        many = (("many", rest),) if rest else ()
        out = ip.finish(st.copy(), t, ("iter", many))
        if c[2]:
            base = (a[0], a[1] + (0,))
            one = (("one", tup(("ref", (base[0], base[1] + (0,))), ("ref", (base[0], base[1] + (1,))))),)
            out += ip.finish(st, t, ("iter", many + one + many))
        return out

    @staticmethod
    def any_next(ip, st, args, t, f):
        v = st.strip_refs(args[0])
        if v[0] == "box":
            v = st.heap[v[1]]
        if v[0] == "iter":
            return colls.nxt(ip, st, args, t, f)
        if v[0] in ("opaque", "adapted"):
            s, s2 = st.copy(), st.copy()
            return ip.finish(st, t, NONE) + ip.finish(s, t, some(err())) + ip.finish(s2, t, some(ok(tup(("opaque", "key"), ("opaque", "value")))))
        raise Unsupported("next on " + v[0])

    def check(self, d, name, sc, o):
        st = o.state
        curr, nxt, snap, flag = sc
        if st.mem.get("held"):
            yield "L04", "%s returns with a lock still held" % name
        v = o.value
        failed = v[0] == "agg" and v[1] == RESULT and v[2] == 1
        now = d.witness_tables(st, st.heap["curr"])
        nx = st.heap["next"]
        later = d.witness_tables(st, nx) if nx != NONE else []
        disk = st.mem["disk"][1:]
        gone = st.mem.get("gone", ("names",))[1:]
        for w in d.witnesses:
            if w in gone and w in now:
                yield "L01", "%s leaves a table in the metadata whose files it deleted" % name
            if w in gone and w in later:
                yield "L01", "%s deletes the files of a table the finished compaction needs" % name
        if name == "clear":
            if not failed:
                if flag and "joined" not in st.mem:
                    yield "L03", "clear returns while the compaction it found running goes on: the removed entries come back"
                if now or nx != NONE:
                    yield "L03", "clear leaves tables behind: removed entries come back"
                if disk:
                    yield "L01", "clear succeeds while the persisted metadata still names a table"
            return
        if not failed:
            for w in d.witnesses:
                if (w in now) != (w in disk):
                    yield "L01", "%s succeeds while the persisted metadata %s a table that the current metadata %s" % (
                        name, "names" if w in disk else "does not name", "names" if w in now else "does not name")
                    break
            if name == "try_compact" and "sigma" not in now:
                yield "L01", "try_compact succeeds without taking the new table into the metadata"
        keep = None
        took = nxt != "none" and nx == NONE
        if nxt in ("tables", "levels") and "tau" not in now and "tau" not in later:
            yield "L03", "%s loses a table of the finished compaction" % name
        if curr != "no":
            if not snap and "tau" not in now:
                yield "L03", "%s loses a table that was added while the compaction was running" % name
            if snap and not took and "tau" not in now:
                yield "L03", "%s loses a table of the current metadata" % name
            if snap and took and nxt == "absent" and "tau" in now:
                # only a table whose every entry is newer than what the compaction kept may stay
                if self.newer(d, st):
                    self.tally[1] += 1
                elif "maxseen" in st.mem:
                    yield "L03", KEEPS % name
                else:
                    self.tally[1] += 1
            elif snap and took and nxt == "absent":
                self.tally[0] += 1
        if curr == "no" and nxt in ("none", "absent") and "tau" in now:
            yield "L03", "%s brings a table back that nothing refers to" % name
        f = st.heap["flag"][3][0]
        if "spawned" not in st.mem and f != ("bool", flag):
            yield "L04", "%s changes the compacting flag without starting a compaction" % name
        if name == "try_compact" and not failed:
            cnt = st.heap["count"][3][0]
            free = st.ge(-V("n_count"))
            if "spawned" in st.mem and not free:
                yield "L04", "a compaction is started while an iterator may still hold it off"
            if not flag and free and "spawned" not in st.mem and not st.mem.get("considered"):
                pass
        if name == "get_and_increment_logical_time" and not failed:
            r = v[3][0] if v[0] == "agg" and v[1] == RESULT else None
            now = st.heap["self"][3][self.role["time"]]
            dt = st.mem.get("disktime", ("",))
            if r is None or r[0] != "int" or now[0] != "int":
                raise Unsupported("logical time")
            if not st.ge(r[1] - V("n_time")) or not st.ge(now[1] - r[1] - 1):
                yield "L02", "a logical time is handed out twice"
            elif dt[0] != "int" or not st.ge(dt[1] - r[1] - 1):
                yield "L02", "a logical time is handed out before it is persisted that it was: after reopening it is handed out again"

    def newer(self, d, st):
        if "maxnone" in st.mem:
            return True
        syms = set()
        for c in st.lin:
            syms |= {n for n in c.syms() if not n.endswith(("_tau", "_sigma")) and n != "smax"}
        mins = st.mem.get("mins", ("lins",))[1:]
        return any(st.ge(V("tl_tau") - V(n) - 1) for n in sorted(syms) if V(n) not in mins)

    def run_new_open(self, inh):
        """new writes what open reads"""
        facts = {}
        for name in ("new", "open"):
            fn = self.prog.fn(inh.get(name))
            if fn is None:
                self.results.append((name, self.adt, [("anchor", "the operation is gone", ())], 0, None))
                continue
            probs, n, e = [], 0, None
            d = self.dom()
            d.witnesses = ()
            ip = LInterp(self.prog, d, self.env(d), self.models(d))
            st = State()
            args = []
            for i in range(fn.argc):
                s = self.prog.types[fn.locals[i + 1]["ty"]]["s"]
                args.append(("path", "dir") if i == 0 else ("int", V(st.fresh("n"))) if s in ("u64", "usize") else ("top", s))
            start(ip, fn, args, st)
            try:
                for o in ip.run(st):
                    n += 1
                    if o.kind == "bug":
                        probs.append((o.cat, o.msg, o.state.trace))
                    elif o.kind == "return" and o.value[2] == 0:
                        for c, x in self.check_new_open(name, o, facts):
                            probs.append((c, x, o.state.trace))
                if ip.unsupported:
                    e = ip.unsupported[0]
            except Unsupported as x:
                e = str(x)
            self.results.append((name, fn.path, probs, n, e))

    def file_field(self, v, name):
        for i, f in enumerate(self.lay.fields(self.adt)):
            if v[3][i] == ("file", name):
                return f["name"]
        return None

    def check_new_open(self, name, o, facts):
        st = o.state
        v = o.value[3][0]
        while v[0] == "box":
            v = st.heap[v[1]]
        t = v[3][self.role["time"]]

        def inner(i):
            x = v[3][i]
            while x[0] in ("arc", "mutex"):
                x = st.heap[x[1]]
            return x
        if name == "new":
            if "metafile" not in st.mem:
                yield "L01", "new succeeds without writing the metadata that open reads"
                return
            if "timefile" not in st.mem:
                yield "L01", "new succeeds without writing the logical time that open reads"
                return
            facts["meta"], facts["time"], facts["endian"] = st.mem["metafile"][1], st.mem["timefile"][1], st.mem["endian"][1]
            facts["metafield"], facts["timefield"] = self.file_field(v, facts["meta"]), self.file_field(v, facts["time"])
            dt = st.mem["disktime"]
            if dt[0] != "int" or t[0] != "int" or st.red(dt[1] - t[1]).const() != 0:
                yield "L01", "the logical time written by new is not the one it starts with"
        elif facts:
            m = inner(self.role["curr"])
            if m[0] != "decoded" or m[1] != facts["meta"]:
                yield "L01", "open does not take the metadata from the start of the file that new writes it to"
            if t[0] != "filetime" or t[1] != facts["time"]:
                yield "L01", "open does not take the logical time from the start of the file that new writes it to"
            elif t[2] != facts["endian"]:
                yield "L01", "open reads the logical time with another byte order than new writes it"
            if self.file_field(v, facts["meta"]) != facts["metafield"] or self.file_field(v, facts["time"]) != facts["timefield"]:
                yield "L01", "open keeps the files for metadata and logical time in other places than new"
        if inner(self.role["flag"]) != ("agg", "abool", 0, (FALSE,)):
            yield "L04", "%s starts with the compacting flag raised" % name
        c = inner(self.role["count"])
        if c != ("agg", "cell", 0, (("int", C(0)),)):
            yield "L04", "%s starts with compaction held off" % name


_WORK = [None]


def _call(k):
    return _WORK[0](k)


def parallel(f, keys):
    """independent analyses in processes of their own"""
    import multiprocessing as mp
    keys = list(keys)
    _WORK[0] = f
    with mp.get_context("fork").Pool(min(8, len(keys))) as p:
        return p.map(_call, keys, 1)


# ---------------------------------------------------------------------------------------- the compaction thread
class Thread:
    """a compaction from the snapshot to the published result; followed are the newest version of a key ("new") and an older one ("old"),
    each in a table of its own"""

    def __init__(self, ops, closure, captured):
        self.ops, self.lay, self.prog = ops, ops.lay, ops.prog
        self.closure, self.captured = closure, captured
        self.results = []

    def scenarios(self, d):
        levels = self.ops.has_levels()
        for dead in (True, False):
            for new in ("tables",) + (("levels",) if levels else ()):
                for old in ("none", "tables") + (("levels",) if levels else ()):
                    if not dead and old == "none":
                        continue
                    if new == "levels" and old == "tables":
                        continue
                    st = State()
                    names = {"new": new, "old": old}
                    tabs, lvls = [], []
                    for i, (n, where) in enumerate(sorted(names.items())):
                        if where == "none":
                            continue
                        d.table(st, n, has=(n,))
                        st.add_ge(V("kk") - V("kl_" + n))
                        st.add_ge(V("kh_" + n) - V("kk"))
                        st.add_ge(V("t_" + n) - V("tl_" + n))
                        st.add_ge(V("th_" + n) - V("t_" + n))
                        (tabs if where == "tables" else lvls).append(n)
                    if old != "none":
                        st.add_ge(V("t_new") - V("t_old") - 1)
                    if new == "levels" and old == "levels":
                        st.add_ge(V("n_lold") - V("n_lnew") - 1)
                    if levels and new == "tables" and old == "tables":
                        pass
                    md = self.ops.metadata(st, d, tabs, [(n, V("n_lnew") if n == "new" else V("n_lold")) for n in lvls], "any")
                    for n in tabs + lvls:
                        h = st.fresh("a")
                        st.heap[h] = st.heap.pop(n)
                        md = rename(md, ("arc", n), ("arc", h))
                    st.heap["next"], st.heap["flag"] = NONE, ("agg", "abool", 0, (TRUE,))
                    st.heap["nextlock"], st.heap["currlock"] = ("mutex", "next"), ("mutex", "curr")
                    st.heap["curr"] = NONE
                    st.mem["flag0"] = TRUE
                    for r in ("next", "flag", "nextlock"):
                        st.mem["root:" + r] = ("h", r) if r == "next" else ("ref", (("h", r), ()))
                    st.mem["dead"] = ("bool", dead)
                    name = "the newest version is %s in %s, %s" % ("a tombstone" if dead else "a value", {"tables": "a fresh table", "levels": "a level"}[new],
                           {"none": "there is no older one", "tables": "an older one in a fresh table", "levels": "an older one in a level below"}[old])
                    st.trace = (name,)
                    caps = []
                    for c in self.captured:
                        if c[0] == "agg" and c[1] == self.ops.md:
                            c = md
                        elif c[0] == "agg":
                            c = tup(*[("int", V(st.fresh("n"))) for _ in c[3]])
                        elif c[0] == "int":
                            c = ("int", V(st.fresh("n")))
                        caps.append(c)
                    yield st, ("closure", self.closure, tuple(caps)), (dead, new, old)

    def models(self, d):
        M = {}
        lay = self.lay
        for p in lay.merge_iters():
            inh = lay.inherent(p)
            if "new" in inh:
                M[inh["new"]] = self.merge_new
            nx = lay.trait_fn(p, "std::iter::Iterator", "next")
            if nx:
                M[nx] = self.merge_next
        inh = lay.inherent(SST)
        if "data_iter" in inh:
            M[inh["data_iter"]] = lambda ip, st, args, t: ip.finish(st, t, ("diter", cat(st, args[0])[0][0][1]))
        if "new" in inh:
            M[inh["new"]] = self.open_table
        inh = lay.inherent(BUILDER)
        M[inh["new"]] = self.builder_new
        M[inh["append"]] = self.append
        M[inh["flush"]] = self.flush
        self.d = d
        return M

    def merge_new(self, ip, st, args, t):
        h = st.fresh("g")
        vs = set()
        for a in args:
            vs |= set(self.d.versions(st, a))
            if a[0] == "agg" and a[1] == OPTION and a[2] == 1:
                raise Bug("L04", "the compaction holds off further compactions itself")
        st.heap[h] = ("names",) + tuple(sorted(vs)[:1])       # "new" sorts before "old": the newest version wins
        return fallible(ip, st, t, ("merge", h), "the merge")

    def merge_next(self, ip, st, args, t):
        v = st.strip_refs(args[0])
        if v[0] == "iter":
            return colls.nxt(ip, st, args, t, None)
        if v[0] != "merge":
            raise Unsupported("merge is " + v[0])
        left = st.heap[v[1]][1:]
        s = st.copy()
        s.note("reading an entry fails")
        out = ip.finish(s, t, some(err()))
        for x in (NONE, some(("opaque", "data"))):
            s = st.copy()
            out += ip.finish(s, t, some(ok(tup(("opaque", "key"), self.value(s, None, x)))))
        if left:
            st.heap[v[1]] = ("names",)
            out += ip.finish(st, t, some(ok(tup(("int", V("kk")), self.value(st, left[0])))))
        else:
            out += ip.finish(st, t, NONE)
        return out

    def value(self, st, which, data=None):
        fs = []
        for f in self.lay.fields(VALUE):
            if f["name"] == "logical_time":
                fs.append(("int", V("t_" + which) if which else V(st.fresh("n"))))
            elif f["name"] == "data":
                if which:
                    dead = which == "new" and st.mem["dead"] == TRUE
                    fs.append(NONE if dead else some(("opaque", "data")))
                else:
                    fs.append(data)
            else:
                fs.append(("opaque", f["name"]))
        fs.append(("names",) + ((which,) if which else ()))
        return ("agg", VALUE, 0, tuple(fs))

    def builder_new(self, ip, st, args, t):
        fs = []
        for f in self.lay.fields(BUILDER):
            s = self.prog.types[f["ty"]]["s"]
            fs.append(NONE if s.startswith("std::option::Option") else ("top", "n") if s in ("u64", "usize") else ("opaque", f["name"]))
        fs.append(("names",))
        return fallible(ip, st, t, ("agg", BUILDER, 0, tuple(fs)), "creating a table")

    def append(self, ip, st, args, t):
        a = st.deref(args[0])
        b = st.read(a)
        s = st.copy()
        s.note("appending an entry fails")
        out = ip.finish(s, t, err())
        v = st.strip_refs(args[2])
        if v[0] != "agg" or v[1] != VALUE:
            raise Unsupported("value appended is " + v[0])
        fs = []
        for f, x in zip(self.lay.fields(BUILDER), b[3]):
            sx = self.prog.types[f["ty"]]["s"]
            if sx.startswith("std::option::Option"):
                x = some(("opaque", f["name"]))
            fs.append(x)
        k = st.strip_refs(args[1])
        has = v[3][-1][1:]
        if bool(has) != (k == ("int", V("kk"))):
            raise Bug("L03", "the compaction writes a version of one key under another key")
        if has and v != self.value(st, has[0]):
            if v[3][self.lay.index(VALUE, "data")] != self.value(st, has[0])[3][self.lay.index(VALUE, "data")]:
                raise Bug("L03", "the compaction changes the data of an entry")
            if v[3][self.lay.index(VALUE, "logical_time")] != self.value(st, has[0])[3][self.lay.index(VALUE, "logical_time")]:
                raise Bug("L03", "the compaction changes the logical time of an entry")
        fs.append(("names",) + tuple(sorted(set(b[3][-1][1:]) | set(has))))
        st.write(a, ("agg", BUILDER, 0, tuple(fs)))
        return out + ip.finish(st, t, ok(UNIT))

    def flush(self, ip, st, args, t):
        v = args[0]
        b = st.read(st.deref(v)) if v[0] == "ref" else v
        if not all(x[2] for f, x in zip(self.lay.fields(BUILDER), b[3]) if x[0] == "agg" and x[1] == OPTION):
            return ip.panic(st, "flush of an empty table")
        return fallible(ip, st, t, ("path", "?", ("names",) + b[3][-1][1:]), "flushing a table")

    def open_table(self, ip, st, args, t):
        p = st.strip_refs(args[0])
        if p[0] != "path":
            raise Unsupported("table path")
        if len(p) < 3 or not isinstance(p[2], tuple):
            return fallible(ip, st, t, ("opaque", "table"), "opening a table")
        s = st.copy()
        s.note("opening a table fails")
        out = ip.finish(s, t, err())
        a = self.d.table(st, None, None, None, p[2][1:])
        if p[2][1:]:
            kl, kh, tl, th = self.d.summ(st, a)
            st.add_ge(V("kk") - kl)
            st.add_ge(kh - V("kk"))
            for x in p[2][1:]:
                st.add_ge(V("t_" + x) - tl)
                st.add_ge(th - V("t_" + x))
        return out + ip.finish(st, t, ok(st.heap[a[1]]))

    def run(self):
        d = self.ops.dom()
        n = sum(1 for _ in self.scenarios(d))
        self.results = parallel(self.one, range(n))

    def one(self, k):
        ops = self.ops
        d = ops.dom()
        d.thread = True
        d.witnesses = ()
        env = ops.env(d)
        fn = self.prog.fn(self.closure)
        st, c, sc = list(self.scenarios(d))[k]
        ip = LInterp(self.prog, d, env, self.models(d))
        ip.override["std::iter::Iterator::next"] = self.any_next
        probs, n, e = [], 0, None
        try:
            start(ip, fn, [c], st)
            for o in ip.run(st):
                n += 1
                if o.kind == "bug":
                    probs.append((o.cat, o.msg, o.state.trace))
                elif o.kind == "return":
                    for cc, x in self.check(d, sc, o):
                        probs.append((cc, x, o.state.trace))
            if ip.unsupported:
                e = ip.unsupported[0]
            elif not n:
                e = "no path returns"
        except Unsupported as x:
            e = str(x)
        return ("compaction", fn.path, probs, n, e)

    def any_next(self, ip, st, args, t, f):
        v = st.strip_refs(args[0])
        if v[0] == "merge":
            return self.merge_next(ip, st, args, t)
        if v[0] == "agg" and v[1] == "std::ops::RangeFrom":
            return colls.rangefrom(ip, st, args, t, f)
        return Ops.any_next(ip, st, args, t, f)

    def check(self, d, sc, o):
        st = o.state
        dead, new, old = sc
        if st.heap["flag"][3][0] != FALSE:
            yield "L04", "the compaction thread ends with the compacting flag still raised"
        if st.mem.get("held"):
            yield "L04", "the compaction thread ends with a lock still held"
        nx = st.heap["next"]
        if "cleared" in st.mem and st.mem["cleared"] != ("next", nx):
            yield "L04", "the compaction publishes its result after it has lowered the compacting flag: the next compaction may start from the replaced tables"
        if nx == NONE:
            return
        md = nx[3][0]
        got = d.versions(st, md)
        if "new" not in got:
            if not dead:
                yield "L03", "a compaction loses the newest version of a key"
            elif "old" in got:
                yield "L03", "a compaction discards a tombstone while an older version of its key stays: the removed key comes back"
            return
        if "old" in got and self.ops.has_levels():
            pn, po = self.places(d, st, md, "new"), self.places(d, st, md, "old")
            for a in pn:
                for b in po:
                    if a == b:
                        continue
                    if a is None:
                        continue
                    if b is None:
                        yield "L03", "a compaction moves the newest version of a key below an older one, which reads find first"
                        return
                    if not st.ge(b - a - 1):
                        yield "L03", "a compaction leaves an older version of a key in the same level as the newest or above it, where reads may find it first"
                        return

    def places(self, d, st, md, which):
        out = []
        for x in md[3]:
            if x[0] == "coll" and which in d.versions(st, x):
                out.append(None)
            elif x[0] == "lvls":
                out += [i for i, m in x[2] if which in d.versions(st, m)]
        return out


if __name__ == "__main__":
    import sys
    from .. import mir
    p = mir.load(sys.argv[1])
    lay = Layout(p)
    for adt, items in lay.strategies:
        a = Ops(lay, adt, items)
        a.run_all()
        for r in a.results:
            print(a.short, r[0], "paths", r[3], "err", r[4])
            seen = set()
            for x in r[2]:
                if x[1] not in seen:
                    seen.add(x[1])
                    print("   ", x[0], x[1], "|", "; ".join(x[2]))
        print(a.edges.keys(), a.threads)
        for c, cap in a.threads:
            th = Thread(a, c, cap)
            th.run()
            for r in th.results:
                print(a.short, r[0], "paths", r[3], "err", r[4])
                seen = set()
                for x in r[2]:
                    if x[1] not in seen:
                        seen.add(x[1])
                        print("   ", x[0], x[1], "|", "; ".join(x[2]))
