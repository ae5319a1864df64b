"""Collections, iterators, shared handles, locks and results for the generic abstract interpreter.

A collection is ("coll", kind, items, rest): `items` are the elements the analysis follows exactly (witnesses),
`rest` says what the elements it does not follow look like (tuple of alternatives (base, ops)), () when there are none.
An iterator is ("iter", segments); a segment is ("one", value) or ("many", rest). Adapters act on the segments at once."""
import re
from .interp import (Interp, State, Unsupported, Infeasible, Bug, Outcome, OPTION, ORDERING, RESULT, UNIT, NONE, MOVED, TRUE, FALSE, VEC,
                     some, tup, integer, ordering)
from .lin import V, C
from .simple import Dom
from . import stdmodels

CF = "std::ops::ControlFlow"
TOP = ("top", "?")


def ok(v):
    return ("agg", RESULT, 0, (v,))


def err(v=("opaque", "error")):
    return ("agg", RESULT, 1, (v,))


class CDom(Dom):
    tolerant = True
    fixed = ()

    def heap_refs(self, v, out):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == "h" and isinstance(v[1], str):
                out.append(("h", v[1]))
                return
            if len(v) == 3 and v[0] == "l" and isinstance(v[1], str):
                out.append(v)
                return
            if v and v[0] in ("box", "boxraw", "arc", "mutex", "guard") and len(v) >= 2 and isinstance(v[-1], str):
                out.append(("h", v[-1]))
            for x in v:
                self.heap_refs(x, out)

    def on_drop(self, st, v):
        k = v[0]
        if k == "guard":
            st.mem["held"] = tuple(x for x in st.mem.get("held", ()) if x != v[1])
        elif k == "agg":
            for x in v[3]:
                self.on_drop(st, x)
        elif k == "closure":
            for x in v[2]:
                self.on_drop(st, x)
        elif k == "coll":
            for x in v[2]:
                self.on_drop(st, x)

    def base(self, ip, st, base):
        """an arbitrary element of kind `base`: list of (state, value)"""
        return [(st, ("opaque", base))]

    def on_max(self, st, rest, c, mx):
        """hook: a maximum or minimum was taken"""

    def classify(self, st, v, base):
        return ("opaque", "element")

    def locked(self, ip, st, name):
        """hook: a lock is about to be taken"""


class CInterp(Interp):
    def find_std(self, path, f):
        m = LIB.get(f["path"]) or LIB.get(path)
        if m:
            return m
        for pred, m in LIBP:
            if pred(path, f):
                return m
        return Interp.find_std(self, path, f)

    def call_path(self, st, path, f, args, t):
        if path not in self.models and path not in self.prog.fns:
            m = self.override.get(f["path"]) or self.override.get(path)
            if m:
                return m(self, st, args, t, f)
        return Interp.call_path(self, st, path, f, args, t)

    override = {}

    def const(self, o):
        v = Interp.const(self, o)
        if v[0] == "top" and self.prog.types[o["ty"]]["k"] == "ref":
            return ("ref", (("const", ("opaque", v[1])), ()))
        return v

    def call_value(self, st, fv, args, t, cont=None):
        v = st.strip_refs(fv)
        if v[0] == "fn" and v[1] not in self.prog.fns and cont is None and v[1] != "std::option::Option::Some":
            f = {"path": v[1]}
            m = self.find_std(v[1], f)
            if m:
                return m(self, st, list(args), t, f)
        return Interp.call_value(self, st, fv, args, t, cont)

    def discr(self, st, v):
        if v[0] in ("opaque",):
            return ("top", str(v[1]))
        return Interp.discr(self, st, v)


LIB = {}
LIBP = []


def lib(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d


def each(ip, outs, k):
    r = []
    for o in outs:
        r += k(*o)
    return r


# ------------------------------------------------------------------ results and options
R = "std::result::Result::<T, E>::"


def res(v):
    if v[0] != "agg" or v[1] != RESULT:
        raise Unsupported("result is %s" % v[0])
    return v


@lib("std::ops::Try::branch")
def branch(ip, st, args, t, f):
    v = args[0]
    if v[0] != "agg":
        raise Unsupported("? on " + v[0])
    if v[1] == RESULT:
        if v[2] == 0:
            return ip.finish(st, t, ("agg", CF, 0, (v[3][0],)))
        return ip.finish(st, t, ("agg", CF, 1, (v,)))
    if v[2] == 1:
        return ip.finish(st, t, ("agg", CF, 0, (v[3][0],)))
    return ip.finish(st, t, ("agg", CF, 1, (NONE,)))


@lib("std::ops::FromResidual::from_residual")
def from_residual(ip, st, args, t, f):
    return ip.finish(st, t, args[0])


@lib(*[R + n for n in ("map", "map_err", "and_then", "unwrap", "expect", "is_ok", "is_err", "ok", "err", "unwrap_or", "unwrap_or_else", "as_ref", "as_mut")])
def result(ip, st, args, t, f):
    n = f["path"].rsplit("::", 1)[-1]
    if n in ("is_ok", "is_err"):
        v = res(st.strip_refs(args[0]))
        return ip.finish(st, t, ("bool", (v[2] == 0) == (n == "is_ok")))
    if n in ("as_ref", "as_mut"):
        a = st.deref(args[0])
        v = res(st.read(a))
        return ip.finish(st, t, ("agg", RESULT, v[2], (("ref", (a[0], a[1] + (0,))),)))
    v = res(args[0])
    x = v[3][0]
    if n in ("unwrap", "expect"):
        return ip.finish(st, t, x) if v[2] == 0 else ip.panic(st, n + " on an error")
    if n == "ok":
        return ip.finish(st, t, some(x) if v[2] == 0 else NONE)
    if n == "err":
        return ip.finish(st, t, some(x) if v[2] == 1 else NONE)
    if n == "map":
        return ip.call_value(st, args[1], [x], t, lambda s, r: ip.finish(s, t, ok(r))) if v[2] == 0 else ip.finish(st, t, v)
    if n == "and_then":
        return ip.call_value(st, args[1], [x], t, lambda s, r: ip.finish(s, t, r)) if v[2] == 0 else ip.finish(st, t, v)
    if n == "map_err":
        return ip.finish(st, t, err() if v[2] == 1 else v)
    if n == "unwrap_or":
        return ip.finish(st, t, x if v[2] == 0 else args[1])
    raise Unsupported("Result::" + n)


def fallible(ip, st, t, v, why=""):
    """the call succeeds with v, or fails"""
    s = st.copy()
    s.note("%s fails" % (why or "the call"))
    return ip.finish(st, t, ok(v)) + ip.finish(s, t, err())


# ------------------------------------------------------------------ handles
@lib("std::sync::Arc::<T>::new", "std::rc::Rc::<T>::new")
def arc_new(ip, st, args, t, f):
    h = st.fresh("a")
    st.heap[h] = args[0]
    return ip.finish(st, t, ("arc", h))


@lib("std::cell::Cell::<T>::new")
def cell_new(ip, st, args, t, f):
    return ip.finish(st, t, ("agg", "cell", 0, (args[0],)))


@lib("std::cell::Cell::<T>::get", "std::cell::Cell::<T>::set", "std::cell::Cell::<T>::replace")
def cell_acc(ip, st, args, t, f):
    a = st.deref(args[0])
    v = st.read(a)
    n = f["path"].rsplit("::", 1)[-1]
    if v[0] != "agg" or v[1] != "cell":
        raise Unsupported("cell is " + v[0])
    if n == "get":
        return ip.finish(st, t, v[3][0])
    st.write(a, ("agg", "cell", 0, (args[1],)))
    return ip.finish(st, t, UNIT if n == "set" else v[3][0])


@lib("std::sync::Mutex::<T>::new")
def mutex_new(ip, st, args, t, f):
    h = st.fresh("m")
    st.heap[h] = args[0]
    return ip.finish(st, t, ("mutex", h))


@lib("std::sync::Mutex::<T>::lock")
def mutex_lock(ip, st, args, t, f):
    v = st.read(st.deref(args[0]))
    if v[0] != "mutex":
        raise Unsupported("lock of " + v[0])
    held = st.mem.get("held", ())
    ip.dom.locked(ip, st, v[1])
    st.mem["held"] = held + (v[1],)
    return ip.finish(st, t, ok(("guard", v[1])))


@lib("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut",
     "std::path::PathBuf::as_path", "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice", "std::borrow::Borrow::borrow")
def deref(ip, st, args, t, f):
    a = args[0]
    while True:
        if a[0] != "ref":
            return ip.finish(st, t, a)
        v = st.read(a[1])
        if v[0] != "ref":
            break
        a = v
    if v[0] in ("arc", "box", "guard"):
        return ip.finish(st, t, ("ref", (("h", v[1]), ())))
    return ip.finish(st, t, a)


@lib("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::path::Path::to_path_buf")
def clone(ip, st, args, t, f):
    v = args[0]
    n = 0
    if v[0] == "ref":
        v = st.read(v[1])
    if v[0] == "agg" and v[1] in ip.prog.adts and ip.prog.adts[v[1]].get("local"):
        c = next((p for p in ip.prog.fns if p.startswith("crate::<") and p.endswith("as std::clone::Clone>::clone") and v[1].replace("crate::", "") in p.split(" as ")[0]), None)
    return ip.finish(st, t, v)


@lib("std::convert::Into::into", "std::convert::From::from")
def conv(ip, st, args, t, f):
    v = args[0]
    if v[0] == "ref":
        x = st.strip_refs(v)
        if x[0] in ("path", "opaque", "top"):
            v = x
    return ip.finish(st, t, v)


@lib("std::sync::atomic::Atomic::<bool>::new")
def ab_new(ip, st, args, t, f):
    return ip.finish(st, t, ("agg", "abool", 0, (args[0],)))


@lib("std::iter::range::<impl std::iter::Iterator for std::ops::RangeFrom<A>>::next")
def rangefrom(ip, st, args, t, f):
    a = st.deref(args[0])
    v = st.read(a)
    if v[0] != "agg" or v[3][0][0] != "int":
        raise Unsupported("range")
    st.write(a, ("agg", v[1], v[2], (("int", v[3][0][1] + 1),)))
    return ip.finish(st, t, some(v[3][0]))


# ------------------------------------------------------------------ collections
def coll(kind, items=(), rest=()):
    return ("coll", kind, tuple(items), tuple(sorted(set(rest), key=str)) if len(rest) > 1 else tuple(rest))


def cat(st, r):
    """address and value of the collection behind a reference"""
    a = st.deref(r)
    v = st.read(a)
    while v[0] in ("ref", "arc", "box", "guard"):
        a = st.deref(v) if v[0] == "ref" else (("h", v[1]), ())
        v = st.read(a)
    return a, v


NEW = {"std::vec::Vec::<T>::new": "vec", "std::vec::Vec::<T>::with_capacity": "vec", "std::collections::BTreeMap::<K, V>::new": "map",
       "std::collections::HashSet::<T>::new": "set", "std::collections::HashSet::<T>::with_capacity": "set",
       "std::collections::VecDeque::<T>::new": "deque", "std::collections::BinaryHeap::<T>::new": "heap"}


def cnew(ip, st, args, t, f):
    return ip.finish(st, t, coll(NEW[f["path"]]))


for _n in NEW:
    LIB[_n] = cnew


def segments(ip, st, v, op):
    """iterators over the collection value: list of (state, segments); op is applied to elements that are not followed"""
    many = ("many", tuple((b, op + o) for b, o in ()))
    rest = v[3]
    if not v[2]:
        return [(st, (("many", rest),) if rest else ())]
    import itertools
    out = []
    perms = list(itertools.permutations(range(len(v[2]))))
    for p in perms:
        s = st if len(perms) == 1 else st.copy()
        seg = []
        for i in p:
            if rest:
                seg.append(("many", rest))
            seg.append(("one", i))
        if rest:
            seg.append(("many", rest))
        out.append((s, tuple(seg)))
    return out


def with_op(rest, op):
    return tuple((b, o + (op,)) for b, o in rest)


@lib("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "std::iter::IntoIterator::into_iter", "std::collections::BTreeMap::<K, V, A>::iter",
     "std::collections::BTreeMap::<K, V, A>::values", "std::collections::BTreeMap::<K, V, A>::keys", "std::collections::BTreeMap::<K, V, A>::into_values", "std::collections::VecDeque::<T, A>::iter",
     "std::collections::VecDeque::<T, A>::iter_mut", "std::collections::HashSet::<T, S, A>::iter", "std::collections::BTreeMap::<K, V, A>::values_mut")
def to_iter(ip, st, args, t, f):
    n = f["path"].rsplit("::", 1)[-1]
    v = args[0]
    if v[0] in ("iter", "agg", "opaque") or v[0] not in ("ref", "coll", "lvls"):
        return ip.finish(st, t, v)
    out = []
    if v[0] == "ref":
        a, c = cat(st, v)
        if c[0] == "iter" or c[0] == "agg" and c[1] not in ("array",):
            return ip.finish(st, t, v)
        if c[0] not in ("coll", "lvls"):
            raise Unsupported("iteration over " + c[0])

        def one(i):
            base = (a[0], a[1] + (i,))
            if c[0] == "coll" and c[1] == "map":
                k, x = ("ref", (base[0], base[1] + (0,))), ("ref", (base[0], base[1] + (1,)))
                return k if n == "keys" else x if n in ("values", "values_mut") else tup(k, x)
            return ("ref", base)

        op = ("ref",)
        if c[0] == "coll" and c[1] == "map":
            op = {"keys": ("entryref", 0), "values": ("entryref", 1), "values_mut": ("entryref", 1)}.get(n, ("entryref", None))
    else:
        c = v

        def one(i):
            x = c[2][i]
            if c[0] == "lvls":
                return x[1]
            if c[1] == "map" and n == "into_values":
                return x[3][1]
            return x

        op = ("proj", 1) if n == "into_values" else None
    if c[0] == "lvls":
        segs = ip.dom.level_segments(ip, st, c)
    else:
        segs = segments(ip, st, c, ())
    for s, sg in segs:
        r = []
        for k, x in sg:
            if k == "one":
                r.append(("one", one(x)))
            else:
                r.append(("many", with_op(x, op) if op else x))
        out += ip.finish(s, t, ("iter", tuple(r)))
    return out


def arbitrary(ip, st, rest, t, k):
    """an arbitrary element described by rest, passed to k(state, value)"""
    out = []
    for i, (base, ops) in enumerate(rest):
        s0 = st if i == len(rest) - 1 else st.copy()
        for s, v in ip.dom.base(ip, s0, base):
            out += apply(ip, s, v, ops, t, k)
    return out


def apply(ip, st, v, ops, t, k):
    if not ops:
        return k(st, v)
    op, more = ops[0], ops[1:]
    if op[0] == "ref":
        h = st.fresh("o")
        st.heap[h] = v
        return apply(ip, st, ("ref", (("h", h), ())), more, t, k)
    if op[0] == "entryref":
        h = st.fresh("o")
        st.heap[h] = v
        kx, vx = ("ref", (("h", h), (0,))), ("ref", (("h", h), (1,)))
        return apply(ip, st, tup(kx, vx) if op[1] is None else (kx, vx)[op[1]], more, t, k)
    if op[0] == "proj":
        return apply(ip, st, v[3][op[1]], more, t, k)
    if op[0] == "map":
        return ip.call_value(st, op[1], [v], t, lambda s, r: apply(ip, s, r, more, t, k))
    if op[0] == "enum":
        return apply(ip, st, tup(("int", V(st.fresh("n"))), v), more, t, k)
    if op[0] == "clone":
        return apply(ip, st, st.read(v[1]) if v[0] == "ref" else v, more, t, k)
    if op[0] == "filter":
        h = st.fresh("o")
        st.heap[h] = v

        def sel(s, r):
            return apply(ip, s, v, more, t, k) if r[0] != "bool" or r[1] else []
        return ip.call_value(st, op[1], [("ref", (("h", h), ()))], t, sel)
    if op[0] == "fmap":
        def sel2(s, r):
            return apply(ip, s, r[3][0], more, t, k) if r[0] == "agg" and r[2] == 1 else []
        return ip.call_value(st, op[1], [v], t, sel2)
    if op[0] == "flat":
        def inner(s, it):
            out = []
            for s2, it2 in as_iter(ip, s, it):
                for seg in it2[1]:
                    s3 = s2.copy()
                    if seg[0] == "one":
                        out += apply(ip, s3, seg[1], more, t, k)
                    else:
                        out += arbitrary(ip, s3, with_ops(seg[1], more), t, k)
            return out
        return ip.call_value(st, op[1], [v], t, inner)
    if op[0] == "hook":
        return apply(ip, st, ip.dom.hook(st, v), more, t, k)
    raise Unsupported("op " + op[0])


def with_ops(rest, ops):
    return tuple((b, o + ops) for b, o in rest)


def as_iter(ip, st, v):
    if v[0] == "iter":
        return [(st, v)]
    if v[0] == "coll":
        return [(s, ("iter", tuple(("one", v[2][x]) if k == "one" else (k, x) for k, x in sg))) for s, sg in segments(ip, st, v, ())]
    if v[0] == "agg" and v[1] == OPTION:
        return [(st, ("iter", (("one", v[3][0]),) if v[2] else ()))]
    if v[0] == "ref":
        a, c = cat(st, v)
        if c[0] == "coll":
            return [(s, ("iter", tuple(("one", ("ref", (a[0], a[1] + (x,)))) if k == "one" else (k, with_op(x, ("ref",))) for k, x in sg))) for s, sg in segments(ip, st, c, ())]
    raise Unsupported("iterator from " + v[0])


def it_of(st, v):
    if v[0] == "iter":
        return v
    if v[0] == "ref":
        x = st.strip_refs(v)
        if x[0] == "iter":
            return x
    raise Unsupported("adapter on " + v[0])


@lib("std::iter::Iterator::map", "std::iter::Iterator::filter", "std::iter::Iterator::flat_map", "std::iter::Iterator::filter_map", "std::iter::Iterator::enumerate",
     "std::iter::Iterator::cloned", "std::iter::Iterator::copied", "std::iter::Iterator::inspect", "std::iter::Iterator::flatten")
def adapter(ip, st, args, t, f):
    n = f["path"].rsplit("::", 1)[-1]
    if args[0][0] != "iter":
        h = st.fresh("o")
        return ip.finish(st, t, ("adapted", n, args[0], args[1] if len(args) > 1 else UNIT))
    segs = args[0][1]
    fv = args[1] if len(args) > 1 else None
    if fv is not None and fv[0] == "closure":
        # shared by all applications
        h = st.fresh("c")
        st.heap[h] = fv
        fv = ("ref", (("h", h), ()))

    def go(s, i, acc):
        if i == len(segs):
            return ip.finish(s, t, ("iter", acc))
        k, x = segs[i]
        if k == "many":
            if n == "inspect":
                return go(s, i + 1, acc + ((k, x),))
            op = {"map": ("map", fv), "filter": ("filter", fv), "flat_map": ("flat", fv), "filter_map": ("fmap", fv), "enumerate": ("enum",),
                  "cloned": ("clone",), "copied": ("clone",)}.get(n)
            if op is None:
                raise Unsupported(n)
            return go(s, i + 1, acc + ((k, with_op(x, op)),))
        if n == "map":
            return ip.call_value(s, fv, [x], t, lambda s2, r: go(s2, i + 1, acc + (("one", r),)))
        if n == "filter":
            h2 = s.fresh("o")
            s.heap[h2] = x

            def sel(s2, r):
                if r[0] == "bool":
                    return go(s2, i + 1, acc + ((("one", x),) if r[1] else ()))
                return go(s2.copy(), i + 1, acc) + go(s2, i + 1, acc + (("one", x),))
            return ip.call_value(s, fv, [("ref", (("h", h2), ()))], t, sel)
        if n == "filter_map":
            return ip.call_value(s, fv, [x], t, lambda s2, r: go(s2, i + 1, acc + ((("one", r[3][0]),) if r[2] else ())))
        if n == "flat_map":
            def fl(s2, r):
                out = []
                for s3, it in as_iter(ip, s2, r):
                    out += go(s3, i + 1, acc + it[1])
                return out
            return ip.call_value(s, fv, [x], t, fl)
        if n == "enumerate":
            return go(s, i + 1, acc + (("one", tup(("int", V(s.fresh("n"))), x)),))
        if n in ("cloned", "copied"):
            return go(s, i + 1, acc + (("one", s.read(x[1]) if x[0] == "ref" else x),))
        raise Unsupported(n)
    return go(st, 0, ())


@lib("std::iter::Iterator::chain")
def chain(ip, st, args, t, f):
    out = []
    for s, b in as_iter(ip, st, args[1]):
        out += ip.finish(s, t, ("iter", it_of(s, args[0])[1] + b[1]))
    return out


@lib("std::iter::Iterator::rev")
def rev(ip, st, args, t, f):
    return ip.finish(st, t, ("iter", tuple(reversed(it_of(st, args[0])[1]))))


def nxt(ip, st, args, t, f):
    a = st.deref(args[0])
    v = st.read(a)
    while v[0] == "ref":
        a = st.deref(v)
        v = st.read(a)
    if v[0] == "box":
        a = (("h", v[1]), ())
        v = st.read(a)
    if v[0] != "iter":
        raise Unsupported("next on " + v[0])
    segs = v[1]
    out = []
    s = st
    while True:
        if not segs:
            s.write(a, ("iter", ()))
            return out + ip.finish(s, t, NONE)
        k, x = segs[0]
        if k == "one":
            s.write(a, ("iter", segs[1:]))
            return out + ip.finish(s, t, some(x))
        s2 = s.copy()
        s2.write(a, ("iter", segs))
        out += arbitrary(ip, s2, x, t, lambda s3, r: ip.finish(s3, t, some(r)))
        segs = segs[1:]


LIB["std::iter::Iterator::next"] = nxt
LIB["std::iter::DoubleEndedIterator::next_back"] = lambda ip, st, args, t, f: (_ for _ in ()).throw(Unsupported("next_back"))


def dest_kind(ip, st, t, f):
    d = t["d"]
    if d["p"]:
        return None
    ty = ip.prog.types[st.top.fn.locals[d["l"]]["ty"]]
    return kind_of(ty)


def kind_of(ty):
    p = ty.get("path", "")
    return {"std::vec::Vec": "vec", "std::collections::HashSet": "set", "std::collections::VecDeque": "deque", "std::collections::BTreeMap": "map",
            "std::collections::BinaryHeap": "heap", "std::collections::BTreeSet": "set"}.get(p)


def drain_iter(ip, st, v, t, k):
    """collect the segments of an iterator: k(state, items, rest)"""
    items, rest = [], []
    for kd, x in v[1]:
        if kd == "one":
            items.append(x)
        else:
            for r in x:
                if r not in rest:
                    rest.append(r)
    return settle(ip, st, tuple(rest), t, lambda s, r: k(s, tuple(items), r))


def captures(v):
    return isinstance(v, tuple) and (bool(v) and v[0] == "ref" or any(captures(x) for x in v))


def settle(ip, st, rest, t, k, acc=()):
    """descriptions of elements that outlive the frames their operations refer to"""
    if not rest:
        return k(st, acc)
    base, ops = rest[0]
    ops = tuple(o for o in ops if o[0] != "filter")
    if not any(o[0] in ("map", "fmap", "flat") and captures(deep(st, o[1])) for o in ops):
        return settle(ip, st, rest[1:], t, k, acc + ((base, ops),))
    return arbitrary(ip, st, ((base, ops),), t, lambda s, v: settle(ip, s, rest[1:], t, k, acc + ((ip.dom.classify(s, v, base), ()),)))


def deep(st, v):
    if v[0] == "ref" and v[1][0][0] == "h":
        v = st.heap.get(v[1][0][1], v)
    return v[2] if v[0] == "closure" else v


@lib("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def collect(ip, st, args, t, f):
    kd = dest_kind(ip, st, t, f) or "vec"
    out = []
    for s, it in as_iter(ip, st, args[0]):
        out += drain_iter(ip, s, it, t, lambda s2, items, rest: ip.finish(s2, t, coll(kd, items, rest)))
    return out


@lib("std::iter::Iterator::partition")
def partition(ip, st, args, t, f):
    segs = it_of(st, args[0])[1]
    items = [x for k, x in segs if k == "one"]
    rest = tuple(r for k, x in segs if k == "many" for r in x)
    fv = args[1]
    h = st.fresh("c")
    st.heap[h] = fv
    fv = ("ref", (("h", h), ()))
    ty = ip.prog.types[st.top.fn.locals[t["d"]["l"]]["ty"]]
    kd = kind_of(ip.prog.types[ty["args"][0]]) if ty.get("args") else None
    kd = kd or "map"

    def go(s, i, yes, no):
        if i == len(items):
            return ip.finish(s, t, tup(coll(kd, yes, rest), coll(kd, no, rest)))
        h2 = s.fresh("o")
        s.heap[h2] = items[i]

        def sel(s2, r):
            out = []
            if r[0] != "bool" or r[1]:
                out += go(s2.copy(), i + 1, yes + (items[i],), no)
            if r[0] != "bool" or not r[1]:
                out += go(s2, i + 1, yes, no + (items[i],))
            return out
        return ip.call_value(s, fv, [("ref", (("h", h2), ()))], t, sel)
    return go(st, 0, (), ())


@lib("std::iter::Extend::extend", "std::vec::Vec::<T, A>::append", "std::vec::Vec::<T, A>::extend_from_slice")
def extend(ip, st, args, t, f):
    a, c = cat(st, args[0])
    src = args[1]
    if src[0] == "ref" and f["path"].endswith("append"):
        b, v = cat(st, src)
        st.write(b, coll(v[1]))
        src = v
    out = []
    for s, it in as_iter(ip, st, src):
        def k(s2, items, rest):
            a2, c2 = cat(s2, args[0])
            s2.write(a2, coll(c2[1], c2[2] + items, c2[3] + tuple(r for r in rest if r not in c2[3])))
            return ip.finish(s2, t, UNIT)
        out += drain_iter(ip, s, it, t, k)
    return out


@lib("std::vec::Vec::<T, A>::drain")
def drain(ip, st, args, t, f):
    a, c = cat(st, args[0])
    if c[0] != "coll":
        raise Unsupported("drain of " + c[0])
    full = args[1][0] == "agg" and args[1][1] == "std::ops::RangeFull" or args[1][0] == "top" or not (args[1][0] == "agg" and args[1][3])
    out = []
    n = len(c[2])
    for m in ([(1 << n) - 1] if full else range(1 << n)):
        s = st.copy()
        take = tuple(x for i, x in enumerate(c[2]) if m >> i & 1)
        keep = tuple(x for i, x in enumerate(c[2]) if not m >> i & 1)
        s.write(a, coll(c[1], keep, () if full else c[3]))
        for s2, sg in segments(ip, s, coll(c[1], take, c[3]), ()):
            out += ip.finish(s2, t, ("iter", tuple(("one", take[x]) if k == "one" else (k, x) for k, x in sg)))
    return out


@lib("std::iter::Iterator::all", "std::iter::Iterator::any")
def allany(ip, st, args, t, f):
    al = f["path"].endswith("all")
    segs = it_of(st, args[0])[1]
    items = [x for k, x in segs if k == "one"]
    rest = any(k == "many" for k, x in segs)
    h = st.fresh("c")
    st.heap[h] = args[1]
    fv = ("ref", (("h", h), ()))

    def go(s, i):
        if i == len(items):
            out = []
            if rest:
                out += ip.finish(s.copy(), t, ("bool", not al))
            return out + ip.finish(s, t, ("bool", al))

        def sel(s2, r):
            out = []
            if r[0] != "bool" or r[1] != al:
                out += ip.finish(s2.copy(), t, ("bool", not al))
            if r[0] != "bool" or r[1] == al:
                out += go(s2, i + 1)
            return out
        return ip.call_value(s, fv, [items[i]], t, sel)
    return go(st, 0)


@lib("std::iter::Iterator::sum", "std::iter::Iterator::count", "std::iter::Iterator::product")
def isum(ip, st, args, t, f):
    return ip.finish(st, t, ("int", V(st.fresh("n"))))


def assume_ge(st, a, b):
    """assume a >= b for integers and options of integers"""
    a, b = st.strip_refs(a), st.strip_refs(b)
    if a[0] == "int" and b[0] == "int":
        st.add_ge(a[1] - b[1])
    elif a[0] == "agg" and b[0] == "agg" and a[1] == b[1] == OPTION:
        if a[2] < b[2]:
            raise Infeasible()
        if a[2] == 1 and b[2] == 1:
            assume_ge(st, a[3][0], b[3][0])


@lib("std::iter::Iterator::max", "std::iter::Iterator::min")
def imax(ip, st, args, t, f):
    mx = f["path"].endswith("max")
    segs = it_of(st, args[0])[1]
    items = [x for k, x in segs if k == "one"]
    rest = tuple(r for k, x in segs if k == "many" for r in x)
    out = []

    def pick(s, c):
        try:
            for x in items:
                if x is not c:
                    assume_ge(s, c, x) if mx else assume_ge(s, x, c)
        except Infeasible:
            return []
        ip.dom.on_max(s, rest, c, mx)
        return ip.finish(s, t, some(c))
    for x in items:
        out += pick(st.copy(), x)
    if rest:
        out += arbitrary(ip, st.copy(), rest, t, pick)
    if not items:
        ip.dom.on_max(st, rest, None, mx)
        out += ip.finish(st, t, NONE)
    return out


@lib("std::iter::Iterator::max_by", "std::iter::Iterator::min_by", "std::iter::Iterator::max_by_key", "std::iter::Iterator::min_by_key", "std::iter::Iterator::last")
def maxby(ip, st, args, t, f):
    segs = it_of(st, args[0])[1]
    items = [x for k, x in segs if k == "one"]
    rest = tuple(r for k, x in segs if k == "many" for r in x)
    out = []
    for x in items:
        out += ip.finish(st.copy(), t, some(x))
    if rest:
        out += arbitrary(ip, st.copy(), rest, t, lambda s, v: ip.finish(s, t, some(v)))
    if not items:
        out += ip.finish(st, t, NONE)
    return out


def synth_fold(prog):
    """fold as a loop of its own, so that the loop is abstracted like any other"""
    from .mir import Fn
    if "synth::fold" in prog.fns:
        return prog.fns["synth::fold"]

    def pl(l, *p):
        return {"l": l, "p": list(p)}

    def mv(l, *p):
        return {"k": "move", "p": pl(l, *p)}

    def blk(s, t):
        return {"s": s, "t": t}
    nf = {"path": "std::iter::Iterator::next", "args": [], "local": False}
    isz = next(i for i, x in enumerate(prog.types) if x["s"] == "isize")
    blocks = [
        blk([], {"k": "goto", "t": 1}),
        blk([{"k": "assign", "p": pl(4), "r": {"k": "ref", "p": pl(1)}}],
            {"k": "call", "f": nf, "fo": {"k": "const", "ty": isz, "v": 0, "s": ""}, "args": [mv(4)], "d": pl(5), "t": 2, "u": None}),
        blk([{"k": "assign", "p": pl(6), "r": {"k": "discr", "p": pl(5)}}],
            {"k": "switch", "d": mv(6), "cases": [[0, 5], [1, 3]], "else": 4}),
        blk([{"k": "assign", "p": pl(7), "r": {"k": "use", "o": mv(5, {"k": "downcast", "v": 1, "name": "Some"}, {"k": "field", "i": 0, "name": "0"})}}],
            {"k": "call", "f": None, "fo": {"k": "copy", "p": pl(3)}, "args": [mv(2), mv(7)], "d": pl(8), "t": 6, "u": None}),
        blk([], {"k": "unreachable"}),
        blk([{"k": "assign", "p": pl(0), "r": {"k": "use", "o": mv(2)}}], {"k": "return"}),
        blk([{"k": "assign", "p": pl(2), "r": {"k": "use", "o": mv(8)}}], {"k": "goto", "t": 1}),
    ]
    d = {"path": "synth::fold", "kind": "Fn", "argc": 3, "locals": [{"ty": isz}] * 9, "blocks": blocks, "span": ""}
    fn = Fn(prog, d)
    prog.fns["synth::fold"] = fn
    return fn


@lib("std::iter::Iterator::fold")
def fold(ip, st, args, t, f):
    h = st.fresh("c")
    st.heap[h] = args[2]
    return ip.inline(st, synth_fold(ip.prog), [args[0], args[1], ("ref", (("h", h), ()))], t)


# --- access
@lib("std::vec::Vec::<T, A>::len", "std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::len", "core::slice::<impl [T]>::is_empty",
     "std::collections::BTreeMap::<K, V, A>::len", "std::collections::BTreeMap::<K, V, A>::is_empty", "std::collections::HashSet::<T, S, A>::len",
     "std::collections::HashSet::<T, S, A>::is_empty", "std::collections::VecDeque::<T, A>::len", "std::collections::VecDeque::<T, A>::is_empty")
def clen(ip, st, args, t, f):
    a, c = cat(st, args[0])
    isl = f["path"].endswith("::len")
    if c[0] in ("opaque", "top"):
        if isl:
            return ip.finish(st, t, ("int", V(st.fresh("n"))))
        s = st.copy()
        return ip.finish(st, t, TRUE) + ip.finish(s, t, FALSE)
    if c[0] == "lvls":
        if isl:
            return ip.finish(st, t, ("int", c[1]))
        return [x for s, sg in ip.decide_sign(st, c[1]) for x in ip.finish(s, t, ("bool", sg == 0))]
    if c[0] != "coll":
        raise Unsupported("length of " + c[0])
    n = len(c[2])
    if not c[3]:
        return ip.finish(st, t, integer(n) if isl else ("bool", n == 0))
    if isl:
        x = V(st.fresh("n"))
        st.add_ge(x - n)
        return ip.finish(st, t, ("int", x))
    if n:
        return ip.finish(st, t, FALSE)
    s = st.copy()
    s.write(a, coll(c[1]))
    return ip.finish(st, t, FALSE) + ip.finish(s, t, TRUE)


@lib("std::vec::Vec::<T, A>::push", "std::collections::BinaryHeap::<T, A>::push", "std::collections::VecDeque::<T, A>::push_back", "std::collections::HashSet::<T, S, A>::insert")
def cpush(ip, st, args, t, f):
    a, c = cat(st, args[0])
    if c[0] == "lvls":
        st.write(a, ("lvls", c[1] + 1, c[2] + ((c[1], args[1]),), c[3]))
        return ip.finish(st, t, UNIT)
    if c[0] in ("opaque", "top"):
        return ip.finish(st, t, UNIT)
    st.write(a, coll(c[1], c[2] + (args[1],), c[3]))
    return ip.finish(st, t, UNIT if not f["path"].endswith("insert") else TRUE)


@lib("std::vec::Vec::<T, A>::clear", "std::collections::BTreeMap::<K, V, A>::clear", "std::collections::HashSet::<T, S, A>::clear", "std::vec::Vec::<T, A>::truncate")
def cclear(ip, st, args, t, f):
    a, c = cat(st, args[0])
    if f["path"].endswith("truncate"):
        raise Unsupported("truncate")
    st.write(a, ("lvls", C(0), (), ()) if c[0] == "lvls" else coll(c[1]) if c[0] == "coll" else c)
    return ip.finish(st, t, UNIT)


@lib("std::slice::<impl [T]>::sort_by_key", "std::slice::<impl [T]>::sort_by", "std::slice::<impl [T]>::sort", "core::slice::<impl [T]>::sort_unstable_by_key",
     "core::slice::<impl [T]>::sort_unstable", "core::slice::<impl [T]>::reverse", "std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::shrink_to_fit")
def nothing(ip, st, args, t, f):
    return ip.finish(st, t, UNIT)


@lib("std::ops::Index::index", "std::ops::IndexMut::index_mut", "core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def cindex(ip, st, args, t, f):
    opt = "get" in f["path"].rsplit("::", 1)[-1]
    a, c = cat(st, args[0])
    w = some if opt else (lambda x: x)
    if c[0] == "lvls":
        out = []
        i = args[1][1]
        for s, sg in ip.decide_sign(st, i - c[1], "level index - levels"):
            if sg >= 0:
                out += ip.finish(s, t, NONE) if opt else ip.panic(s, "index out of bounds")
                continue
            for s2, k in ip.dom.locate_level(ip, s, a, i):
                out += ip.finish(s2, t, w(("ref", (a[0], a[1] + (k,)))))
        return out
    if c[0] != "coll":
        raise Unsupported("index into " + c[0])
    out = []
    if args[1][0] == "int" and args[1][1].const() is not None and not c[3]:
        k = args[1][1].const()
        if 0 <= k < len(c[2]):
            return ip.finish(st, t, w(("ref", (a[0], a[1] + (k,)))))
        return ip.finish(st, t, NONE) if opt else ip.panic(st, "index out of bounds")
    for k in range(len(c[2])):
        s = st.copy()
        out += ip.finish(s, t, w(("ref", (a[0], a[1] + (k,)))))
    if c[3]:
        def fin(s, v):
            h = s.fresh("o")
            s.heap[h] = v
            return ip.finish(s, t, w(("ref", (("h", h), ()))))
        out += arbitrary(ip, st.copy(), c[3], t, fin)
    if opt:
        out += ip.finish(st, t, NONE)
    return out


@lib("std::collections::HashSet::<T, S, A>::contains", "core::slice::<impl [T]>::contains", "std::vec::Vec::<T, A>::contains")
def contains(ip, st, args, t, f):
    a, c = cat(st, args[0])
    x = st.strip_refs(args[1])
    if c[0] != "coll":
        raise Unsupported("contains of " + c[0])
    for y in c[2]:
        if st.strip_refs(y) == x:
            return ip.finish(st, t, TRUE)
    if ip.dom.is_witness(st, x) or not c[3]:
        return ip.finish(st, t, FALSE)
    s = st.copy()
    return ip.finish(st, t, TRUE) + ip.finish(s, t, FALSE)


# --- maps with integer keys
@lib("std::collections::BTreeMap::<K, V, A>::insert")
def minsert(ip, st, args, t, f):
    a, c = cat(st, args[0])
    if c[0] != "coll":
        return ip.finish(st, t, NONE)
    st.write(a, coll(c[1], c[2] + (tup(args[1], args[2]),), c[3]))
    return ip.finish(st, t, NONE)


@lib("std::collections::BTreeMap::<K, V, A>::remove")
def mremove(ip, st, args, t, f):
    a, c = cat(st, args[0])
    k = st.strip_refs(args[1])
    if c[0] != "coll" or k[0] != "int":
        raise Unsupported("remove from " + c[0])
    out = []
    for i, e in enumerate(c[2]):
        if e[3][0] == k:
            st.write(a, coll(c[1], c[2][:i] + c[2][i + 1:], c[3]))
            return ip.finish(st, t, some(e[3][1]))
    # witnesses have keys of their own
    if c[3]:
        out += arbitrary(ip, st.copy(), c[3], t, lambda s, v: ip.finish(s, t, some(v[3][1])))
    return out + ip.finish(st, t, NONE)


# --- boxes used by vec!
@lib("std::boxed::Box::<T>::new_uninit")
def new_uninit(ip, st, args, t, f):
    h = st.fresh("x")
    st.heap[h] = MOVED
    return ip.finish(st, t, ("box", h))


@lib("std::boxed::box_assume_init_into_vec_unsafe")
def into_vec(ip, st, args, t, f):
    v = st.heap[args[0][1]]
    while v[0] == "agg" and v[1] != "array":
        v = next(x for x in v[3] if x != MOVED)
    return ip.finish(st, t, coll("vec", v[3]))


@lib("std::boxed::Box::<T>::new")
def box_new(ip, st, args, t, f):
    h = st.fresh("x")
    st.heap[h] = args[0]
    return ip.finish(st, t, ("box", h))


@lib("std::mem::drop")
def drop(ip, st, args, t, f):
    ip.dom.on_drop(st, args[0])
    return ip.finish(st, t, UNIT)


@lib("std::io::_print", "std::io::_eprint")
def pr(ip, st, args, t, f):
    return ip.finish(st, t, UNIT)
