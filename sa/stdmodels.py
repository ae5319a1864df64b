"""Models of the standard-library calls the tree code makes.
A model is m(interp, state, args, terminator, callee) -> list of successor states / Outcomes."""
from .interp import (Unsupported, Infeasible, Outcome, OPTION, ORDERING, UNIT, NONE, MOVED, TRUE, FALSE, some, tup, integer, ordering)
from .lin import Lin

MODELS = {}
PREDS = []
MODELS["__preds__"] = PREDS


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


OPT = "std::option::Option::<T>::"


def opt(*names):
    return model(*[OPT + n for n in names])


def forced(ip, st, v):
    """states with a by-value option made concrete"""
    if v[0] == "agg":
        return [(st, v)]
    if v[0] == "tree":
        hid = st.fresh("o")
        st.heap[hid] = v
        out = []
        for s in ip.force_option(st, (("h", hid), ())):
            x = s.heap.pop(hid)
            out.append((s, x))
        return out
    raise Unsupported("option value %s" % v[0])


def at(ip, st, r):
    """states in which the option behind reference r is concrete"""
    a = st.deref(r)
    v = st.read(a)
    if v[0] == "ref":
        return at(ip, st, v)
    return [(s, a, s.read(a)) for s in ip.force_option(st, a)]


@opt("is_some", "is_none")
def is_some(ip, st, args, t, f):
    neg = f["path"].endswith("is_none")
    out = []
    for s, a, v in at(ip, st, args[0]):
        out += ip.finish(s, t, ("bool", (v[2] == 1) != neg))
    return out


@opt("as_ref", "as_mut", "as_deref", "as_deref_mut")
def as_ref(ip, st, args, t, f):
    out = []
    for s, a, v in at(ip, st, args[0]):
        if v[2] == 0:
            r = NONE
        else:
            r = ("ref", (a[0], a[1] + (0,)))
            if "deref" in f["path"]:
                r = ("ref", s.deref(s.read(r[1])))
            r = some(r)
        out += ip.finish(s, t, r)
    return out


@opt("take")
def take(ip, st, args, t, f):
    a = st.deref(args[0])
    v = st.read(a)
    st.write(a, NONE)
    return ip.finish(st, t, v)


@opt("replace", "insert", "get_or_insert")
def replace(ip, st, args, t, f):
    a = st.deref(args[0])
    v = st.read(a)
    if f["path"].endswith("get_or_insert"):
        raise Unsupported("get_or_insert")
    ip.dom.on_drop(st, v) if f["path"].endswith("insert") else None
    st.write(a, some(args[1]))
    if f["path"].endswith("insert"):
        return ip.finish(st, t, ("ref", (a[0], a[1] + (0,))))
    return ip.finish(st, t, v)


@opt("expect", "unwrap", "unwrap_unchecked")
def expect(ip, st, args, t, f):
    out = []
    for s, v in forced(ip, st, args[0]):
        if v[2] == 0:
            out += ip.panic(s, "%s on None" % f["path"].rsplit("::", 1)[-1])
        else:
            out += ip.finish(s, t, v[3][0])
    return out


@opt("map", "and_then", "map_or", "map_or_else", "unwrap_or", "unwrap_or_else", "or", "or_else", "is_some_and",
     "is_none_or", "and", "ok_or", "ok_or_else", "filter", "inspect", "xor")
def combinator(ip, st, args, t, f):
    n = f["path"].rsplit("::", 1)[-1]
    out = []

    def fin(s, v):
        return ip.finish(s, t, v)

    for s, v in forced(ip, st, args[0]):
        x = v[3][0] if v[2] == 1 else None
        if n == "map":
            out += ip.call_value(s, args[1], [x], t, lambda s2, r: fin(s2, some(r))) if x is not None else fin(s, NONE)
        elif n == "and_then":
            out += ip.call_value(s, args[1], [x], t, fin) if x is not None else fin(s, NONE)
        elif n == "map_or":
            out += ip.call_value(s, args[2], [x], t, fin) if x is not None else fin(s, args[1])
        elif n == "map_or_else":
            out += ip.call_value(s, args[2], [x], t, fin) if x is not None else ip.call_value(s, args[1], [], t, fin)
        elif n == "unwrap_or":
            out += fin(s, x if x is not None else args[1])
        elif n == "unwrap_or_else":
            out += fin(s, x) if x is not None else ip.call_value(s, args[1], [], t, fin)
        elif n == "or":
            out += fin(s, v if x is not None else args[1])
        elif n == "or_else":
            out += fin(s, v) if x is not None else ip.call_value(s, args[1], [], t, fin)
        elif n == "and":
            out += fin(s, args[1] if x is not None else NONE)
        elif n == "is_some_and":
            out += ip.call_value(s, args[1], [x], t, fin) if x is not None else fin(s, FALSE)
        elif n == "is_none_or":
            out += ip.call_value(s, args[1], [x], t, fin) if x is not None else fin(s, TRUE)
        else:
            raise Unsupported("Option::" + n)
    return out


@opt("cloned", "copied")
def copied(ip, st, args, t, f):
    raise Unsupported("Option::copied")


@model("std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut", "std::convert::AsRef::as_ref", "std::ops::Deref::deref",
       "std::ops::DerefMut::deref_mut", "std::convert::Into::into", "std::convert::From::from", "std::iter::IntoIterator::into_iter")
def identity(ip, st, args, t, f):
    v = args[0]
    n = f["path"].rsplit("::", 1)[-1]
    if n in ("deref", "deref_mut", "as_ref"):
        x = st.read(st.deref(v))
        if x[0] == "box":
            return ip.finish(st, t, ("ref", (("h", x[1]), ())))
        if x[0] != "key":
            raise Unsupported(f["path"])
    if n == "into_iter":
        raise Unsupported("into_iter")
    return ip.finish(st, t, v)


def deep(st, v):
    while v[0] in ("ref", "box", "boxraw"):
        v = st.read(st.deref(v))
    return v


def compare(ip, st, args, t, f):
    n = f["path"].rsplit("::", 1)[-1]
    out = []
    deep = getattr(ip, "target", globals()["deep"])
    if n in ("lt", "le", "gt", "ge"):
        return [x for s, b in ip.decide_rel(st, n.capitalize(), deep(st, args[0]), deep(st, args[1])) for x in ip.finish(s, t, ("bool", b))]
    for s, sg in ip.cmp_values(st, deep(st, args[0]), deep(st, args[1])):
        if n == "cmp":
            r = ordering(sg)
        elif n == "partial_cmp":
            r = some(ordering(sg))
        else:
            r = ("bool", {"eq": sg == 0, "ne": sg != 0}[n])
        out += ip.finish(s, t, r)
    return out


CMP = ("cmp", "partial_cmp", "eq", "ne", "lt", "le", "gt", "ge")
PREDS.append((lambda path, f: "::cmp::" in path and path.rsplit("::", 1)[-1] in CMP, compare))
PREDS.append((lambda path, f: path.startswith("<std::cmp::Ordering as") and path.rsplit("::", 1)[-1] in CMP, compare))


@model("std::cmp::Ordering::is_lt", "std::cmp::Ordering::is_le", "std::cmp::Ordering::is_gt", "std::cmp::Ordering::is_ge",
       "std::cmp::Ordering::is_eq", "std::cmp::Ordering::is_ne", "std::cmp::Ordering::reverse", "std::cmp::Ordering::then")
def ordq(ip, st, args, t, f):
    v = args[0]
    n = f["path"].rsplit("::", 1)[-1]
    if v[0] != "agg":
        raise Unsupported("ordering")
    sg = v[2] - 1
    if n == "reverse":
        return ip.finish(st, t, ordering(-sg))
    if n == "then":
        return ip.finish(st, t, v if sg else args[1])
    r = {"is_lt": sg < 0, "is_le": sg <= 0, "is_gt": sg > 0, "is_ge": sg >= 0, "is_eq": sg == 0, "is_ne": sg != 0}[n]
    return ip.finish(st, t, ("bool", r))


@model("std::cmp::max", "std::cmp::min", "std::cmp::Ord::max", "std::cmp::Ord::min")
def maxmin(ip, st, args, t, f):
    mx = f["path"].endswith("max")
    out = []
    for s, le in ip.decide_rel(st, "Le", args[0], args[1]):
        out += ip.finish(s, t, args[1] if le == mx else args[0])
    return out


@model("std::mem::replace")
def mem_replace(ip, st, args, t, f):
    a = st.deref(args[0])
    v = st.read(a)
    st.write(a, args[1])
    return ip.finish(st, t, v)


@model("std::mem::take")
def mem_take(ip, st, args, t, f):
    a = st.deref(args[0])
    v = st.read(a)
    if v[0] == "tree" or (v[0] == "agg" and v[1] == OPTION):
        st.write(a, NONE)
    elif v[0] == "int":
        st.write(a, integer(0))
    else:
        raise Unsupported("mem::take")
    return ip.finish(st, t, v)


@model("std::mem::swap")
def mem_swap(ip, st, args, t, f):
    a, b = st.deref(args[0]), st.deref(args[1])
    va, vb = st.read(a), st.read(b)
    st.write(a, vb)
    st.write(b, va)
    return ip.finish(st, t, UNIT)


@model("std::mem::drop", "std::mem::forget")
def mem_drop(ip, st, args, t, f):
    return ip.finish(st, t, UNIT)


@model("std::boxed::Box::<T>::new")
def box_new(ip, st, args, t, f):
    hid = st.fresh("x")
    st.heap[hid] = args[0]
    return ip.finish(st, t, ("box", hid))


@model("<std::boxed::Box<T, A> as std::ops::Drop>::drop")
def box_drop(ip, st, args, t, f):
    return ip.finish(st, t, UNIT)


# ---------- Vec as a stack ----------
def vecat(st, r):
    a = st.deref(r)
    v = st.read(a)
    if v[0] == "ref":
        return vecat(st, v)
    if v[0] != "vec":
        raise Unsupported("vector is %s" % v[0])
    return a, v


@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
def vec_new(ip, st, args, t, f):
    return ip.finish(st, t, ("vec", None, None, ()))


@model("std::vec::Vec::<T, A>::push")
def vec_push(ip, st, args, t, f):
    a, v = vecat(st, args[0])
    st.write(a, ("vec", v[1], v[2], v[3] + (args[1],)))
    return ip.finish(st, t, UNIT)


@model("std::vec::Vec::<T, A>::pop")
def vec_pop(ip, st, args, t, f):
    a, v = vecat(st, args[0])
    if v[3]:
        st.write(a, ("vec", v[1], v[2], v[3][:-1]))
        return ip.finish(st, t, some(v[3][-1]))
    if v[1] is None:
        return ip.finish(st, t, NONE)
    out = []
    for s, item in ip.dom.pop_base(st, a, v):
        out += ip.finish(s, t, NONE if item is None else some(item))
    return out


@model("std::vec::Vec::<T, A>::is_empty", "std::vec::Vec::<T, A>::len")
def vec_len(ip, st, args, t, f):
    a, v = vecat(st, args[0])
    if v[1] is None:
        n = len(v[3])
        return ip.finish(st, t, integer(n) if f["path"].endswith("len") else ("bool", n == 0))
    if v[3] and f["path"].endswith("is_empty"):
        return ip.finish(st, t, FALSE)
    if f["path"].endswith("is_empty"):
        # every stack item stands for at least one entry, so the stack is empty exactly when its content is
        out = []
        for val in (True, False):
            s = st.copy()
            try:
                if val:
                    ip.dom.emp(s, v[1])
                elif s.nonempty.get(v[1]) is not True:
                    ip.dom.nonemp(s, v[1])
                out += ip.finish(s, t, ("bool", val))
            except Infeasible:
                pass
        return out
    raise Unsupported("length of opaque vector")


# ---------- panics and formatting ----------
def fmt(ip, st, args, t, f):
    return ip.finish(st, t, ("top", "fmt"))


PREDS.append((lambda path, f: path.startswith(("std::fmt::", "core::fmt::")), fmt))


def panic(ip, st, args, t, f):
    m = f["path"]
    for a in args:
        if a[0] == "ref" and a[1][0][0] == "const" and a[1][0][1][0] == "str":
            m = a[1][0][1][1]
    return ip.panic(st, "panic: " + m)


PREDS.append((lambda path, f: "panicking::" in path or path.startswith(("std::rt::begin_panic", "std::rt::panic")), panic))


@model("rand::XorShiftRng::new_unseeded")
def rng(ip, st, args, t, f):
    return ip.finish(st, t, ("opaque", "rng"))


def next_u32(ip, st, args, t, f):
    return ip.finish(st, t, ("prio", st.fresh("p")))


PREDS.append((lambda path, f: path.endswith(("::next_u32", "Rng::gen")) and "rand" in path, next_u32))
